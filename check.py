#!/usr/bin/env python3
"""check.py <property id>: run the check of one property.  check.py --replay FILE: validate a recorded case again."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, tlc

def main():
    if sys.argv[1] == "--setup":
        tlc.ensure_java()
        return 0
    if sys.argv[1] == "--replay":
        c = json.load(open(sys.argv[2]))
        case = c.get("case") or {}
        print(c["what"])
        if "module" in case:
            bad, _ = tlc.validate(case["module"], [case["events"]], per_event=False)
            print("rejected again at line %d" % (bad[0][1] + 1) if bad else "accepted")
            return 1 if bad else 0
        return 0
    pid = sys.argv[1].upper()
    mod = importlib.import_module("vf.checks." + pid.lower())
    ck = core.Check(pid, mod.LEVEL)
    try:
        mod.run(ck)
    except (core.ToolError, core.fbuild.BuildError) as e:
        print(f"{pid}: tool error: {e}", file=sys.stderr)
        if ck.violations:
            ck.finish()
            return 1
        return 2
    except Exception:
        traceback.print_exc()
        if ck.violations:
            ck.finish()
            return 1
        return 2
    return ck.finish()

if __name__ == "__main__":
    sys.exit(main())
