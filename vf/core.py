"""Frame of every check: budget, seeds, evidence, violations, isolated execution of the code under test."""
import json, os, pickle, random, select, signal, sys, tempfile, time, traceback
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d) for d in ("tools", "harness")]
from . import tlc
from .tlc import ToolError
import fbuild, hx

VERIF = tlc.VERIF
SETS = ["128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]
FSETS = [s for s in SETS if s.endswith("f")]

class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}/{self.tier}")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known = self._known()
        self.known_hit = set()
    def _known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        for line in open(p) if os.path.exists(p) else ():
            if line.startswith(f"known: property={self.pid} "):
                out.append(line.split("key=", 1)[1].split()[0])
        return out
    def q(self, quick, thorough):
        return thorough if self.thorough else quick
    def rb(self, n):
        return self.rng.randbytes(n)
    # ---- evidence
    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v
    def tick(self, what):
        self.cov.setdefault("phases", []).append(f"{what}: done at {time.time() - self.t0:.0f} s")
    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)
    # ---- verdicts
    def violation(self, what, replay=None, key=None):
        if key and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print(f"KNOWN-FINDING: property={self.pid} {what}")
            return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations) + 1}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "tier": self.tier, "seed": self.seed, "case": replay}, f, indent=1, default=repr)
        self.violations.append(what)
        print(f"{self.pid}: {what}"[:1500])
        print(f"VIOLATION property={self.pid} replay={p}", flush=True)
    def model(self, module, cfg=None, **kw):
        t = time.time()
        r = tlc.check_model(module, cfg, **kw)
        self.add(states=r.distinct, transitions=max(0, r.generated - 1))
        self.cov.setdefault("models", []).append(f"{module}/{cfg or module + '.cfg'}: {r.distinct} distinct states, {r.generated} generated, {time.time() - t:.1f} s")
        return r
    def refuted(self, module, cfg, **kw):
        """A variant of the model in which the property has to fail: else the model would show nothing."""
        r = tlc.run(module, cfg, **kw)
        if r.completed or not r.violated:
            raise ToolError(f"model {module} ({cfg}) should be refuted:\n" + r.out[-2000:])
        self.cov.setdefault("models", []).append(f"{module}/{cfg}: refuted ({r.violated}), as it has to be")
    def validate(self, module, events, describe=None, key=None, **kw):
        """Independent events against a trace specification."""
        if not events:
            return
        bad, st = tlc.validate(module, events, **kw)
        self.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["accepted"])
        for tr, pos, printed in bad:
            e = tr[pos]
            d = describe(e) if describe else brief(e)
            self.violation(f"{module} rejects the recorded call: {d} {' '.join(printed)[:300]}", {"module": module, "events": [e]}, key=key(e) if key else None)
    def validate_traces(self, module, traces, describe=None, key=None, **kw):
        traces = [t for t in traces if t]
        if not traces:
            return
        bad, st = tlc.validate(module, traces, per_event=False, **kw)
        self.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(traces) - len(bad))
        for tr, pos, printed in bad:
            d = describe(tr[pos]) if describe else brief(tr[pos])
            self.violation(f"{module} rejects step {pos + 1} of {len(tr)} of a recorded history: {d} {' '.join(printed)[:300]}", {"module": module, "events": tr}, key=key(tr[pos]) if key else None)
    def finish(self):
        self.cov["samples"] = self.cov["samples"] or ["see counts"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {len(self.violations)} violation(s), {self.cov['states']} states, "
              f"{self.cov['traces_validated_against_impl']} traces/calls validated, {ev['wall_s']} s")
        return 1 if self.violations else 0

def brief(e, n=40):
    def short(v):
        t = v if isinstance(v, str) else repr(v)
        return f"{t[:n]}..({len(v) if isinstance(v, (str, list)) else len(t)})" if len(t) > n + 8 else t
    return "{" + ", ".join(f"{k}={short(v)}" for k, v in e.items()) + "}"

# ---- running the code under test in a child process
class Died(Exception):
    def __init__(self, why, last):
        self.why, self.last = why, last

def isolated(fn, *args, timeout=300):
    """Run fn(emit, *args) in a forked child.  emit(obj) records; emit.now(obj) notes what is about to be done.
    Returns (records, death): death is None or a description (signal, hang, abort)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            out = os.fdopen(w, "wb")
            def emit(o):
                pickle.dump(("r", o), out)
            def now(o):
                pickle.dump(("n", o), out); out.flush()
            emit.now = now
            fn(emit, *args)
            pickle.dump(("d", None), out)
            out.flush()
            code = 0
        except BaseException:
            try:
                pickle.dump(("e", traceback.format_exc()), out)
                out.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf, deadline, hung = bytearray(), time.time() + timeout, False
    while True:
        left = deadline - time.time()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], min(left, 5))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    recs, last, done, err = [], None, False, None
    import io
    f = io.BytesIO(bytes(buf))
    while True:
        try:
            k, o = pickle.load(f)
        except Exception:
            break
        if k == "r":
            recs.append(o)
        elif k == "n":
            last = o
        elif k == "d":
            done = True
        else:
            err = o
    if err:
        raise ToolError("driver failed:\n" + err)
    if hung:
        return recs, f"no result within {timeout} s in {last}"
    if not done:
        how = f"signal {os.WTERMSIG(st)} ({signal.Signals(os.WTERMSIG(st)).name})" if os.WIFSIGNALED(st) else f"exit status {os.WEXITSTATUS(st)}"
        return recs, f"{how} in {last}"
    return recs, None

def drive(ck, fn, *args, timeout=300, what="the calls"):
    """isolated(), with a death (confirmed by a second run) reported as violation."""
    recs, death = isolated(fn, *args, timeout=timeout)
    if death:
        recs2, death2 = isolated(fn, *args, timeout=timeout)
        if death2:
            ck.violation(f"the implementation died during {what}: {death2}"[:1000], {"death": death2})
        return recs2
    return recs

def parallel(ck, jobs, timeout=300, workers=8):
    """jobs: list of (fn, args, what); each isolated, run concurrently; list of record lists."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        fs = [ex.submit(drive, ck, fn, *args, timeout=timeout, what=what) for fn, args, what in jobs]
        return [f.result() for f in fs]

def lib(config="default", shims=("shim_api.c",), **kw):
    return fbuild.build(config, shims=tuple(shims), **kw)

def load(path):
    return hx.Lib(path)
