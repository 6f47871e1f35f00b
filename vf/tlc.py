"""Running TLC: model checking of the design specifications and validation of recorded traces."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, tempfile, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = os.environ.get("TLA_JARS", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")

class ToolError(Exception):
    """The machinery itself failed (not the code under test)."""

def ensure_java():
    out = os.path.join(BUILD, "java")
    src = os.path.join(VERIF, "java", "Prim.java")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(BUILD, ".javalock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cls = os.path.join(out, "Prim.class")
        if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", out, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise ToolError("javac failed:\n" + r.stdout)
    return out

class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        self.consumed, self.total = (int(m[1]), int(m[2])) if m else (None, None)
        self.completed = "Model checking completed. No error has been found." in out
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|property (\S+) is violated", out)
        self.violated = next((x for x in m.groups() if x), "temporal") if m else None
        self.printed = [x for x in out.splitlines() if x.startswith("<<") or x.startswith('"')]

def run(module, cfg=None, env=None, workers=1, heap="2g", timeout=600, extra=(), native=True):
    ensure_java()
    meta = tempfile.mkdtemp(prefix="tlc")
    cp = TLA + (":" + os.path.join(BUILD, "java") if native else "")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", "-cp", cp, "tlc2.TLC", "-metadir", meta, "-nowarning",
           "-workers", str(workers), "-config", cfg or module + ".cfg", "-noGenerateSpecTE", *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return Result(r.returncode, r.stdout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        raise ToolError(f"TLC timed out after {timeout} s on {module}: " + (out if isinstance(out, str) else out.decode(errors="replace"))[-400:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def check_model(module, cfg=None, **kw):
    """Exhaustive check of a design model; raises unless TLC completed without error."""
    r = run(module, cfg, **kw)
    if not r.completed or r.rc:
        raise ToolError(f"model {module} ({cfg}) does not hold (rc {r.rc}):\n" + r.out[-3000:])
    return r

def _validate(module, cfg, events, env, heap, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    try:
        return run(module, cfg, env=dict(env or {}, TRACE=f.name), heap=heap, timeout=timeout)
    finally:
        os.unlink(f.name)

def validate(module, events, shards=8, cfg=None, env=None, heap="2g", timeout=600, weight=None, per_event=True):
    """Check recorded events against a trace specification.

    per_event: events are independent and may be spread over several TLC processes; otherwise `events' is a
    list of traces (each a list of events).  Returns (rejected, stats); rejected is a list of
    (trace, position) confirmed by a second TLC run."""
    ensure_java()
    if per_event:
        k = max(1, min(shards, len(events)))
        w = weight or (lambda e: 1)
        bins = [[0, []] for _ in range(k)]
        for e in sorted(events, key=w, reverse=True):
            b = min(bins, key=lambda x: x[0])
            b[0] += w(e)
            b[1].append(e)
        traces = [b[1] for b in bins if b[1]]
    else:
        traces = events
    rejected, stats = [], dict(states=0, transitions=0, accepted=0)
    def one(tr):
        bad, st, rest = [], [0, 0, 0], list(tr)
        while rest:
            r = _validate(module, cfg, rest, env, heap, timeout)
            st[0] += r.distinct
            st[1] += max(0, r.generated - 1)
            if r.consumed is None:
                raise ToolError(f"TLC failed on {module} (rc {r.rc}):\n" + r.out[-3000:])
            st[2] += r.consumed
            if r.consumed == r.total:
                break
            pos = r.consumed
            again = _validate(module, cfg, [rest[pos]] if per_event else rest, env, heap, timeout)
            if again.consumed is None or again.consumed == again.total:
                raise ToolError(f"TLC rejection not reproduced on {module}:\n" + again.out[-2000:])
            bad.append((tr, tr.index(rest[pos]) if per_event else pos, [x for x in r.printed if "CONSUMED" not in x]))
            if not per_event or len(bad) >= 3:
                break
            rest = rest[pos + 1:]
        return bad, st
    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        for bad, st in ex.map(one, traces):
            rejected += bad
            for k, v in zip(("states", "transitions", "accepted"), st):
                stats[k] += v
    return rejected, stats

def generate(module, jobs, shards=8, weight=None, env=None, timeout=300, heap="2g"):
    """Run a generator specification on jobs; list of (job, result), in no particular order, and (states, transitions)."""
    ensure_java()
    w = weight or (lambda e: 1)
    bins = [[0, []] for _ in range(max(1, min(shards, len(jobs))))]
    for e in sorted(jobs, key=w, reverse=True):
        b = min(bins, key=lambda x: x[0])
        b[0] += w(e)
        b[1].append(e)
    def one(js):
        out = tempfile.mktemp(suffix=".ndjson")
        try:
            r = _validate(module, None, js, dict(env or {}, OUT=out), heap, timeout)
            if r.consumed is None or r.consumed != r.total:
                raise ToolError(f"generator {module} failed:\n" + r.out[-2000:])
            res = [json.loads(x) for x in open(out)]
            return [(js[x["i"] - 1], x) for x in res], r
        finally:
            if os.path.exists(out):
                os.unlink(out)
    res, st = [], [0, 0]
    with cf.ThreadPoolExecutor(max_workers=shards) as ex:
        for a, r in ex.map(one, [b[1] for b in bins if b[1]]):
            res += a
            st[0] += r.distinct
            st[1] += max(0, r.generated - 1)
    return res, st
