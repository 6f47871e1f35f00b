"""C19: schedules generated from MCConc are carried out by threads that are suspended at chosen program points of real calls; what calls touch besides
their own memory is recorded; threads also run freely.  Everything recorded has to be a behaviour of Conc (TraceConc)."""
import ctypes as C, mmap, os, random, re, time
from .. import api, comp, core, tlc
from ..core import SETS, FSETS, ToolError
LEVEL = "model_checking"
WRAP = ("memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "getrandom",
        "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once")
FL = ("-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-ftls-model=initial-exec")
END = 2**64 - 1
WHERE = {1: "data of the library", 2: "an input of the call", 3: "memory of another call", 4: "memory that is not the call's"}
OPS = ("keygen", "sign", "signr", "verify", "reject", "validate", "mismatch", "cs_keypair", "cs_sign", "cs_open", "cs_reject", "clear")

class Job(C.Structure):
    _fields_ = [("fn", C.c_uint64), ("a", C.c_uint64 * 8), ("own", C.c_uint64)] + [(x, C.c_uint64) for x in ("olen", "seed", "initat", "init", "isvoid")]
class Res(C.Structure):
    _fields_ = [(x, C.c_uint64) for x in ("rc", "hash", "t", "job", "start", "end")]
class Acc(C.Structure):
    _fields_ = [(x, C.c_uint64) for x in ("pc", "where", "what", "sync", "addr", "size")]
class Pt(C.Structure):
    _fields_ = [(x, C.c_uint64) for x in ("pc", "first", "last", "n")]

def build(cfg, stepped):
    return core.lib(cfg, (), raw_shims=("shim_conc.c",), tag="conc" if stepped else "free", lib_cflags=FL if stepped else (), randomness=True,
                    ldflags=tuple("-Wl,--wrap=" + w for w in WRAP), opt="-O2" if stepped else None)

class Conc:
    def __init__(self, path):
        self.c = C.CDLL(path, mode=os.RTLD_NOW)
        self.path = path
        n = 4 << 20
        self.base = api.libc.mmap(None, n, 3, 0x22, -1, 0)
        self.n, self.at = n, 0
        if not self.c.cc_init(C.c_void_p(self.base), C.c_size_t(n)):
            raise ToolError("no memory")
        self.c.cc_events.restype = C.c_uint64
        self.c.cc_points.restype = C.POINTER(Pt)
        self.c.cc_out.restype = C.c_void_p
        self.where = {}
    def put(self, b):
        """A shared read-only input; equal inputs are one."""
        b = bytes(b)
        if b not in self.where:
            self.where[b] = self.base + self.at
            C.memmove(self.base + self.at, b, len(b))
            self.at += (len(b) + 63) // 64 * 64 + 64
            if self.at > self.n:
                raise ToolError("inputs too large")
        return self.where[b]
    def lock(self):
        api.libc.mprotect(self.base, self.n, 1)
    def fn(self, s, name):
        return C.cast(getattr(self.c, f"cs_{name[3:]}_{s}" if name.startswith("cs_") else f"faest_{s}_{name}"), C.c_void_p).value
    def job(self, s, name, args, olen, seed=0, init=None, isvoid=False):
        """args: values, or ("o", offset) in the caller's output area."""
        j = Job(fn=self.fn(s, name), olen=olen, seed=seed, initat=END if init is None else init[0], init=0 if init is None else init[1], isvoid=isvoid)
        for i, x in enumerate(args):
            if isinstance(x, tuple):
                j.own |= 1 << i
                x = x[1]
            j.a[i] = x or 0
        return j
    def steps(self, jobs, who=(), at=(), foot=0, prof=0):
        n, k = len(jobs), len(who)
        res, ran = (Res * n)(), (C.c_uint8 * max(1, k))()
        rc = self.c.cc_steps((Job * n)(*jobs), n, (C.c_int * max(1, k))(*who), (C.c_uint64 * max(1, k))(*at), k, foot, prof, res, ran)
        if rc == -2:
            raise RuntimeError("the calls do not finish")
        if rc:
            raise ToolError("threads")
        return [f"{C.c_int64(r.rc).value}:{r.hash:016x}" for r in res], list(ran[:k])
    def free(self, jobs, pick, nth, per):
        res = (Res * (nth * per))()
        if self.c.cc_free((Job * len(jobs))(*jobs), (C.c_int * (nth * per))(*pick), nth, per, res):
            raise ToolError("threads")
        return res
    def out(self, n, t=0):
        return C.string_at(self.c.cc_out(t), n)
    def points(self):
        p = self.c.cc_points()
        return sorted((p[i].first, p[i].last, p[i].n, p[i].pc) for i in range(1 << 16) if p[i].pc)
    def accesses(self):
        p = C.POINTER(Acc)()
        n = self.c.cc_acc(C.byref(p))
        return [(x.where, x.what, x.sync, x.pc, x.addr) for x in p[:n]]
    def name(self, pc):
        import subprocess
        try:
            b = next(int(l.split("-")[0], 16) for l in open("/proc/self/maps") if os.path.realpath(self.path) in l)
            return " ".join(subprocess.run(["addr2line", "-fse", self.path, hex(pc - b - 1)], stdout=subprocess.PIPE, text=True).stdout.split())
        except Exception:
            return hex(pc)

def make(c, s, m):
    """The calls of a parameter set on shared material m."""
    d = comp.dims(s)
    pk, sk, pk2, sk2, sig = (c.put(m[x]) for x in ("pk", "sk", "pk2", "sk2", "sig"))
    msg, rho, n = c.put(m["msg"]), c.put(m["rho"]), len(m["msg"])
    sm, bad, badsm = c.put(m["msg"] + m["sig"]), c.put(m["bad"]), c.put(m["msg"] + m["bad"])
    o, so = (lambda k: ("o", k)), 8 * (-(-d["sig"] // 8))
    smo = 8 * (-(-(d["sig"] + n) // 8))
    J = c.job
    return {"keygen": J(s, "keygen", (o(0), o(64)), 64 + d["sk"], 1), "keygen2": J(s, "keygen", (o(0), o(64)), 64 + d["sk"], 2),
            "sign": J(s, "sign", (sk, msg, n, o(0), o(so)), so + 8, 3, (so, d["sig"])), "sign2": J(s, "sign", (sk2, msg, n - 1, o(0), o(so)), so + 8, 4, (so, d["sig"])),
            "signr": J(s, "sign_with_randomness", (sk, msg, n, rho, len(m["rho"]), o(0), o(so)), so + 8, 0, (so, d["sig"])),
            "signr2": J(s, "sign_with_randomness", (sk2, msg, n // 2, rho, 1, o(0), o(so)), so + 8, 0, (so, d["sig"])),
            "verify": J(s, "verify", (pk, msg, n, sig, d["sig"]), 8), "verify2": J(s, "verify", (pk, msg, n - 1, sig, d["sig"]), 8),
            "reject": J(s, "verify", (pk, msg, n, bad, d["sig"]), 8), "reject2": J(s, "verify", (pk2, msg, n, sig, d["sig"]), 8),
            "validate": J(s, "validate_keypair", (pk, sk), 8), "validate2": J(s, "validate_keypair", (pk2, sk2), 8),
            "mismatch": J(s, "validate_keypair", (pk, sk2), 8), "mismatch2": J(s, "validate_keypair", (pk2, sk), 8),
            "cs_keypair": J(s, "cs_keypair", (o(0), o(64)), 64 + d["sk"], 5), "cs_keypair2": J(s, "cs_keypair", (o(0), o(64)), 64 + d["sk"], 6),
            "cs_sign": J(s, "cs_sign", (o(0), o(smo), msg, n, sk), smo + 8, 7), "cs_sign2": J(s, "cs_sign", (o(0), o(smo), msg, n - 2, sk2), smo + 8, 8),
            "cs_open": J(s, "cs_open", (o(0), o(smo), sm, n + d["sig"], pk), smo + 8, 0, (smo, 0)), "cs_open2": J(s, "cs_open", (o(0), o(smo), sm, n + d["sig"], pk2), smo + 8, 0, (smo, 0)),
            "cs_reject": J(s, "cs_open", (o(0), o(smo), badsm, n + d["sig"], pk), smo + 8, 0, (smo, 0)), "cs_reject2": J(s, "cs_open", (o(0), o(smo), sm, d["sig"] - 1, pk), smo + 8, 0, (smo, 0)),
            "clear": J(s, "clear_private_key", (o(0),), 128, isvoid=True), "clear2": J(s, "clear_private_key", (o(8),), 128, isvoid=True)}

def material(path, s, seed):
    """Keys and a signature, made by one thread."""
    r = random.Random(f"C19/{seed}/{s}")
    d = comp.dims(s)
    m = dict(msg=r.randbytes(r.choice((33, 200, 1000))), rho=r.randbytes(d["lb"]))
    c = Conc(path)
    for x, sd in (("", 11 + seed), ("2", 12 + seed)):
        c.free([c.job(s, "keygen", (("o", 0), ("o", 64)), 64 + d["sk"], sd)], [0], 1, 1)
        b = c.out(64 + d["sk"])
        m["pk" + x], m["sk" + x] = b[:d["pk"]], b[64:]
    c.free([c.job(s, "sign_with_randomness", (c.put(m["sk"]), c.put(m["msg"]), len(m["msg"]), c.put(m["rho"]), len(m["rho"]), ("o", 0), ("o", d["sig"] + 8)), d["sig"] + 16, 0, (d["sig"] + 8, d["sig"]))], [0], 1, 1)
    m["sig"] = c.out(d["sig"])
    i = r.randrange(d["sig"] // 2, d["sig"])
    m["bad"] = m["sig"][:i] + bytes([m["sig"][i] ^ 1 << r.randrange(8)]) + m["sig"][i + 1:]
    return m

def prepare(emit, path, sets, seed, ops, full):
    """Material, and every call's result in a process of its own."""
    for s in sets:
        emit.now(f"single calls {s}")
        recs, death = core.isolated(lambda e: e(material(path, s, seed)))
        if death:
            raise RuntimeError(f"setting up {s}: {death}")
        m = recs[0]
        c = Conc(path)
        alone = {}
        for k in make(c, s, m):
            if ops and k.rstrip("2") not in ops:
                continue
            res = []
            for i in range(2 if full or k.rstrip("2") in ("keygen", "sign") else 1):
                recs, death = core.isolated(lambda e: e(_one(path, s, m, k)))
                res.append(f"died: {death}" if death else recs[0])
            # a call that is not reproducible in itself cannot be compared
            alone[k] = res[0] if res[0] == res[-1] else None
        emit((s, m, alone))

def _one(path, s, m, k):
    c = Conc(path)
    j = make(c, s, m)[k]
    c.lock()
    x = c.free([j], [0], 1, 1)[0]
    return f"{C.c_int64(x.rc).value}:{x.hash:016x}"

class Rec:
    def __init__(self, emit, alone, cfg):
        self.emit, self.alone, self.cfg = emit, alone, cfg
        self.ev = []
        self.head = [dict(op="alone", job=f"{k} {s}", out=v) for s, x in alone.items() for k, v in x.items() if v is not None]
    def flush(self, limit=0):
        if len(self.ev) > limit:
            used = {e["job"] for e in self.ev if "job" in e}
            self.emit([dict(h, cfg=self.cfg) for h in self.head if h["job"] in used] + self.ev)
            self.ev = []

def footprints(emit, path, mats, cfg, ops, only=False):
    """only: no result to compare with is at hand."""
    alone = {s: a for s, m, a in mats}
    c = Conc(path)
    J = {s: make(c, s, m) for s, m, a in mats}
    c.lock()
    rec = Rec(emit, alone, cfg)
    for s in J:
        for k in ops:
            if alone[s].get(k) is None:
                continue
            emit.now(f"{k} {s} alone with its accesses recorded, {cfg}")
            out, _ = c.steps([J[s][k]], foot=1)
            n = c.c.cc_events(0)
            acc = c.accesses()
            if only:
                rec.ev.append(dict(op="alone", job=f"{k} {s} {cfg}", out=out[0]))
            rec.ev.append(dict(op="start", t=1, job=f"{k} {s} {cfg}" if only else f"{k} {s}"))
            for w, what, sync, pc, addr in acc:
                e = dict(op="access", t=1, write=bool(what), sync=bool(sync), what=WHERE[w], call=f"{k} {s} {cfg}")
                if what and not sync:
                    e["where"] = c.name(pc)
                rec.ev.append(e)
            rec.ev.append(dict(op="end", t=1, out=out[0], call=f"{k} {s} {cfg}"))
            emit(dict(foot=f"{k} {s} {cfg}", acc=len(acc), points=n))
    rec.flush()

def stepped(emit, path, mats, cfg, work, schedules, seed, budget, part):
    """part (i, n): of the parts of the code where the first of a pair is suspended, this driver takes those numbered i modulo n.
    work: pairs and triples of (op, set) that take their turns until the time is up."""
    r = random.Random(f"C19/{seed}/{cfg}/{work[0]}")
    alone = {s: a for s, m, a in mats}
    c = Conc(path)
    J = {s: make(c, s, m) for s, m, a in mats}
    c.lock()
    rec = Rec(emit, alone, cfg)
    prof, done, cost = {}, {}, {}
    def profile(k, s):
        if (k, s) not in prof:
            t = time.time()
            c.steps([J[s][k]], prof=1)
            p = c.points()
            n = c.c.cc_events(0)
            random.Random(f"{seed}/{k}/{s}").shuffle(p)
            prof[k, s] = [p[part[0]::part[1]] or p, n, 0]
            cost[k, s] = time.time() - t
        return prof[k, s]
    def one(calls, who, at, how):
        emit.now(f"{calls} under schedule {who} suspended after {at}, {cfg}")
        out, ran = c.steps([J[s][k] for k, s in calls], who, at)
        i = len(rec.ev)
        for t, (k, s) in enumerate(calls):
            rec.ev.append(dict(op="start", t=t + 1, job=f"{k} {s}"))
        rec.ev += [dict(op="run", t=t + 1) for t, x in zip(who, ran) if x]
        for t, (k, s) in enumerate(calls):
            rec.ev.append(dict(op="end", t=t + 1, out=out[t], call=f"{k} {s} {cfg}", how=f"with {[x for j, x in enumerate(calls) if j != t]} {how} {who} {at}"))
        rec.flush(4000)
    deadline = time.time() + budget
    # same operation, other inputs: everywhere; other pairs: a few places
    work_n = [((a, b), max(1, (1000 if a[1] in ("128f", "em_128f") or budget > 100 else 48) // part[1])) for a, b in (w for w in work if len(w) == 2) if a[0] + "2" == b[0] and a[1] == b[1] and a[0] in ("signr", "verify", "validate", "keygen")]
    runs = points = 0
    while time.time() < deadline:
        for calls in work:
            if time.time() > deadline:
                break
            if any(alone[s].get(k) is None for k, s in calls):
                continue
            ps = [profile(k, s) for k, s in calls]
            if len(calls) == 2:
                # the first is suspended where it enters a part it has not been suspended in yet
                for _ in range(dict(work_n).get(calls, 3)):
                    if time.time() > deadline:
                        break
                    p, n, at = ps[0]
                    if not p or at >= len(p) and r.random() < .9 and len(p) > 20:
                        break
                    x = p[at % len(p)]
                    pos = x[0] if at < len(p) else x[1] if at < 2 * len(p) else r.randint(1, n)
                    if pos == x[1] and at >= len(p) and x[0] == x[1]:
                        pos = r.randint(1, n)
                    ps[0][2] += 1
                    one(calls, (0, 1, 0), (pos, END, END), "suspended at")
                    runs += 1
            sch = r.choice(schedules[len(calls)])
            per = [sch.count(i + 1) for i in range(len(calls))]
            cuts = [sorted(r.randint(1, max(1, p[1])) if r.random() < .5 or not p[0] else r.choice(p[0])[r.randrange(2)] for _ in range(n - 1)) + [END] for p, n in zip(ps, per)]
            nth, who, at = [0] * len(calls), [], []
            for t in sch:
                who.append(t - 1); at.append(cuts[t - 1][nth[t - 1]]); nth[t - 1] += 1
            one(calls, who, at, "under the schedule")
            runs += 1
    rec.flush()
    emit(dict(runs=runs, cover={f"{k} {s}": [min(x[2], len(x[0])), len(x[0]), x[1]] for (k, s), x in prof.items()}))

def freely(emit, path, mats, cfg, seed, nth, budget):
    r = random.Random(f"C19/{seed}/{cfg}/free")
    alone = {s: a for s, m, a in mats}
    c = Conc(path)
    J = {s: make(c, s, m) for s, m, a in mats}
    c.lock()
    rec = Rec(emit, alone, cfg)
    names = [(k, s) for s in J for k in J[s] if alone[s].get(k) is not None]
    jobs = [J[s][k] for k, s in names]
    t0, n, rounds = time.time(), 0, 0
    while time.time() - t0 < budget:
        kind = rounds % 4
        rounds += 1
        if kind == 0:       # everything
            pick = [r.randrange(len(jobs)) for _ in range(nth * 6)]
        else:               # one parameter set; one operation on different inputs; two operations
            s = r.choice(list(J))
            i = [j for j, x in enumerate(names) if x[1] == s]
            if kind > 1:
                o = r.sample(OPS, kind - 1)
                i = [j for j in i if names[j][0].rstrip("2") in o]
            if not i:
                continue
            pick = [r.choice(i) for _ in range(nth * 6)]
        emit.now(f"{nth} threads, {cfg}: {sorted({names[j] for j in pick})[:8]}")
        res = c.free(jobs, pick, nth, 6)
        ev = []
        for x in res:
            k, s = names[x.job]
            ev.append((x.start, dict(op="start", t=x.t + 1, job=f"{k} {s}")))
            ev.append((x.end, dict(op="end", t=x.t + 1, out=f"{C.c_int64(x.rc).value}:{x.hash:016x}", call=f"{k} {s} {cfg}", how=f"{nth} threads")))
        rec.ev += [e for _, e in sorted(ev, key=lambda t: t[0])]
        n += len(res)
        rec.flush(4000)
    rec.flush()
    emit(dict(free=n))

def run(ck):
    T = ck.thorough
    for cfg in (None, "MCConcOne.cfg"):
        ck.model("MCConc", cfg, workers=1, timeout=300)
    schedules = {}
    for n, cfg in ((2, "MCConcGen.cfg"), (3, "MCConcGen3.cfg")):
        r = tlc.run("MCConc", cfg, workers=1, timeout=300)
        schedules[n] = sorted({tuple(int(i) for i in re.findall(r"\d+", x.split("SCHEDULE", 1)[1])) for x in r.printed if "SCHEDULE" in x})
        if not schedules[n]:
            raise ToolError("no schedules generated:\n" + r.out[-2000:])
    ck.cov["schedules"] = {k: len(v) for k, v in schedules.items()}
    ck.tick("model")
    scfgs = ("default", "own", "nox4", "scalar", "portable", "clang") if T else ("default", "own")
    fcfgs = ("default", "own", "nox4", "scalar", "portable", "clang", "avx2") if T else ("default", "nox4", "own")
    ocfgs = [c for c in ("nox4", "scalar", "portable", "avx2") if c not in scfgs]
    paths = {(c, True): build(c, True) for c in scfgs} | {(c, False): build(c, False) for c in fcfgs}
    ck.tick("builds")
    def sets(c):
        return (["128f"] if not T else ["128f", "192f", "em_128f", "em_256f"]) if c == "own" else FSETS[:1] + FSETS[3:4] if not T and c != "default" else (SETS if T else FSETS + ["128s", "em_256s"]) if c == "default" else FSETS
    keys = [(c, s) for c in fcfgs for s in sets(c)]
    got = core.parallel(ck, [(prepare, (paths[c, False], [s], ck.seed, ("keygen", "signr", "verify", "validate", "mismatch", "cs_keypair", "clear") if c == "own" and not T else (), T), f"single calls {s} {c}") for c, s in keys], timeout=600)
    mats = {}
    for (c, s), g in zip(keys, got):
        if g:
            mats.setdefault((c, False), []).append(g[0])
            if s in FSETS or T:
                mats.setdefault((c, True), []).append(g[0])
    skipped = [f"{k} {s}" for v in mats.values() for s, m, a in v for k in a if a[k] is None]
    if skipped:
        ck.cov["not_reproducible_alone"] = skipped[:20]
    ck.tick("single calls")
    two = [k + x for k in OPS for x in ("", "2")]
    jobs = []
    for c in scfgs:
        for m in mats.get((c, True), []):
            jobs.append((footprints, (paths[c, True], [m], c, ["keygen", "signr", "verify", "validate"] if c == "own" else two if T else [k for k in two if m[0] in ("128f", "em_128f") or not k.endswith("2")]), f"recorded accesses {c}"))
    for c in ocfgs:
        for m in mats.get(("default", True), []):
            if T or m[0] in ("128f", "em_192f"):
                jobs.append((footprints, (build(c, True), [m], c, ["keygen", "signr", "verify"], True), f"recorded accesses {c}"))
    foot = core.parallel(ck, jobs, timeout=600)
    ck.tick("accesses")
    jobs = []
    r = random.Random(f"C19/{ck.seed}")
    B = 300 if T else 40
    for c in scfgs:
        ms = mats.get((c, True), [])
        if not ms:
            continue
        names = [m[0] for m in ms]
        work = []
        for s in [x for x in names if x in FSETS]:
            quick = ("keygen", "validate", "mismatch", "cs_keypair", "clear")
            for a in OPS if c != "own" else quick:
                for b in OPS if c != "own" else quick:
                    work.append(((a, s), (b + "2", s)))
            for _ in range(6 if c != "own" else 0):
                work.append(((r.choice(OPS), s), (r.choice(OPS), r.choice(names))))
                work.append(((r.choice(OPS), s), (r.choice(OPS) + "2", r.choice(names)), (r.choice(OPS), r.choice(names))))
        r.shuffle(work)
        work.sort(key=lambda w: not (len(w) == 2 and w[0][0] in ("signr", "verify") and w[1][0] == w[0][0] + "2" and w[0][1] == w[1][1]))
        nj = 8 if c == "default" or T and c != "own" else 2
        for i in range(nj):
            jobs.append((stepped, (paths[c, True], ms, c, [w for j, w in enumerate(work) if j % nj == i or j < 2 * len(FSETS)], schedules, ck.seed, B if c == "default" else B / (2 if T else 10), (i, nj)), f"interleaved calls {c}"))
    step = core.parallel(ck, jobs, timeout=900)
    ck.tick("interleaved calls")
    free = core.parallel(ck, [(freely, (paths[c, False], mats[c, False], c, ck.seed, 16, (60 if T else 5)), f"threads {c}") for c in fcfgs if (c, False) in mats], timeout=600, workers=1)
    ck.tick("free threads")
    traces, cover = [], {}
    for x in foot + step + free:
        for e in x:
            if isinstance(e, list):
                traces.append(e)
            elif "cover" in e:
                ck.add(interleaved_runs=e["runs"])
                for k, v in e["cover"].items():
                    w = cover.setdefault(k, [0, 0, v[2]])
                    w[0] += v[0]; w[1] += v[1]
            elif "free" in e:
                ck.add(free_calls=e["free"])
            elif "foot" in e:
                ck.add(recorded_footprints=1)
    ck.cov["suspension_points"] = {k: f"{min(v[0], v[1])} of {v[1]} parts of the code, {v[2]} events" for k, v in sorted(cover.items(), key=lambda t: -t[1][0])[:40]}
    ck.sample([core.brief(e) for e in traces[0][:6]] if traces else [])
    ck.validate_traces("TraceConc", traces)
    ck.tick("validation")
