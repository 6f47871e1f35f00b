"""C20: what calls take and give back is recorded (heap blocks, cipher contexts, descriptors) along histories generated from MCApi and along
directed successes and failures of every kind; the ledger has to be a behaviour of Heap (TraceHeap)."""
import ctypes as C, random
from .. import api, comp, core, hist
from ..core import SETS, FSETS
LEVEL = "model_checking"
WRAP = ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign")
EVP = ("EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_free", "EVP_MD_CTX_new", "EVP_MD_CTX_free")
WHAT = {1: "take", 2: "give", 3: "churn"}
KIND = {1: "heap", 2: "cipher", 3: "digest"}

class Ev(C.Structure):
    _fields_ = [(x, C.c_uint64) for x in ("what", "id", "size", "kind")]

class HeapApi(api.Api):
    reps, calls = 0, 0
    def fn(self, s, name):
        f = super().fn(s, name)
        def call(*args):
            a = (C.c_uint64 * 8)(*[0 if x is None else x if isinstance(x, int) else (x.value or 0) for x in args])
            inf, fdd = (C.c_uint64 * 16)(), C.c_int64()
            self.c.hp_call.restype = C.c_uint64
            rc = self.c.hp_call(C.cast(f, C.c_void_p), a, self.reps, inf, C.byref(fdd))
            rc = C.c_int32(rc & 0xffffffff).value
            p = C.POINTER(Ev)()
            self.c.hp_events.restype = C.c_size_t
            n = self.c.hp_events(C.byref(p))
            if n == 2**64 - 1:
                raise core.ToolError("ledger overflow")
            self.calls += 1
            k = self.calls
            what = f"{name} {s} returned {rc}"
            self.emit(dict(op="begin", c=k, set=s))
            for i in range(n):
                e = p[i]
                o = dict(op=WHAT.get(e.what, "foreign"), c=k, kind=KIND[e.kind], size=min(e.size, 2**31 - 1), call=what)
                if e.what == 3:
                    o["n"] = min(e.id, 2**31 - 1)
                else:
                    o["id"] = e.id
                self.emit(o)
            self.emit(dict(op="end", c=k, fds=fdd.value, after=[min(inf[i], 2**31 - 1) for i in range(self.reps)], call=what))
            self.c.hp_peak.restype = C.c_uint64
            self.emit(dict(op="peak", what=f"{name} {s}", rc=rc, peak=self.c.hp_peak()))
            return None if name == "clear_private_key" else rc
        return call

class Quiet(hist.Replay):
    def put(self, e):
        return e

def regions(s):
    d = comp.dims(s)
    at, out = 0, []
    def r(name, n):
        nonlocal at
        out.append((name, at, n)); at += n
    for i in range(d["tau"] - 1):
        r(f"c{i}", d["hb"])
    r("u~", d["lb"] + 2); r("d", d["l"] // 8); r("a~", d["lb"])
    for i in range(d["tau"]):
        k = d["k0"] if i < d["t0"] else d["k1"]
        r(f"path{i}", k * d["lb"]); r(f"com{i}", 2 * d["lb"])
    r("chall3", d["lb"]); r("iv", 16)
    return out

def directed(emit, path, s, seed, big, reps, full):
    r = random.Random(f"C20/{seed}/{s}")
    a = HeapApi(path, emit, r)
    d = comp.dims(s)
    a.reps = reps
    pk, sk, _ = api.keys(a, s)
    a.rand(b"", (1,)); a.keygen(s)
    a.keygen(s, nullpk=True)
    a.validate(s, pk, sk); a.validate(s, pk[:-1] + bytes([pk[-1] ^ 1]), sk); a.validate(s, pk, bytes(d["sk"])); a.validate(s, None, sk)
    m = r.randbytes(77)
    a.rand_seed(5)
    e = a.sign(s, sk, m, r.randbytes(d["lb"]))
    g = bytes.fromhex(e["sig"]) if e["rc"] == 0 else bytes(d["sig"])
    a.reps = 0
    a.rand_seed(6)
    a.sign(s, sk, m, api="sign")
    a.rand(b"", (1,)); a.sign(s, sk, m, api="sign")
    for bad in (bytes(d["sk"]), sk[:d["pk"] // 2] + bytes(d["lb"]), b"\xff" * d["sk"]):
        a.sign(s, bad, m, b"")
    a.sign(s, None, m, b""); a.sign(s, sk, m, b"", nullsig=True); a.sign(s, sk, m, b"", nulllen=True); a.sign(s, sk, m, b"", cap=d["sig"] - 1)
    a.sign(s, sk, m, None, rlen=5)
    a.reps = reps
    a.verify(s, pk, m, g)
    a.verify(s, pk, m + b"x", g)
    a.reps = 0
    a.verify(s, None, m, g); a.verify(s, pk, m, None, slen=d["sig"]); a.verify(s, pk, m, g[:-1]); a.verify(s, pk, m, g + b"\0"); a.verify(s, pk, b"", b"")
    rs = regions(s)
    if not full:
        tau = d["tau"]
        keep = {"c0", f"c{tau - 2}", "u~", "d", "a~", "path0", "com0", f"path{tau - 1}", f"com{tau - 1}", "chall3", "iv", f"c{r.randrange(tau - 1)}", f"path{r.randrange(tau)}", f"com{r.randrange(tau)}"}
        rs = [x for x in rs if x[0] in keep]
    for name, at, n in rs:
        i = at + r.randrange(n)
        x = g[:i] + bytes([g[i] ^ (1 << r.randrange(8))]) + g[i + 1:]
        a.verify(s, pk, m, x)
    a.verify(s, pk, m, bytes(d["sig"])); a.verify(s, pk, m, b"\xff" * d["sig"]); a.verify(s, pk, m, r.randbytes(d["sig"])); a.verify(s, bytes(d["pk"]), m, g)
    a.reps = reps if full else 0
    a.rand_seed(9)
    a.cs_keypair(s)
    e = a.cs_sign(s, sk, m)
    sm = m + bytes.fromhex(e["sig"]) if e["rc"] == 0 else m + g
    a.reps = 0
    a.cs_open(s, pk, sm); a.cs_open(s, pk, sm[:-1] + bytes([sm[-1] ^ 1])); a.cs_open(s, pk, b"x" + sm); a.cs_open(s, pk, b""); a.cs_open(s, pk, bytes(d["sig"] - 1)); a.cs_open(s, pk, g)
    a.rand(b"", (1,)); a.cs_sign(s, sk, m)
    a.rand(b"", (1,)); a.cs_keypair(s)
    a.clear(s, sk)
    for n in big:
        M = bytes(n)
        a.rand_seed(7)
        e = a.sign(s, sk, M, b"r")
        if e["rc"] == 0:
            a.verify(s, pk, M, bytes.fromhex(e["sig"]))
        a.cs_sign(s, sk, M)

def histories(emit, path, scripts, start):
    a = HeapApi(path, emit, random.Random(start))
    for i, h in enumerate(scripts):
        Quiet(a, hist.sets_for(start + i), start + i).run(h)

def run(ck):
    T = ck.thorough
    ck.model("MCHeap", workers=8, timeout=300)
    ck.tick("model")
    scripts = hist.generate(ck, 160 if T else 32)
    ck.tick("histories")
    jobs = []
    for cfg in ("default", "own", "nox4", "scalar") if T else ("default", "own", "scalar"):
        wrap = WRAP + (EVP if core.fbuild.CONFIGS[cfg]["openssl"] else ())
        path = core.lib(cfg, ("shim_api.c", "shim_heap.c"), tag="heap", ldflags=tuple("-Wl,--wrap=" + w for w in wrap))
        sets = SETS if cfg == "default" else ["128f", "em_128f", "em_192f", "em_256f"] if cfg == "own" and T else ["128f"] if cfg == "own" else FSETS
        for s in sorted(sets, key=lambda s: s in FSETS):
            fast = s in FSETS
            big = ((1 << 24) if cfg == "default" and fast else 1 << 22,) if fast and cfg != "own" else ((1 << 26),) if s == "128s" else ()
            jobs.append((directed, (path, s, ck.seed, big, 14 if fast and cfg != "own" else 14 if T and cfg == "default" else 0, T and cfg != "own"), f"directed calls {s} {cfg}"))
        if cfg == "default":
            for i in range(8):
                jobs.append((histories, (path, scripts[i::8], i), f"histories {i}"))
    evs = core.parallel(ck, jobs, timeout=600)
    ck.tick("runs")
    peaks = {}
    for x in evs:
        for e in x:
            if e["op"] == "peak":
                peaks[e["what"]] = max(peaks.get(e["what"], 0), e["peak"])
    ck.add(calls=sum(e["op"] == "end" for x in evs for e in x), taken=sum(e["op"] == "take" for x in evs for e in x) + sum(e.get("n", 0) for x in evs for e in x))
    ck.cov["largest_holdings"] = {k: v for k, v in sorted(peaks.items(), key=lambda t: -t[1])[:8]}
    traces = [[e for e in x if e["op"] != "peak"] for x in evs]
    # shorter traces: cut where no call is in progress
    cut = []
    for t in traces:
        cur = []
        for e in t:
            cur.append(e)
            if e["op"] == "end" and len(cur) > 6000:
                cut.append(cur); cur = []
        cut.append(cur)
    ck.sample([core.brief(e) for e in traces[0][:8]])
    ck.validate_traces("TraceHeap", cut)
