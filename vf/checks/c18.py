"""C18: executions with different secrets and equal public data are recorded (program points, addresses) and compared as Leak demands:
what is seen is a function of public data (TraceLeak); MCLeak justifies the choice of secrets."""
import ctypes as C, hashlib, os, random, re, subprocess
from .. import comp, core
from ..core import SETS, FSETS, fbuild
LEVEL = "model_checking"
WRAP = ("memcpy", "memmove", "memset", "memcmp", "bcmp", "strncmp", "strcmp", "memchr", "H1_final", "H2_final", "H3_final")
PARTS = ("shim_field.c", "shim_qs.c", "shim_uh.c", "shim_vc.c", "shim_conv.c", "shim_aes.c", "shim_vole.c")
AREA = (1 << 19, 1 << 16, 1 << 21)

class Rec(C.Structure):
    _fields_ = [(x, C.c_uint64) for x in ("nseg", "rc", "done", "nchunk", "pins", "total")] + [("n", C.c_uint64 * 64), ("h", C.c_uint64 * 64),
                ("chunk", C.c_uint64 * (1 << 16)), ("wlo", C.c_uint64), ("whi", C.c_uint64), ("wn", C.c_uint64), ("w", C.c_uint64 * 4 * 4096)]
CH = 1 << 12
KIND = {1: "read", 2: "write", 3: "function entry", 4: "program point", 5: "index", 6: "block copy", 7: "comparison"}

def build(cfg, opt=None, parts=PARTS):
    cc = fbuild.CONFIGS[cfg].get("cc", "gcc")
    fl = ("-fsanitize=thread", "-fsanitize-coverage=trace-pc" + (",trace-gep" if cc == "clang" else ""), "-fno-builtin-memcmp", "-fno-builtin-bcmp")
    return core.lib(cfg, parts, raw_shims=("shim_lock.c",), tag="lock", lib_cflags=fl, shim_cflags=fl, opt=opt, crypto_sign=False,
                    ldflags=tuple("-Wl,--wrap=" + w for w in WRAP))

class L:
    def __init__(self, path, emit, cfg, maxruns=64):
        self.c = C.CDLL(path, mode=os.RTLD_NOW)
        self.c.lk_rec.restype = C.c_void_p
        self.path, self.emit, self.cfg = path, emit, cfg
        if not self.c.lk_alloc(maxruns):
            raise core.ToolError("no memory")
        self.max = maxruns
    def rec(self, i):
        return Rec.from_address(self.c.lk_rec(i))
    def _go(self, kind, fn, a, b, mlen, rlen, pin, lo=0, hi=0):
        la, lb = len(a[0]), len(b[0])
        self.c.lk_run(kind, C.cast(fn, C.c_void_p), b"".join(a), C.c_size_t(la), b"".join(b), C.c_size_t(lb), C.c_size_t(mlen), C.c_size_t(rlen),
                      pin, len(a), 8, C.c_uint64(lo), C.c_uint64(hi))
    def run(self, kind, fn, a, b, mlen=0, rlen=0, pin=0, args=None, group=None):
        """a, b: the inputs of each run; returns one result per run; group[i]: runs expected to be alike (for the diagnosis only)."""
        self.emit.now(f"{self.cfg} {group and group[0]}")
        if args:
            n = 12
            self.c.lk_args((C.c_uint64 * n)(*[t for t, _ in args], *[0] * (n - len(args))), (C.c_uint64 * n)(*[v for _, v in args], *[0] * (n - len(args))))
        out, first = [], {}
        for at in range(0, len(a), self.max):
            x, y = a[at:at + self.max], b[at:at + self.max]
            self._go(kind, fn, x, y, mlen, rlen, pin)
            for i in range(len(x)):
                r = self.rec(i)
                if not r.done:
                    raise RuntimeError("a run did not finish")
                o = dict(rc=C.c_int32(r.rc & 0xffffffff).value, pins=r.pins, obs=[f"{r.n[k]}:{r.h[k]:016x}" for k in range(r.nseg)])
                g = group[at + i] if group else 0
                f = first.setdefault(g, (x[i], y[i], o["obs"]))
                if f[2] != o["obs"]:
                    o["where"] = (kind, fn, (f[0], x[i]), (f[1], y[i]), mlen, rlen, pin)
                out.append(o)
        for o in out:
            if "where" in o:
                o["where"] = self.explain(*o["where"]) if not self.explained else ""
        return out
    explained = 0
    def explain(self, kind, fn, a, b, *rest):
        self.explained = 1
        self._go(kind, fn, list(a), list(b), *rest)
        r, s = self.rec(0), self.rec(1)
        n = min(r.nchunk, s.nchunk)
        c = next((i for i in range(n) if r.chunk[i] != s.chunk[i]), n)
        self._go(kind, fn, list(a), list(b), *rest, lo=c * CH, hi=(c + 1) * CH)
        r, s = self.rec(0), self.rec(1)
        for i in range(max(r.wn, s.wn)):
            x = list(r.w[i]) if i < r.wn else None
            y = list(s.w[i]) if i < s.wn else None
            if x != y:
                return f"event {c * CH + i}: {self.name(x)} / {self.name(y)}, after {self.name(list(r.w[i - 1])) if i else 'the start'}"
        return "?"
    def name(self, w):
        if not w:
            return "end"
        try:
            base = next(int(l.split("-")[0], 16) for l in open("/proc/self/maps") if os.path.realpath(self.path) in l)
            p = subprocess.run(["addr2line", "-fise", self.path, hex(w[3] - base - 1)], stdout=subprocess.PIPE, text=True).stdout.split()
            loc = " ".join(p[:2])
        except Exception:
            loc = hex(w[3])
        return f"{KIND.get(w[0], w[0])} {w[1]:#x} ({w[2]}) in {loc}"
    def put(self, e, o):
        e.update(cfg=self.cfg, obs=o["obs"])
        if "rc" not in e:
            e["rc"] = o["rc"]
        if "where" in o:
            e["where"] = o["where"]
        self.emit(e)

def structured(r, n, k):
    yield bytes(n)
    yield b"\xff" * n
    for _ in range(k):
        i = r.randrange(8 * n)
        yield bytes((1 << i % 8) if j == i // 8 else 0 for j in range(n))
    for _ in range(k):
        i = r.randrange(8 * n)
        yield bytes((255 ^ (1 << i % 8)) if j == i // 8 else 255 for j in range(n))
    for _ in range(k):
        z = r.randrange(n)
        yield bytes(0 if j == z else r.randrange(256) for j in range(n))
    while True:
        yield r.randbytes(n)

def take(it, n):
    return [x for _, x in zip(range(n), it)]

def api_runs(emit, path, cfg, sets, seed, nkeys, nsign, full, light=False):
    r = random.Random(f"C18/{seed}/{cfg}")
    k = L(path, emit, cfg)
    for s in sets:
        d = comp.dims(s)
        half, kl = d["pk"] // 2, d["sk"] - d["pk"] // 2
        owf = getattr(k.c, "owf_" + s[:-1])
        owf.restype = C.c_bool
        def ev(key, inp):
            o = C.create_string_buffer(64)
            ok = owf(key, inp, o)
            return bool(ok), o.raw[:half]
        inps = [r.randbytes(half)] + ([bytes(half), b"\xff" * half] if full else [])
        for n_inp, inp in enumerate(inps):
            keys = take(structured(r, kl, nkeys // 8), nkeys)
            outs = k.run(0, owf, keys, [inp] * len(keys), group=[f"owf {s} {ev(x, inp)[0]}" for x in keys])
            for key, o in zip(keys, outs):
                k.put(dict(op="owf", set=s, key=key.hex(), inp=inp.hex(), rc=o["rc"] & 1), o)
            if n_inp:
                continue
            valid, invalid = [], []
            for x in structured(r, kl, 200):
                (valid if ev(x, inp)[0] else invalid).append(x)
                if len(valid) >= max(nsign, 12) and len(invalid) >= 8:
                    break
            # validation: pairs, keys that are none, other public keys (one byte different at every position)
            val = getattr(k.c, f"faest_{s}_validate_keypair")
            pks, sks, g = [], [], []
            for x in valid[:4 if light else 12]:
                pks.append(inp + ev(x, inp)[1]); sks.append(inp + x); g.append(f"validate {s} 0")
            for x in invalid[:3 if light else 8]:
                pks.append(inp + ev(x, inp)[1]); sks.append(inp + x); g.append(f"validate {s} 1")
            for i in range(r.randrange(5), half, 5) if light else range(half):
                x = valid[i % len(valid)]
                o = bytearray(ev(x, inp)[1])
                o[i] ^= r.choice((1, 128, 255, r.randrange(1, 256)))
                pks.append(inp + bytes(o)); sks.append(inp + x); g.append(f"validate {s} 2")
            for o in (bytes(half), b"\xff" * half, r.randbytes(half), ev(valid[0], inp)[1][:-1] + b"", ):
                o = o.ljust(half, b"\x5a")
                pks.append(inp + o); sks.append(inp + valid[1]); g.append(f"validate {s} 2")
            other = bytes([inp[0] ^ 1]) + inp[1:]
            for o in (ev(valid[0], inp)[1], bytes(half), r.randbytes(half)):
                pks.append(other + o); sks.append(inp + valid[0]); g.append(f"validate {s} 2'")
            for p, q, o in zip(pks, sks, k.run(1, val, pks, sks, group=g)):
                k.put(dict(op="validate", set=s, pk=p.hex(), sk=q.hex()), o)
            # key generation
            kg = getattr(k.c, f"faest_{s}_keygen")
            tail = inp + valid[0]
            st = [(inp + x + tail * 3)[:4 * d["sk"]] for x in valid[:3 if light else 10]] + [(inp + y + inp + x + tail * 2)[:4 * d["sk"]] for x, y in zip(valid, invalid[:2 if light else 8])]
            for z, o in zip(st, k.run(3, kg, [b"\0"] * len(st), st, group=[f"keygen {s} {i < (3 if light else 10)}" for i in range(len(st))])):
                k.put(dict(op="keygen", set=s, stream=z.hex()), o)
            # signing with the published hash values held fixed
            sg = getattr(k.c, f"faest_{s}_sign_with_randomness")
            for mlen, rlen, pin in ((33, d["lb"], 1), (0, 0, 2))[:1 if nsign < 8 else 2]:
                if not nsign:
                    break
                sks = [inp + x for x in valid[:nsign]]
                os_ = k.run(2, sg, sks, [b"\0"] * len(sks), mlen, rlen, pin, group=[f"sign {s}"] * len(sks))
                for q, o in zip(sks, os_):
                    if o["pins"] != 7:       # the published values could not be held fixed in this tree
                        emit(dict(op="note", what="signing not compared: hash layer not recognised"))
                        break
                    k.put(dict(op="sign", set=s, sk=q.hex(), mlen=mlen, rlen=rlen, pinned=pin), o)

def part_runs(emit, path, cfg, seed, T):
    r = random.Random(f"C18/{seed}/{cfg}/parts")
    k = L(path, emit, cfg)
    A, B, O = 1, 2, 3
    def part(name, fn, args, secrets, pub=b"\0"):
        f = getattr(k.c, fn)
        key = hashlib.sha256(repr(args).encode() + pub).hexdigest()[:16]
        for o in k.run(4, f, secrets, [pub] * len(secrets), args=args, group=[name] * len(secrets)):
            k.put(dict(op="part", set="128f", name=name, pub=key, rc=0), o)
    n = 24 if T else 12
    def st(size, m=n):
        return take(structured(r, size, max(1, m // 5)), m)
    def two(la, lb):
        """pairs of structured operands"""
        xs = [x + y for x in (bytes(la), b"\1" + bytes(la - 1), b"\xff" * la, r.randbytes(la)) for y in (bytes(lb), b"\1" + bytes(lb - 1), b"\xff" * lb, r.randbytes(lb))] if lb else []
        return xs + st(la + lb, n)
    for bits in (8, 64, 128, 192, 256):
        E = bits // 8
        for op, la, lb in ((0, E, E), (1, E, E), (2, E, 8), (3, E, 1), (4, 1, 0), (5, 8 * E, 0), (6, bits * E, 0), (7, E, 0), (9, 8, 0), (10, 1, 0), (11, 1, 0)):
            if (bits == 8 and op not in (0, 1, 7, 11)) or (bits == 64 and op not in (0, 1, 11)) or (bits > 64 and op == 7):
                continue
            xs = two(la, lb)
            if op in (3, 11):      # the bit is 0 or 1
                xs = [x[:-1] + bytes([x[-1] & 1]) for x in xs]
            part(f"field {bits} operation {op}", "hx_field", [(0, bits), (0, op), (A, 0), (A, la), (O, 0), (0, 1)], xs)
    for lam in (128, 192, 256):
        lb = lam // 8
        iv = r.randbytes(16)
        for em in (0, 1):
            bl = {(128, 0): 16, (192, 0): 32, (256, 0): 32, (128, 1): 16, (192, 1): 24, (256, 1): 32}[lam, em]
            part(f"owf {lam} {em}", "hx_owf", [(0, lam), (0, em), (A, 0), (B, 0), (O, 0)], st(lb), r.randbytes(bl))
        part(f"prg {lam}", "hx_prg", [(A, 0), (B, 0), (O, 0), (0, lam), (0, 100)], st(lb), iv)
        for ell in (1600, 4000):
            part(f"vole_hash {lam}", "hx_vole_hash", [(0, lam), (O, 0), (B, 0), (A, 0), (0, ell), (0, 1)], st(ell // 8 + 2 * lb + 2), r.randbytes(5 * lb + 8))
        part(f"zk_hash {lam}", "hx_zk_hash", [(0, lam), (O, 0), (B, 0), (A, lb), (0, 5), (A, 0)], st(6 * lb), r.randbytes(3 * lb + 8))
        pid = {128: 2, 192: 4, 256: 6}[lam]
        part(f"vector commitment {lam}", "hx_vc_commit", [(0, pid), (0, 5), (A, 0), (B, 0), (O, 0), (O, 256), (O, 8192), (O, 16384)], st(lb), iv)
        part(f"vole conversion {lam}", "hx_convert", [(B, 0), (A, 0), (0, 0), (0, lam), (0, 4), (0, 100), (O, 0), (O, 4096)], st(16 * lb), iv)
        # opening: the index is public
        part(f"opening {lam}", "hx_vc_open", [(A, 0), (A, 63 * lb), (B, 0), (O, 0), (O, 4096), (0, 5), (0, lb)], st((63 + 64) * lb, 8), bytes([1, 0, 1, 1, 0]))
    for s in ("128f", "192f", "256f", "em_128f", "em_192f", "em_256f"):
        d = comp.dims(s)
        half = d["pk"] // 2
        lb, L8 = d["lb"], d["l"] // 8
        part(f"witness {s}", "hx_witness", [(0, d["id"]), (A, 0), (B, 0), (O, 0), (0, L8)], st(lb), r.randbytes(half))
        ln = L8 + lb                  # columns of V
        size = L8 + ln + lb * 8 * ln
        pub = r.randbytes(d["pk"]) + r.randbytes(3 * lb + 8)
        part(f"proof {s}", "hx_prove", [(0, d["id"]), (A, 0), (A, L8), (A, L8 + ln), (0, ln), (B, 0), (B, half), (B, 2 * half), (O, 0), (O, 64)],
             st(size, 8 if T else 5), pub)
    # comparison: differences at every place, of every kind
    for ln in (1, 2, 16, 31, 64):
        base = r.randbytes(ln)
        xs = []
        for i in range(ln):
            for v in (1, 128, r.randrange(1, 256)):
                y = bytearray(base); y[i] ^= v
                xs.append(base + bytes(y))
        xs += [base + bytes(x ^ 255 for x in base), base + bytes(ln), bytes(ln) + b"\1" * ln, base + base]
        part(f"comparison {ln}", "faest_timingsafe_bcmp", [(A, 0), (A, ln), (0, ln)], xs)

def run(ck):
    T = ck.thorough
    ck.model("MCLeak", "MCLeakBig.cfg" if T else "MCLeak.cfg", workers=4, timeout=700)
    ck.tick("model")
    jobs, order = [], []
    def add(fn, cfg, *a, opt=None, label=None, timeout=300):
        p = build(cfg, opt)
        label = label or cfg
        jobs.append((fn, (p, label, *a), f"operations with different secrets ({label})"))
        order.append(label)
    nk = 40 if T else 16
    for cfg, opt, label in (("default", None, "gcc"), ("default", "-O3", "gcc -O3"), ("clang", None, "clang"), ("scalar", None, "scalar fields"), ("nox4", "-O1", "single lane"),
                            ("avx2", None, "avx2")):
        sets = SETS if cfg == "default" else FSETS
        if cfg in ("nox4", "avx2") and not T:
            sets = ["192f", "em_128f"]
        light = not T and label not in ("gcc", "clang")
        add(api_runs, cfg, sets, ck.seed, 8 if light else nk, 16 if T else 3 if light else 8, T, light, opt=opt, label=label)
        add(part_runs, cfg, ck.seed, T, opt=opt, label=label + ", components")
    add(api_runs, "own", SETS, ck.seed, nk, 0, T, label="own AES")
    add(part_runs, "own", ck.seed, T, label="own AES, components")
    if T:
        add(api_runs, "own", ["128f", "em_128f"], ck.seed, 16, 4, T, label="own AES signing")
        add(api_runs, "clangown", SETS, ck.seed, nk, 0, T, label="clang own AES")
    ck.tick("builds")
    evs = core.parallel(ck, jobs, timeout=700, workers=6 if T else 6)
    ck.tick("runs")
    notes = {e["what"] for x in evs for e in x if e["op"] == "note"}
    if notes:
        ck.add(skipped=sorted(notes))
    evs = [[e for e in x if e["op"] != "note"] for x in evs]
    ck.add(executions=sum(map(len, evs)), program_points_and_accesses=sum(int(o.split(":")[0]) for x in evs for e in x for o in e["obs"]) // 1000000)
    ck.cov["unit_of_program_points_and_accesses"] = "millions"
    ck.sample([core.brief(e) for e in evs[0][:2]])
    # what happened in each build is one history; in parts, by operation and set
    traces = []
    for x in evs:
        t, size = [], 0
        for e in sorted(x, key=lambda e: (e["op"] == "part", e["set"])):
            if t and size > 450 and (e["op"] == "part", e["set"]) != (t[-1]["op"] == "part", t[-1]["set"]):
                traces.append(t)
                t, size = [], 0
            t.append(e)
            size += .1 if e["op"] == "part" else 2 if e["op"] == "keygen" else 1
        traces.append(t)
    traces.sort(key=lambda t: -sum(e["op"] != "part" for e in t))
    ck.validate_traces("TraceLeak", traces, describe=lambda e: core.brief(e) + " -- " + str(e.get("where", "")))
