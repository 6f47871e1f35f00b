"""C03: verification accepts exactly the specified signatures."""
import mmap, ctypes as C
from .. import core, comp, api, tlc
from .c02 import h2lib, challenges
LEVEL = "model_checking"

def fields(d):
    """[(name, offset, length)] of a signature, in order."""
    out, o = [], 0
    def f(n, ln):
        nonlocal o
        out.append((n, o, ln))
        o += ln
    for i in range(1, d["tau"]):
        f(f"c{i}", d["hb"])
    f("u~", d["lb"] + 2); f("d", d["l"] // 8); f("a~", d["lb"])
    for i in range(d["tau"]):
        for j in range(d["k0"] if i < d["t0"] else d["k1"]):
            f(f"pdec{i}.{j}", d["lb"])
        f(f"com{i}", 2 * d["lb"])
    f("ch3", d["lb"]); f("iv", 16)
    assert o == d["sig"]
    return out

def flip(b, i, r):
    return b[:i] + bytes([b[i] ^ (r.choice((1, 2, 4, 8, 16, 32, 64, 128, 255, r.randrange(1, 256))))]) + b[i + 1:]

class Base:
    """A fresh key and honest signature, with their events."""
    def __init__(self, a, r, s, msg=None):
        self.a, self.r, self.s, self.d = a, r, s, comp.dims(s)
        self.pk, self.sk, k = api.keys(a, s)
        self.msg = r.randbytes(r.choice((33, 60, 200))) if msg is None else msg
        a.emit(api.abstract(k))
        e = a.sign(s, self.sk, self.msg, r.randbytes(self.d["lb"]))
        self.sig = bytes.fromhex(e["sig"])
        a.emit(api.abstract(e))
        self.v("honest")
    def v(self, note, pk=None, msg=None, sig=None, **kw):
        e = self.a.verify(self.s, self.pk if pk is None else pk, self.msg if msg is None else msg, self.sig if sig is None else sig, **kw)
        e["note"] = note
        self.a.emit(api.abstract(e))
        return e

def everybyte(s, lo, hi):
    def f(a, r):
        b = Base(a, r, s)
        for i in range(lo, hi):
            b.v(f"byte {i} of the signature changed", sig=flip(b.sig, i, r))
    return f

def structured(s, per, swaps, T):
    """One changed byte per field (and all of the small ones), exchanged and replaced components, lengths, messages, public keys."""
    def f(a, r):
        b = Base(a, r, s)
        d, fs = b.d, fields(b.d)
        big = [x for x in fs if x[0] not in ("ch3", "iv")]
        pick = big if len(big) <= per else r.sample(big, per - 3) + [x for x in big if x[0] in ("u~", "d", "a~")]
        for n, o, ln in pick:
            i = o + r.choice((0, ln - 1, r.randrange(ln)))
            b.v(f"byte {i - o} of {n} changed", sig=flip(b.sig, i, r))
        for n, o, ln in fs[-2:]:
            for i in range(o, o + ln) if per > 100 else r.sample(range(o, o + ln), min(ln, 10)):
                b.v(f"byte {i - o} of {n} changed", sig=flip(b.sig, i, r))
        # components exchanged, cleared, taken from another signature of the same key
        e = a.sign(s, b.sk, b.msg, r.randbytes(d["lb"] + 1))
        a.emit(api.abstract(e))
        other = bytes.fromhex(e["sig"])
        e = a.sign(s, b.sk, b.msg + b"x", b"")
        a.emit(api.abstract(e))
        third = bytes.fromhex(e["sig"])
        b.v("signature of another message", sig=third)
        for _ in range(swaps):
            n, o, ln = r.choice(fs)
            k = r.randrange(4)
            if k == 0:
                g = r.choice([x for x in fs if x[2] == ln])
                sg = bytearray(b.sig)
                sg[o:o + ln], sg[g[1]:g[1] + ln] = b.sig[g[1]:g[1] + ln], b.sig[o:o + ln]
                if g[0] != n:
                    b.v(f"{n} and {g[0]} exchanged", sig=bytes(sg))
            elif k == 1:
                b.v(f"{n} cleared", sig=b.sig[:o] + bytes(ln) + b.sig[o + ln:])
            elif k == 2:
                b.v(f"{n} from another signature", sig=b.sig[:o] + other[o:o + ln] + b.sig[o + ln:])
            else:
                b.v(f"everything but {n} from another signature", sig=other[:o] + b.sig[o:o + ln] + other[o + ln:])
        # whole openings exchanged
        # messages
        m = b.msg
        for i in r.sample(range(len(m)), min(len(m), per // 3)):
            b.v(f"byte {i} of the message changed", msg=flip(m, i, r))
        for n, x in (("longer by a zero", m + b"\0"), ("longer by a one", m + b"\1"), ("shorter", m[:-1]), ("empty", b""), ("doubled", m + m), ("with a zero in front", b"\0" + m), ("rotated", m[1:] + m[:1])):
            b.v("message " + n, msg=x)
        # public key
        for i in (range(d["pk"]) if per > 20 else r.sample(range(d["pk"]), 10)):
            b.v(f"byte {i} of the public key changed", pk=flip(b.pk, i, r))
        h = d["pk"] // 2
        b.v("halves of the public key exchanged", pk=b.pk[h:] + b.pk[:h])
        pk2, sk2, k = api.keys(a, s)
        a.emit(api.abstract(k))
        b.v("another public key", pk=pk2)
        b.v("output of another public key", pk=b.pk[:h] + pk2[h:])
        b.v("input of another public key", pk=pk2[:h] + b.pk[h:])
        # lengths (the buffer really has that length)
        for n in (0, 1, d["sig"] // 2, d["sig"] - 1):
            b.v(f"signature cut to {n}", sig=b.sig[:n])
        for t in (b"\0", b"\1", bytes(16), b.sig):
            b.v(f"signature longer by {len(t)}", sig=b.sig + t)
        for n in (1 << 32, 1 << 33, 1 << 63, 1 << 16):
            b.v(f"signature length plus {n}", slen=d["sig"] + n)
        b.v("signature length -1", slen=(1 << 64) - 1)
        for n in (0, 1, d["sig"] - 1, d["sig"] - 256, d["sig"] & 255):
            if n < d["sig"]:
                b.v(f"signature length given as {n}", slen=n)
        b.v("honest again")
        # empty message
        e0 = Base(a, r, s, b"")
        e = a.verify(s, e0.pk, None, e0.sig)
        a.emit(api.abstract(e))
        e0.v("empty message replaced", msg=b"\0")
    return f

def forged(s, which, prog):
    """Signatures which are right in everything but the opened challenge: the oracle's answer differs from it in few bits."""
    def f(a, r):
        b = Base(a, r, s)
        lb = b.d["lb"]
        if not prog:
            return
        h = api.H2(a)
        if not h.usable(s, b.sk, b.pk):
            return
        for bit in which(b.d, r):
            kx = bytearray(lb)
            for x in bit if isinstance(bit, tuple) else (bit,):
                kx[x // 8] ^= 1 << x % 8
            h.mask(bytes(kx))
            m = r.randbytes(20)
            e = a.sign(s, b.sk, m, r.randbytes(lb))
            h.off()
            b.v(f"challenge differs from the oracle's answer in bits {bit}", msg=m, sig=bytes.fromhex(e["sig"]))
        # programmed challenges: honest for the programmed oracle only
        for w in challenges(r, b.d)[:3]:
            h.want(w)
            m = r.randbytes(20)
            e = a.sign(s, b.sk, m, b"")
            k = h.get(lb)
            a.rand()
            h.mask(k)
            v = a.verify(s, b.pk, m, bytes.fromhex(e["sig"]))
            v["kx"] = k.hex()
            a.emit(("full", v))
            h.off()
            v = a.verify(s, b.pk, m, bytes.fromhex(e["sig"]))
            a.emit(("full", v))
    return f

def hugemsg(s, extra):
    """The signed message followed by extra zero bytes (2^32, 2^31...): the length must not be taken modulo anything."""
    def f(a, r):
        b = Base(a, r, s)
        n = len(b.msg) + extra
        m = mmap.mmap(-1, n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
        m[:len(b.msg)] = b.msg
        z = (C.c_char * n).from_buffer(m)
        a.emit.now(f"verify {s} message of {n} bytes")
        rc = a.fn(s, "verify")(b.pk, C.byref(z), C.c_size_t(n), b.sig, C.c_size_t(len(b.sig)))
        o = api.abstract(dict(op="verify", set=s, rc=rc, pk=b.pk.hex(), msg="", mid=f"{n} bytes", sig=b.sig.hex(), slen=len(b.sig), argnull=[], note=f"message followed by {extra} zeros"))
        a.emit(o)
        del z
        m.close()
    return f

def exact(s, n):
    """Verdicts with the verification of the specification run in full: honest and changed."""
    def f(a, r):
        d = comp.dims(s)
        fs = fields(d)
        pk, sk, k = api.keys(a, s)
        for i in range(n):
            m = r.randbytes(r.randrange(80))
            e = a.sign(s, sk, m, r.randbytes(d["lb"]))
            sg = bytes.fromhex(e["sig"])
            if i % 2:
                nme, o, ln = r.choice(fs)
                sg = flip(sg, o + r.randrange(ln), r)
            a.emit(("full", a.verify(s, pk, m, sg)))
    return f

def generated(ck, path):
    """Signatures computed by TLC, honest and with a wrong opened challenge, given to the real verifier."""
    r = ck.rng
    jobs = []
    def keyfor(emit):
        a = api.Api(path, emit, core.random.Random(r.random()))
        for s in sets:
            emit((s,) + api.keys(a, s)[:2])
    sets = core.SETS if ck.thorough else core.FSETS + [r.choice([s for s in core.SETS if s not in core.FSETS])]
    for s, pk, sk in core.drive(ck, keyfor):
        d = comp.dims(s)
        lb = d["lb"]
        js = [0] + ([1 << (8 * i + r.randrange(8)) for i in range(lb)] if s in core.FSETS or ck.thorough else [1 << r.randrange(8 * lb)])
        for k in js:
            jobs.append(dict(set=s, sk=sk.hex(), pk=pk.hex(), msg=r.randbytes(30).hex(), rho=r.randbytes(lb).hex(), kx=k.to_bytes(lb, "little").hex()))
    res, st = tlc.generate("GenFaest", jobs, weight=lambda j: api.COST[j["set"]])
    ck.add(states=st[0], transitions=st[1], generated_signatures=len(res))
    def replay(emit):
        a = api.Api(path, emit, core.random.Random(1))
        for j, x in res:
            v = a.verify(j["set"], bytes.fromhex(j["pk"]), bytes.fromhex(j["msg"]), bytes(x["sig"]))
            emit((j, v["rc"], v.get("dirty"), bytes(x["pk"]).hex()))
    for j, rc, dirty, pk in core.drive(ck, replay, what="replay of generated signatures"):
        honest = not int(j["kx"], 16)
        ck.add(traces_validated_against_impl=1)
        if pk != j["pk"] or dirty or (rc == 0) != honest:
            ck.violation(f"verification of a signature produced by the specification ({'honest' if honest else 'opened challenge differs by ' + j['kx']}): result {rc} {dirty or ''}", {"module": "GenFaest", "events": [j]})

def run(ck):
    ck.model("MCBind")
    path, prog = h2lib(ck)
    T = ck.thorough
    r = ck.rng
    todo = [("huge message", hugemsg("128f", 1 << 32)), ("huge message 2", hugemsg("em_128f", 1 << 31))]
    for s in core.SETS:
        c = api.COST[s]
        todo.append((f"structured {s}", structured(s, 400 if T else 350 if c < 5 else 70 if c < 20 else 14, 60 if T else 25 if c < 20 else 6, T)))
        todo.append((f"exact {s}", exact(s, 8 if T else 4 if c < 20 else 2)))
        lam = comp.dims(s)["lam"]
        def which(d, rr, c=c):
            lam = d["lam"]
            if T or c < 5:
                return list(range(lam)) + [(0, lam - 1)]
            return [8 * i + rr.randrange(8) for i in range(lam // 8)] if c < 20 else [rr.randrange(8 * i, min(lam, 8 * i + 32)) for i in range(0, lam // 8, 8)]
        todo.append((f"forged {s}", forged(s, which, prog)))
        n = comp.dims(s)["sig"]
        if T and c < 20 or s == "128f":
            step = 1600 if c < 5 else 800
            todo += [(f"every byte {s} {lo}", everybyte(s, lo, min(n, lo + step))) for lo in range(0, n, step)]
    todo.sort(key=lambda t: -sum(api.COST[s] for s in core.SETS if t[0].endswith(" " + s)))
    evs = api.jobs(ck, path, todo, timeout=600)
    ck.tick("calls")
    traces = [[e for e in l if not isinstance(e, tuple)] for l in evs]
    full = [e[1] for l in evs for e in l if isinstance(e, tuple)]
    for t in traces[2:9]:
        if len(t) > 4:
            ck.sample({k: v for k, v in t[len(t) // 2].items()})
    ck.add(verdicts=sum(e["op"] == "verify" for t in traces for e in t), full_verifications=len(full))
    ck.validate_traces("TraceApi", traces)
    ck.tick("ideal")
    ck.validate("TraceFaest", full, weight=api.weight)
    ck.tick("validation")
    generated(ck, path)
