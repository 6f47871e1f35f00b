"""C04: the zero-knowledge proof against the specification's circuit and QuickSilver equations (MCProof, MCRijndael, TraceComp, TraceApi)."""
from .. import api, comp, core
from ..core import SETS
LEVEL = "model_checking"
CONFIGS = ("default", "scalar", "o0", "clangown")

def edge(r, n):
    k = r.randrange(8)
    return bytes(n) if k == 0 else b"\xff" * n if k == 1 else (1).to_bytes(n, "little") if k == 2 else r.randbytes(n)

class Rel:
    """A VOLE correlation with prover and verifier on it."""
    def __init__(self, c, r, s, w, inp, outp, delta=None):
        d = comp.dims(s)
        self.c, self.s, self.d = c, s, d
        self.n = d["l"] // 8 + d["lb"]
        n, lam = self.n, d["lam"]
        self.inp, self.outp = inp, outp
        self.u, self.v = r.randbytes(n), r.randbytes(lam * n)
        self.chall = r.randbytes(3 * d["lb"] + 8)
        self.delta = delta or r.randbytes(d["lb"])
        dv = int.from_bytes(self.delta, "little")
        ui = int.from_bytes(self.u, "little")
        x = 0
        for j in range(lam):
            if dv >> j & 1:
                x |= ui << (8 * n * j)
        self.q = (int.from_bytes(self.v, "little") ^ x).to_bytes(lam * n, "little")
    def run(self, w, emit=False):
        a, b = (self.c.prove if emit else self.c.rawprove)(self.s, w, self.u, self.v, self.n, self.inp, self.outp, self.chall)
        dd = bytes(x ^ y for x, y in zip(w, self.u))
        b2 = self.c.qs(self.s, dd, self.q, self.n, self.chall, self.delta, a, self.inp, self.outp, emit=emit)
        return b, b2
    def rel(self, w, what):
        b, b2 = self.run(w)
        self.c.emit({"op": "qsrel", "set": self.s, "w": w.hex(), "in": self.inp.hex(), "out": self.outp.hex(), "b": b.hex(), "b2": b2.hex(), "what": what, "delta": self.delta.hex()})

def alter(r, b, i=None):
    i = r.randrange(len(b)) if i is None else i
    return b[:i] + bytes([b[i] ^ r.randrange(1, 256)]) + b[i + 1:]

def values(c, r, s, keys, n):
    d = comp.dims(s)
    m = d["l"] // 8 + d["lb"]
    for i in range(n):
        _, key, inp = r.choice(keys)
        length = m if i % 2 else d["hb"]
        inp = r.randbytes(d["pk"] // 2) if i % 3 else inp
        chall = edge(r, d["lb"]) + edge(r, d["lb"]) + edge(r, d["lb"]) + edge(r, 8) if i % 4 == 0 else r.randbytes(3 * d["lb"] + 8)
        c.prove(s, edge(r, d["l"] // 8), r.randbytes(m), r.randbytes(d["lam"] * length), length, inp, edge(r, d["pk"] // 2), chall)
        c.qs(s, edge(r, d["l"] // 8), r.randbytes(d["lam"] * length), length, chall, edge(r, d["lb"]) if i % 2 else r.randbytes(d["lb"]), edge(r, d["lb"]), inp, edge(r, d["pk"] // 2))

def relations(c, r, s, keys, n, full):
    d = comp.dims(s)
    for rnd in range(n):
        _, key, inp = r.choice(keys)
        box = []
        q = comp.Comp.__new__(comp.Comp)
        q.c, q.fill = c.c, c.fill
        class E:
            def __call__(self, e): box.append(e)
            def now(self, *a): pass
        q.emit = E()
        em = d["em"]
        q.owf(d["lam"], em, key, inp)
        w = q.witness(s, key, inp)
        outp = bytes.fromhex(box[0]["o"])
        rel = Rel(c, r, s, w, inp, outp)
        if rnd == 0:
            rel.run(w, emit=True)
        rel.rel(w, "right witness")
        rel.rel(alter(r, w, 0), "first byte changed")
        rel.rel(alter(r, w, len(w) - 1), "last byte changed")
        rel.rel(alter(r, alter(r, w)), "two bytes changed")
        rel.rel(r.randbytes(len(w)), "random witness")
        rel.rel(bytes(len(w)), "zero witness")
        for k2 in (1, 2):       # the witness of another key
            _, k, i2 = r.choice(keys)
            rel.rel(q.witness(s, k, inp), "witness of another key, maybe with zero S-box inputs")
        for what, i2, o2 in [("output changed", inp, alter(r, outp)), ("input changed", alter(r, inp), outp)]:
            x = Rel(c, r, s, w, i2, o2)
            x.rel(w, what)
        # block by block: a public output of which one block is right
        if d["beta"] == 2:
            x = Rel(c, r, s, w, inp, outp[:16] + r.randbytes(16)); x.rel(w, "second block wrong")
            x = Rel(c, r, s, w, inp, r.randbytes(16) + outp[16:]); x.rel(w, "first block wrong")
        # every byte of the witness
        base = Rel(c, r, s, w, inp, outp)
        b, b2 = base.run(w)
        ch = []
        for i in range(len(w)):
            for bit in (range(8) if full else r.sample(range(8), 2)):
                x = 1 << bit
                p, v = base.run(w[:i] + bytes([w[i] ^ x]) + w[i + 1:])
                ch.append(dict(pos=i, x=x, eq=p == v))
        c.emit({"op": "qssweep", "set": s, "w": w.hex(), "in": inp.hex(), "out": outp.hex(), "base": b == b2, "changes": ch})

def mismatched(s, n):
    """A proof from a key which does not match the public key."""
    def f(a, r):
        for _ in range(n):
            p1, k1, e1 = api.keys(a, s)
            p2, k2, e2 = api.keys(a, s)
            h = len(p1) // 2
            m = r.randbytes(r.randrange(64))
            e = a.sign(s, k1, m, r.randbytes(32))
            for x in (e1, e2, e):
                a.emit(api.abstract(x))
            sig = bytes.fromhex(e["sig"])
            for pk in (p1, p2, p1[:h] + p2[h:], p2[:h] + p1[h:]):
                a.emit(api.abstract(a.verify(s, pk, m, sig)))
    return f

def run(ck):
    ck.model("MCProof", workers=4)
    ck.tick("toy model")
    ck.model("MCRijndael", workers=4)
    ck.tick("circuit model")
    keys = {(lam, em): [k for k in comp.zero_keys(lam, em, ck.seed, 1, 4000) if k[0] < 0] for lam in comp.LAMS for em in (False, True)}
    jobs = []
    for s in SETS:
        d = comp.dims(s)
        ks = keys[d["lam"], d["em"]]
        def f(c, r, ok, s=s, ks=ks):
            if 'shim_qs.c' in ok: values(c, r, s, ks, ck.q(3, 24))
        def g(c, r, ok, s=s, ks=ks):
            if len(ok) == 2: relations(c, r, s, ks, ck.q(1, 4), ck.thorough)
        jobs.append((f"values {s}", f))
        jobs.append((f"relations {s}", g, CONFIGS if ck.thorough else CONFIGS[:1]))
    comp.campaign(ck, ["shim_qs.c", "shim_aes.c"], CONFIGS, jobs, weight=lambda e: len(str(e)))
    ck.tick("calls")
    todo = [(f"mismatched keys {s}", mismatched(s, ck.q(2, 12))) for s in SETS]
    tr = [evs for cfg in ("default", "scalar") for evs in api.jobs(ck, core.lib(cfg, ("shim_api.c",), tag="p"), todo)]
    ck.add(calls=sum(map(len, tr)))
    ck.validate_traces("TraceApi", tr)
    ck.tick("mismatched keys")
