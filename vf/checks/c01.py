"""C01: honest signatures verify: exhaustively on the toy instance (MCToy), in volume on the code (TraceApi), with the last challenge
programmed to every extreme value."""
from .. import api, comp, core
from . import c02
LEVEL = "model_checking"

def lengths(r):
    return r.choice((r.randrange(600), r.randrange(600), r.choice((0, 1, 31, 32, 33, 135, 136, 137, 167, 168, 169, 255, 256, 257, 4095, 4096, 4097)), r.randrange(20000)))

def volume(s, n, per):
    """n honest signatures, a new key after every few."""
    def f(a, r):
        d = comp.dims(s)
        em = lambda e: (a.emit(api.abstract(e)), e)[1]
        for i in range(n):
            if i % per == 0:
                a.rand_seed(r.getrandbits(60))
                k = em(a.keygen(s) if i % (2 * per) else a.cs_keypair(s))
                pk, sk = bytes.fromhex(k["pk"]), bytes.fromhex(k["sk"])
                em(a.validate(s, pk, sk))
            m = r.randbytes(lengths(r))
            if i == 1:
                m = r.randbytes(1 << 20)
            kind = i % 5
            if kind == 0:
                a.rand_seed(r.getrandbits(60))
                e = em(a.cs_sign(s, sk, m, shift=r.choice((None, 0))))
            elif kind == 1:
                a.rand_seed(r.getrandbits(60))
                e = em(a.sign(s, sk, m, api="sign"))
            else:
                e = em(a.sign(s, sk, m or None, r.choice((None, b"", r.randbytes(d["lb"]), bytes(d["lb"]), r.randbytes(r.randrange(300))))))
            if e["rc"]:
                continue
            sig = bytes.fromhex(e["sig"])
            em(a.cs_open(s, pk, m + sig, shift=r.choice((None, 0, 3))) if (i + i // 5) % 4 == 0 else a.verify(s, pk, m, sig))
    return f

def programmed(s, n):
    """Every honest signature verifies whatever the last challenge is: extreme values of the tree indices."""
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        a.emit(api.abstract(k))
        h = api.H2(a)
        if not h.usable(s, sk, pk):
            return
        todo = c02.challenges(r, d)
        # each repetition alone at zero, at its last leaf, and at a random one
        pos = 0
        for i in range(d["tau"]):
            w = d["k0"] if i < d["t0"] else d["k1"]
            for v in (0, (1 << w) - 1):
                x = r.getrandbits(d["lam"]) & ~(((1 << w) - 1) << pos) | v << pos
                todo.append(x.to_bytes(d["lb"], "little"))
            pos += w
        for i in range(d["lb"]):        # each byte alone
            todo.append(bytes(r.choice((0xff, 1, 0x80)) if j == i else 0 for j in range(d["lb"])))
        r.shuffle(todo)
        for w in todo[:n]:
            h.want(w)
            m, rho = r.randbytes(r.randrange(200)), r.randbytes(d["lb"])
            e = a.sign(s, sk, m, rho)
            kx = h.get(d["lb"])
            h.mask(kx)
            v = a.verify(s, pk, m, bytes.fromhex(e["sig"])) if e["rc"] == 0 else None
            h.off()
            for x in (e, v):
                if x:
                    x = api.abstract(x)
                    x["programmed"] = w.hex()
                    a.emit(x)
    return f

def run(ck):
    T = ck.thorough
    ck.model("MCToy", workers=8)
    ck.tick("toy instance")
    for cfg in ("default", "scalar", "avx2", "ndebug", "own") if T else ("default", "avx2"):
        first = cfg == "default"
        if first:
            path, prog = c02.h2lib(ck)
        else:
            path, prog = core.lib(cfg, **c02.PLAIN), False
        budget = (1500 if first else 300) if T else (250 if first else 40)     # rough milliseconds of signing per set, in units of COST
        todo = []
        for s in sorted(core.SETS, key=lambda s: -api.COST[s]):
            c = api.COST[s] * (20 if cfg == "own" else 1)
            n = max(2, int(budget * 4 / c))
            todo.append((f"volume {s} {cfg}", volume(s, n, 3 if c < 20 else 2)))
            if prog:
                todo.append((f"challenges {s}", programmed(s, 1000 if T else max(4, min(200, int(600 / c))))))
        evs = api.jobs(ck, path, todo, timeout=800)
        ck.tick(f"calls {cfg}")
        ck.add(calls=sum(map(len, evs)), programmed_challenges=sum("programmed" in e for l in evs for e in l) // 2,
               honest_signatures=sum(e["op"] in ("sign", "cs_sign") for l in evs for e in l))
        ck.sample(evs[0][3])
        ck.validate_traces("TraceApi", evs)
        ck.tick(f"ideal {cfg}")
