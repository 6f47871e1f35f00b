"""C10: vector commitments against the specification (TraceComp), and the tree's secrecy structure (MCVc)."""
from .. import comp
LEVEL = "model_checking"
CONFIGS = ("default", "own", "nox4", "avx2", "portable")

def drive(c, r, lam, thorough):
    lb = lam // 8
    kinds = ("pdec", "com", "iv", "idx")
    for depth in range(1, 8):
        n = 1 << depth
        c.vc(lam, depth, r.randbytes(lb), r.randbytes(16), range(n) if depth < 6 or thorough else r.sample(range(n), 12) + [0, n - 1],
             [(r.randrange(n), k) for k in kinds], r)
        for i in (0, 1, n - 1, n, n + 1, r.randrange(n)):
            c.bitdec(i, depth)
    used = {128: (8, 11, 12), 192: (8, 12), 256: (8, 11, 12)}[lam]
    for depth in used:
        n = 1 << depth
        some = sorted({0, 1, 2, n // 2 - 1, n // 2, n - 2, n - 1} | set(r.sample(range(n), 10 if depth == 8 else 3)))
        c.vc(lam, depth, r.randbytes(lb), r.randbytes(16), range(n) if thorough and depth == 8 else some if depth == 8 or thorough else some[::3],
             [(r.randrange(n), k) for k in kinds], r)
        for i in list(range(0, n, 1 if thorough else 37)) + [n - 1, n, n + 1, 2 * n - 1]:
            c.bitdec(i, depth)
    # special roots and counters
    for root, iv in ((bytes(lb), bytes(16)), (b"\xff" * lb, b"\xff" * 16), (r.randbytes(lb), b"\xff" * 16), (r.randbytes(lb), b"\x00" * 15 + b"\xff")):
        c.vc(lam, 3, root, iv, range(8), [(r.randrange(8), k) for k in kinds], r)

def run(ck):
    ck.model("MCVc")
    comp.campaign(ck, ["shim_vc.c"], CONFIGS, [(f"vector commitments {lam}", lambda c, r, ok, lam=lam: drive(c, r, lam, ck.thorough)) for lam in comp.LAMS],
                  weight=lambda e: (2 ** e["depth"]) * (2 + len(e.get("recs", ()))) if e["op"] == "vc" else 1)
