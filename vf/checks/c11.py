"""C11: the VOLE correlation and challenge decoding against the specification (TraceComp), exhaustively on a small instance (MCVole)."""
from .. import comp
from ..core import SETS
LEVEL = "model_checking"
CONFIGS = ("default", "own", "nox4", "avx2", "portable")

def volework(c, r, sets, n, thorough):
    for s in sets:
        d = comp.dims(s)
        lb = d["lb"]
        chals = [r.randbytes(lb) for _ in range(n)]
        if s in ("128f", "em_192f", "256f") or thorough:
            chals += [bytes(lb), b"\xff" * lb, bytes([0x55] * lb), bytes([1] + [0] * (lb - 1)), bytes([0] * (lb - 1) + [0x80])]
        for ch in chals:
            c.vole(s, r.randbytes(lb), r.randbytes(16), ch)
        ol = (d["t0"] * (d["k0"] + 2) + d["t1"] * (d["k1"] + 2)) * lb
        c.volerec(s, r.randbytes(16), r.randbytes(lb), r.randbytes(ol))
        c.vole(s, r.randbytes(lb), b"\xff" * 16, r.randbytes(lb))

def small(c, r, ok, thorough):
    if "shim_vole.c" in ok:
        for s in SETS:
            d = comp.dims(s)
            t = (d["k0"], d["t0"], d["k1"], d["t1"])
            chals = [r.randbytes(d["lb"]) for _ in range(3)] + [bytes(d["lb"]), b"\xff" * d["lb"]]
            chals += [bytes(1 << (b % 8) if i == b // 8 else 0 for i in range(d["lb"])) for b in (range(d["lam"]) if thorough else range(0, d["lam"], 7))]
            for n, ch in enumerate(chals):
                for i in range(d["tau"]) if n < 5 else ((n * 7) // d["k0"] % d["tau"], (n * 7) // max(1, d["k1"]) % d["tau"]):
                    c.chaldec(ch, i, *t)
            for i in (d["tau"], d["tau"] + 1, 255, 2 ** 31 - 1):
                c.chaldec(chals[0], i, *t)
    if "shim_conv.c" in ok:
        for lam in comp.LAMS:
            lb = lam // 8
            for depth in (1, 2, 3, 4, 5, 7, 8):
                for bot in (False, True):
                    n = r.choice((1, 7, 16, 17, 63, 64, 65, 130, 234, 458, 566))
                    c.convert(lam, depth, n, r.randbytes(16), r.randbytes(lb << depth), bot)
            for n in (1, 15, 16, 17, 31, 33, 47, 128, 194):
                c.convert(lam, 2, n, r.choice((r.randbytes(16), b"\xff" * 16)), r.randbytes(4 * lb), n % 2 == 0)

def weight(e):
    if e["op"] in ("vole", "volerec"):
        d = comp.dims(e["set"])
        return (d["tau"] << d["k0"]) * d["lb"] // 8
    return 200
def run(ck):
    ck.model("MCVole", workers=8, heap="4g")
    slow = [s for s in SETS if s.endswith("s")]
    fast = [s for s in SETS if s.endswith("f")]
    n = ck.q(1, 4)
    jobs = [("challenge decoding and seed conversion", lambda c, r, ok: small(c, r, ok, ck.thorough))]
    for s in SETS:
        jobs.append((f"VOLE {s}", lambda c, r, ok, s=s: "shim_vole.c" in ok and volework(c, r, [s], n * (1 if s in slow else 2), ck.thorough),
                     ("default", "nox4", "avx2", "portable") if ck.thorough or s in fast else ("default",)))
    for s in ("128f", "em_192f") if not ck.thorough else fast:          # the library's own AES is slow
        jobs.append((f"VOLE, own AES, {s}", lambda c, r, ok, s=s: "shim_vole.c" in ok and c.vole(s, r.randbytes(comp.dims(s)["lb"]), r.randbytes(16), r.randbytes(comp.dims(s)["lb"])), ("own",)))
    comp.campaign(ck, ["shim_vole.c", "shim_conv.c"], CONFIGS, jobs, weight=weight)
