"""C16: universal hashes against the specification (TraceComp), linearity and sensitivity on a small field (MCHash)."""
from .. import comp
from ..core import SETS
LEVEL = "model_checking"
CONFIGS = ("default", "scalar", "clang", "avx2", "o0")
ELLS = {128: (1600, 1280), 192: (3264, 2304), 256: (4000, 3584)}
NCS = {128: (200, 160), 192: (32 + 384, 288), 256: (52 + 448, 448)}

def keys(r, lam, n, zk):
    lb = lam // 8
    size = (3 if zk else 5) * lb + 8
    out = [r.randbytes(size) for _ in range(n)]
    for j in range(3 if zk else 5):            # one component zero / one component alone
        k = bytearray(r.randbytes(size)); k[j * lb:(j + 1) * lb] = bytes(lb); out.append(bytes(k))
        k = bytearray(size); k[j * lb:(j + 1) * lb] = r.randbytes(lb); out.append(bytes(k))
    out += [bytes(size), b"\xff" * size]
    return out

def vole(c, r, lam, thorough):
    lb = lam // 8
    for ell in ELLS[lam]:
        n = ell // 8 + 2 * lb + 2
        for g in (False, True):
            for k in keys(r, lam, 4, False):
                c.volehash(lam, k, r.choice((r.randbytes(n), b"\xff" * n)), ell, g)
        k = r.randbytes(5 * lb + 8)
        for i in range(n):                      # the value of every single byte
            c.volehash(lam, k, bytes(r.choice((1, 0x80, 0xff)) if j == i else 0 for j in range(n)), ell, i % 2 == 1)
        c.volehash(lam, k, bytes(n), ell, False)
        for _ in range(200 if thorough else 25):
            c.volehash(lam, r.randbytes(5 * lb + 8), r.randbytes(n), ell, r.random() < .5)

def zk(c, r, lam, ok, thorough):
    lb = lam // 8
    for one in (False, True):
        if one and "shim_uh1.c" not in ok or not one and "shim_uh.c" not in ok:
            continue
        for n in NCS[lam] + tuple(range(1, 10)):
            for k in keys(r, lam, 2, True):
                c.zkhash(lam, k, r.randbytes(n * lb), r.randbytes(lb), one)
        n = NCS[lam][0]
        k = r.randbytes(3 * lb + 8)
        for i in range(0, n, 1 if thorough else 5):
            c.zkhash(lam, k, bytes(i * lb) + r.randbytes(lb) + bytes((n - 1 - i) * lb), bytes(lb), one)
        c.zkhash(lam, k, b"\xff" * (n * lb), b"\xff" * lb, one)
        c.zkhash(lam, k, bytes(n * lb), r.randbytes(lb), one)

def run(ck):
    ck.model("MCHash", workers=4)
    jobs = []
    for lam in comp.LAMS:
        jobs.append((f"VOLE hash {lam}", lambda c, r, ok, lam=lam: "shim_uh.c" in ok and vole(c, r, lam, ck.thorough)))
        jobs.append((f"ZK hash {lam}", lambda c, r, ok, lam=lam: zk(c, r, lam, ok, ck.thorough)))
    comp.campaign(ck, ["shim_uh.c", "shim_uh1.c"], CONFIGS, jobs, weight=lambda e: 100 + len(e["x"]))
