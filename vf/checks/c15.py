"""C15: block ciphers, one-way functions and extended witnesses against the specification's Rijndael (TraceComp)."""
from .. import comp
from ..core import SETS
LEVEL = "model_checking"
CONFIGS = ("default", "own", "clangown", "o0", "scalar", "ndebug")
CIPH = ((16, 16), (24, 16), (32, 16), (24, 24), (32, 32))

def ciphers(c, r, thorough):
    for w, (k, n) in enumerate(CIPH):
        for i in range(60 if thorough else 16):
            c.cipher(w, r.randbytes(k), r.randbytes(n))
        for v in (0, 1, 0x52, 0x63, 0xff):
            c.cipher(w, bytes([v]) * k, bytes([v]) * n)
        for i in range(0, 256, 1 if thorough else 4):
            c.cipher(w, bytes(k), bytes((i + j) % 256 for j in range(n)))
        for i in range(n):
            c.cipher(w, r.randbytes(k), bytes(0x80 if j == i else 0 for j in range(n)))
        for i in range(k):
            c.cipher(w, bytes(0x80 if j == i else 0 for j in range(k)), bytes(n))

def owfs(c, r, lam, em, keys):
    for pos, k, i in keys:
        c.owf(lam, em, k, i)
    for _ in range(30):
        c.owf(lam, em, r.randbytes(lam // 8), r.randbytes(len(keys[0][2])))

def witnesses(c, r, keys, n):
    for s in SETS:
        d = comp.dims(s)
        good = [x for x in keys[d["lam"], d["em"]] if x[0] < 0]
        for _, k, i in r.sample(good, n):
            c.witness(s, k, i)

def run(ck):
    ck.model("MCRijndael", workers=4)
    keys = {(lam, em): comp.zero_keys(lam, em, ck.seed, ck.q(1, 3), ck.q(60000, 300000)) for lam in comp.LAMS for em in (False, True)}
    jobs = [("block ciphers", lambda c, r, ok: ciphers(c, r, ck.thorough)), ("extended witnesses", lambda c, r, ok: witnesses(c, r, keys, ck.q(6, 18)))]
    for (lam, em), ks in keys.items():
        jobs.append((f"one-way function {lam} {em}", lambda c, r, ok, lam=lam, em=em, ks=ks: owfs(c, r, lam, em, ks)))
    ck.add(crafted_zero_positions=sum(len({p for p, _, _ in k if p >= 0}) for k in keys.values()))
    comp.campaign(ck, ["shim_aes.c"], CONFIGS, jobs)
