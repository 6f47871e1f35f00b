"""C05: only valid keys are generated; invalid keys are refused.  Keys with exactly one zero S-box input at every position."""
from .. import core, comp, api
LEVEL = "model_checking"

def flipbit(b, i):
    return b[:i // 8] + bytes([b[i // 8] ^ (1 << i % 8)]) + b[i // 8 + 1:]

def refuse(s, zk, T):
    def f(a, r):
        d = comp.dims(s)
        good = [i + k for p, k, i in zk if p < 0]
        for p, k, i in zk:
            sk = i + k
            pk = i + r.randbytes(len(i))
            if p >= 0:
                a.emit(a.validate(s, pk, sk))
                mode = r.randrange(3)
                a.rand_seed(r.getrandbits(50))
                a.emit(a.sign(s, sk, r.randbytes(9), r.randbytes(d["lb"])) if mode == 0 else a.sign(s, sk, r.randbytes(9), api="sign") if mode == 1 else a.cs_sign(s, sk, r.randbytes(9)))
        # the random source delivers unusable keys first
        bad = [i + k for p, k, i in zk if p >= 0]
        r.shuffle(bad)
        while bad:
            n = r.randrange(1, 9)
            cut, bad = bad[:n], bad[n:]
            a.rand(b"".join(cut) + (good[r.randrange(len(good))] if good and r.random() < .7 else b""))
            a.emit(a.keygen(s) if r.random() < .6 else a.cs_keypair(s))
    return f

def pairs(s, n, T, signs):
    def f(a, r):
        d = comp.dims(s)
        for i in range(n):
            a.rand_seed(r.getrandbits(60))
            k = a.keygen(s) if i % 3 else a.cs_keypair(s)
            a.emit(k)
            pk, sk = bytes.fromhex(k["pk"]), bytes.fromhex(k["sk"])
            a.emit(a.validate(s, pk, sk))
            if i < (4 if T else 1):
                for b in range(8 * len(pk)):
                    a.emit(a.validate(s, flipbit(pk, b), sk))
                for b in range(8 * len(sk)):
                    a.emit(a.validate(s, pk, flipbit(sk, b)))
            else:
                x = bytearray(pk)      # several differences that could cancel
                i1, i2 = r.sample(range(len(pk)), 2)
                v = r.randrange(1, 256)
                x[i1] ^= v
                x[i2] ^= r.choice((v, (256 - v) & 255))
                a.emit(a.validate(s, bytes(x), sk))
                a.emit(a.validate(s, bytes(len(pk)), sk))
                h = len(pk) // 2
                a.emit(a.validate(s, pk[h:] + pk[:h], sk))
                a.emit(a.validate(s, pk[:h] + r.randbytes(h), sk))
                a.emit(a.validate(s, r.randbytes(h) + pk[h:], sk))
        # special keys
        for sk in (bytes(d["sk"]), b"\xff" * d["sk"], b"\x63" * d["sk"], b"\x52" * d["sk"], bytes(d["pk"] // 2) + r.randbytes(d["lb"]), r.randbytes(d["pk"] // 2) + bytes(d["lb"])):
            a.rand(sk)
            a.emit(a.keygen(s))
            a.emit(a.validate(s, bytes(d["pk"]), sk))
            if not signs and api.COST[s] > 5:
                continue
            e = a.sign(s, sk, b"m", b"r")
            if e["rc"] == 0:
                e.update(op="signiv", iv=e["sig"][-32:], sig="")
            a.emit(e)
    return f

def run(ck):
    ck.model("MCKeygen")
    T = ck.thorough
    evs = []
    configs = ("default", "own", "clangown") if T else ("default", "own")
    zk = {}
    for lam in comp.LAMS:
        for em in (0, 1):
            zk[lam, bool(em)] = comp.zero_keys(lam, bool(em), ck.seed + 7, per=4 if T else 1)
    for cfg in configs:
        path = core.lib(cfg, ("shim_api.c",), tag="p")
        todo = []
        for s in core.SETS:
            d = comp.dims(s)
            todo.append((f"invalid keys {s}", refuse(s, zk[d["lam"], d["em"]], T)))
            todo.append((f"key pairs {s}", pairs(s, 60 if T else 12, T, cfg == "default")))
        evs += [e for l in api.jobs(ck, path, todo) for e in l]
        ck.tick("calls " + cfg)
    for e in evs[3::max(1, len(evs) // 5)]:
        ck.sample({k: v if not isinstance(v, (str, list)) or len(v) < 80 else str(v)[:80] + ".." for k, v in e.items()})
    uniq = {}
    import json
    for e in evs:
        uniq.setdefault(json.dumps(e, sort_keys=True), e)
    ck.add(calls=len(evs), zero_sbox_positions=sum(len({p for p, _, _ in v if p >= 0}) for v in zk.values()))
    ck.cov["configurations"] = list(configs)
    ck.validate("TraceFaest", list(uniq.values()), weight=lambda e: 1 + len(e.get("stream", "")) // 96)
