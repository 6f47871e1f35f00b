"""C06: secrets come only from successfully obtained randomness.  Every script of the random source up to a length is
enumerated by the model KeygenSM and replayed; the results must be those of the byte-exact specification."""
import json
from .. import core, comp, api, tlc
LEVEL = "model_checking"

def replay(s, scripts, zk):
    def f(a, r):
        d = comp.dims(s)
        a.rand_seed(r.getrandbits(60))
        valid = lambda: bytes.fromhex(a.keygen(s)["sk"])
        pool = []
        for _ in range(3):
            a.rand_seed(r.getrandbits(60))
            pool.append(valid())
        bad = [i + k for p, k, i in zk if p >= 0]
        for sc in scripts:
            data, script = b"", []
            for h in sc["hist"]:
                gen = sc["op"] in ("keygen", "cs_keypair")
                if h in ("valid", "zero"):
                    data += r.randbytes(d["lb"]) if not gen else r.choice(pool) if h == "valid" else r.choice(bad)
                    script.append(0)
                else:
                    data += r.choice(pool)[:0 if h == "fail" else d["sk"] // 2 if gen else d["lb"] // 2]
                    script.append(1 if h == "fail" else 2)
            # afterwards the source works again: a hidden retry would go unnoticed without the recorded failure
            if sc["op"] in ("keygen", "cs_keypair"):
                data += r.choice(pool)
            a.rand(data, script)
            sk = r.choice(pool)
            if sc["op"] == "keygen":
                e = a.keygen(s)
            elif sc["op"] == "cs_keypair":
                e = a.cs_keypair(s)
            elif sc["op"] == "sign":
                e = a.sign(s, sk, r.randbytes(20), api="sign")
            else:
                e = a.cs_sign(s, sk, r.randbytes(20))
            e["script"] = ",".join(sc["hist"])
            n = len(a.draws())
            if n < len(script):
                e["note"] = f"only {n} draws"
            a.emit(e)
    return f

def iv(e):
    if e["rc"] == 0:
        e.update(op="signiv", iv=e["sig"][-32:], sig="")
    return e

def uses(s, T):
    """Every bit of the randomizer and of the key candidate counts."""
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        rho = r.randbytes(d["lb"])
        for i in (range(8 * d["lb"]) if T else range(d["lb"]) if api.COST[s] < 20 else range(0, d["lb"], 4)):
            j = i if T else 8 * i + r.randrange(8)
            x = bytearray(rho)
            x[j // 8] ^= 1 << j % 8
            a.rand(bytes(x))
            a.emit(iv(a.sign(s, sk, b"the message", api="sign")))
        for x in (bytes(d["lb"]), b"\xff" * d["lb"], rho):
            a.rand(x)
            a.emit(iv(a.sign(s, sk, b"the message", api="sign")))
        for i in range(200 if T else 60):
            a.rand(r.randbytes(d["sk"] * 6))
            a.emit(a.keygen(s) if i % 2 else a.cs_keypair(s))
        for _ in range(2):
            a.rand_seed(r.getrandbits(60))
            a.emit(a.sign(s, sk, r.randbytes(33), api="sign"))
            if api.COST[s] < 20:
                a.rand_seed(r.getrandbits(60))
                a.emit(a.cs_sign(s, sk, r.randbytes(33)))
    return f

def run(ck):
    T = ck.thorough
    m = ck.model("MCKeygen")
    scripts = [json.loads(json.loads(x.split('"SCRIPT", ', 1)[1][:-2])) for x in m.printed if "SCRIPT" in x]
    if len(scripts) < 10:
        raise core.ToolError("no scripts from MCKeygen: " + repr(m.printed[:3]))
    ck.add(scripts=len(scripts))
    zk = {(lam, em): comp.zero_keys(lam, em, ck.seed + 9, per=1) for lam in comp.LAMS for em in (False, True)}
    path = core.lib("default", ("shim_api.c",), tag="p")
    todo = []
    for s in core.SETS:
        d = comp.dims(s)
        todo.append((f"scripts {s}", replay(s, scripts, zk[d["lam"], d["em"]])))
        todo.append((f"use of randomness {s}", uses(s, T)))
    evs = [e for l in api.jobs(ck, path, todo) for e in l]
    ck.tick("calls")
    for e in evs[3::max(1, len(evs) // 5)]:
        ck.sample({k: v if not isinstance(v, (str, list)) or len(v) < 80 else str(v)[:80] + ".." for k, v in e.items()})
    ck.validate("TraceFaest", evs, weight=lambda e: 10 * api.weight(e) if e["op"] in ("sign", "cs_sign") else 1)
