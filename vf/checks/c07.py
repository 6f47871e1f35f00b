"""C07: the argument contract (every call enumerated by ApiArgs, replayed) and the memory footprint (guard pages, read-only
inputs, canaries, all alignments)."""
import json
from .. import core, comp, api
LEVEL = "model_checking"

def scripts_of(res):
    return [json.loads(json.loads(x.split('"SCRIPT", ', 1)[1][:-2])) for x in res.printed if "SCRIPT" in x]

def contract(s, scripts, part, of):
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        a.emit(("f", k))
        msgs = {"null0": None, "empty": b"", "some": r.randbytes(37)}
        sigs = {}
        for m in ("null0", "some"):
            e = a.sign(s, sk, msgs[m], b"abc")
            a.emit(("f", e))
            sigs[m] = bytes.fromhex(e["sig"])
        sigs["empty"] = sigs["null0"]
        caps = {"0": 0, "1": 1, "half": d["sig"] // 2, "short": d["sig"] - 1, "exact": d["sig"], "more": d["sig"] + 77, "huge": d["sig"] + 100000}
        for n, sc in enumerate(scripts):
            if n % of != part:
                continue
            c = sc["call"]
            a.rand_seed(r.getrandbits(60))
            if c["fn"] == "keygen":
                e = a.keygen(s, c["pk"] == "null", c["sk"] == "null")
            elif c["fn"] == "validate":
                e = a.validate(s, pk if c["pk"] == "given" else None, sk if c["sk"] == "given" else None)
            elif c["fn"] in ("sign", "signr"):
                rho = {"null0": None, "nulln": None, "empty": b"", "some": r.randbytes(9)}[c.get("rho", "null0")]
                e = a.sign(s, sk if c["sk"] == "given" else None, msgs[c["msg"]], rho, api=c["fn"], cap=caps[c["cap"]], nullsig=c["sig"] == "null", nulllen=c["siglen"] == "null",
                           rlen=r.choice((1, 5, d["lb"])) if c.get("rho") == "nulln" else None)
            else:
                g = sigs[c["msg"]]
                ln = {"0": 0, "1": 1, "half": d["sig"] // 2, "short": d["sig"] - 1, "exact": d["sig"], "long": d["sig"] + 1, "wrap32": d["sig"] + (1 << 32), "wrap16": d["sig"] + 65536, "max": (1 << 64) - 1}[c["len"]]
                real = g if ln >= d["sig"] else g[:ln]
                if c["len"] == "long":
                    real = g + b"\0"
                e = a.verify(s, pk if c["pk"] == "given" else None, msgs[c["msg"]], None if c["sig"] == "null" else real, slen=ln)
            e["call"] = " ".join(f"{x}={y}" for x, y in c.items())
            if (e["rc"] != 0) != sc["error"] or (sc["error"] and e["rc"] >= 0):
                e["mismatch"] = 1
            a.emit(("f", e))
    return f

class Fixed:
    """Chosen alignment and direction."""
    def __init__(self, end, gap, fill):
        self.end, self.gap, self.fill = end, gap, fill
    def next(self):
        pass

def placement(s, n):
    """The same calls with all kinds of placements: the ideal specification demands the same result."""
    def f(a, r):
        d = comp.dims(s)
        a.rand_seed(3)
        pk, sk, k = api.keys(a, s)
        a.emit(api.abstract(k))
        m, rho = r.randbytes(100), r.randbytes(d["lb"])
        sig = None
        for i in range(n):
            a.place = Fixed(bool(i % 2), i // 2 % 33, (0, 255, 0xa5, i)[i % 4]) if i % 3 else api.Place(r)
            e = a.sign(s, sk, m, rho, cap=d["sig"] + (0, 0, 1, 4096)[i % 4])
            a.emit(api.abstract(e))
            sig = sig or bytes.fromhex(e["sig"])
            a.emit(api.abstract(a.verify(s, pk, m, sig)))
            e = a.validate(s, pk, sk)
            a.emit(api.abstract(e))
            bad = bytearray(sig)
            bad[r.randrange(len(bad))] ^= 1 + r.randrange(255)
            a.emit(api.abstract(a.verify(s, pk, m, bytes(bad))))
            if i % 4 == 0:
                p2, s2, k2 = api.keys(a, s)
                a.emit(api.abstract(k2))
                c = a.cs_sign(s, sk, m)
                a.emit(api.abstract(c))
                a.emit(api.abstract(a.cs_open(s, pk, bytes.fromhex(c["head"] + c["sig"]))))
                a.emit(api.abstract(a.clear(s, s2)))
    return f

def run(ck):
    T = ck.thorough
    scripts = scripts_of(ck.model("ApiArgs"))
    ck.add(argument_combinations=len(scripts))
    # what has to be computed in full (accepted calls) is expensive for some sets: keep all errors, and some of the others there
    def pick(s):
        if api.COST[s] < 5 or T:
            return scripts
        ok = [x for x in scripts if not x["error"]]
        keep = ck.rng.sample(ok, 10 if api.COST[s] < 20 else 4)
        return [x for x in scripts if x["error"]] + keep
    for cfg in ("default", "nox4", "portable") if T else ("default",):
        path = core.lib(cfg, ("shim_api.c",), tag="p")
        todo = [(f"contract {s}", contract(s, pick(s), 0, 1)) for s in core.SETS]
        todo += [(f"placement {s}", placement(s, 66 if T or api.COST[s] < 5 else 12 if api.COST[s] < 20 else 3)) for s in core.SETS]
        evs = api.jobs(ck, path, todo)
        ck.tick("calls")
        fs = [x[1] for l in evs for x in l if isinstance(x, tuple)]
        for e in fs:
            if e.get("mismatch"):
                ck.violation(f"call {e['call']} for {e['set']} returned {e['rc']}", e)
        for e in fs[3::max(1, len(fs) // 5)]:
            ck.sample({k: v if not isinstance(v, (str, list)) or len(v) < 80 else str(v)[:80] + ".." for k, v in e.items()})
        # accepted calls of the expensive kind are validated through the ideal specification, a share byte for byte
        errs = [e for e in fs if e["op"] in ("keygen", "validate") or e["rc"] != 0]
        oks = [e for e in fs if e["op"] in ("sign", "verify") and e["rc"] == 0]
        ck.validate("TraceFaest", errs + (oks if T else ck.rng.sample(oks, min(len(oks), 60))), weight=api.weight)
        ck.tick("bytes")
        tr = [[api.abstract(x[1]) for x in l if isinstance(x, tuple)] for l in evs] + [[x for x in l if not isinstance(x, tuple)] for l in evs]
        ck.validate_traces("TraceApi", tr)
        ck.tick("ideal")
