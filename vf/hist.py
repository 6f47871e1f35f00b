"""Histories of public calls: generated by TLC from spec/MCApi, replayed against the code, checked with TraceApi."""
import json, random
from . import api, comp, core, tlc
from .core import ToolError

def generate(ck, num, depth=40, cfg="MCApiGen.cfg"):
    """num histories from the specification (seeded)."""
    r = tlc.run("MCApi", cfg, extra=("-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(1000 + ck.seed)), native=True, timeout=300)
    h = [json.loads(json.loads(x.split('"SCRIPT", ', 1)[1][:-2])) for x in r.printed if "SCRIPT" in x]
    if len(h) < num or r.violated:
        raise ToolError("no histories generated:\n" + r.out[-2000:])
    ck.add(generated_histories=len(h))
    return h[:num]

class Replay:
    """Carries out a history; the same key, message and randomizer numbers mean the same values everywhere.  Related: the values
    of different numbers (of one set) agree in all but one byte."""
    def __init__(self, a, assign, salt, related=False):
        self.a, self.assign, self.salt, self.related = a, assign, salt, related
        self.keys, self.sigs = {}, {}
        self.rng = random.Random(f"{salt}/replay")
    def val(self, *what, n):
        return random.Random(f"{self.salt}/{what}").randbytes(n)
    def kin(self, what, m, n):
        """A value that differs from its fellows in one byte."""
        b = bytearray(self.val(what, n=n))
        if n:
            b[random.Random(f"{self.salt}/{what}/at").choice((0, 1, n // 2 - 1, n // 2, n * 3 // 4, n - 2, n - 1)) % n] ^= m
        return bytes(b)
    def keykin(self, s, k):
        """Bytes to draw key pairs from: in the part that varies, one byte does."""
        d = comp.dims(s)
        h = d["pk"] // 2   # the input lies before the key
        r = random.Random(f"{self.salt}/kin")
        lo, n = r.choice(((0, h), (h, d["sk"] - h), (h, d["sk"] - h)))
        at = lo + r.choice((0, n // 2, n * 3 // 4, n - 3, n - 1))
        out = []
        for t in range(1, 64):
            b = bytearray(self.val("key", s, n=d["sk"]))
            b[at] ^= (4 * t + k) & 255
            out.append(bytes(b))
        return b"".join(out)
    def msg(self, m):
        if self.related:
            return self.kin("msg", m, random.Random(f"{self.salt}/msg").choice((1, 16, 33, 135, 169, 1000)))
        return self.val("msg", m, n=(0, 1, 33, 1000)[m] if m < 4 else 77)
    def rho(self, s, r):
        if self.related:
            return self.kin("rho", r, comp.dims(s)["lb"])
        return self.val("rho", r, n=comp.dims(s)["lb"])
    def key(self, s, k):
        """The key pair of this number (made on demand: the specification had it made)."""
        if (s, k) not in self.keys:
            self.step(dict(op="keygen", set=s, k=k), real=s)
        return self.keys[s, k]
    def put(self, e):
        self.a.emit(api.abstract(e))
        return e
    def sig(self, s, k, m, r):
        x = self.sigs.get((s, k, m, r))
        if x is None:
            self.step(dict(op="sign", k=k, m=m, r=r, api="signr"), real=s)
            x = self.sigs.get((s, k, m, r)) or bytes(comp.dims(s)["sig"])
        return x
    def step(self, c, real=None):
        a, op = self.a, c["op"]
        s = real or self.assign[c["set"]]
        d = comp.dims(s)
        r = self.rng
        if op == "keygen":
            a.rand(self.keykin(s, c["k"])) if self.related else a.rand_seed(random.Random(f"{self.salt}/key/{s}/{c['k']}").getrandbits(60))
            e = self.put(a.keygen(s) if c.get("api") != "cs" else a.cs_keypair(s))
            if e["rc"] == 0:
                self.keys[s, c["k"]] = bytes.fromhex(e["pk"]), bytes.fromhex(e["sk"])
        elif op == "sign":
            pk, sk = self.key(s, c["k"])
            m, rho = self.msg(c["m"]), self.rho(s, c["r"])
            a.rand(rho)
            if c["api"] == "cs":
                e = self.put(a.cs_sign(s, sk, m, shift=r.choice((None, None, 0, 5))))
            else:
                e = self.put(a.sign(s, sk, m, rho if c["api"] == "signr" else None, api=c["api"]))
            if e["rc"] == 0:
                self.sigs[s, c["k"], c["m"], c["r"]] = bytes.fromhex(e["sig"])
        elif op == "verify":
            pk, _ = self.key(s, c["k"])
            s2 = self.assign[c["s2"]]
            g = self.sig(s2, c["k2"], c["m2"], c["r"])
            g = g if len(g) == d["sig"] else (g * (d["sig"] // len(g) + 1))[:d["sig"]] if r.random() < .5 else g
            if r.random() < .3 and len(g) == d["sig"]:
                self.put(a.cs_open(s, pk, self.msg(c["m"]) + g, shift=r.choice((None, 0))))
            else:
                self.put(a.verify(s, pk, self.msg(c["m"]), g))
        elif op == "damaged":
            pk, _ = self.key(s, c["k"])
            g = self.sig(s, c["k"], c["m"], c["r"])
            n, how = len(g), c["how"]
            if how == "length":
                g = r.choice((g[:-1], g + b"\0", g[:n // 2], b""))
            elif how in ("random", "zero"):
                g = self.val("noise", n=n) if how == "random" else bytes(n)
            else:
                i = dict(first=0, last=n - 1, middle=r.randrange(n))[how]
                g = g[:i] + bytes([g[i] ^ (1 << r.randrange(8))]) + g[i + 1:]
            self.put(a.verify(s, pk, self.msg(c["m"]), g))
        elif op == "validate":
            self.put(a.validate(s, self.key(s, c["k"])[0], self.key(s, c["k2"])[1]))
        elif op == "clear":
            self.put(a.clear(s, self.key(s, c["k"])[1]))
        elif op == "error":
            how = c["how"]
            if how == "keyfail":
                a.rand(b"", (1,))
                self.put(a.keygen(s))
            elif how == "keynull":
                self.put(a.keygen(s, nullpk=r.random() < .5, nullsk=True))
            elif how in ("randfail", "randfail2"):
                a.rand(b"", (1,) if how == "randfail" else (2,))
                e = a.cs_sign(s, self.key(s, c["k"])[1], b"xyz") if r.random() < .5 else a.sign(s, self.key(s, c["k"])[1], b"xyz", api="sign")
                self.put(e)
            else:
                pk, sk = self.key(s, c["k"])
                if how == "nullkey":
                    self.put(a.sign(s, None, b"m", b"") if r.random() < .5 else a.verify(s, None, b"m", bytes(d["sig"])))
                elif how == "nullsig":
                    self.put(a.sign(s, sk, b"m", b"", nullsig=True) if r.random() < .5 else a.verify(s, pk, b"m", None, slen=d["sig"]))
                elif how == "nulllen":
                    self.put(a.sign(s, sk, b"m", b"", nulllen=True))
                elif how == "small":
                    self.put(a.sign(s, sk, b"m", b"", cap=r.choice((0, 1, d["sig"] - 1))))
                elif how == "short":
                    self.put(a.cs_open(s, pk, r.choice((b"", b"x", bytes(d["sig"] - 1)))))
                elif how == "cleared":
                    self.put(a.sign(s, bytes(d["sk"]), b"m", self.rho(s, 1)))
                elif how == "badkey":
                    self.put(a.validate(s, pk, bytes(d["sk"])))
    def run(self, script):
        for c in script:
            self.step(c)

def sets_for(i, cheap=True):
    """Which parameter sets play a, b and c in history i."""
    f, sl = core.FSETS, [s for s in core.SETS if s not in core.FSETS]
    r = random.Random(i)
    if cheap:
        return dict(a=f[i % 6], b=f[(i + 1 + r.randrange(5)) % 6], c=f[(i // 2) % 6])
    return dict(a=core.SETS[i % 12], b=core.SETS[(i * 5 + 1) % 12], c=r.choice(core.SETS))
