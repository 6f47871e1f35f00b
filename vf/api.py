"""The public API under guard pages: inputs are mapped read-only for the duration of a call, every buffer lies against an
unmapped page (at its end or at its start), outputs have canaries on the other side.  Each call is recorded as an event
for spec/TraceFaest and spec/TraceApi."""
import ctypes as C, ctypes.util, mmap, os
from .comp import dims

libc = C.CDLL(None, use_errno=True)
libc.mmap.restype = C.c_void_p
libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]
libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
PAGE = mmap.PAGESIZE
R, W = 1, 2
CAN = bytes((i * 89 + 41) & 255 for i in range(PAGE))

class Slot:
    """size bytes of usable pages between two unmapped ones."""
    def __init__(self, size):
        self.pages = -(-size // PAGE) * PAGE
        self.map = libc.mmap(None, self.pages + 2 * PAGE, R | W, 0x22, -1, 0)
        self.base = self.map + PAGE
        libc.mprotect(self.map, PAGE, 0)
        libc.mprotect(self.base + self.pages, PAGE, 0)
    def place(self, n, end=True, gap=0):
        """Address for n bytes flush with the end (leaving gap) or the start."""
        self.n = n
        self.at = self.base + self.pages - n - gap if end else self.base + gap
        self.pre = min(self.at - self.base, 64)
        self.post = min(self.base + self.pages - self.at - n, 64)
        C.memmove(self.at - self.pre, CAN[:self.pre], self.pre)
        C.memmove(self.at + n, CAN[64:64 + self.post], self.post)
        return self.at
    def lock(self):
        libc.mprotect(self.base, self.pages, R)
    def unlock(self):
        libc.mprotect(self.base, self.pages, R | W)
    def clean(self):
        return C.string_at(self.at - self.pre, self.pre) == CAN[:self.pre] and C.string_at(self.at + self.n, self.post) == CAN[64:64 + self.post]
    def free(self):
        libc.munmap(self.map, self.pages + 2 * PAGE)

class Place:
    """How the buffers of a call are laid out."""
    def __init__(self, r=None):
        self.end, self.gap, self.fill = True, 0, 0xa5
        if r:
            self.end, self.gap, self.fill = r.random() < .7, r.choice((0, 0, 0, 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31)), r.randrange(256)
        self.r = r
    def next(self):
        if self.r:
            self.end, self.gap = self.r.random() < .7, self.r.choice((0, 0, 0, 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31))

class Api:
    def __init__(self, path, emit, rng=None):
        self.c = C.CDLL(path)
        self.emit, self.rng = emit, rng
        self.slots = {}
        self.place = Place(rng)
    def size(self, s):
        return dims(s)
    def fn(self, s, name):
        f = getattr(self.c, f"cs_{name[3:]}_{s}" if name.startswith("cs_") else f"faest_{s}_{name}")
        f.restype = C.c_int if name != "clear_private_key" else None
        return f
    # ---- buffers
    def slot(self, name, n):
        k = self.slots.get(name)
        if k is None or k.pages < n + 64:
            if k:
                k.free()
            k = self.slots[name] = Slot(max(n + 64, PAGE))
        return k
    def inp(self, name, data):
        if data is None:
            return None
        s = self.slot(name, len(data))
        self.place.next()
        a = s.place(len(data), self.place.end, self.place.gap)
        C.memmove(a, bytes(data), len(data))
        s.lock()
        self._in.append((s, bytes(data), name))
        return C.c_void_p(a)
    def out(self, name, n, init=None):
        s = self.slot(name, n)
        self.place.next()
        a = s.place(n, self.place.end, self.place.gap)
        v = init if init is not None else bytes([self.place.fill]) * n
        C.memmove(a, v, n)
        self._out[name] = (s, v)
        return C.c_void_p(a)
    def begin(self):
        self._in, self._out = [], {}
        self.c.hx_rand_mark()
    def done(self, ev):
        """Canaries and inputs; outputs that were left untouched are named."""
        bad = []
        for s, d, name in self._in:
            s.unlock()
            if C.string_at(s.at, s.n) != d or not s.clean():
                bad.append(name + " modified")
        for name, (s, v) in self._out.items():
            if not s.clean():
                bad.append("outside of " + name + " written")
        if bad:
            ev["dirty"] = ", ".join(bad)
        return ev
    def got(self, name):
        s, v = self._out[name]
        return C.string_at(s.at, s.n)
    def touched(self, name):
        return self.got(name) != self._out[name][1]
    # ---- random source
    def rand(self, data=b"", script=()):
        a = (C.c_int * max(1, len(script)))(*script)
        self.c.hx_rand_set(bytes(data), C.c_size_t(len(data)), a, len(script))
    def rand_seed(self, n):
        self.rand()
        self.c.hx_rand_seed(C.c_uint64(n))
    def draws(self):
        self.c.hx_rand_size.restype = C.c_size_t
        return [self.c.hx_rand_size(i) for i in range(min(4096, self.c.hx_rand_draws()))]
    def stream(self):
        """All bytes delivered since rand()."""
        self.c.hx_rand_log.restype = C.c_size_t
        n = self.c.hx_rand_log(None, C.c_size_t(0))
        b = C.create_string_buffer(max(1, n))
        self.c.hx_rand_log(b, C.c_size_t(n))
        return b.raw[:n]
    def failed(self):
        return bool(self.c.hx_rand_failed())
    # ---- calls; each returns the event (not yet emitted)
    def keygen(self, s, nullpk=False, nullsk=False, same=None):
        d = dims(s)
        self.begin()
        pk = None if nullpk else self.out("pk", d["pk"])
        sk = None if nullsk else self.out("sk", d["sk"])
        self.emit.now(f"keygen {s} null {nullpk, nullsk}")
        rc = self.fn(s, "keygen")(pk, sk)
        return self.done(dict(op="keygen", set=s, rc=rc, null=bool(nullpk or nullsk), stream=self.stream().hex(), fail=self.failed(),
                    pk="" if nullpk else self.got("pk").hex(), sk="" if nullsk else self.got("sk").hex(),
                    touched=[n for n in self._out if self.touched(n)]))
    def validate(self, s, pk, sk):
        self.begin()
        a, b = self.inp("pk", pk), self.inp("sk", sk)
        self.emit.now(f"validate_keypair {s} pk {pk and pk.hex()} sk {sk and sk.hex()}")
        rc = self.fn(s, "validate_keypair")(a, b)
        return self.done(dict(op="validate", set=s, rc=rc, null=pk is None or sk is None, pk=(pk or b"").hex(), sk=(sk or b"").hex()))
    def sign(self, s, sk, msg, rho=None, api="signr", cap=None, mlen=None, rlen=None, nullsig=False, nulllen=False):
        """api: signr (caller's randomness) or sign."""
        d = dims(s)
        cap = d["sig"] if cap is None else cap
        self.begin()
        n = len(msg or b"") if mlen is None else mlen
        a, m = self.inp("sk", sk), self.inp("msg", msg)
        sig = None if nullsig else self.out("sig", cap)
        sl = None if nulllen else self.out("siglen", 8, cap.to_bytes(8, "little"))
        self.emit.now(f"{api} {s} sk {sk and sk.hex()} message of {n} bytes, rho {rho and len(rho)}, capacity {cap}")
        if api == "signr":
            rl = len(rho or b"") if rlen is None else rlen
            rc = self.fn(s, "sign_with_randomness")(a, m, C.c_size_t(n), self.inp("rho", rho), C.c_size_t(rl), sig, sl)
        else:
            rl = 0
            rc = self.fn(s, "sign")(a, m, C.c_size_t(n), sig, sl)
        got = b"" if nullsig else self.got("sig")
        slv = -1 if nulllen else int.from_bytes(self.got("siglen"), "little")
        ev = self.done(dict(op="sign", set=s, api=api, rc=rc, sk=(sk or b"").hex(), msg=(msg or b"").hex(), cap=cap, siglen=min(slv, 2**31 - 1), fail=self.failed() if api == "sign" else False,
                    rho=(rho or b"").hex() if api == "signr" else self.stream().hex(), sig=got[:d["sig"]].hex() if rc == 0 else "",
                    argnull=[x for x, y in (("sk", sk is None), ("sig", nullsig), ("siglen", nulllen), ("rho", api == "signr" and rho is None and rl > 0)) if y],
                    touched=[x for x in self._out if self.touched(x)]))
        if rc == 0 and len(got) > d["sig"] and got[d["sig"]:] != self._out["sig"][1][d["sig"]:]:
            ev["dirty"] = ev.get("dirty", "") + " spare room behind the signature written"
        return ev
    def verify(self, s, pk, msg, sig, mlen=None, slen=None):
        self.begin()
        n = len(msg or b"") if mlen is None else mlen
        sn = len(sig or b"") if slen is None else slen
        a, m, g = self.inp("pk", pk), self.inp("msg", msg), self.inp("sig", sig)
        self.emit.now(f"verify {s} pk {pk and pk.hex()} message of {n} bytes, signature of {sn}")
        rc = self.fn(s, "verify")(a, m, C.c_size_t(n), g, C.c_size_t(sn))
        return self.done(dict(op="verify", set=s, rc=rc, pk=(pk or b"").hex(), msg=(msg or b"").hex(), sig=(sig or b"").hex(), slen=min(sn, 2**31 - 1),
                              argnull=[x for x, y in (("pk", pk is None), ("sig", sig is None)) if y]))
    def clear(self, s, sk):
        self.begin()
        a = self.out("sk", len(sk), sk)
        self.emit.now(f"clear_private_key {s}")
        self.fn(s, "clear_private_key")(a)
        return self.done(dict(op="clear", set=s, rc=0, sk=sk.hex(), after=self.got("sk").hex()))
    def cs_keypair(self, s):
        d = dims(s)
        self.begin()
        pk, sk = self.out("pk", d["pk"]), self.out("sk", d["sk"])
        self.emit.now(f"crypto_sign_keypair {s}")
        rc = self.fn(s, "cs_keypair")(pk, sk)
        return self.done(dict(op="keygen", set=s, api="cs", rc=rc, null=False, stream=self.stream().hex(), fail=self.failed(), pk=self.got("pk").hex(), sk=self.got("sk").hex(),
                    touched=[n for n in self._out if self.touched(n)]))
    def cs_sign(self, s, sk, msg, shift=None):
        """shift: m lies at sm + shift in one buffer (overlap); None: separate buffers."""
        d = dims(s)
        self.begin()
        n = len(msg)
        a = self.inp("sk", sk)
        sl = self.out("smlen", 8, b"\xee" * 8)
        if shift is None:
            m, sm = self.inp("msg", msg), self.out("sm", n + d["sig"])
            smo = 0
        else:
            lo = min(0, shift)
            tot = max(n + d["sig"], shift + n) - lo
            init = bytearray([self.place.fill]) * tot
            init[shift - lo:shift - lo + n] = msg
            b = self.out("sm", tot, bytes(init))
            smo = -lo
            sm, m = C.c_void_p(b.value + smo), C.c_void_p(b.value + shift - lo)
        self.emit.now(f"crypto_sign {s} sk {sk.hex()} message of {n} bytes, overlap {shift}")
        rc = self.fn(s, "cs_sign")(sm, sl, m, C.c_ulonglong(n), a)
        got = self.got("sm")
        out = got[smo:smo + n + d["sig"]]
        rest = got[:smo] + got[smo + n + d["sig"]:]
        irest = self._out["sm"][1][:smo] + self._out["sm"][1][smo + n + d["sig"]:]
        ev = self.done(dict(op="cs_sign", set=s, rc=rc, sk=sk.hex(), msg=msg.hex(), rho=self.stream().hex(), fail=self.failed(), smlen=min(int.from_bytes(self.got("smlen"), "little"), 2**31 - 1),
                            head=out[:n].hex() if rc == 0 else "", sig=out[n:].hex() if rc == 0 else "", shift=9999999 if shift is None else shift))
        if rest != irest:
            ev["dirty"] = ev.get("dirty", "") + " bytes outside the signed message written"
        return ev
    def cs_open(self, s, pk, sm, shift=None, smlen=None):
        d = dims(s)
        self.begin()
        n = len(sm) if smlen is None else smlen
        mn = max(0, n - d["sig"])
        a = self.inp("pk", pk)
        ml = self.out("mlen", 8, b"\xdd" * 8)
        if shift is None:
            smp, m = self.inp("sm", sm), self.out("m", mn)
            mo, off = 0, 0
        else:           # m lies at sm + shift
            lo = min(0, shift)
            tot = max(len(sm), shift + mn) - lo
            init = bytearray([self.place.fill]) * tot
            init[-lo:-lo + len(sm)] = sm
            b = self.out("m", tot, bytes(init))
            off = shift - lo
            smp, m = C.c_void_p(b.value - lo), C.c_void_p(b.value + off)
        self.emit.now(f"crypto_sign_open {s} input of {n} bytes, overlap {shift}")
        rc = self.fn(s, "cs_open")(m, ml, smp, C.c_ulonglong(n), a)
        got, init = self.got("m"), self._out["m"][1]
        ev = self.done(dict(op="cs_open", set=s, rc=rc, pk=pk.hex(), sm=sm.hex(), mlen=min(int.from_bytes(self.got("mlen"), "little"), 2**31 - 1), mlenset=self.touched("mlen"),
                            m=got[off:off + mn].hex() if rc == 0 else "", mtouched=got != init, shift=9999999 if shift is None else shift))
        if got[:off] + got[off + mn:] != init[:off] + init[off + mn:]:
            ev["dirty"] = ev.get("dirty", "") + " bytes outside the message written"
        return ev

class H2:
    """Programmed last challenge (harness/shim_h2.c)."""
    def __init__(self, api):
        self.c, self.api = api.c, api
    def want(self, w):
        self.c.hx_h2_want(bytes(w), C.c_size_t(len(w)))
    def mask(self, m):
        self.c.hx_h2_mask(bytes(m), C.c_size_t(len(m)))
    def off(self):
        self.c.hx_h2_off()
    def calls(self):
        return self.c.hx_h2_calls()
    def get(self, n):
        b = C.create_string_buffer(n)
        self.c.hx_h2_get(b, C.c_size_t(n))
        return b.raw
    def usable(self, s, sk, pk):
        """Does programming reach signing and verification (once each)?"""
        lb = dims(s)["lb"]
        self.want(bytes(lb))
        e = self.api.sign(s, sk, b"p", b"")
        n1, k = self.calls(), self.get(lb)
        self.mask(k)
        if e["rc"] == 0:
            self.api.verify(s, pk, b"p", bytes.fromhex(e["sig"]))
        n2 = self.calls()
        self.off()
        return n1 == 1 and n2 == 1

def keys(a, s):
    """A fresh valid key pair and its event."""
    a.rand_seed(a.rng.getrandbits(60))
    e = a.keygen(s)
    return bytes.fromhex(e["pk"]), bytes.fromhex(e["sk"]), e

def jobs(ck, path, todo, timeout=300, rng=None):
    """todo: list of (name, fn(api, rng)); run each in a child; all events (list per job)."""
    import random
    from . import core
    def mk(name, fn):
        seed = f"{ck.pid}/{name}/{ck.seed}/{ck.tier}"
        def job(emit):
            r = random.Random(seed)
            fn(Api(path, emit, r), r)
        return job, (), name
    return core.parallel(ck, [mk(n, f) for n, f in todo], timeout=timeout)

COST = {"128s": 30, "128f": 4, "192s": 80, "192f": 10, "256s": 90, "256f": 13, "em_128s": 28, "em_128f": 4, "em_192s": 75, "em_192f": 9, "em_256s": 85, "em_256f": 12}
def weight(e):
    c = COST[e["set"]]
    if e["op"] in ("sign", "cs_sign"):
        return c if e["rc"] == 0 and not e.get("argnull") else 1
    if e["op"] == "verify":
        return c if e["slen"] == dims(e["set"])["sig"] else 1
    return c if e["op"] == "cs_open" else 1

import hashlib
def vid(hexs):
    """Short name of a value: a digest (zero for all-zero keys)."""
    b = bytes.fromhex(hexs)
    return hashlib.sha256(b).hexdigest()[:14] + f"/{len(b)}"
def abstract(e):
    """An event as TraceApi wants it."""
    d = dims(e["set"])
    o = dict(op=e["op"], set=e["set"], rc=e["rc"])
    if "dirty" in e:
        o["dirty"] = e["dirty"]
    sk = lambda h: "zero" if h and not any(bytes.fromhex(h)) else vid(h)
    op = e["op"]
    if op == "keygen":
        o.update(null=e["null"], fail=e["fail"], touched=e["touched"], seed=vid(e["stream"]), pk=vid(e["pk"]), sk=sk(e["sk"]))
    elif op == "sign":
        o.update(argnull=e["argnull"], small=e["cap"] < d["sig"], fail=e["fail"], touched=e["touched"], sk=sk(e["sk"]), msg=vid(e["msg"]), rho=vid(e["rho"]),
                 sig=vid(e["sig"]), lenok=e["siglen"] == d["sig"] == len(e["sig"]) // 2, rhook=e["api"] != "sign" or len(e["rho"]) == 2 * d["lb"])
    elif op == "verify":
        o.update(argnull=e["argnull"], lenok=e["slen"] == d["sig"], pk=vid(e["pk"]), msg=e["mid"] if "mid" in e else vid(e["msg"]), sig=vid(e["sig"]))
        if "note" in e:
            o["note"] = e["note"]
    elif op == "cs_sign":
        o.update(fail=e["fail"], sk=sk(e["sk"]), msg=vid(e["msg"]), rho=vid(e["rho"]), sig=vid(e["sig"]), head=vid(e["head"]) if e["rc"] == 0 else "",
                 lenok=e["smlen"] == len(e["msg"]) // 2 + d["sig"], rhook=len(e["rho"]) == 2 * d["lb"])
    elif op == "cs_open":
        n = len(e["sm"]) // 2 - d["sig"]
        o.update(short=n < 0, pk=vid(e["pk"]), msg=vid(e["sm"][:2 * n]) if n >= 0 else "", sig=vid(e["sm"][2 * n:]) if n >= 0 else "", m=vid(e["m"]) if e["rc"] == 0 else "",
                 lenok=e["mlen"] == n, mlenset=e["mlenset"], mtouched=e["mtouched"])
        if "note" in e:
            o["note"] = e["note"]
    elif op == "validate":
        o.update(null=e["null"], pk=vid(e["pk"]), sk=sk(e["sk"]))
    elif op == "clear":
        o.update(after=sk(e["after"]))
    return o
