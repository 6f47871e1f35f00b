"""C23: request sequences enumerated by MCDrbg (and longer random ones) replayed against tools/rng.c; outputs against spec/Drbg (TraceDrbg)."""
import ctypes as C, hashlib, json, os, random
from .. import api, core
from ..core import fbuild
LEVEL = "model_checking"

def compile_(cc, opt):
    h = fbuild.HARNESS
    src = open(f"{fbuild.REPO}/tools/rng.c").read() + open(f"{fbuild.REPO}/tools/rng.h").read() + open(f"{h}/shim_drbg.c").read()
    out = f"{fbuild.BUILD}/drbg-" + hashlib.sha256((fbuild.tree_hash() + cc + opt + src).encode()).hexdigest()[:16]
    os.makedirs(out, exist_ok=True)
    base = [cc, "-std=c11", opt, "-g", "-w", "-fPIC", "-DHAVE_OPENSSL", f"-I{fbuild.REPO}", f"-I{h}"]
    fbuild.run(base + ["-c", f"{fbuild.REPO}/tools/rng.c", "-o", f"{out}/r.o"])
    fbuild.run(base + ["-c", f"{h}/shim_drbg.c", "-o", f"{out}/s.o"])
    fbuild.run([cc, "-shared", "-Wl,-Bsymbolic", "-o", f"{out}/lib.so", f"{out}/r.o", f"{out}/s.o", "-lcrypto"])
    return f"{out}/lib.so"

# AES-256 under the zero key of 1, 2, 3: what instantiation adds the seed to
def base_block():
    from ctypes import util
    lc = C.CDLL(util.find_library("crypto") or "libcrypto.so.3")
    lc.EVP_CIPHER_CTX_new.restype = C.c_void_p
    lc.EVP_aes_256_ecb.restype = C.c_void_p
    x = C.c_void_p(lc.EVP_CIPHER_CTX_new())
    lc.EVP_EncryptInit_ex(x, C.c_void_p(lc.EVP_aes_256_ecb()), None, bytes(32), None)
    out, n = C.create_string_buffer(64), C.c_int()
    lc.EVP_EncryptUpdate(x, out, C.byref(n), b"".join(i.to_bytes(16, "big") for i in (1, 2, 3)), 48)
    lc.EVP_CIPHER_CTX_free(x)
    return out.raw[:48]

class D:
    def __init__(self, path, emit, r):
        self.c, self.emit, self.r = C.CDLL(path), emit, r
        self.slot, self.a, self.b = api.Slot(1 << 17), api.Slot(4096), api.Slot(4096)
    def init(self, entropy, pers):
        pa = self.a.place(48, True, 0)
        C.memmove(pa, entropy, 48)
        self.a.lock()
        pb = None
        if pers is not None:
            pb = self.b.place(48, True, 0)
            C.memmove(pb, pers, 48)
            self.b.lock()
        self.emit.now("randombytes_init")
        self.c.hx_init(C.c_void_p(pa), C.c_void_p(pb) if pb else None, self.r.choice((256, 128, 0)))
        self.a.unlock(); self.b.unlock()
        e = dict(op="init", entropy=entropy.hex(), pers=pers.hex() if pers is not None else "")
        self.emit(e)
    def random(self, n):
        p = self.slot.place(n, self.r.random() < .7, self.r.choice((0, 0, 1, 5)))
        C.memset(p, 0xa5, n)
        self.emit.now(f"randombytes of {n} bytes")
        rc = self.c.hx_random(C.c_void_p(p), C.c_ulonglong(n))
        e = dict(op="random", n=n, rc=rc, out=C.string_at(p, n).hex())
        if not self.slot.clean():
            e["dirty"] = "bytes outside the buffer"
        self.emit(e)

def drive(emit, path, scripts, seed, base, T):
    r = random.Random(f"C23/{seed}")
    d = D(path, emit, r)
    def seedfor(v):       # entropy that gives counter v
        want = r.randbytes(32) + v
        return bytes(a ^ b for a, b in zip(want, base))
    def counters():
        for i in range(16):
            yield r.randbytes(15 - i) + b"\xff" * (i + 1)                      # carries through i + 1 bytes
            for k in (1, 2, 3, 4, 5):                                            # the carry falls into a later block
                yield ((int.from_bytes(r.randbytes(15 - i) + b"\xff" * (i + 1), "big") - k) % 2**128).to_bytes(16, "big")
            yield r.randbytes(15 - i) + b"\xff" * i + b"\xfe"
        yield bytes(16)
        yield b"\xff" * 16
    cs = list(counters())
    for i, s in enumerate(scripts):
        e = seedfor(cs[i % len(cs)])
        if i % 3 == 0:
            p = r.randbytes(48)
            d.init(bytes(a ^ b for a, b in zip(e, p)), p)
        else:
            d.init(e, None)
        for n in s:
            d.random(n)
    for v in cs:
        d.init(seedfor(v), None)
        for n in (7 * 16, 16, 1):
            d.random(n)
    # long histories; also without instantiation in between
    for k in range(40 if T else 10):
        p = None if k % 4 < 2 else r.randbytes(48) if k % 4 == 2 else bytes(48)
        d.init(r.randbytes(48) if k else bytes(48), p)
        for _ in range(60):
            d.random(r.choice((r.randrange(0, 64), r.randrange(0, 64), 48, 32, 24, 16, r.randrange(0, 700), 33 * (k + 1))))
        if k % 5 == 0:
            d.random(r.choice((4096, 65535, 65536, 40000)))
            d.random(16)

def run(ck):
    T = ck.thorough
    m = ck.model("MCDrbg", workers=4)
    scripts = sorted(json.loads(json.loads(x.split('"SCRIPT", ', 1)[1][:-2])) for x in m.printed if "SCRIPT" in x)
    scripts = [x for i, x in enumerate(scripts) if not i or x != scripts[i - 1]]
    if len(scripts) < 500:
        raise core.ToolError("no request sequences from MCDrbg")
    ck.add(scripts=len(scripts))
    base = base_block()
    traces = []
    for cc, opt in (("gcc", "-O2"), ("clang", "-O3")):
        p = compile_(cc, opt)
        evs = core.drive(ck, drive, p, scripts, ck.seed, base, T, what="calls of the generator")
        ck.add(calls=len(evs))
        cut = [i for i, e in enumerate(evs) if e["op"] == "init"] + [len(evs)]
        step = -(-len(cut) // 6)
        bounds = cut[::step] + [len(evs)]
        traces += [evs[a:b] for a, b in zip(bounds, bounds[1:]) if b > a]
    ck.sample([core.brief(e) for e in traces[0][:6]] if traces else [])
    ck.validate_traces("TraceDrbg", traces)
