"""C09: the helper functions in every variant the preprocessor can choose, and key erasure, against spec/Helpers (TraceHelp)."""
import ctypes as C, hashlib, os, random, subprocess
from .. import api, comp, core
from ..core import fbuild
LEVEL = "model_checking"
FULL = "#define HAVE_ALIGNED_ALLOC\n#define HAVE_EXPLICIT_BZERO\n"
# variant -> (contents of config.h or None, other flags)
VARIANTS = {
    "configured": (FULL, []),
    "autodetected": (None, ["-std=c11", "-D_DEFAULT_SOURCE"]),
    "fallbacks": ("", []),
    "memalign": ("#define HAVE_MEMALIGN\n", []),
    "posix_memalign": ("#define HAVE_POSIX_MEMALIGN\n", []),
    "consttime_memequal": (FULL + "#define HAVE_CONSTTIME_MEMEQUAL\nint consttime_memequal(const void*, const void*, unsigned long);\n", []),
    "unknown compiler": ("", ["-DNOEXT"]),
    "unknown compiler, big endian": ("", ["-DNOEXT", "-DBIG"]),
}

def compile_(ck, name, cc, opt):
    cfg, flags = VARIANTS[name]
    h = fbuild.HARNESS
    src = open(f"{h}/shim_compat.c").read() + open(f"{h}/noext.h").read()
    out = f"{fbuild.BUILD}/help-" + hashlib.sha256((fbuild.tree_hash() + name + cc + opt + src).encode()).hexdigest()[:16]
    os.makedirs(out + "/cfg", exist_ok=True)
    base = [cc, "-std=gnu11", opt, "-g", "-w", "-fPIC", "-fno-builtin"]
    if cfg is not None:
        fbuild.write(f"{out}/cfg/config.h", "#pragma once\n" + cfg)
        base += ["-DHAVE_CONFIG_H", f"-I{out}/cfg"]
    base += [f"-I{fbuild.REPO}", f"-I{h}"] + flags
    try:
        pre = ["-include", f"{h}/noext.h"] if "-DNOEXT" in flags else []
        fbuild.run(base + pre + ["-c", f"{fbuild.REPO}/compat.c", "-o", f"{out}/c.o"])
        fbuild.run(base + ["-c", f"{h}/shim_compat.c", "-o", f"{out}/s.o"])
        fbuild.run([cc, "-shared", "-Wl,-Bsymbolic", "-Wl,--no-undefined", "-o", f"{out}/lib.so", f"{out}/c.o", f"{out}/s.o"])
    except fbuild.BuildError as e:
        ck.cov.setdefault("skipped", []).append(f"{name} {cc}: {str(e)[-300:]}")
        return None
    return f"{out}/lib.so"

def helpers(emit, path, name, seed, T):
    c = C.CDLL(path)
    r = random.Random(f"{seed}/{name}")
    v = dict(variant=name)
    emit.now(f"bit helpers of {name}")
    emit(dict(op="parity", w=list(range(256)), r=[c.hx_parity(i) for i in range(256)], **v))
    for k in range(0, 9 if not T else 40):
        emit(dict(op="rot", c=k, l=[c.hx_rotl(i, k) for i in range(256)], r=[c.hx_rotr(i, k) for i in range(256)], **v))
    c.hx_clz.restype = c.hx_ceil_log2.restype = C.c_uint32
    ws = {x & 0xffffffff for k in range(33) for d in (-2, -1, 0, 1, 2) for x in ((1 << k) + d,)} | set(range(300)) | {r.getrandbits(r.randrange(1, 33)) for _ in range(4000 if T else 400)}
    for w in sorted(ws):
        emit(dict(op="clz", w=w.to_bytes(4, "little").hex(), clz=c.hx_clz(C.c_uint32(w)), log=c.hx_ceil_log2(C.c_uint32(w)), **v))
    ed = [0, 1, 2, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1]
    for x in ed + [r.getrandbits(64) for _ in range(6)]:
        for y in ed + [x, (x + 1) % 2**64, (x - 1) % 2**64, r.getrandbits(r.randrange(1, 65))]:
            d = C.c_uint64()
            rc = c.hx_sub(C.c_uint64(x), C.c_uint64(y), C.byref(d))
            emit(dict(op="sub", x=x.to_bytes(8, "little").hex(), y=y.to_bytes(8, "little").hex(), d=d.value.to_bytes(8, "little").hex(), rc=rc & 255, **v))
    for bits in (16, 32, 64):
        for _ in range(60):
            w = r.randbytes(bits // 8) if r.random() < .6 else bytes(r.choice((0, 1, 127, 128, 255)) for _ in range(bits // 8))
            o = [C.create_string_buffer(8) for _ in range(5)]
            c.hx_order(bits, w, *o)
            be, le, sw, be2, le2 = (x.raw[:bits // 8].hex() for x in o)
            for b, l in ((be, le), (be2, le2)):
                emit(dict(op="order", big="big" in name, w=w.hex(), be=b, le=l, swap=sw, **v))
    for n in (1, 2, 5, 16):
        w = r.randbytes(n)
        g, s = (C.c_int * (8 * n))(), C.create_string_buffer(n)
        c.hx_bits(w, n, g, s)
        emit(dict(op="bits", w=w.hex(), get=list(g), set=s.raw.hex(), **v))
    sa, sb, so = api.Slot(8192), api.Slot(8192), api.Slot(8192)
    for n in list(range(0, 70)) + [127, 128, 255, 256, 257, 1000, 4097]:
        a, b, k = r.randbytes(n), r.randbytes(n), r.randrange(256) | 1
        pa, pb, po = sa.place(n, r.random() < .5), sb.place(n, r.random() < .5), so.place(n, r.random() < .5)
        C.memmove(pa, a, n); C.memmove(pb, b, n)
        o = []
        for f in (lambda: c.hx_xor(C.c_void_p(pa), C.c_void_p(pb), C.c_void_p(po), C.c_size_t(n)),
                  lambda: c.hx_mxor(C.c_void_p(pa), C.c_void_p(pb), C.c_void_p(po), k & 254, C.c_size_t(n)),
                  lambda: c.hx_mxor(C.c_void_p(pa), C.c_void_p(pb), C.c_void_p(po), k, C.c_size_t(n))):
            C.memset(po, 0xa5, n)
            f()
            o.append(C.string_at(po, n).hex())
        x = dict(op="xor", a=a.hex(), b=b.hex(), o=o[0], m0=o[1], m1=o[2], **v)
        if not (sa.clean() and sb.clean() and so.clean()):
            x["dirty"] = "bytes outside the buffers"
        emit(x)
        emit.now(f"explicit_bzero of {n} bytes, {name}")
        for end in (True, False):
            p = sa.place(n, end, r.choice((0, 1, 3, 8)))
            C.memset(p, 0x5a, n)
            c.hx_bzero(C.c_void_p(p), C.c_size_t(n))
            emit(dict(op="bzero", n=n, o=C.string_at(p, n).hex(), outside=not sa.clean(), **v))
    # comparison: every position and difference, differences that could cancel
    def cmp(a, b):
        n = len(a)
        pa, pb = sa.place(n, r.random() < .8, r.choice((0, 0, 1, 2, 3))), sb.place(n, r.random() < .8, r.choice((0, 0, 1, 2, 3)))
        C.memmove(pa, a, n); C.memmove(pb, b, n)
        rc = c.hx_bcmp(C.c_void_p(pa), C.c_void_p(pb), C.c_size_t(n))
        emit(dict(op="bcmp", a=a.hex(), b=b.hex(), rc=0 if rc == 0 else 1, **v))
    emit.now(f"comparison of {name}")
    for n in list(range(0, 66)) + [100, 127, 128, 129, 255, 256, 257, 300]:
        a = r.randbytes(n)
        cmp(a, a)
        for i in range(n) if n <= 66 else sorted({0, n - 1, n // 2, 63, 64, 127, 128} & set(range(n))):
            cmp(a, a[:i] + bytes([a[i] ^ (1 << r.randrange(8) if r.random() < .5 else r.randrange(1, 256))]) + a[i + 1:])
    n = 32
    a = r.randbytes(n)
    for d in range(1, 256):
        i = r.randrange(n)
        cmp(a, a[:i] + bytes([a[i] ^ d]) + a[i + 1:])
    for t in range(2000 if T else 400):
        n = r.choice((2, 3, 4, 8, 16, 24, 32, 33, 48, 64))
        a = bytearray(r.randbytes(n) if t % 3 else bytes(r.choice((0, 128, 255)) for _ in range(n)))
        b = bytearray(a)
        k = t % 6
        if k == 0:                                          # differences that cancel in a sum, a xor, a difference of sums, a word
            i, j = r.sample(range(n), 2)
            d = r.randrange(1, 256)
            b[i] ^= d; b[j] ^= d
        elif k == 1:
            i, j = r.sample(range(n), 2)
            d = r.randrange(1, 256)
            b[i] ^= d; b[j] ^= 256 - d
        elif k == 2:
            i, j = r.sample(range(n), 2)
            d = r.randrange(1, 256)
            b[i] = (b[i] + d) & 255; b[j] = (b[j] - d) & 255
        elif k == 3:
            r.shuffle(b)
        elif k == 4:
            b = bytearray(x ^ 0x80 for x in a) if r.random() < .5 else bytearray(x ^ 0xff for x in a)
        else:
            h = n // 2
            b[:h], b[h:2 * h] = a[h:2 * h], a[:h]
        cmp(bytes(a), bytes(b))

def alloc(emit, path, name, seed, T):
    c = C.CDLL(path)
    r = random.Random(f"{seed}/{name}/alloc")
    als = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 4096] + [3, 5, 6, 7, 12, 24, 48, 96, 100, 2**63 + 1, 2**64 - 1, 2**64 - 8]
    sizes = [1, 2, 7, 8, 15, 16, 24, 31, 32, 48, 64, 96, 100, 128, 160, 256, 1024, 4096, 12288] + [2**64 - k for k in (1, 2, 4, 7, 8, 9, 15, 16, 17, 32, 64, 128, 256, 4096)] + [2**63, 2**63 - 16, 2**62, 2**48]
    for al in als:
        for size in sizes + [al * k for k in (1, 2, 3, 5, 17) if 0 < al * k < 2**19] + ([0] if not al else []):
            # room: alignment above what the block distance byte can say is refused by one variant
            for off in ([16 * i for i in range(0, 17)] if al <= 512 and size < 2**20 and (T or size <= 64) else [0, 16, 240]):
                o = (C.c_int * 6)()
                emit.now(f"aligned_alloc({al}, {size}), {name}")
                c.hx_alloc(C.c_size_t(al), C.c_size_t(size), C.c_size_t(off), o)
                emit(dict(op="alloc", al=al.to_bytes(8, "little").hex(), size=size.to_bytes(8, "little").hex(), got=bool(o[0]), aligned=bool(o[1]), inside=bool(o[2]),
                          freed=o[3], wrong=bool(o[4]), live=o[5], must=al <= 128 and size < 2**18, variant=name))

def clears(cfgname):
    def f(a, r):
        for s in core.SETS:
            d = comp.dims(s)
            for i in range(40):
                sk = r.randbytes(d["sk"]) if i else b"\xff" * d["sk"]
                e = a.clear(s, sk)
                a.emit(dict(op="clear", n=d["sk"], o=e["after"], outside="dirty" in e, set=s, variant=cfgname))
    return f

def erased(ck, cc, extra, name):
    """An optimised program with link-time optimisation: what is left of a secret after erasure."""
    try:
        p = fbuild.build("default", shims=("erase.c",), kind="exe", tag="erase", cflags=("-flto",), opt="-O3", cc=cc, cfg_h_extra=extra, crypto_sign=False,
                         ldflags=("-fuse-ld=lld",) if cc == "clang" and os.path.exists("/usr/bin/ld.lld") else ())
    except fbuild.BuildError as e:
        ck.cov.setdefault("skipped", []).append(f"erase {cc}: {str(e)[-300:]}")
        return []
    out = subprocess.run([p], stdout=subprocess.PIPE, text=True, timeout=60)
    evs = []
    for line in out.stdout.splitlines():
        what, n, stack, heap, control = line.split()
        n = int(n)
        ck.add(erasures_seen=int(int(control) * 4 > n))
        for where, k in (("stack", int(stack)), ("heap", int(heap))):
            # an overwritten stack holds the pattern here and there by chance
            evs.append(dict(op="gone", what=what, where=where, n=n, left=k if k * 4 > n else 0, variant=f"{name} {cc}"))
    if len(evs) < 26:
        raise core.ToolError("erasure program failed: " + out.stdout[-500:])
    return evs

def run(ck):
    T = ck.thorough
    ck.model("MCHelpers", workers=4)
    ck.tick("model")
    todo = []
    for name in VARIANTS:
        for cc, opt in (("gcc", "-O2"), ("clang", "-O2"), ("gcc", "-O3")) if T else (("gcc", "-O2"), ("clang", "-O3")) if name in ("fallbacks", "configured") else (("gcc", "-O2"),):
            p = compile_(ck, name, cc, opt)
            if p:
                todo.append((helpers, (p, f"{name} {cc} {opt}", ck.seed, T), name))
                todo.append((alloc, (p, f"{name} {cc} {opt}", ck.seed, T), name))
    if len(todo) < 4:
        raise core.ToolError("the helper functions do not compile: " + repr(ck.cov.get("skipped")))
    evs = [e for l in core.parallel(ck, todo) for e in l]
    ck.tick("helpers")
    plain = "\n#undef HAVE_EXPLICIT_BZERO\n#undef HAVE_ALIGNED_ALLOC\n#undef HAVE_POSIX_MEMALIGN\n"
    for name, extra in (("explicit_bzero of the system", ""), ("own explicit_bzero", plain)):
        path = core.lib("default", ("shim_api.c",), tag="p", cfg_h_extra=extra)
        evs += [e for l in api.jobs(ck, path, [(f"clear {name}", clears(name))]) for e in l]
        for cc in ("gcc", "clang"):
            evs += erased(ck, cc, extra, name)
    ck.tick("erasure")
    ck.add(calls=len(evs))
    for k in ("parity", "clz", "bcmp", "alloc", "clear", "gone"):
        e = next((e for e in evs if e["op"] == k), None)
        ck.sample(core.brief(e) if e else k)
    ck.validate("TraceHelp", evs)
