"""C24: every behaviour of the random facilities up to a number of calls (RandSM), replayed against each variant of rand_bytes; the recorded
system calls, results and buffers are checked with TraceRand."""
import ctypes as C, hashlib, json, os
from .. import api, core
from ..core import fbuild
LEVEL = "model_checking"
CALLS = ["open", "ioctl", "read", "close", "getrandom", "status", "fill"]
OUTS = ["ok", "eintr", "eagain", "fail", "eof"]
CFG = "-DHAVE_CONFIG_H"
# variant -> (facility, flags)
VARIANTS = {
    "getrandom": ("getrandom", ["-DHAVE_SYS_RANDOM_H", "-DHAVE_GETRANDOM"]),
    "getrandom, by glibc version": ("getrandom", []),
    "arc4random": ("fill", ["-DHAVE_ARC4RANDOM_BUF", "-include", "noglibc.h"]),
    "randombytes": ("fill", ["-DHAVE_RANDOMBYTES"]),
    "supercop": ("fill", ["-DSUPERCOP"]),
    "pqclean": ("fill", ["-DHAVE_RANDOMBYTES", "-DPQCLEAN"]),
    "oqs": ("fill", ["-DOQS"]),
    "urandom": ("urandom", ["-include", "noglibc.h"]),
    "urandom without readiness test": ("urandom", ["-include", "noglibc.h", "-include", "bsd.h"]),
    "apple": ("status", ["-include", "noglibc.h", "-U__linux__", "-D__APPLE__", "-DHAVE_APPLE_FRAMEWORK"]),
    "windows": ("status", ["-include", "noglibc.h", "-U__linux__", "-D_WIN32", "-DFAEST_STATIC", "-DFAEST_EXPORT="]),
}

def compile_(ck, name, flags):
    h = core.fbuild.HARNESS
    key = hashlib.sha256((fbuild.tree_hash() + name + repr(flags) + open(f"{h}/shim_rand.c").read() + open(f"{h}/noglibc.h").read()).encode()).hexdigest()[:16]
    out = f"{fbuild.BUILD}/rand-{key}"
    os.makedirs(out, exist_ok=True)
    fl = [x if not x.endswith(".h") else f"{h}/{x}" for x in flags]
    try:
        base = ["gcc", "-std=gnu11", "-O2", "-g", "-w", "-fPIC", "-U_FORTIFY_SOURCE", f"-I{fbuild.REPO}", f"-I{h}/fake"]
        fbuild.run(base + ["-D_DEFAULT_SOURCE"] + fl + ["-c", f"{fbuild.REPO}/randomness.c", "-o", f"{out}/r.o"])
        fbuild.run(base + (["-DRANDOMBYTES_SIZE"] if name == "pqclean" else []) + ["-fno-builtin", "-c", f"{h}/shim_rand.c", "-o", f"{out}/s.o"])
        fbuild.run(["gcc", "-shared", "-Wl,-Bsymbolic", "-o", f"{out}/lib.so", f"{out}/r.o", f"{out}/s.o"])
    except fbuild.BuildError as e:
        ck.add(skipped_variants=f"{name}: {str(e)[-300:]}")
        return None
    return f"{out}/lib.so"

def replay(emit, path, name, fac, jobs, seed):
    c = C.CDLL(path)
    slot = api.Slot(1 << 17)
    rng = __import__("random").Random(f"{seed}/{name}")
    log, st = (C.c_int * (4 * 16384))(), C.create_string_buffer(1 << 17)
    c.hx_stream.restype = C.c_size_t
    for unit, j in jobs:
        n = unit * j["len"] + j.get("extra", 0)
        at = slot.place(n, rng.random() < .6, rng.choice((0, 0, 1, 3)))
        C.memset(at, 0xa5, n)
        sc = []
        left = n
        for h in j["hist"]:
            k = -1 if h["n"] == j["len"] and h["out"] == "ok" and not j.get("exact") else h["n"] * unit
            sc += [CALLS.index(h["call"]), OUTS.index(h["out"]), k]
        c.hx_set((C.c_int * max(1, len(sc)))(*sc), len(sc) // 3, rng.getrandbits(31), C.c_void_p(at), C.c_size_t(n))
        emit.now(f"{name}: request for {n} bytes with {j['hist'][:12]}")
        rc = c.rand_bytes(C.c_void_p(at), C.c_size_t(n))
        k = c.hx_log(log)
        calls = [dict(call=CALLS[log[4 * i]], out=OUTS[log[4 * i + 1]], n=log[4 * i + 2], fd=log[4 * i + 3]) for i in range(k)]
        d = st.raw[:0]
        m = c.hx_stream(st)
        emit(dict(op="rand", variant=name, fac=fac, len=n, rc=rc, calls=calls, outside=not slot.clean(),
                  data=C.string_at(at, n).hex() if rc == 0 else "", delivered=st.raw[:m].hex()[:2 * n] if rc == 0 else ""))

def long(fac):
    """Behaviours longer than the enumerated ones."""
    if fac == "urandom":
        o = [dict(call="open", out="ok", n=0), dict(call="ioctl", out="ok", n=0)]
        r = lambda out, n=0: dict(call="read", out=out, n=n)
        for k in (10, 300, 3000):
            yield dict(len=1, extra=63, exact=True, hist=[dict(call="open", out="eintr", n=0)] * k + o)
            yield dict(len=1, extra=63, exact=True, hist=o + [r("eintr"), r("eagain")] * k)
            yield dict(len=1, extra=63, exact=True, hist=o + [r("eintr"), r("ok", 1)] * 20 + [r("eagain")] * k)
            yield dict(len=1, extra=k - 1, exact=True, hist=o + [r("ok", 1)] * k)
            yield dict(len=1, extra=k, exact=True, hist=o + [r("ok", 1)] * k + [r("eof")])
            yield dict(len=1, extra=k, exact=True, hist=o + [r("ok", 1)] * k + [r("fail")])
        for n in (255, 256, 257, 65535, 65536, 65537, 100000):
            yield dict(len=1, extra=n - 1, hist=o)
            yield dict(len=1, extra=n - 1, exact=True, hist=o + [r("ok", n // 2), r("ok", n - n // 2 - 1)])
            yield dict(len=1, extra=n - 1, exact=True, hist=o + [r("ok", n - 1), r("eof")])
    else:
        for n in (255, 256, 257, 511, 512, 65535, 65536, 65537, 100000):
            yield dict(len=1, extra=n - 1, hist=[])
            if fac == "getrandom":
                for k in (0, 1, 255, 256, n - 1):
                    if k < n:
                        yield dict(len=1, extra=n - 1, exact=True, hist=[dict(call=fac, out="ok", n=k), dict(call=fac, out="fail", n=0)])
                        yield dict(len=1, extra=n - 1, exact=True, hist=[dict(call=fac, out="ok", n=k)])

def run(ck):
    m = ck.model("RandSM", workers=4)
    scripts = [json.loads(json.loads(x.split('"SCRIPT", ', 1)[1][:-2])) for x in m.printed if "SCRIPT" in x]
    if len(scripts) < 500:
        raise core.ToolError("no scripts from RandSM")
    ck.add(scripts=len(scripts))
    todo = []
    units = (1, 7, 16, 24, 600) if ck.thorough else (1, 24)
    for name, (fac, flags) in VARIANTS.items():
        p = compile_(ck, name, flags)
        if p:
            jobs = [(u, j) for j in scripts if j["fac"] == fac for u in units] + [(1, j) for j in long(fac)]
            todo.append((replay, (p, name, fac, jobs, ck.seed), name))
    if not any(t[2] == "getrandom" for t in todo):
        raise core.ToolError("the variant in use does not compile")
    evs = [e for l in core.parallel(ck, todo) for e in l]
    ck.add(requests=len(evs))
    for e in evs[5::max(1, len(evs) // 5)]:
        ck.sample({k: v if len(str(v)) < 200 else str(v)[:200] + ".." for k, v in e.items()})
    ck.validate("TraceRand", evs, weight=lambda e: 5 + len(e["calls"]))
