"""Build /repo's sources (current working tree) into /verif/build/<key>, without using meson.

Everything is derived from the tree: parameter sets from meson.build, generated files from the *.in
templates.  Nothing is written below /repo.
"""
import concurrent.futures as cf
import hashlib, os, re, subprocess, sys, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FAEST_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

CONFIG_H = """#pragma once
#define HAVE_ALIGNED_ALLOC
#define HAVE_ARC4RANDOM_BUF
#define HAVE_EXPLICIT_BZERO
#define HAVE_GETRANDOM
#define HAVE_MEMALIGN
#define HAVE_POSIX_MEMALIGN
#define HAVE_PTHREAD_SETAFFINITY_NP
#define HAVE_SYS_RANDOM_H
"""

class BuildError(Exception):
    pass

def read(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return f.read()

def params():
    """meson.build's parameter sets, in order: list of dicts (string values)."""
    out, cur = [], {}
    for m in re.finditer(r"^param_(\w+)\s*=\s*configuration_data\(\)|^param_(\w+)\.set\('(\w+)',\s*'?([^')]*)'?\s*\)",
                         read(f"{REPO}/meson.build"), re.M):
        if m[1]:
            cur = {"_var": m[1]}
            out.append(cur)
        else:
            for d in out:
                if d["_var"] == m[2]:
                    d[m[3]] = m[4].strip()
    return out

def subst(text, d):
    return re.sub(r"@(\w+)@", lambda m: d.get(m[1], m[0]), text)

# configuration name -> (openssl, sha3, x4, vector, compiler, opt)
CONFIGS = {
    "default":  dict(openssl=True,  sha3="opt64",   x4=True,  vector=True),
    "own":      dict(openssl=False, sha3="opt64",   x4=True,  vector=True, opt="-O3"),
    "portable": dict(openssl=True,  sha3="plain32", x4=True,  vector=True),
    "avx2":     dict(openssl=True,  sha3="avx2",    x4=True,  vector=True, cflags=["-mavx2"]),
    "nox4":     dict(openssl=True,  sha3="opt64",   x4=False, vector=True),
    "scalar":   dict(openssl=True,  sha3="opt64",   x4=True,  vector=False),
    "scalarp":  dict(openssl=False, sha3="plain32", x4=False, vector=False),
    "clang":    dict(openssl=True,  sha3="opt64",   x4=True,  vector=True, cc="clang"),
    "clangown": dict(openssl=False, sha3="plain32", x4=True,  vector=True, cc="clang", opt="-O3"),
    "o0":       dict(openssl=False, sha3="opt64",   x4=True,  vector=True, opt="-O0"),
    "os":       dict(openssl=True,  sha3="plain32", x4=False, vector=False, cc="clang", opt="-Os", cflags=["-DNDEBUG"]),
    "native":   dict(openssl=True,  sha3="avx2",    x4=True,  vector=False, cc="clang", opt="-O3", cflags=["-march=native"]),
    "ndebug":   dict(openssl=True,  sha3="opt64",   x4=True,  vector=True, opt="-O3", cflags=["-DNDEBUG"]),
}

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "tests", "catch2", ".github"))
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".in", ".inc", ".macros", ".s", ".S", ".build")):
                files.append(os.path.join(root, f))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]

def root_sources():
    m = re.search(r"^faest_sources\s*=\s*files\((.*?)\)", read(f"{REPO}/meson.build"), re.M | re.S)
    if m:
        return re.findall(r"'([^']+)'", m[1])
    return sorted(f for f in os.listdir(REPO) if f.endswith(".c") and f != "randomness.c")

def sha3_sources(sha3, x4):
    s = ["KeccakHash.c", "KeccakSponge.c"]
    if x4:
        s += ["KeccakHashtimes4.c", "KeccakSpongetimes4.c"]
    s += {"opt64": ["opt64/KeccakP-1600-opt64.c", "opt64/KeccakP-1600-times4-on1.c"],
          "plain32": ["plain32/KeccakP-1600-inplace32BI.c", "plain32/KeccakP-1600-times4-on1.c"],
          "avx2": ["avx2/KeccakP-1600-AVX2.s", "avx2/KeccakP-1600-times4-SIMD256.c"]}[sha3]
    return ["sha3/" + x for x in s]

def gen(out):
    """Generated headers and per-parameter-set sources into out/gen."""
    g = os.path.join(out, "gen")
    os.makedirs(g, exist_ok=True)
    ps = params()
    lines = ["#pragma once"]
    for p in ps:
        for k, v in p.items():
            if not k.startswith("_"):
                lines.append(f"#define FAEST_{p['PARAM']}_{k} {v}")
    write(f"{g}/parameters.h", "\n".join(lines) + "\n")
    write(f"{g}/config.h", CONFIG_H)
    for p in ps:
        write(f"{g}/faest_{p['PARAM_L']}.h", subst(read(f"{REPO}/faest_param.h.in"), p))
        write(f"{g}/faest_{p['PARAM_L']}.c", subst(read(f"{REPO}/faest_param.c.in"), p))
        d = f"{g}/cs_{p['PARAM_L']}"
        os.makedirs(d, exist_ok=True)
        write(f"{d}/crypto_sign.c", subst(read(f"{REPO}/crypto_sign.c.in"), p))
        for h in ("crypto_sign.h", "api.h"):
            write(f"{d}/{h}", subst(read(f"{REPO}/crypto_sign.h.in"), p))
    lines = ["#pragma once"]
    for p in ps:
        lines += ["#undef CRYPTO_SECRETKEYBYTES", "#undef CRYPTO_PUBLICKEYBYTES", "#undef CRYPTO_BYTES", "#undef CRYPTO_ALGNAME",
                  f'#include "cs_{p["PARAM_L"]}/crypto_sign.h"',
                  "enum { " + ", ".join(f"cs_{a}_{p['PARAM_L']} = {b}" for a, b in
                                        (("pk", "CRYPTO_PUBLICKEYBYTES"), ("sk", "CRYPTO_SECRETKEYBYTES"), ("sig", "CRYPTO_BYTES"))) + " };"]
    write(f"{g}/crypto_sizes.h", "\n".join(lines) + "\n")
    return g, ps

def write(p, s):
    with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(s)

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def compile_all(jobs):
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()

def build(config="default", shims=(), kind="so", tag="", cflags=(), ldflags=(), opt=None, cc=None,
          crypto_sign=True, lib_cflags=(), randomness=False, cfg_h_extra="", shim_cflags=(), exclude=(),
          raw_shims=()):
    """Compile the library in a configuration together with harness C files; returns the path of the
    product: a shared object (kind 'so') or an executable (kind 'exe')."""
    c = dict(CONFIGS[config])
    cc = cc or c.get("cc", "gcc")
    opt = opt or c.get("opt", "-O2")
    hh = hashlib.sha256()
    for s in tuple(shims) + tuple(raw_shims):
        with open(os.path.join(HARNESS, s), "rb") as f:
            hh.update(f.read())
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".h"):
            with open(os.path.join(HARNESS, f), "rb") as fh:
                hh.update(fh.read())
    hh.update(repr((c, CONFIG_H, config, shims, kind, tag, cflags, ldflags, opt, cc, crypto_sign, lib_cflags, randomness,
                    cfg_h_extra, shim_cflags, exclude, raw_shims, tree_hash())).encode())
    key = f"{config}-{tag or 'x'}-{hh.hexdigest()[:16]}"
    out = os.path.join(BUILD, key)
    product = os.path.join(out, "lib.so" if kind == "so" else "prog")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(product):
            return product
        g, ps = gen(out)
        if cfg_h_extra:
            write(f"{g}/config.h", CONFIG_H + cfg_h_extra)
        defs = ["-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DFAEST_STATIC", "-DFAEST_EXPORT=", "-DFAEST_TESTS"]
        if c["openssl"]:
            defs.append("-DHAVE_OPENSSL")
        if c["x4"]:
            defs.append("-DWITH_KECCAK_X4")
        base = [cc, "-std=c11", opt, "-g1", "-fPIC", "-w"] + defs + \
               [f"-I{g}", f"-I{REPO}", f"-I{REPO}/sha3", f"-I{REPO}/sha3/{c['sha3']}", f"-I{HARNESS}"] + \
               list(c.get("cflags", [])) + list(cflags)
        if not c["vector"]:
            base += ["-include", f"{HARNESS}/novector.h"]
        jobs, objs = [], []
        def add(src, name, extra=()):
            o = os.path.join(out, name + ".o")
            objs.append(o)
            if src.endswith(".s"):
                jobs.append([cc, "-c", src, "-o", o])
            else:
                jobs.append(base + list(extra) + ["-c", src, "-o", o])
        srcs = root_sources() + sha3_sources(c["sha3"], c["x4"])
        if randomness:
            srcs.append("randomness.c")
        for s in srcs:
            if s in exclude:
                continue
            add(f"{REPO}/{s}", s.replace("/", "_"), lib_cflags)
        for p in ps:
            add(f"{g}/faest_{p['PARAM_L']}.c", f"faest_{p['PARAM_L']}", lib_cflags)
            if crypto_sign:
                L = p["PARAM_L"]
                add(f"{g}/cs_{L}/crypto_sign.c", f"cs_{L}",
                    [f"-I{g}/cs_{L}", f"-Dcrypto_sign_keypair=cs_keypair_{L}", f"-Dcrypto_sign_open=cs_open_{L}",
                     f"-Dcrypto_sign=cs_sign_{L}"] + list(lib_cflags))
        for s in shims:
            add(os.path.join(HARNESS, s), "shim_" + s, shim_cflags)
        for s in raw_shims:      # harness code that is not to be compiled like the library
            add(os.path.join(HARNESS, s), "raw_" + s, ("-fno-builtin",))
        compile_all(jobs)
        link = [cc, opt] + list(cflags) + (["-shared", "-Wl,-Bsymbolic"] if kind == "so" else []) + \
            ["-o", product + ".tmp"] + objs + list(ldflags) + (["-lcrypto"] if c["openssl"] else []) + ["-lpthread", "-ldl"]
        run([x for x in link if not x.startswith("-I")])
        for o in objs:
            os.unlink(o)
        os.rename(product + ".tmp", product)
    return product

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else "default", shims=("shim_api.c", "shim_int.c")))
