"""C21: the same calls in every build of the library; the recorded results have to be a behaviour of Builds (TraceBuilds): one result per call.
MCBuilds: which builds have to be compared."""
import hashlib, json, random
from .. import api, comp, core
from ..core import SETS, FSETS, fbuild
from . import c02, c04, c10, c11, c13, c14, c15, c16, c17
LEVEL = "model_checking"
SLOW = {"own": 2, "clangown": 2, "scalarp": 3, "o0": 4}     # cipher without the external library

def choices(cfg):
    c = fbuild.CONFIGS[cfg]
    fl = c.get("cflags", [])
    return dict(cipher="external" if c["openssl"] else "own", keccak=c["sha3"], lanes="four" if c["x4"] else "one", fields="vector" if c["vector"] else "scalar",
                compiler=c.get("cc", "gcc"), opt=c.get("opt", "-O2")[1:], asserts="off" if "-DNDEBUG" in fl else "on")

def dig(e):
    return hashlib.sha256(json.dumps(e, sort_keys=True).encode()).hexdigest()[:24]

PARTS = ("shim_ro.c", "shim_aes.c", "shim_vc.c", "shim_vole.c", "shim_conv.c", "shim_uh.c", "shim_uh1.c", "shim_field.c", "shim_qs.c")

def component(emit, path, ok, name, fn, seed):
    fn(comp.Comp(path, emit), random.Random(seed), ok)

# ---- public calls
def material(emit, path, s, seed, n):
    """Keys and signatures of one build, damaged ones too: judged by all."""
    r = random.Random(f"C21/{seed}/{s}/material")
    a = api.Api(path, emit, r)
    d = comp.dims(s)
    out = []
    for i in range(n):
        pk, sk, _ = api.keys(a, s)
        m, rho = r.randbytes(c02.msgs(r)), r.choice((b"", r.randbytes(d["lb"]), r.randbytes(r.randrange(300))))
        e = a.sign(s, sk, m, rho)
        g = bytes.fromhex(e["sig"]) if e["rc"] == 0 else bytes(d["sig"])
        bad = []
        for _ in range(4):
            j = r.choice((r.randrange(len(g)), len(g) - 1 - r.randrange(d["lb"] + 16), r.randrange((d["tau"] - 1) * d["hb"], len(g))))
            bad.append(g[:j] + bytes([g[j] ^ 1 << r.randrange(8)]) + g[j + 1:])
        out.append((pk, sk, m, rho, g, bad))
    emit(out)

def public(emit, path, prog, s, mats, seed, n, nprog):
    """The same calls in every build: everything is drawn from the seed and the material."""
    r = random.Random(f"C21/{seed}/{s}/calls")
    a = api.Api(path, emit, random.Random(f"C21/{seed}/{s}/layout"))
    d = comp.dims(s)
    for i in range(n):
        pk, sk, m, rho, g, bad = mats[i % len(mats)]
        a.rand_seed(r.getrandbits(60))
        emit(a.keygen(s)); emit(a.validate(s, pk, sk)); emit(a.validate(s, pk, mats[(i + 1) % len(mats)][1]))
        z = bytearray(sk); z[r.randrange(d["pk"] // 2, d["sk"])] = 0        # a zero byte somewhere
        emit(a.validate(s, pk, bytes(z))); emit(a.validate(s, pk, bytes(d["sk"])))
        emit(a.sign(s, sk, m, rho)); emit(a.verify(s, pk, m, g))
        emit(a.verify(s, pk, m, bad[i % len(bad)]))
        if i % 3 == 0:
            a.rand_seed(r.getrandbits(60))
            emit(a.cs_keypair(s)); emit(a.cs_sign(s, sk, m)); emit(a.cs_open(s, pk, m + g)); emit(a.cs_open(s, pk, m + bad[(i + 1) % len(bad)])); emit(a.clear(s, sk))
        else:
            a.rand_seed(r.getrandbits(60))
            emit(a.sign(s, sk, r.randbytes(c02.msgs(r)), api="sign"))
            emit(a.verify(s, pk, m, bad[(i + 2) % len(bad)]) if i % 3 == 1 else a.verify(s, pk, m + b"\0", g))
    if prog and nprog:
        h = api.H2(a)
        pk, sk = mats[0][:2]
        if h.usable(s, sk, pk):
            for w in c02.challenges(r, d)[:nprog]:
                h.want(w)
                e = a.sign(s, sk, r.randbytes(50), r.randbytes(d["lb"]))
                h.off()
                emit(dict(e, programmed=w.hex()))

def run(ck):
    T = ck.thorough
    ck.model("MCBuilds", workers=4)
    cfgs = list(fbuild.CONFIGS)
    ck.tick("model")
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        libs = dict(zip(cfgs, ex.map(lambda c: c02.h2lib(ck, c), cfgs)))
        parts = dict(zip(cfgs, ex.map(lambda c: comp.complib(ck, PARTS, c), cfgs)))
    ck.tick("builds")
    jobs, names = [], []
    # components
    zk = {(lam, em): comp.zero_keys(lam, em, ck.seed, 1, 60000) for lam in comp.LAMS for em in (False, True)}
    work = [("hashing", PARTS[0], 0, lambda c, r, ok: c13.drive(c, r, ok, T)),
            ("seed expansion", PARTS[1], 0, lambda c, r, ok: c14.drive(c, r, T)),
            ("block ciphers", PARTS[1], 0, lambda c, r, ok: c15.ciphers(c, r, T)),
            ("witnesses", PARTS[1], 0, lambda c, r, ok: c15.witnesses(c, r, zk, 3)),
            ("challenge decoding and seed conversion", PARTS[4], 0, lambda c, r, ok: c11.small(c, r, ok, T))]
    work += [(f"one-way function {k}", PARTS[1], 0, lambda c, r, ok, k=k: c15.owfs(c, r, *k, zk[k])) for k in zk]
    work += [(f"GF(2^{b})", PARTS[7], 0, lambda c, r, ok, b=b: c17.drive(c, r, b, T)) for b in (8, 64, 128, 192, 256)]
    for lam in comp.LAMS:
        work.append((f"vector commitments {lam}", PARTS[2], 2 if T else 1, lambda c, r, ok, lam=lam: c10.drive(c, r, lam, T)))
        work.append((f"VOLE hash {lam}", PARTS[5], 0, lambda c, r, ok, lam=lam: c16.vole(c, r, lam, T)))
        work.append((f"ZK hash {lam}", PARTS[5], 0, lambda c, r, ok, lam=lam: c16.zk(c, r, lam, ok, T)))
    for s in FSETS:
        work.append((f"VOLE {s}", PARTS[3], 3 if T else 1, lambda c, r, ok, s=s: c11.volework(c, r, [s], 2, T)))
    for cfg in cfgs:
        path, ok = parts[cfg]
        for name, need, slow, fn in work:
            if need in ok and (not slow or SLOW.get(cfg, 0) <= slow):
                # the same calls only where the same parts are there
                jobs.append((component, (path, ok, name, fn, f"C21/{ck.seed}/{name}"), f"{name} ({cfg})"))
                names.append((cfg, name))
    # public calls
    path, prog = libs["default"]
    sets = SETS
    count = lambda cfg, s: 0 if SLOW.get(cfg) and s not in FSETS else \
        {0: (24 if s in FSETS else 6) if T else (6 if s in FSETS else 1),
         2: (6 if T else 1) if T or s in ("128f", "em_192f") else 0, 3: (3 if T else 1) if T or s in ("em_128f",) else 0, 4: 1 if s in ("128f", "em_256f") and T or s == "em_128f" else 0}[SLOW.get(cfg, 0)]
    mats = {}
    for s, x in zip(sets, core.parallel(ck, [(material, (path, s, ck.seed, 6 if T else 3), f"material {s}") for s in sets], timeout=400)):
        if x:
            mats[s] = x[-1]
    ck.tick("material")
    for cfg in sorted(cfgs, key=lambda c: -SLOW.get(c, 0)):
        for s in sorted(sets, key=lambda s: s in FSETS):
            n = count(cfg, s)
            if n and s in mats:
                jobs.insert(0, (public, (libs[cfg][0], libs[cfg][1], s, mats[s], ck.seed, n, 0 if SLOW.get(cfg) else 4 if s in FSETS else 1 if T else 0), f"public calls {s} ({cfg})"))
                names.insert(0, (cfg, f"public calls {s}"))
    got = core.parallel(ck, jobs, timeout=800)
    ck.tick("runs")
    # what a call is: its place in the job, and its arguments up to where builds begin to differ
    by = {}
    for (cfg, name), evs in zip(names, got):
        by.setdefault(name, {})[cfg] = evs
    traces, total, builds = [], 0, {}
    head = [dict(op="build", b=c, choices=choices(c)) for c in cfgs]
    SZ = 50
    for name, x in by.items():
        t = []
        h = {c: [dig(e) for e in v] for c, v in x.items()}
        total += sum(len(v) for v in h.values())
        n = max(len(v) for v in h.values())
        for c in x:
            builds.setdefault(c, set()).add(name)
        for k in range(0, n, SZ):
            b = {c: dig(v[k:k + SZ]) for c, v in h.items() if len(v) > k}
            full = {c for c in b if len(h[c]) >= min(n, k + SZ)}
            if len({b[c] for c in full}) <= 1 and full == set(b):
                t += [dict(op="call", b=c, c=f"{name}, calls {k} to {k + SZ - 1}", r=b[c]) for c in b]
            else:       # one by one; a build may have been asked to do fewer
                for i in range(k, min(n, k + SZ)):
                    for c in x:
                        if i < len(h[c]):
                            e = x[c][i]
                            t.append(dict(op="call", b=c, c=f"{name}, call {i} ({e.get('op')})", r=h[c][i], detail=core.brief(e)))
        traces.append(head + t)
    ck.add(calls=total)
    ck.cov["builds"] = {c: f"{len(v)} groups of calls" for c, v in builds.items()}
    if traces:
        ck.sample([core.brief(e) for e in traces[0][len(head):len(head) + 4]])
    ck.validate_traces("TraceBuilds", traces)
    ck.tick("validation")
