"""Driving the building blocks of the implementation (harness/shim_*.c), recording every call as an event for spec/TraceComp."""
import ctypes as C, os, random
from . import core
from .core import fbuild, SETS

SHIMS = ["shim_ro.c", "shim_aes.c", "shim_vc.c", "shim_vole.c", "shim_conv.c", "shim_uh.c", "shim_uh1.c", "shim_field.c", "shim_qs.c", "shim_par.c"]
LAMS = (128, 192, 256)

def dims(s):
    """Parameters of a set, from the specification's own derivation (not from the code)."""
    em = s.startswith("em_")
    lam = int(s.replace("em_", "")[:3])
    tau = {128: (11, 16), 192: (16, 24), 256: (22, 32)}[lam][s.endswith("f")]
    ell = {(128, 0): 1600, (192, 0): 3264, (256, 0): 4000, (128, 1): 1280, (192, 1): 2304, (256, 1): 3584}[lam, int(em)]
    pk = {(128, 0): 32, (192, 0): 64, (256, 0): 64, (128, 1): 32, (192, 1): 48, (256, 1): 64}[lam, int(em)]
    beta = 1 if em or lam == 128 else 2
    k0, k1 = -(-lam // tau), lam // tau
    t0 = lam % tau
    lb = lam // 8
    return dict(id=SETS.index(s) + 1, em=em, lam=lam, lb=lb, tau=tau, l=ell, pk=pk, beta=beta, k0=k0, k1=k1, t0=t0, t1=tau - t0,
                hb=ell // 8 + 2 * lb + 2, sk=pk // 2 + lb,
                sig=(tau - 1) * (ell // 8 + 2 * lb + 2) + lb + 2 + ell // 8 + lb + (t0 * (k0 + 2) + (tau - t0) * (k1 + 2)) * lb + lb + 16)

class Bufs:
    """Outputs between canaries, inputs compared after the call."""
    CAN = bytes((i * 37 + 11) & 255 for i in range(48))
    def __init__(self, fill):
        self.fill, self.outs, self.ins = fill, [], []
    def o(self, n):
        b = C.create_string_buffer(self.CAN + bytes([self.fill]) * n + self.CAN, n + 96)
        self.outs.append((b, n))
        return C.byref(b, 48)
    def i(self, data):
        b = C.create_string_buffer(self.CAN[:16] + data + self.CAN[:16], len(data) + 32)
        self.ins.append((b, b.raw))
        return C.byref(b, 16)
    def dirty(self):
        for b, n in self.outs:
            if b.raw[:48] != self.CAN or b.raw[48 + n:] != self.CAN:
                return "wrote outside an output"
        for b, r in self.ins:
            if b.raw != r:
                return "modified an input"
        return None
    def get(self, k):
        b, n = self.outs[k]
        return b.raw[48:48 + n]

def sizes(ls):
    return (C.c_size_t * max(1, len(ls)))(*ls)
def hx(b):
    return b.hex()

class Comp:
    def __init__(self, path, emit):
        self.c = C.CDLL(path)
        self.emit = emit
        self.fill = 0xa5
    def bufs(self):
        self.fill = (self.fill * 5 + 1) & 255
        return Bufs(self.fill)
    def put(self, b, ev):
        d = b.dirty() if b else None
        if d:
            ev["dirty"] = d
        self.emit(ev)
        return ev
    # ---- hashing
    def oracle(self, which, sec, m, l1, l2, chunks):
        b = self.bufs()
        l2 = l2 if which == 0 else 16 if which == 3 else 0
        self.emit.now(f"oracle H{which}/{sec} of {len(m)} bytes in chunks {chunks[:8]}")
        self.c.hx_oracle(which, sec, b.i(m), sizes(chunks), len(chunks), b.o(l1), C.c_size_t(l1), b.o(l2), C.c_size_t(l2))
        return self.put(b, dict(op="oracle", which=which, sec=sec, m=hx(m), l1=l1, l2=l2, o1=hx(b.get(0)), o2=hx(b.get(1)), chunks=str(chunks[:12])))
    def oracle_x4(self, sec, ms, l1, l2, chunks):
        b = self.bufs()
        n = len(ms[0])
        self.emit.now(f"four-lane oracle {sec} of {n} bytes in chunks {chunks[:8]}")
        self.c.hx_oracle_x4(sec, b.i(b"".join(ms)), C.c_size_t(n), sizes(chunks), len(chunks), b.o(4 * l1), C.c_size_t(l1), b.o(4 * l2), C.c_size_t(l2))
        for k in range(4):
            self.put(b if k == 0 else None, dict(op="oracle", which=0, sec=sec, m=hx(ms[k]), l1=l1, l2=l2, o1=hx(b.get(0)[k * l1:(k + 1) * l1]),
                                                  o2=hx(b.get(1)[k * l2:(k + 1) * l2]), lane=k, chunks=str(chunks[:12])))
    def xof(self, sec, prefix, m, chunks, outs):
        b = self.bufs()
        n = sum(outs)
        self.emit.now(f"shake {sec} prefix {prefix} of {len(m)} bytes in {chunks[:8]}, squeezed in {outs[:8]}")
        self.c.hx_xof(sec, prefix, b.i(m), sizes(chunks), len(chunks), b.o(n), sizes(outs), len(outs))
        self.put(b, dict(op="xof", sec=sec, prefix=prefix, m=hx(m), n=n, o=hx(b.get(0)), chunks=str(chunks[:12]), outs=str(outs[:12])))
    def xof_x4(self, sec, prefix, ms, chunks, outs):
        b = self.bufs()
        n, mn = sum(outs), len(ms[0])
        self.emit.now(f"four-lane shake {sec} prefix {prefix} of {mn} bytes in {chunks[:8]}, squeezed in {outs[:8]}")
        self.c.hx_xof_x4(sec, prefix, b.i(b"".join(ms)), C.c_size_t(mn), sizes(chunks), len(chunks), b.o(4 * n), C.c_size_t(n), sizes(outs), len(outs))
        for k in range(4):
            self.put(b if k == 0 else None, dict(op="xof", sec=sec, prefix=prefix, m=hx(ms[k]), n=n, o=hx(b.get(0)[k * n:(k + 1) * n]), lane=k, chunks=str(chunks[:12]), outs=str(outs[:12])))
    # ---- ciphers
    def prg(self, key, iv, n):
        b = self.bufs()
        self.emit.now(f"prg key {key.hex()} iv {iv.hex()} length {n}")
        self.c.hx_prg(b.i(key), b.i(iv), b.o(n), len(key) * 8, C.c_size_t(n))
        return self.put(b, dict(op="prg", key=hx(key), iv=hx(iv), n=n, o=hx(b.get(0))))
    def inciv(self, iv):
        b = C.create_string_buffer(Bufs.CAN[:16] + iv + Bufs.CAN[:16], 48)
        self.c.hx_inc_iv(C.byref(b, 16))
        e = dict(op="inciv", iv=hx(iv), o=hx(b.raw[16:32]))
        if b.raw[:16] != Bufs.CAN[:16] or b.raw[32:] != Bufs.CAN[:16]:
            e["dirty"] = "wrote outside the counter"
        self.emit(e)
    def cipher(self, which, key, blk):
        b = self.bufs()
        self.c.hx_cipher(which, b.i(key), b.i(blk), b.o(len(blk)))
        self.put(b, {"op": "cipher", "which": which, "key": hx(key), "in": hx(blk), "o": hx(b.get(0))})
    def owf(self, lam, em, key, inp):
        b = self.bufs()
        n = 32 if lam == 192 and not em else len(inp) if em else 16 * (1 + (lam > 128))
        self.emit.now(f"owf lambda {lam} em {em} key {key.hex()} input {inp.hex()}")
        rc = self.c.hx_owf(lam, int(em), b.i(key), b.i(inp), b.o(n))
        return self.put(b, {"op": "owf", "lam": lam, "em": bool(em), "key": hx(key), "in": hx(inp), "o": hx(b.get(0)), "rc": rc & 255})
    def witness(self, s, key, inp):
        b = self.bufs()
        d = dims(s)
        n = d["l"] // 8
        self.emit.now(f"witness {s} key {key.hex()} input {inp.hex()}")
        self.c.hx_witness(d["id"], b.i(key), b.i(inp), b.o(n), C.c_size_t(n))
        self.put(b, {"op": "witness", "set": s, "key": hx(key), "in": hx(inp), "o": hx(b.get(0))})
        return b.get(0)
    # ---- vector commitments
    def vc(self, lam, depth, root, iv, idxs, alter=(), rng=None):
        """alter: list of (idx, kind) with kind in pdec, com, iv, idx: reconstruct after an alteration."""
        lb, n = lam // 8, 1 << depth
        pid = {128: 1, 192: 3, 256: 5}[lam]
        b = self.bufs()
        self.emit.now(f"vector commitment lambda {lam} depth {depth} root {root.hex()} iv {iv.hex()}")
        self.c.hx_vc_commit(pid, depth, b.i(root), b.i(iv), b.o(2 * lb), b.o((2 * n - 1) * lb), b.o(2 * lb * n), b.o(lb * n))
        h, k, com, sd = (b.get(i) for i in range(4))
        ev = dict(op="vc", lam=lam, depth=depth, root=hx(root), iv=hx(iv), h=hx(h), k=hx(k), com=hx(com), sd=hx(sd), opens=[], recs=[])
        bits = lambda i: bytes(i >> j & 1 for j in range(depth))
        def opening(idx):
            o = self.bufs()
            self.emit.now(f"opening lambda {lam} depth {depth} leaf {idx}")
            self.c.hx_vc_open(o.i(k), o.i(com), o.i(bits(idx)), o.o(depth * lb), o.o(2 * lb), depth, lb)
            if o.dirty():
                ev["dirty"] = o.dirty()
            return o.get(0), o.get(1)
        def rec(idx, v, pdec, comj, honest):
            o = self.bufs()
            self.emit.now(f"reconstruction lambda {lam} depth {depth} leaf {idx}")
            self.c.hx_vc_reconstruct(lam, depth, o.i(v), o.i(pdec), o.i(comj), o.i(bits(idx)), o.o(2 * lb), o.o(2 * lb * n), o.o(lb * n), self.fill)
            if o.dirty():
                ev["dirty"] = o.dirty()
            ev["recs"].append(dict(idx=idx, iv=hx(v), pdec=hx(pdec), com=hx(comj), h=hx(o.get(0)), coms=hx(o.get(1)), sd=hx(o.get(2)), honest=honest))
        for idx in idxs:
            p, c = opening(idx)
            ev["opens"].append(dict(idx=idx, pdec=hx(p), com=hx(c)))
            rec(idx, iv, p, c, True)
        for idx, kind in alter:
            p, c = opening(idx)
            v, i2 = iv, idx
            flip = lambda s: bytes(x ^ (1 << rng.randrange(8) if j == q else 0) for q in [rng.randrange(len(s))] for j, x in enumerate(s))
            if kind == "pdec": p = flip(p)
            elif kind == "com": c = flip(c)
            elif kind == "iv": v = flip(iv)
            else: i2 = idx ^ (1 << rng.randrange(depth))
            rec(i2, v, p, c, False)
        b2 = b.dirty()
        if b2:
            ev["dirty"] = b2
        self.emit(ev)
        return ev
    def bitdec(self, i, depth):
        b = self.bufs()
        rc = self.c.hx_bitdec(i, depth, b.o(depth))
        back = self.c.hx_numrec(depth, b.i(b.get(0))) if rc == 1 else -1
        self.put(b, dict(op="bitdec", i=i, depth=depth, rc=rc, o=hx(b.get(0)), back=back))
    # ---- VOLE
    def chaldec(self, chal, i, k0, t0, k1, t1):
        b = self.bufs()
        d = k0 if i < t0 else k1
        rc = self.c.hx_chaldec(b.i(chal), i, k0, t0, k1, t1, b.o(d))
        self.put(b, dict(op="chaldec", chal=hx(chal), i=i, k0=k0, t0=t0, k1=k1, t1=t1, rc=rc, o=hx(b.get(0))))
    def convert(self, lam, depth, n, iv, sd, bot):
        b = self.bufs()
        self.emit.now(f"seeds to VOLE lambda {lam} depth {depth} length {n} first seed {'missing' if bot else 'given'}")
        self.c.hx_convert(b.i(iv), b.i(sd), int(bot), lam, depth, C.c_size_t(n), b.o(n), b.o(depth * n))
        self.put(b, dict(op="convert", lam=lam, depth=depth, n=n, iv=hx(iv), sd=hx(sd), bot=bool(bot), u=hx(b.get(0)), v=hx(b.get(1))))
    def vole(self, s, root, iv, chal, n=None):
        d = dims(s)
        n = n or d["hb"]
        lb, tau = d["lb"], d["tau"]
        ol = (d["t0"] * (d["k0"] + 2) + d["t1"] * (d["k1"] + 2)) * lb
        b = self.bufs()
        self.emit.now(f"VOLE {s} root {root.hex()} iv {iv.hex()} challenge {chal.hex()}")
        self.c.hx_vole_commit(d["id"], b.i(root), b.i(iv), 8 * n, b.o(2 * lb), b.o((tau - 1) * n), b.o(n), b.o(d["lam"] * n), b.i(chal), b.o(ol))
        h, c, u, v, op = (b.get(i) for i in range(5))
        r = self.bufs()
        self.c.hx_vole_reconstruct(d["id"], r.i(iv), r.i(chal), r.i(op), 8 * n, r.o(2 * lb), r.o(d["lam"] * n))
        ev = dict(op="vole", set=s, n=n, root=hx(root), iv=hx(iv), chal=hx(chal), hcom=hx(h), u=hx(u), c=hx(c), v=hx(v), open=hx(op), hcom2=hx(r.get(0)), q=hx(r.get(1)))
        if r.dirty():
            ev["dirty"] = r.dirty()
        return self.put(b, ev)
    def volerec(self, s, iv, chal, op, n=None):
        d = dims(s)
        n = n or d["hb"]
        r = self.bufs()
        self.emit.now(f"VOLE reconstruction {s} iv {iv.hex()} challenge {chal.hex()}")
        self.c.hx_vole_reconstruct(d["id"], r.i(iv), r.i(chal), r.i(op), 8 * n, r.o(2 * d["lb"]), r.o(d["lam"] * n))
        self.put(r, dict(op="volerec", set=s, n=n, iv=hx(iv), chal=hx(chal), open=hx(op), hcom=hx(r.get(0)), q=hx(r.get(1))))
    # ---- universal hashes
    def volehash(self, lam, sd, x, ell, generic):
        b = self.bufs()
        self.emit.now(f"VOLE hash lambda {lam} ell {ell}")
        self.c.hx_vole_hash(lam, b.o(lam // 8 + 2), b.i(sd), b.i(x), ell, int(generic))
        return self.put(b, dict(op="volehash", lam=lam, ell=ell, sd=hx(sd), x=hx(x), h=hx(b.get(0)), generic=bool(generic)))
    def zkhash(self, lam, sd, x, x1, oneshot):
        lb = lam // 8
        ell = len(x) // lb
        b = self.bufs()
        self.emit.now(f"ZK hash lambda {lam} of {ell} elements")
        if oneshot:
            self.c.hx_zk_hash1(lam, b.o(lb), b.i(sd), b.i(x + x1), ell)
        else:
            self.c.hx_zk_hash(lam, b.o(lb), b.i(sd), b.i(x), ell, b.i(x1))
        self.put(b, dict(op="zkhash", lam=lam, ell=ell, sd=hx(sd), x=hx(x), x1=hx(x1), h=hx(b.get(0)), oneshot=bool(oneshot)))
    # ---- fields
    OPS = {"add": 0, "mul": 1, "mul64": 2, "mulbit": 3, "combbits": 4, "comb": 5, "sumpoly": 6, "inv": 7, "loadstore": 8, "from64": 9, "from8": 10, "frombit": 11, "zero": 12, "one": 13}
    def field(self, bits, f, a, bb, n):
        b = self.bufs()
        L = bits // 8
        self.emit.now(f"GF(2^{bits}) {f} on {n} operands")
        if self.c.hx_field(bits, self.OPS[f], b.i(a), b.i(bb), b.o(n * L), C.c_size_t(n)) != 0:
            return
        self.put(b, dict(op="field", bits=bits, f=f, n=n, a=hx(a), b=hx(bb), c=hx(b.get(0))))
    # ---- proof
    def prove(self, s, w, u, v, n, inp, outp, chall):
        d = dims(s)
        b = self.bufs()
        self.emit.now(f"proof {s}")
        self.c.hx_prove(d["id"], b.i(w), b.i(u), b.i(v), C.c_size_t(n), b.i(inp), b.i(outp), b.i(chall), b.o(d["lb"]), b.o(d["lb"]))
        self.put(b, {"op": "prove", "set": s, "w": hx(w), "u": hx(u), "v": hx(v), "len": n, "in": hx(inp), "out": hx(outp), "chall": hx(chall), "a": hx(b.get(0)), "b": hx(b.get(1))})
        return b.get(0), b.get(1)
    def rawprove(self, s, w, u, v, n, inp, outp, chall):
        """The prover's two values, not recorded."""
        a, b_ = C.create_string_buffer(32), C.create_string_buffer(32)
        V = C.create_string_buffer(v, len(v))
        self.c.hx_prove(dims(s)["id"], w, u, V, C.c_size_t(n), inp, outp, chall, a, b_)
        return a.raw[:dims(s)["lb"]], b_.raw[:dims(s)["lb"]]
    def qs(self, s, d_, q, n, chall, delta, a, inp, outp, emit=True):
        d = dims(s)
        b = self.bufs()
        self.emit.now(f"proof verification {s}")
        rc = self.c.hx_verify(d["id"], b.i(d_), b.i(q), C.c_size_t(n), b.i(chall), b.i(delta), b.i(a), b.i(inp), b.i(outp), b.o(d["lb"]))
        if emit or b.dirty():
            self.put(b, {"op": "qs", "set": s, "d": hx(d_), "q": hx(q), "len": n, "chall": hx(chall), "delta": hx(delta), "a": hx(a), "in": hx(inp), "out": hx(outp), "rc": rc, "b": hx(b.get(0))})
        return b.get(0)

def complib(ck, shims, config="default"):
    """The library with the given shims; shims which do not compile (changed internals) are left out and noted."""
    try:
        return core.lib(config, ("shim_api.c",) + tuple(shims), tag="c"), list(shims)
    except fbuild.BuildError:
        core.lib(config, ("shim_api.c",), tag="p")        # the library itself must build
    ok = []
    for s in shims:
        try:
            core.lib(config, ("shim_api.c", s), tag="c1")
            ok.append(s)
        except fbuild.BuildError as e:
            ck.cov.setdefault("skipped", []).append(f"{s} does not compile against the current internals ({config}): " + str(e)[-300:])
    return core.lib(config, ("shim_api.c",) + tuple(ok), tag="c"), ok

def record(ck, path, fn, *args, timeout=300, what="the calls"):
    """Run fn(comp, rng, *args) in a child; the list of its events."""
    seed = ck.rng.random()
    def job(emit):
        fn(Comp(path, emit), random.Random(seed), *args)
    return core.drive(ck, job, timeout=timeout, what=what)

def campaign(ck, shims, configs, jobs, weight=None, module="TraceComp", timeout=400, big_only=()):
    """Run jobs (name, fn(comp, rng, available shims)[, configurations]) in every configuration with the same inputs,
    merge equal events, and have TLC check what is left."""
    import concurrent.futures as cf, json
    libs, todo = {}, []
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        for cfg, r in zip(configs, ex.map(lambda c: complib(ck, shims, c), configs)):
            libs[cfg] = r
    for name, fn, *only in jobs:
        seed = f"{ck.pid}/{name}/{ck.seed}/{ck.tier}"
        for cfg in configs:
            if only and cfg not in only[0]:
                continue
            path, ok = libs[cfg]
            if ok:
                todo.append((cfg, name, path, fn, ok, seed))
    def one(t):
        cfg, name, path, fn, ok, seed = t
        def job(emit):
            fn(Comp(path, emit), random.Random(seed), ok)
        return core.drive(ck, job, timeout=timeout, what=f"{name} ({cfg})")
    merged, total = {}, 0
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for t, evs in zip(todo, ex.map(one, todo)):
            total += len(evs)
            for e in evs:
                merged.setdefault(json.dumps(e, sort_keys=True), []).append(t[0])
    out = []
    for k, cfgs in merged.items():
        e = json.loads(k)
        e["config"] = ",".join(sorted(set(cfgs)))
        out.append(e)
    for e in out[len(out) // 3::max(1, len(out) // 4)]:
        ck.sample({k: v if not isinstance(v, (str, list)) or len(v) < 80 else str(v)[:80] + ".." for k, v in e.items()})
    ck.add(calls=total, distinct_calls=len(out))
    ck.cov["configurations"] = sorted(set(ck.cov.get("configurations", [])) | set(c for c in configs if libs[c][1]))
    ck.validate(module, out, weight=weight)
    return out

_zeros = None
def zero_keys(lam, em, seed, per=1, tries=60000):
    """[(position, key, input)]: exactly one zero S-box input, at the position (-1: none)."""
    global _zeros
    import subprocess, tempfile
    if _zeros is None:
        os.makedirs(fbuild.BUILD, exist_ok=True)
        exe = os.path.join(fbuild.BUILD, f"zeros.{os.getpid()}")
        fbuild.run(["gcc", "-O2", "-w", "-o", exe, os.path.join(fbuild.HARNESS, "zeros.c")])
        _zeros = exe + ".x"
        os.rename(exe, _zeros)
        import atexit
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and os.path.exists(_zeros) and os.unlink(_zeros))
    out = subprocess.run([_zeros, str(lam), str(int(em)), str(seed), str(per), str(tries)], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [(int(p), bytes.fromhex(k), bytes.fromhex(i)) for p, k, i in (x.split() for x in out.splitlines() if not x.startswith("total"))]
