"""C02: signing is the specified function (TraceFaest), byte for byte; dense sweeps of the first stage; programmed challenges."""
import ctypes as C, mmap
from .. import core, comp, api
LEVEL = "model_checking"
H2 = dict(shims=("shim_api.c", "shim_h2.c"), ldflags=("-Wl,--wrap=H2_final",), tag="h2")
PLAIN = dict(shims=("shim_api.c",), tag="p")

def h2lib(ck, config="default"):
    """The library with a programmable last challenge, or without if that cannot be linked."""
    try:
        return core.lib(config, **H2), True
    except core.fbuild.BuildError as e:
        ck.cov.setdefault("skipped", []).append("programmed challenges: " + str(e)[-300:])
        return core.lib(config, **PLAIN), False

def challenges(r, d):
    """Challenge values with extreme tree indices."""
    lam, lb = d["lam"], d["lb"]
    out = [bytes(lb), b"\xff" * lb, bytes([1]) + bytes(lb - 1), bytes(lb - 1) + b"\x80", b"\x55" * lb, b"\xaa" * lb]
    for _ in range(3):
        v = 0       # every index 0, all ones, 1, top bit, or random
        pos = 0
        for i in range(d["tau"]):
            k = d["k0"] if i < d["t0"] else d["k1"]
            v |= r.choice((0, 0, (1 << k) - 1, (1 << k) - 1, 1, 1 << (k - 1), r.getrandbits(k))) << pos
            pos += k
        out.append(v.to_bytes(lb, "little"))
    r.shuffle(out)
    return out

def msgs(r):
    return r.choice((0, 1, 2, 15, 16, 31, 32, 33, 64, 100, 135, 136, 137, 167, 168, 169, 255, 256, 257, 1000, 4096, 5000, r.randrange(300), r.randrange(20000)))

def full(s, n, prog, nprog):
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        a.emit(k)
        for i in range(n):
            if i % 3 == 2:
                pk, sk, k = api.keys(a, s)
            m = r.randbytes(msgs(r)) if r.random() < .85 else bytes([r.randrange(256)]) * msgs(r)
            rho = r.choice((None, b"", r.randbytes(d["lb"]), r.randbytes(d["lb"]), r.randbytes(r.randrange(1, 200)), bytes(d["lb"]), r.randbytes(5000)))
            mode = r.random()
            if i == 0:
                m = None
            if mode < .2:
                a.rand_seed(r.getrandbits(60))
                e = a.sign(s, sk, m, api="sign")
            elif mode < .4:
                a.rand_seed(r.getrandbits(60))
                e = a.cs_sign(s, sk, m or b"", shift=r.choice((None, 0, 3, -5)))
            else:
                e = a.sign(s, sk, m, rho, cap=d["sig"] + r.choice((0, 0, 0, 1, 100)))
            a.emit(e)
        if prog:
            h = api.H2(a)
            if not h.usable(s, sk, pk):
                return
            for w in challenges(r, d)[:nprog]:
                h.want(w)
                e = a.sign(s, sk, r.randbytes(40), r.randbytes(d["lb"]))
                e["kx"] = h.get(d["lb"]).hex()
                a.emit(e)
            h.off()
    return f

def iv(e):
    """Keep the first stage only."""
    if e["rc"] == 0:
        e["iv"] = e["sig"][-32:]
        e["sig"] = ""
        e["op"] = "signiv"
    return e

def sweep(s, thorough):
    """Every message and randomizer length; single-byte changes of all inputs."""
    def f(a, r):
        d = comp.dims(s)
        lb = d["lb"]
        pk, sk, k = api.keys(a, s)
        rate = 168 if lb == 16 else 136
        top = 700 if thorough else 300
        base = r.randbytes(1 << 16)
        for n in sorted(set(range(top)) | {q * rate - d["pk"] + x for q in range(1, 8) for x in (-2, -1, 0, 1)} | {2 ** q + x for q in range(9, 17) for x in (-1, 0, 1)}):
            a.emit(iv(a.sign(s, sk, (base * 2)[:n], base[:lb])))
        for n in sorted(set(range(top // 2)) | {q * rate - 3 * lb + x for q in range(1, 5) for x in (-2, -1, 0, 1)} | {2 ** q + x for q in range(8, 14) for x in (-1, 0, 1)}):
            a.emit(iv(a.sign(s, sk, base[:5], base[:n])))
        # changes of single bytes: message, randomizer, key
        m, rho = r.randbytes(300), r.randbytes(lb)
        flip = lambda b, i: b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        for i in range(0, len(m), 1 if thorough else 3):
            a.emit(iv(a.sign(s, sk, flip(m, i), rho)))
        for i in range(lb):
            a.emit(iv(a.sign(s, sk, m, flip(rho, i))))
        for i in range(len(sk)):
            a.emit(iv(a.sign(s, flip(sk, i), m, rho)))
        for n in (1 << 20, (1 << 20) + 1):
            a.emit(iv(a.sign(s, sk, base * 17 if n & 1 else base * 16, rho)))
    return f

def huge(s, sizes):
    """Messages of zeros between a random head and tail, beyond 2^29, 2^31 and 2^32 bytes (and long randomizers)."""
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        for what, zeros, tail in sizes:
            head, suf, rho = r.randbytes(21), r.randbytes(tail), r.randbytes(d["lb"])
            n = 21 + zeros + tail
            m = mmap.mmap(-1, n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
            m[:21] = head
            m[n - tail:] = suf
            z = (C.c_char * n).from_buffer(m)
            sig = C.create_string_buffer(d["sig"])
            sl = C.c_size_t(d["sig"])
            a.emit.now(f"sign {s}: {what} of {n} bytes")
            zk, zc = divmod(zeros, 65536)
            ev = dict(op="signivrun", set=s, sk=sk.hex(), pk=pk.hex(), pre=head.hex(), zk=zk, zc=zc, suf=suf.hex(), what=what)
            if what == "message":
                a.fn(s, "sign_with_randomness")(sk, C.byref(z), C.c_size_t(n), rho, C.c_size_t(len(rho)), sig, C.byref(sl))
                ev["rho"] = rho.hex()
            else:
                a.fn(s, "sign_with_randomness")(sk, b"msg", C.c_size_t(3), C.byref(z), C.c_size_t(n), sig, C.byref(sl))
                ev["msg"] = b"msg".hex()
            ev["iv"] = sig.raw[-16:].hex()
            a.emit(ev)
            del z
            m.close()
    return f

def run(ck):
    path, prog = h2lib(ck)
    T = ck.thorough
    n = {s: (40 if T else 10) if api.COST[s] < 20 else (12 if T else 4) for s in core.SETS}
    big = [("message", (1 << 32) - 3, 40), ("message", (1 << 32) - 40, 2), ("message", (1 << 29) + 70, 9), ("randomizer", (1 << 29) + 5, 7)]
    if T:
        big = [(w, z, t) for w in ("message", "randomizer") for z in ((1 << 32) - 40, (1 << 32) - 3, 1 << 31, 1 << 29) for t in (2, 40)]
    todo = [(f"huge {i}", huge("128f", [b])) for i, b in enumerate(big)]
    todo += [(f"sign {s}", full(s, n[s], prog, 9 if T else 6 if api.COST[s] < 20 else 3)) for s in sorted(core.SETS, key=lambda s: -api.COST[s])]
    todo += [(f"sweep {s}", sweep(s, T)) for s in (core.SETS if T else core.FSETS)]
    evs = [e for l in api.jobs(ck, path, todo) for e in l]
    run_, ivs, rest = [e for e in evs if e["op"] == "signivrun"], [e for e in evs if e["op"] == "signiv"], [e for e in evs if e["op"] not in ("signiv", "signivrun")]
    for e in rest[1::max(1, len(rest) // 3)] + ivs[5:6]:
        ck.sample({k: v if not isinstance(v, (str, list)) or len(v) < 80 else str(v)[:80] + ".." for k, v in e.items()})
    ck.add(full_signatures=sum(e["op"] in ("sign", "cs_sign") for e in rest), first_stage_only=len(ivs), programmed_challenges=sum("kx" in e for e in rest), huge_messages=len(run_))
    ck.validate("TraceComp", run_, weight=lambda e: e["zk"])
    ck.validate("TraceFaest", rest + ivs, weight=lambda e: api.weight(e) * 10 if e["op"] != "signiv" else 1)
