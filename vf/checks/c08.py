"""C08: crypto_sign and crypto_sign_open keep message and signature together."""
import ctypes as C, mmap
from .. import core, comp, api
LEVEL = "model_checking"

def cs(s, lens, shifts, edits, full):
    def f(a, r):
        d = comp.dims(s)
        S = d["sig"]
        pk, sk, k = api.keys(a, s)
        em = a.emit
        em(api.abstract(k))
        def sign(m, sh=None):
            e = a.cs_sign(s, sk, m, shift=sh)
            em(api.abstract(e))
            return bytes.fromhex(e["head"] + e["sig"]) if e["rc"] == 0 else m + bytes(S)
        def open_(sm, note, sh=None, p=None):
            e = a.cs_open(s, p or pk, sm, shift=sh)
            e["note"] = note
            em(api.abstract(e))
        for i, n in enumerate(lens):
            m = r.randbytes(n)
            sm = sign(m, shifts[i % len(shifts)])
            open_(sm, f"message of {n} bytes", shifts[(i * 7 + 3) % len(shifts)])
            # the detached verifier accepts the same
            em(api.abstract(a.verify(s, pk, m, sm[n:])))
        m = r.randbytes(40)
        sm = sign(m)
        n = len(m)
        fl = lambda b, i: b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        for i in (list(range(n)) + [n, n + 1, n + S // 2, n + S - 1, n + S - 17, n + S - 16] + [n + r.randrange(S) for _ in range(edits)])[:edits]:
            open_(fl(sm, i), f"byte {i} changed", shifts[i % len(shifts)])
        for t in (sm[1:], sm[:-1], sm + b"\0", b"\0" + sm, sm[n:] + sm[:n], sm[n:], m + sm, sm[:n] + sm)[:3 + edits // 2]:
            open_(t, f"{len(t)} bytes, cut or extended")
        pk2, sk2, k2 = api.keys(a, s)
        em(api.abstract(k2))
        open_(sm, "another public key", p=pk2)
        for x in (0, 1, S // 2, S - 2, S - 1, n, 16):
            open_(sm[:x], f"only {x} bytes", None if x % 2 else 0)
            open_(sm[-x:] if x else b"", f"only the last {x} bytes")
        # failing random source
        for sc in ((1,), (2,)):
            a.rand(b"", sc)
            em(api.abstract(a.cs_sign(s, sk, m, shift=r.choice(shifts))))
        a.rand_seed(r.getrandbits(40))
        open_(sm, "again", 0)
        for i in range(full):
            e = a.cs_sign(s, sk, r.randbytes(r.choice((0, 1, 3, 50, 333))), shift=r.choice(shifts))
            em(("f", e))
            e = a.cs_open(s, pk, bytes.fromhex(e["head"] + e["sig"]), shift=r.choice(shifts))
            em(("f", e))
    return f

def area(n):
    m = mmap.mmap(-1, n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)
    return m, (C.c_char * n).from_buffer(m)

def hugeopen(s):
    """2^32 bytes more than a valid signed message: the lengths must not be cut to 32 bits."""
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        a.emit(api.abstract(k))
        m0 = r.randbytes(33)
        e = a.cs_sign(s, sk, m0)
        a.emit(api.abstract(e))
        sm = bytes.fromhex(e["head"] + e["sig"])
        n = len(sm) + (1 << 32)
        m, z = area(n)
        m[:len(sm)] = sm
        ml, out = C.c_ulonglong(0xdddddddddddddddd), C.create_string_buffer(b"\xa5" * 4096, 4096)
        a.emit.now(f"crypto_sign_open {s} of {n} bytes")
        rc = a.fn(s, "cs_open")(out, C.byref(ml), C.byref(z), C.c_ulonglong(n), pk)
        a.emit(dict(op="cs_open", set=s, rc=rc, short=False, pk=api.vid(pk.hex()), msg=f"{n} bytes", sig="zeros", m="", lenok=False, mlenset=ml.value != 0xdddddddddddddddd,
                    mtouched=out.raw != b"\xa5" * 4096, note=f"signed message followed by 2^32 zeros"))
        del z
        m.close()
    return f

def hugesign(s):
    def f(a, r):
        d = comp.dims(s)
        pk, sk, k = api.keys(a, s)
        head, suf = r.randbytes(21), r.randbytes(9)
        n = 30 + (1 << 32)
        m, z = area(n + d["sig"])
        m[:21], m[n - 9:n] = head, suf
        sl = C.c_ulonglong(0)
        rho = r.randbytes(d["lb"])
        a.rand(rho)
        a.emit.now(f"crypto_sign {s} message of {n} bytes in place")
        rc = a.fn(s, "cs_sign")(C.byref(z), C.byref(sl), C.byref(z), C.c_ulonglong(n), sk)
        zk, zc = divmod(1 << 32, 65536)
        bad = []
        if rc or sl.value != n + d["sig"]:
            bad.append(f"result {rc}, length {sl.value}")
        if m[:21] != head or m[n - 9:n] != suf or any(m[i:i + 64].count(0) != 64 for i in range(4096, n - 4096, (1 << 28) + 64 * 17)):
            bad.append("message changed")
        ev = dict(op="signivrun", set=s, sk=sk.hex(), pk=pk.hex(), pre=head.hex(), zk=zk, zc=zc, suf=suf.hex(), what="message", rho=rho.hex(), iv=m[n + d["sig"] - 16:n + d["sig"]].hex())
        if bad:
            ev["dirty"] = ", ".join(bad)
        a.emit(("r", ev))
        del z
        m.close()
    return f

def run(ck):
    T = ck.thorough
    path = core.lib("default", ("shim_api.c",), tag="p")
    todo = [("huge open", hugeopen("em_128f")), ("huge sign", hugesign("em_128f"))]
    for s in core.SETS:
        c, S = api.COST[s], comp.dims(s)["sig"]
        lens = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 4096, S - 1, S, S + 1, 65535, 65536, 70000, 3 * S, 1 << 20]
        shifts = [None, 0, 1, -1, 2, -2, 7, -7, 8, -8, 16, -16, 31, -31, 100, -100, S - 1, S, S + 1, 1 - S, -S, 64, -64]
        if not T and c >= 20:
            lens = [0, 1, 33, S, 65536]
        elif not T and c >= 5:
            lens = lens[::2] + [1 << 20]
        off = core.SETS.index(s)
        shifts = shifts[:2] + shifts[2 + off % 5:] + shifts[2:2 + off % 5]
        todo.append((f"combined {s}", cs(s, lens, shifts, 60 if T or c < 5 else 20 if c < 20 else 5, 12 if T else 4 if c < 20 else 1)))
    evs = api.jobs(ck, path, todo)
    ck.tick("calls")
    tr = [[x for x in l if not isinstance(x, tuple)] for l in evs]
    for t in tr[2:8]:
        ck.sample(t[len(t) // 2])
    ck.add(calls=sum(map(len, evs)))
    ck.validate_traces("TraceApi", tr)
    ck.tick("ideal")
    ck.validate("TraceFaest", [x[1] for l in evs for x in l if isinstance(x, tuple) and x[0] == "f"], weight=api.weight)
    ck.validate("TraceComp", [x[1] for l in evs for x in l if isinstance(x, tuple) and x[0] == "r"])
