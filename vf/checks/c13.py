"""C13: random oracles and the hash layer against SHAKE of the specification (TraceComp); MCSponge: the sponge's buffering, whose divisions of
input and output are replayed."""
import json
from .. import comp
LEVEL = "model_checking"
CONFIGS = ("default", "portable", "avx2", "nox4", "own", "clangown")

def lengths(r, rate):
    base = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]
    for k in (1, 2, 3, 4, 7, 8):
        base += [k * rate + d for d in (-9, -8, -2, -1, 0, 1, 2, 8)]
    return base

def cut(r, n, mode):
    """A division of n into chunks."""
    if mode == 0:
        return [n]
    if mode == 1:
        return [1] * n if n <= 700 else [1] * 300 + [n - 300]
    out, left = [], n
    pool = (0, 1, 7, 8, 9, 16, 32, 64, 135, 136, 137, 167, 168, 169, 200, 272, 336, 1000)
    while left:
        k = min(left, r.choice(pool) if mode == 2 else r.randrange(1, 1 + max(1, n // 3)))
        out.append(k)
        left -= k
    return out + ([0] if mode == 2 else [])

def drive(c, r, shims, thorough):
    rb = r.randbytes
    reps = 12 if thorough else 2
    for sec in comp.LAMS:
        lb, rate = sec // 8, 168 if sec == 128 else 136
        ls = lengths(r, rate)
        for which in range(4):
            for rep in range(reps):
                for n in ls if rep == 0 else r.sample(ls, 12) + [r.randrange(3000) for _ in range(6)]:
                    l1 = {0: lb, 1: 2 * lb, 2: r.choice((lb, 3 * lb + 8, 5 * lb + 8)), 3: lb}[which]
                    if r.random() < .3:
                        l1 = r.choice((1, 8, 31, rate - 1, rate, rate + 1, 2 * rate, 500, 1111))
                    c.oracle(which, sec, rb(n), l1, 2 * lb if r.random() < .8 else r.randrange(300), cut(r, n, (rep + n) % 4))
        for n in ls + [r.randrange(2000) for _ in range(10 * reps)]:
            # all lanes different, sometimes all but one equal
            ms = [rb(n) for _ in range(4)] if r.random() < .7 else [rb(n)] * 4
            c.oracle_x4(sec, ms, lb if r.random() < .7 else r.randrange(1, 400), 2 * lb if r.random() < .7 else r.randrange(0, 400), cut(r, n, r.randrange(4)))
            n2 = r.choice((0, 1, 8, rate - 1, rate, rate + 1, 2 * rate, 3 * rate + 5, 700))
            c.xof(sec, r.choice((-1, 0, 1, 255)), rb(n), cut(r, n, r.randrange(4)), cut(r, n2, r.randrange(4)))
            c.xof_x4(sec, r.choice((-1, 0, 7)), [rb(n) for _ in range(4)], cut(r, n, r.randrange(4)), cut(r, n2, r.randrange(4)))

def big(c, r, sizes):
    """Long inputs (zeros between a random head and tail), through the oracle for messages."""
    import ctypes as C, mmap
    for sec, extra, tail in sizes:
        head = r.randbytes(64)
        zk, zc = divmod(extra, 65536)
        n = extra
        m = mmap.mmap(-1, max(n, 1), flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
        z = (C.c_char * max(n, 1)).from_buffer(m)
        suf = r.randbytes(tail)
        o = C.create_string_buffer(64)
        c.emit.now(f"H1/{sec} of {64 + n + tail} bytes")
        fn = c.c.hx_oracle_big
        fn(1, sec, head, C.c_size_t(64), C.byref(z), C.c_size_t(n), suf, C.c_size_t(tail), o, C.c_size_t(2 * sec // 8))
        c.emit(dict(op="shakerun", sec=sec, pre=head.hex(), zk=zk, zc=zc, suf=(suf + b"\x01").hex(), n=2 * sec // 8, o=o.raw[:2 * sec // 8].hex()))
        del z
        m.close()

def replay(c, r, scripts):
    """Divisions in quarters of the rate, as MCSponge printed them."""
    for x in scripts:
        sec = r.choice(comp.LAMS)
        q = (168 if sec == 128 else 136) // 4
        i, o = [q * k for k in x["in"]], [q * k for k in x["out"]]
        if r.random() < .3 and i:          # off the boundary
            k = r.randrange(len(i)); i[k] = max(0, i[k] + r.choice((-1, 1)))
        if r.random() < .5:
            c.xof(sec, r.choice((-1, 0, 3, 255)), r.randbytes(sum(i)), i, o)
        else:
            c.xof_x4(sec, r.choice((-1, 0, 7)), [r.randbytes(sum(i)) for _ in range(4)], i, o)

def run(ck):
    for cfg in ("MCSponge.cfg", "MCSpongeSlow.cfg"):
        ck.model("MCSponge", cfg)
    ck.refuted("MCSponge", "MCSpongeCut.cfg")
    scripts = [json.loads(json.loads(x.split(", ", 1)[1][:-2])) for x in ck.model("MCSponge", "MCSpongeGen.cfg").printed if x.startswith('<<"SCRIPT"')]
    ck.add(divisions=len(scripts))
    scripts = ck.rng.sample(scripts, ck.q(800, len(scripts)))
    ck.tick("sponge model")
    sz = [(128, (1 << 29) + 13, 77), (192, (1 << 16) * 3 + 5, 3), (256, 1 << 27, 0)]
    huge = [(256, (1 << 32) - 1, 37)]
    jobs = [("hashing", lambda c, r, ok: drive(c, r, ok, ck.thorough)),
            *[(f"divisions {i}", lambda c, r, ok, i=i: replay(c, r, scripts[i::4])) for i in range(4)],
            ("long inputs", lambda c, r, ok: big(c, r, sz), ("default", "portable", "avx2")),
            ("input beyond 4 GiB", lambda c, r, ok: big(c, r, [(128, (1 << 32) + 5, 1)]), ("default",)),
            ("longest input", lambda c, r, ok: big(c, r, huge), ("default",))]
    comp.campaign(ck, ["shim_ro.c"], CONFIGS if ck.thorough else CONFIGS[:4], jobs,
                  weight=lambda e: 10000 * (e.get("zk", 0) // 1000 + 1) if e["op"] == "shakerun" else 300 + len(e.get("m", "")))
