"""C17: field arithmetic against the specification (TraceComp); the byte embedding exhaustively (MCField)."""
from .. import comp
LEVEL = "model_checking"
CONFIGS = ("default", "scalar", "clang", "avx2", "o0")

def bit(L, i):
    return bytes(1 << (i % 8) if j == i // 8 else 0 for j in range(L))

def batches(c, bits, f, pairs, size=256):
    for k in range(0, len(pairs), size):
        p = pairs[k:k + size]
        c.field(bits, f, b"".join(a for a, _ in p), b"".join(b for _, b in p), len(p))

def drive(c, r, bits, thorough):
    L = bits // 8
    rb = r.randbytes
    edge = [bytes(L), b"\xff" * L, bit(L, 0), bit(L, bits - 1), b"\x80" * L, b"\x01" * L, rb(L)]
    if bits == 8:
        batches(c, 8, "mul", [(bytes([a]), bytes([b])) for a in range(256) for b in range(256)], 4096)
        batches(c, 8, "add", [(bytes([a]), bytes([a * 7 + k & 255])) for a in range(256) for k in range(8)], 2048)
        for f in ("inv", "loadstore"):
            c.field(8, f, bytes(range(256)), b"\x00" * 256, 256)
        for f in ("frombit",):
            c.field(8, f, bytes([0, 1]), b"\0\0", 2)
        for f in ("zero", "one"):
            c.field(8, f, b"", b"", 1)
        return
    step = 1 if thorough or bits == 64 else 3 if bits == 128 else 5
    pairs = [(bit(L, i), bit(L, j)) for i in range(bits) for j in range(i % step, bits, step)]
    pairs += [(bit(L, i), e) for i in range(bits) for e in edge] + [(e, bit(L, i)) for i in range(bits) for e in edge]
    pairs += [(a, b) for a in edge for b in edge] + [(rb(L), rb(L)) for _ in range(4000 if thorough else 800)]
    batches(c, bits, "mul", pairs)
    batches(c, bits, "add", [(rb(L), rb(L)) for _ in range(100)] + [(e, f) for e in edge for f in edge])
    batches(c, bits, "loadstore", [(rb(L), b"") for _ in range(50)] + [(e, b"") for e in edge])
    c.field(bits, "frombit", bytes([0, 1]), b"", 2)
    c.field(bits, "zero", b"", b"", 1)
    c.field(bits, "one", b"", b"", 1)
    if bits == 64:
        return
    p64 = [(bit(L, i), bit(8, j)) for i in range(bits) for j in range(i % step, 64, step)]
    p64 += [(e, bit(8, j)) for e in edge for j in range(64)] + [(bit(L, i), e) for i in range(bits) for e in (b"\xff" * 8, rb(8))]
    p64 += [(rb(L), rb(8)) for _ in range(400)]
    batches(c, bits, "mul64", p64)
    batches(c, bits, "mulbit", [(rb(L), bytes([i % 2])) for i in range(40)] + [(e, bytes([b])) for e in edge for b in (0, 1)])
    c.field(bits, "combbits", bytes(range(256)), b"", 256)
    batches(c, bits, "comb", [(rb(8 * L), b"") for _ in range(60)] + [(bytes(i * L) + e + bytes((7 - i) * L), b"") for i in range(8) for e in edge]
            + [(bytes(k * L) + bit(L, i) + bytes((7 - k) * L), b"") for k in range(8) for i in range(0, bits, 7)])
    batches(c, bits, "sumpoly", [(rb(bits * L), b"") for _ in range(12)] + [(bytes(i * L) + rb(L) + bytes((bits - 1 - i) * L), b"") for i in range(0, bits, 1 if thorough else 11)]
            + [(b"\xff" * (bits * L), b""), (bytes(bits * L), b"")], 16)
    batches(c, bits, "from64", [(rb(8), b"") for _ in range(20)] + [(bit(8, i), b"") for i in range(64)] + [(b"\xff" * 8, b"")])
    c.field(bits, "from8", bytes(range(256)), b"", 256)

def run(ck):
    ck.model("MCField", workers=8)
    comp.campaign(ck, ["shim_field.c"], CONFIGS, [(f"GF(2^{b})", lambda c, r, ok, b=b: drive(c, r, b, ck.thorough)) for b in (8, 64, 128, 192, 256)],
                  weight=lambda e: 10 + e["n"] * (len(e["a"]) // (2 * e["n"]) if e["f"] in ("comb", "sumpoly") else 16))
