"""C14: the seed expander against AES counter mode of the specification (TraceComp)."""
from .. import comp
LEVEL = "model_checking"
CONFIGS = ("default", "own", "clangown", "o0", "portable", "nox4")

def ivs(r):
    out = [bytes(16), b"\xff" * 16, bytes(15) + b"\x01", b"\x80" + bytes(15), r.randbytes(16)]
    for k in range(16):                     # the carry runs through exactly k bytes
        for last in (0xff, 0xfe, 0xf0):
            out.append(r.randbytes(15 - k) + bytes([r.randrange(255)]) + b"\xff" * (k - 1) + bytes([last]) if k else r.randbytes(15) + bytes([last]))
    return [x[:16] for x in out]

def drive(c, r, thorough):
    rb = r.randbytes
    for kb in (16, 24, 32):
        for n in list(range(0, 131)) + [159, 160, 161, 191, 192, 193, 234, 255, 256, 257, 458, 511, 512, 513, 566, 704, 1023, 1024, 1025, 4095, 4096, 4097, 4112, 8191]:
            c.prg(rb(kb), rb(16), n)
        for iv in ivs(r):
            c.inciv(iv)
            for n in (1, 16, 17, 2 * kb, 100) + ((257, 4200) if thorough else ()):
                c.prg(rb(kb), iv, n)
        for iv, n in ((bytes(16), 70000), (b"\xff" * 14 + bytes(2), 70001), (bytes(14) + b"\xff\x00", 66000), (b"\xff" * 15 + b"\x00", 5000)):
            c.prg(rb(kb), iv, n)
        for k in (bytes(kb), b"\xff" * kb):
            c.prg(k, bytes(16), 48)
        for i in range(0, 8 * kb, 1 if thorough else 5):      # every key byte matters, and the IV
            c.prg(bytes(1 << (i % 8) if j == i // 8 else 0 for j in range(kb)), bytes(16), 33)
        for i in range(128):
            c.prg(rb(kb), bytes(1 << (i % 8) if j == i // 8 else 0 for j in range(16)), 33)
    for _ in range(400 if thorough else 60):
        c.inciv(rb(16))
        kb = r.choice((16, 24, 32))
        c.prg(rb(kb), rb(16), r.randrange(2000))

def bigs(c, r):
    for kb in (16, 24, 32):
        c.prg(r.randbytes(kb), bytes(13) + b"\xff\xff\xfe", 1 << 20)

def run(ck):
    ck.model("MCPrim", "MCPrim.cfg")
    comp.campaign(ck, ["shim_aes.c"], CONFIGS if ck.thorough else CONFIGS[:4],
                  [("seed expansion", lambda c, r, ok: drive(c, r, ck.thorough)), ("long seed expansion", lambda c, r, ok: bigs(c, r))],
                  weight=lambda e: 200 + e.get("n", 0))
