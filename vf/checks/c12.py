"""C12: parameters, sizes and names against the specification's derivation (TraceComp, which also checks the layout)."""
import ctypes as C
from .. import comp, core
from ..core import SETS
LEVEL = "model_checking"

def drive(c, r, ok, sizes):
    if "shim_par.c" in ok:
        c.c.hx_param_name.restype = C.c_char_p
        for i in range(1, 13):
            v = (C.c_int * 16)()
            c.c.hx_params(i, v)
            c.emit(dict(op="params", id=i, v=list(v), name=c.c.hx_param_name(i).decode()))
        for i in [0, 13, 14, 15, 16, 17, 24, 25, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 258, 268, 512, 4096, 65536, 65537, 0x10000 + 12, 2 ** 31 - 1] + [r.randrange(13, 2 ** 31) for _ in range(50)]:
            c.emit.now(f"look-up of parameter set {i}")
            c.emit(dict(op="noparams", id=i, zero=c.c.hx_params_zero(i), name=c.c.hx_param_name(i).decode()))
    if sizes:
        for i, s in enumerate(SETS):
            v = (C.c_int * 6)()
            c.c.hx_sizes(i, v)
            c.emit(dict(zip(("op", "set", "pk", "sk", "sig", "cspk", "cssk", "csbytes"), ["sizes", s] + list(v))))

def run(ck):
    ck.model("MCLayout")
    comp.campaign(ck, ["shim_par.c", "shim_sizes.c"], ("default", "own"), [("parameter look-ups", lambda c, r, ok: drive(c, r, ok, "shim_sizes.c" in ok))])
