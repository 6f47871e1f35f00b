"""ctypes access to a built library."""
import ctypes as C, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import fbuild

class Lib:
    def __init__(self, path, params=None):
        self.c = C.CDLL(path)
        self.ps = {p["PARAM_L"]: p for p in (params or fbuild.params())}
    def size(self, s, k):
        return int(self.ps[s][k])
    def f(self, s, name):
        fn = getattr(self.c, f"faest_{s}_{name}")
        fn.restype = C.c_int
        return fn
    # random source
    def rand_set(self, data=b"", script=()):
        a = (C.c_int * max(1, len(script)))(*script)
        self.c.hx_rand_set(data, C.c_size_t(len(data)), a, len(script))
    def rand_seed(self, s):
        self.c.hx_rand_seed(C.c_uint64(s))
    def rand_sizes(self):
        self.c.hx_rand_size.restype = C.c_size_t
        return [self.c.hx_rand_size(i) for i in range(self.c.hx_rand_draws())]
    # API
    def keygen(self, s):
        pk = C.create_string_buffer(self.size(s, "PK_SIZE")); sk = C.create_string_buffer(self.size(s, "SK_SIZE"))
        rc = self.f(s, "keygen")(pk, sk)
        return rc, pk.raw, sk.raw
    def validate(self, s, pk, sk):
        return self.f(s, "validate_keypair")(pk, sk)
    def signr(self, s, sk, msg, rho, cap=None, fill=0):
        n = self.size(s, "SIG_SIZE") if cap is None else cap
        sig = C.create_string_buffer(bytes([fill]) * max(1, n), max(1, n))
        sl = C.c_size_t(n)
        rc = self.f(s, "sign_with_randomness")(sk, msg, C.c_size_t(len(msg or b"")), rho, C.c_size_t(len(rho or b"")), sig, C.byref(sl))
        return rc, sig.raw[:n], sl.value
    def sign(self, s, sk, msg):
        n = self.size(s, "SIG_SIZE")
        sig = C.create_string_buffer(n); sl = C.c_size_t(n)
        rc = self.f(s, "sign")(sk, msg, C.c_size_t(len(msg)), sig, C.byref(sl))
        return rc, sig.raw, sl.value
    def verify(self, s, pk, msg, sig):
        return self.f(s, "verify")(pk, msg, C.c_size_t(len(msg)), sig, C.c_size_t(len(sig)))
