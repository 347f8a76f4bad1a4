"""A pure Python stand-in for numba, so that the numba backend's source runs without the JIT.

njit functions run as Python.  Explicit signatures and the integer types convert to (wrapped) Python integers, as the
compiled code would use 64 (32) bit unsigned integers.  parallel=True kernels go through `HOOK`, which decides in which
order, and on which thread, the iterations of each prange loop run."""
import sys, types, functools, threading
import numpy as np

HOOK = [None]        # callable(fn, args) -> result, or None for plain execution
LOCAL = threading.local()


class Ty:
    def __init__(self, name, bits, array=False):
        self.name, self.bits, self.array = name, bits, array

    def __getitem__(self, k):
        return Ty(self.name + "[]", self.bits, True)

    def __call__(self, *a):
        if a and all(isinstance(x, Ty) for x in a):
            return Sig(self, a)
        return self.conv(a[0])

    def conv(self, v):
        if self.array:
            return v
        if self.bits is None:
            return v
        return int(v) & ((1 << self.bits) - 1)


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


def _ints(v):
    if isinstance(v, np.ndarray) and v.dtype.kind == "u":
        return [int(x) for x in v]
    return v


def prange(*a):
    f = getattr(LOCAL, "prange", None)
    return range(*[int(x) for x in a]) if f is None else f(*[int(x) for x in a])


def njit(*a, **kw):
    sig = a[0] if a and isinstance(a[0], Sig) else None
    par = bool(kw.get("parallel"))

    def deco(fn):
        @functools.wraps(fn)
        def w(*args):
            if sig is not None:
                r = fn(*[t.conv(_ints(v) if not t.array or t.bits == 64 else v) for t, v in zip(sig.args, args)])
                return sig.ret.conv(_ints(r))
            if par and HOOK[0] is not None:
                return HOOK[0](fn, args)
            return fn(*args)
        w.py_func = fn
        w.parallel = par
        return w
    if a and callable(a[0]) and not isinstance(a[0], (Sig, Ty)):
        return deco(a[0])
    return deco


def install():
    m = types.ModuleType("numba")
    m.njit = m.jit = njit
    m.prange = prange
    m.__version__ = "0.0-stub"
    for b in (8, 16, 32, 64):
        setattr(m, f"uint{b}", Ty(f"uint{b}", b))
        setattr(m, f"int{b}", Ty(f"int{b}", None))
    for nm in ("float32", "float64", "complex64", "complex128", "boolean", "void", "intp", "uintp"):
        setattr(m, nm, Ty(nm, None))
    sys.modules["numba"] = m
    return m
