"""pyvc.opaque -- values of numerical routines the properties do not depend on.

An Opaque value stands for any number or array: every operation on it gives
another one, a comparison is an unknown truth value, and storing it stores
unknown numbers.  (Sound for code whose result may be anything; it changes
nothing: the library routines behind it are assumed to be pure.)
"""
import numpy as np

from . import core
from .core import ctx


class Opaque:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, cols=None):
        self.cols = cols

    def _new(self, *a, **k):
        return Opaque()

    for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv pow rpow matmul rmatmul neg pos abs mod getitem".split()):
        locals()[f"__{_n}__"] = _new

    def __setitem__(self, i, v):
        raise core.Unsupported("storing into an unknown array")

    def _cmp(self, o):
        return ctx().fresh_bool("any")

    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp
    __hash__ = None

    def __bool__(self):
        return bool(ctx().fresh_bool("any"))

    def __getattr__(self, n):
        if n.startswith("__") or n == "dtype" or not hasattr(np.ndarray, n):
            raise AttributeError(n)
        if n in ("T", "shape", "real", "flat", "size"):
            return Opaque()
        if n in ("copy", "dot", "sum", "mean", "flatten", "ravel", "reshape", "transpose", "diagonal", "trace", "max", "min", "std"):
            return lambda *a, **k: Opaque()
        raise core.Unsupported(f"attribute {n} of an unknown value")

    def value(self, k):
        c = ctx()
        return c.fresh_real("any") if k == "f" else c.fresh_int("any") if k == "i" else c.fresh_bool("any")


def lift_methods(cls):
    """numpy functions give unknown values for unknown arguments."""
    for n, f in list(vars(cls).items()):
        if n.startswith("_") or not callable(f) or isinstance(f, type):
            continue
        if isinstance(f, staticmethod):
            setattr(cls, n, staticmethod(_wrap(f.__func__)))
        else:
            setattr(cls, n, _wrap(f))


def _wrap(f):
    def g(*a, **k):
        for x in a:
            if isinstance(x, Opaque):
                return Opaque()
        return f(*a, **k)
    g.__name__ = getattr(f, "__name__", "f")
    g.__doc__ = f.__doc__
    return g


def lstsq(a, b, *args, **kw):
    """scipy.linalg.lstsq: any solution (its quality is not part of a property); its inputs are left alone."""
    from .arr import SArr
    if kw.get("overwrite_a") or kw.get("overwrite_b"):
        raise core.Unsupported("lstsq that overwrites its inputs")
    c = ctx()
    c.stats.trusted.add("scipy.linalg.lstsq and numpy.linalg: any result (finite), inputs unchanged")
    n = a.cols if isinstance(a, Opaque) else a.shape[1]
    n = core._const(n) if n is not None else None
    if n is None:
        raise core.Unsupported("lstsq with an unknown number of columns")
    o = np.empty(int(n), dtype=object)
    for i in range(int(n)):
        o[i] = c.fresh_real("beta")
    return SArr(o, "f"), Opaque(), Opaque(), Opaque()


def linalg(self, n):
    """numpy.linalg.f of an unknown matrix."""
    def f(x, *a, **k):
        if isinstance(x, Opaque):
            return Opaque()
        raise core.Unsupported(f"numpy.linalg.{n}")
    return f
