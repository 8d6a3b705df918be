"""pyvc.shim -- what the verified code sees instead of numpy, math, numba, ..."""
import builtins as _b
import operator
import types

import numpy as np

from . import core, opaque
from .arr import (FieldView, SArr, SRec, SRecArr, dot, kind_of, mk, sdiv, to_obj, z_and, z_not, z_or)
from .core import (SBool, SInt, SNum, SReal, Unsupported, conv, ctx, is_sym, ite, m_acos, m_asin, m_atan, m_atan2,
                   m_ceil, m_cos, m_fabs, m_floor, m_fmod, m_max, m_min, m_round, m_sin, m_sqrt, m_tan)


def ew(f, kind="f"):
    """Element-wise lifting."""
    def g(x, *rest, **kw):
        if hasattr(x, "__vc_map__"):
            return x.__vc_map__(f, kind)
        if isinstance(x, (SArr, list, tuple, np.ndarray)):
            a = x if isinstance(x, SArr) else SArr(*to_obj(x))
            return a.map(f, kind or a.k)
        return f(x)
    return g


def ew2(f, kind=None):
    def g(x, y, *rest, **kw):
        if hasattr(x, "__vc_bin__"):
            return x.__vc_bin__(y, f)
        if isinstance(x, (SArr, list, tuple)) or isinstance(y, (SArr, list, tuple)):
            a = x if isinstance(x, SArr) else SArr(*to_obj(x))
            return a._bin(y, f, kind)
        return f(x, y)
    return g


def as_arr(x, k=None):
    if isinstance(x, SArr):
        return x
    return SArr(*to_obj(x))


class DType:
    """np.float64, np.int32, float ...: callable and usable as a dtype."""

    def __init__(self, real, kind):
        self.real, self.kind = real, kind
        self.__vc_type__ = {"f": "float", "i": "int", "b": "bool"}[kind]

    def __call__(self, x=0):
        if isinstance(x, (SArr,)):
            return x.astype(self.real)
        return conv(x, self.kind)

    def __eq__(self, o):
        return o is self or (isinstance(o, type) and np.dtype(self.real) == np.dtype(o)) or (
            isinstance(o, np.dtype) and np.dtype(self.real) == o)

    def __hash__(self):
        return hash(self.real)

    def __getitem__(self, i):
        return self

    def __instancecheck__(self, o):
        return False


def undt(dt):
    if isinstance(dt, DType):
        return dt.real
    if dt is vc_float:
        return float
    if dt is vc_int:
        return int
    if dt is vc_bool:
        return bool
    if isinstance(dt, list):
        return [tuple(undt(x) if i == 1 else x for i, x in enumerate(f)) for f in dt]
    if isinstance(dt, tuple):
        return tuple(undt(x) for x in dt)
    return dt


class NP(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.linalg = LinAlg()
        self.rec = self
        self.r_ = R_()
        self.pi = np.pi
        self.inf = np.inf
        self.nan = np.nan
        self.newaxis = None
        self.ndarray = SArr
        self.recarray = RecArrayType
        self.generic = SNum
        for n, k in dict(float64="f", float32="f", float_="f", int32="i", int64="i", int_="i", int8="i", int16="i",
                         uint8="i", uint16="i", uint32="i", bool_="b", intp="i").items():
            setattr(self, n, DType(getattr(np, n, {"float_": np.float64}.get(n)), k))
        self.float = self.float64

    # constructors
    def dtype(self, d):
        return np.dtype(undt(d))

    def array(self, x, dtype=None, order=None, copy=True, ndmin=0, **kw):
        dt = undt(dtype)
        if dt is not None and np.dtype(dt).names:
            if isinstance(x, tuple):
                return SRec(dt, x)
            if isinstance(x, (list, SRecArr)):
                return SRecArr.of([SRec(dt, v) for v in x], dt)
            raise Unsupported("structured array from this value")
        if isinstance(x, list) and getattr(x, "sym", None) is not None:
            x = x.sym
        if hasattr(x, "__vc_map__"):
            return x.__vc_array__(dt)
        if isinstance(x, SRecArr):
            return x.copy()
        if isinstance(x, list) and x and isinstance(x[0], (SRec, SRecArr)):
            # list of records / one-element record arrays
            dt0 = x[0].dtype
            if isinstance(x[0], SRec):
                return SRecArr.of(x, dt0)
            a = np.empty((len(x), len(x[0])), dtype=object)
            for i, v in enumerate(x):
                for j in range(len(v)):
                    a[i, j] = v.a[j].copy()
            return SRecArr(a, dt0)
        if hasattr(x, "__vc_to_array__"):
            return x.__vc_to_array__(dt)
        o, k = to_obj(x)
        if dt is not None:
            k2 = kind_of(dt)
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                r[i] = conv(o[i], k2)
            o, k = r, k2
        else:
            if k == "f":
                r = np.empty(o.shape, dtype=object)
                for i in np.ndindex(*o.shape):
                    r[i] = conv(o[i], "f")
                o = r
            else:
                o = o.copy()
        return SArr(o, k)

    asarray = array
    ascontiguousarray = array

    def atleast_1d(self, x):
        a = as_arr(x)
        return a if a.ndim else a.reshape(1)

    def atleast_2d(self, x):
        if hasattr(x, "__vc_map__"):
            return x
        a = as_arr(x)
        if a.ndim >= 2:
            return a
        return a.reshape(1, -1) if a.size else SArr(np.empty((1, 0), dtype=object), a.k)

    def _shape(self, s):
        if isinstance(s, (tuple, list)):
            return tuple(operator.index(v) for v in s)
        return (operator.index(s),)

    def full(self, shape, v, dtype=None):
        dt = undt(dtype)
        k = kind_of(dt) if dt is not None else core_kind(v)
        if sym_shape(shape):
            return sym_alloc(shape, k, conv(v, k))
        shp = self._shape(shape)
        o = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            o[i] = conv(v, k)
        return SArr(o, k)

    def zeros(self, shape, dtype=float, order=None):
        dt = undt(dtype)
        if dt is not None and np.dtype(dt).names:
            return SRecArr.new(shape, dt)
        if sym_shape(shape):
            return sym_alloc(shape, kind_of(dt), 0)
        return self.full(shape, 0, dt)

    def ones(self, shape, dtype=float):
        if sym_shape(shape):
            return sym_alloc(shape, kind_of(undt(dtype)), 1)
        return self.full(shape, 1, undt(dtype))

    def empty(self, shape, dtype=float, order=None):
        dt = undt(dtype)
        if dt is not None and np.dtype(dt).names:
            return SRecArr.new(shape, dt)
        k = kind_of(dt)
        if sym_shape(shape):
            return sym_alloc(shape, k, None)
        shp = self._shape(shape)
        o = np.empty(shp, dtype=object)
        c = core.Ctx.cur
        for i in np.ndindex(*shp):
            o[i] = (c.fresh_real("uninit") if k == "f" else c.fresh_int("uninit")) if c else 0
        return SArr(o, k)

    def zeros_like(self, x, dtype=None):
        if hasattr(x, "__vc_map__"):
            return x.__vc_like__(0, kind_of(undt(dtype)) if dtype is not None else None)
        x = as_arr(x)
        return self.full(x.shape, 0, undt(dtype) if dtype is not None else x.dtype)

    def empty_like(self, x, dtype=None):
        if hasattr(x, "__vc_map__"):
            return x.__vc_like__(None, kind_of(undt(dtype)) if dtype is not None else None)
        x = as_arr(x)
        return self.empty(x.shape, undt(dtype) if dtype is not None else x.dtype)

    def ones_like(self, x, dtype=None):
        x = as_arr(x)
        return self.full(x.shape, 1, undt(dtype) if dtype is not None else x.dtype)

    def eye(self, n, dtype=float):
        a = self.zeros((n, n), dtype)
        for i in range(n):
            a[i, i] = 1.0
        return a

    identity = eye

    def arange(self, *a, **k):
        if any(isinstance(v, SNum) for v in a):
            return sym_arange(*a)
        o = np.arange(*a)
        return as_arr(o)

    def linspace(self, a, b, n):
        if isinstance(n, SNum) and core._const(n) is None:
            return sym_linspace(a, b, n)
        n = operator.index(n)
        return self.array([a + (b - a) * i / (n - 1) if n > 1 else a for i in range(n)])

    def copy(self, x):
        return x.copy()

    # element-wise
    sqrt = staticmethod(ew(m_sqrt))
    sin = staticmethod(ew(m_sin))
    cos = staticmethod(ew(m_cos))
    tan = staticmethod(ew(m_tan))
    arctan = staticmethod(ew(m_atan))
    arcsin = staticmethod(ew(m_asin))
    arccos = staticmethod(ew(m_acos))
    abs = staticmethod(ew(abs, None))
    fabs = staticmethod(ew(abs))
    absolute = staticmethod(ew(abs, None))
    floor = staticmethod(ew(lambda x: conv(m_floor(x), "f")))
    ceil = staticmethod(ew(lambda x: conv(m_ceil(x), "f")))
    rint = staticmethod(ew(lambda x: conv(m_round(x), "f")))
    square = staticmethod(ew(lambda x: x * x, None))
    sign = staticmethod(ew(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)) if is_sym(x) else (x > 0) - (x < 0), None))
    isnan = staticmethod(ew(lambda x: False if is_sym(x) else bool(np.isnan(x)), "b"))
    isfinite = staticmethod(ew(lambda x: True if is_sym(x) else bool(np.isfinite(x)), "b"))
    logical_not = staticmethod(ew(z_not, "b"))
    fmod = staticmethod(ew2(m_fmod))
    minimum = staticmethod(ew2(m_min))
    maximum = staticmethod(ew2(m_max))
    arctan2 = staticmethod(ew2(m_atan2))
    hypot = staticmethod(ew2(lambda x, y: m_sqrt(x * x + y * y)))
    multiply = staticmethod(ew2(operator.mul))
    add = staticmethod(ew2(operator.add))
    subtract = staticmethod(ew2(operator.sub))
    divide = staticmethod(ew2(sdiv))
    power = staticmethod(ew2(operator.pow))
    less = staticmethod(ew2(operator.lt, "b"))
    greater = staticmethod(ew2(operator.gt, "b"))
    logical_and = staticmethod(ew2(z_and, "b"))
    logical_or = staticmethod(ew2(z_or, "b"))

    def clip(self, x, lo, hi):
        f = lambda v: m_min(m_max(v, lo), hi)
        return ew(f, None)(x)

    def where(self, c, a=None, b=None):
        if hasattr(c, "__vc_where__"):
            return c.__vc_where__(a, b)
        if a is None:
            c = as_arr(c)
            idx = [i for i in range(c.shape[0]) if bool(c.a[i])]
            return (self.array(idx, dtype=int) if idx else SArr(np.empty((0,), dtype=object), "i"),)
        if isinstance(c, SArr):
            ca, aa, bb = np.broadcast_arrays(c.a, to_obj(a)[0], to_obj(b)[0])
            o = np.empty(ca.shape, dtype=object)
            for i in np.ndindex(*ca.shape):
                o[i] = ite(ca[i], aa[i], bb[i]) if isinstance(ca[i], SBool) else (aa[i] if ca[i] else bb[i])
            return SArr(o, "f")
        return ite(c, a, b) if isinstance(c, SBool) else (a if c else b)

    def flatnonzero(self, c):
        if hasattr(c, "__vc_where__"):
            from .symseq import Where
            return Where(c)
        return self.where(as_arr(c).ravel())[0]

    nonzero = where

    # linear algebra
    def dot(self, a, b):
        return dot(a, b)

    inner = vdot = matmul = dot

    def cross(self, a, b):
        a, b = as_arr(a), as_arr(b)
        if a.shape != (3,) or b.shape != (3,):
            raise Unsupported("cross of these shapes")
        return self.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def sum(self, x, axis=None, **kw):
        if hasattr(x, "__vc_sum__"):
            return x.__vc_sum__()
        return as_arr(x).sum(axis)

    def mean(self, x, axis=None):
        return as_arr(x).mean(axis)

    def prod(self, x, axis=None):
        return as_arr(x).prod(axis)

    def max(self, x, axis=None):
        return as_arr(x).max(axis)

    def min(self, x, axis=None):
        return as_arr(x).min(axis)

    amax, amin = max, min

    def argmin(self, x):
        return as_arr(x).argmin()

    def argmax(self, x):
        return as_arr(x).argmax()

    def all(self, x, axis=None):
        return as_arr(x).all()

    def any(self, x, axis=None):
        return as_arr(x).any()

    def diag(self, x):
        x = as_arr(x)
        if x.ndim == 2:
            return self.array([x[i, i] for i in range(min(x.shape))])
        raise Unsupported("diag")

    def allclose(self, a, b, rtol=1e-05, atol=1e-08):
        a, b = as_arr(a), as_arr(b)
        d = a - b
        aa, dd, bb = np.broadcast_arrays(a.a, to_obj(d)[0], b.a)
        r = True
        for i in np.ndindex(*dd.shape):
            r = z_and(r, abs(dd[i]) <= atol + rtol * abs(bb[i]))
        return r

    def isclose(self, a, b, rtol=1e-05, atol=1e-08):
        if isinstance(a, SArr) or isinstance(b, SArr):
            raise Unsupported("isclose of arrays")
        return abs(a - b) <= atol + rtol * abs(b)

    def array_equal(self, a, b):
        a, b = as_arr(a), as_arr(b)
        if a.shape != b.shape:
            return False
        return (a == b).all()

    # shapes
    def concatenate(self, xs, axis=0):
        xs = [as_arr(x) for x in xs]
        return SArr(np.concatenate([x.a for x in xs], axis=axis), _jk(xs))

    def hstack(self, xs):
        xs = [as_arr(x) for x in xs]
        xs = [x if x.ndim else x.reshape(1) for x in xs]
        return SArr(np.hstack([x.a for x in xs]), _jk(xs))

    def vstack(self, xs):
        xs = [as_arr(x) for x in xs]
        return SArr(np.vstack([x.a for x in xs]), _jk(xs))

    def stack(self, xs, axis=0):
        xs = [as_arr(x) for x in xs]
        return SArr(np.stack([x.a for x in xs], axis=axis), _jk(xs))

    def append(self, a, b):
        return self.hstack([a, b])

    def flip(self, x, axis=None):
        if hasattr(x, "__vc_flip__"):
            return x.__vc_flip__()
        if isinstance(x, SRecArr):
            return SRecArr(x.a[::-1], x._dt)
        return SArr(np.flip(x.a, axis), x.k)

    def resize(self, x, n):
        if hasattr(x, "__vc_resize__"):
            return x.__vc_resize__(n)
        if isinstance(x, SRecArr):
            n = operator.index(n)
            return SRecArr.of([x.a[i % len(x.a)] if len(x.a) else SRec(x._dt) for i in range(n)], x._dt)
        return SArr(np.resize(x.a, n), x.k)

    def transpose(self, x):
        return as_arr(x).T

    def reshape(self, x, s):
        return as_arr(x).reshape(s)

    def sort(self, x, order=None, **kw):
        if hasattr(x, "__vc_flip__"):
            r = x.copy()
            r.sort(order=order)
            return r
        if hasattr(x, "__vc_sorted__"):
            return x.__vc_sorted__(order)
        if isinstance(x, SRecArr):
            r = x.copy()
            r.sort(order=order)
            return r
        raise Unsupported("np.sort")

    def expand_dims(self, x, axis):
        return SArr(np.expand_dims(x.a, axis), x.k)

    def fromstring(self, s, dtype=float, sep=" "):
        k = kind_of(undt(dtype))
        toks = [t for t in (s.split() if sep == " " else s.split(sep))]
        return self.array([parse_num(t, k) for t in toks], dtype=undt(dtype)) if toks else SArr(
            np.empty((0,), dtype=object), k)

    def savetxt(self, fname, x, fmt="%.18e", header="", comments="# ", **kw):
        from . import files
        files.savetxt(fname, x, fmt, header, comments)

    def loadtxt(self, *a, **k):
        raise Unsupported("np.loadtxt")

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n} is outside the verified fragment")


def _jk(xs):
    from .arr import _join
    k = xs[0].k
    for x in xs[1:]:
        k = _join(k, x.k)
    return k


def core_kind(v):
    from .arr import _kind_val
    return _kind_val(v)


def sym_shape(s):
    if isinstance(s, (tuple, list)):
        return any(isinstance(v, SNum) and core._const(v) is None or is_big(v) for v in s)
    return isinstance(s, SNum) and core._const(s) is None or is_big(s)


def is_big(v):
    from .symseq import BIG
    k = core._const(v) if isinstance(v, SNum) else v
    return isinstance(k, (int, np.integer)) and k > BIG


def sym_alloc(shape, k, v):
    from . import symseq
    return symseq.alloc(shape, k, v)


def sym_arange(*a):
    from . import symseq
    return symseq.arange(*a)


def sym_linspace(a, b, n):
    from . import symseq
    return symseq.linspace(a, b, n)


class LinAlg:
    def norm(self, x, axis=None):
        if axis is not None:
            raise Unsupported("norm with an axis")
        a = as_arr(x)
        if ctx().o.get("length_uf"):
            return core.length_uf(list(a.a.ravel()))
        r = 0.0
        for v in a.a.ravel():
            r = r + v * v
        return m_sqrt(r, squares=True)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        from . import opaque
        return opaque.linalg(self, n)


class R_:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        out = []
        kind = "i"
        from .arr import _join, _kind_val
        for v in k:
            if isinstance(v, (SArr, list, tuple)):
                a = as_arr(v)
                out.extend(a.a.ravel().tolist())
                kind = _join(kind, a.k)
            elif isinstance(v, slice):
                raise Unsupported("r_ with a slice")
            else:
                out.append(v)
                kind = _join(kind, _kind_val(v))
        o = np.empty((len(out),), dtype=object)
        for i, v in enumerate(out):
            o[i] = conv(v, kind)
        return SArr(o, kind)


class _RecArrayMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SRecArr, SRec))

    def __call__(cls, shape, dtype=None, **kw):
        dt = undt(dtype)
        if sym_shape(shape):
            from . import symseq
            return symseq.alloc_rec(shape, dt)
        return SRecArr.new(shape, dt)


class RecArrayType(metaclass=_RecArrayMeta):
    pass


opaque.lift_methods(NP)
NUMPY = NP()


# ====================================================================== math
MATH = types.ModuleType("math")
for n, f in dict(sqrt=m_sqrt, sin=m_sin, cos=m_cos, tan=m_tan, atan=m_atan, asin=m_asin, acos=m_acos, atan2=m_atan2,
                 fabs=lambda x: conv(abs(x), "f"), floor=m_floor, ceil=m_ceil, fmod=m_fmod,
                 hypot=lambda x, y: m_sqrt(x * x + y * y)).items():
    setattr(MATH, n, f)
import math as _m
MATH.pi, MATH.e, MATH.inf, MATH.nan = _m.pi, _m.e, _m.inf, _m.nan
MATH.isnan = lambda x: False if is_sym(x) else _m.isnan(x)
MATH.isfinite = lambda x: True if is_sym(x) else _m.isfinite(x)
MATH.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= m_max(rel_tol * m_max(abs(a), abs(b)), abs_tol)


# ====================================================================== numba
def _njit(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
        return a[0]
    return lambda f: f


class _NbType:
    def __call__(self, *a):
        return self

    def __getitem__(self, i):
        return self


NUMBA = types.ModuleType("numba")
for n in ("njit", "jit", "vectorize"):
    setattr(NUMBA, n, _njit)
for n in ("float64", "float32", "int32", "int64", "boolean", "void", "uint8", "types", "int8"):
    setattr(NUMBA, n, _NbType())
NUMBA.prange = None   # set below


# ====================================================================== scipy
class _Hole(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        def f(*a, **k):
            raise Unsupported(f"{self.__name__}.{n} is an unverified dependency")
        f.__name__ = n
        return _HoleAttr(self.__name__ + "." + n)


class _HoleAttr:
    def __init__(self, n):
        self._n = n

    def __call__(self, *a, **k):
        h = HOOKS.get(self._n) or DEFAULT_HOOKS.get(self._n)
        if h is not None and core.Ctx.cur is not None:
            return h(*a, **k)
        raise Unsupported(f"{self._n} is an unverified dependency")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _HoleAttr(self._n + "." + n)


DEFAULT_HOOKS = {"scipy.linalg.lstsq": opaque.lstsq}
HOOKS = {}   # contracts assumed for external functions, set by harnesses


# ====================================================================== builtins
def parse_num(s, kind):
    """int()/float() of a string that may contain a formatted symbolic value."""
    from . import files
    return files.parse_num(s, kind)


def vc_float(x=0.0):
    if isinstance(x, str):
        return parse_num(x, "f")
    if isinstance(x, SArr):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = x.a.ravel()[0]
    if isinstance(x, (SNum, SBool)):
        return conv(x, "f")
    return float(x)


def vc_int(x=0, *a):
    if isinstance(x, str):
        return parse_num(x, "i") if not a else int(x, *a)
    if isinstance(x, SArr):
        x = x.a.ravel()[0]
    if isinstance(x, (SNum, SBool)):
        return conv(x, "i")
    return int(x)


def vc_bool(x=False):
    if isinstance(x, (SBool,)):
        return x
    if isinstance(x, SNum):
        return SBool(core.term_b(x))
    return bool(x)


def vc_str(x=""):
    return str(x)


vc_float.__vc_type__ = "float"
vc_int.__vc_type__ = "int"
vc_bool.__vc_type__ = "bool"


def vc_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for u in ts:
        if u in (float, vc_float) or (isinstance(u, DType) and u.kind == "f"):
            if isinstance(x, (float, SReal)):
                return True
        elif u in (int, vc_int) or (isinstance(u, DType) and u.kind == "i"):
            if isinstance(x, (int, SInt)):
                return True
        elif u in (bool, vc_bool):
            if isinstance(x, (bool, SBool)):
                return True
        elif u is vc_str:
            if isinstance(x, str):
                return True
        elif hasattr(x, "__vc_seq__") and getattr(x, "flavor", "list") != "list":
            if u is SArr:
                return True
        elif u in (list, tuple) and hasattr(x, "__vc_seq__"):
            return True
        elif isinstance(u, type) and isinstance(x, u):
            return True
    return False


def vc_abs(x):
    return abs(x)


def _iterable(a):
    if len(a) == 1:
        x = a[0]
        if hasattr(x, "__vc_minmax__"):
            return None
        return list(x)
    return list(a)


def vc_min(*a, key=None, default=None):
    if key is not None:
        raise Unsupported("min with key")
    if len(a) == 1 and hasattr(a[0], "__vc_minmax__"):
        return a[0].__vc_minmax__("min")
    v = _iterable(a)
    if not v:
        if default is not None:
            return default
        raise ValueError("min() arg is an empty sequence")
    return m_min(*v)


def vc_max(*a, key=None, default=None):
    if key is not None:
        raise Unsupported("max with key")
    if len(a) == 1 and hasattr(a[0], "__vc_minmax__"):
        return a[0].__vc_minmax__("max")
    v = _iterable(a)
    if not v:
        if default is not None:
            return default
        raise ValueError("max() arg is an empty sequence")
    return m_max(*v)


def vc_sum(xs, start=0):
    r = start
    for v in xs:
        r = r + v
    return r


def vc_len(x):
    if hasattr(x, "__vc_len__"):
        return x.__vc_len__()
    return len(x)


class SRange:
    """range() with a symbolic bound."""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a for statement")


def vc_range(*a):
    a = [x.a.item() if isinstance(x, SArr) and x.size == 1 else x for x in a]
    if any(isinstance(x, (SNum, SBool)) and core._const(x) is None for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        if len(a) == 2:
            return SRange(a[0], a[1])
        return SRange(*a)
    return range(*[operator.index(core._const(x) if isinstance(x, SNum) else x) for x in a])


NUMBA.prange = vc_range


class SZip:
    def __init__(self, parts, kind, start=0):
        self.parts, self.kind, self.start = parts, kind, start

    def __iter__(self):
        raise Unsupported("iteration over a symbolic zip outside a for statement")


def vc_enumerate(x, start=0):
    if hasattr(x, "__vc_seq__") and x.__vc_symbolic__():
        return SZip([x], "enumerate", start)
    return enumerate(x, start)


class ZipStar:
    """The argument list *s of a symbolic sequence s of tuples."""

    def __init__(self, cols, n):
        self.cols, self.n = cols, n


class SRows:
    """A symbolic sequence of tuples, given by its columns."""

    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    def __iter__(self):
        yield ZipStar(self.cols, self.n)

    def __vc_len__(self):
        return self.n


def sorted_rows(z, key, reverse):
    """Assumed contract of sorted(): a permutation of the rows, in order of the key."""
    import z3
    from .symseq import SymSeq
    from .core import SBool, SInt
    if z.kind != "zip":
        raise Unsupported("sorted() of this sequence")
    parts = [p.sym if getattr(p, "sym", None) is not None else p for p in z.parts]
    if not all(isinstance(p, SymSeq) and isinstance(p.t, str) for p in parts):
        raise Unsupported("sorted() of this sequence")
    c = core.ctx()
    n = m_min(*[p.n for p in parts])
    nm = c.fresh_name("sorted")
    I = z3.IntSort()
    perm, inv = z3.Function(nm + "p", I, I), z3.Function(nm + "i", I, I)
    c.last_sorted = (lambda i: SInt(perm(core.term(i)))), (lambda i: SInt(inv(core.term(i))))
    new = [SymSeq.fresh(p.t, n) for p in parts]
    j, k = z3.Int(c.fresh_name("j")), z3.Int(c.fresh_name("k"))
    N = core.term(n)
    for a, b in zip(parts, new):
        x, y = a.at(SInt(perm(j))), b.at(SInt(j))
        eq = core.term_b(y) == core.term_b(x) if a.t == "b" else core.term(y) == core.term(x)
        c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), eq), patterns=[perm(j), core.term(y)])))
    for f, g in ((perm, inv), (inv, perm)):
        c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N), z3.And(f(j) >= 0, f(j) < N, g(f(j)) == j)),
                                 patterns=[f(j)])))
    c.spec += 1
    try:
        lo, hi = (tuple(b.at(SInt(q)) for b in new) for q in (j, k))
        if reverse:
            lo, hi = hi, lo
        if key is not None:
            lo, hi = (key(lo),), (key(hi),)
        p = True
        for x, y in reversed(list(zip(lo, hi))):
            p = z_or(x < y, z_and(x == y, p))
    finally:
        c.spec -= 1
    c.assume(SBool(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < N), core.term_b(p)))))
    return SRows(new, n)


def vc_zip(*xs, **k):
    if len(xs) == 1 and isinstance(xs[0], ZipStar):
        core.ctx().safe("something to unzip", xs[0].n > 0)
        return tuple(xs[0].cols)
    if any(hasattr(x, "__vc_seq__") and x.__vc_symbolic__() for x in xs):
        return SZip(list(xs), "zip")
    return zip(*xs, **k)


def vc_sorted(xs, key=None, reverse=False):
    if isinstance(xs, SZip):
        return sorted_rows(xs, key, reverse)
    if hasattr(xs, "__vc_seq__") and xs.__vc_symbolic__():
        raise Unsupported("sorted() of a symbolic sequence")
    out = []
    kf = key or (lambda v: v)
    xs = list(xs)
    if reverse:
        xs = xs[::-1]
    for x in xs:
        j = len(out)
        while j > 0 and bool(kf(x) < kf(out[j - 1])):
            j -= 1
        out.insert(j, x)
    if reverse:
        out = out[::-1]
    return out


def vc_round(x, nd=None):
    return m_round(x, nd)


def vc_all(xs):
    r = True
    for v in xs:
        r = z_and(r, v)
        if r is False:
            return False
    return r


def vc_any(xs):
    r = False
    for v in xs:
        r = z_or(r, v)
        if r is True:
            return True
    return r


def vc_pow(x, y, m=None):
    return x ** y


def vc_print(*a, **k):
    return None


def vc_open(*a, **k):
    from . import files
    return files.vopen(*a, **k)


def vc_list(x=()):
    if hasattr(x, "__vc_seq__") and x.__vc_symbolic__():
        return x.__vc_copy__()
    return list(x)


class _ListMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, list) or hasattr(o, "__vc_seq__")

    def __call__(cls, x=()):
        return vc_list(x)


BUILTINS = dict(float=vc_float, int=vc_int, bool=vc_bool, abs=vc_abs, min=vc_min, max=vc_max, len=vc_len,
                range=vc_range, sum=vc_sum, sorted=vc_sorted, round=vc_round, isinstance=vc_isinstance,
                enumerate=vc_enumerate, zip=vc_zip, open=vc_open, print=vc_print, all=vc_all, any=vc_any,
                pow=vc_pow)
