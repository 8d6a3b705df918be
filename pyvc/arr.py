"""pyvc.arr -- arrays and records of symbolic scalars (concrete shapes)."""
import copy as _copy
import operator

import numpy as np

from . import core
from .core import SBool, SInt, SNum, SReal, Unsupported, conv, ctx, is_sym, ite
from .opaque import Opaque


def kind_of(dt):
    if dt is None:
        return "f"
    if isinstance(dt, str):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(np.dtype(dt).kind, "o")
    if dt is float or getattr(dt, "__vc_type__", None) == "float":
        return "f"
    if dt is int or getattr(dt, "__vc_type__", None) == "int":
        return "i"
    if dt is bool or getattr(dt, "__vc_type__", None) == "bool":
        return "b"
    if dt is object:
        return "o"
    d = np.dtype(dt)
    return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(d.kind, "o")


def _kind_val(v):
    if isinstance(v, (bool, np.bool_, SBool)):
        return "b"
    if isinstance(v, (int, np.integer, SInt)):
        return "i"
    if isinstance(v, (float, np.floating, SReal)):
        return "f"
    return "o"


def _join(a, b):
    o = {"b": 0, "i": 1, "f": 2, "o": 3}
    return a if o[a] >= o[b] else b


def raw(x):
    """Object ndarray (or scalar) behind x."""
    if isinstance(x, SArr):
        return x.a
    return x


def to_obj(x):
    """Nested python data / arrays -> object ndarray, and element kind."""
    if isinstance(x, SArr):
        return x.a, x.k
    if isinstance(x, np.ndarray):
        k = kind_of(x.dtype)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            o[i] = x[i].item() if hasattr(x[i], "item") else x[i]
        return o, k
    if isinstance(x, (list, tuple)):
        if not x:
            return np.empty((0,), dtype=object), "f"
        parts = [to_obj(v) for v in x]
        shp = parts[0][0].shape
        if any(p[0].shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
        k = parts[0][1]
        o = np.empty((len(parts),) + shp, dtype=object)
        for i, (p, kk) in enumerate(parts):
            k = _join(k, kk)
            if shp == ():
                o[i] = p[()]
            else:
                o[i, ...] = p
        return o, k
    o = np.empty((), dtype=object)
    if isinstance(x, np.generic):
        x = x.item()
    o[()] = x
    return o, _kind_val(x)


def mk(o, k):
    """Wrap an object ndarray; 0-d becomes a scalar."""
    if isinstance(o, np.ndarray):
        if o.shape == ():
            return o[()]
        return SArr(o, k)
    return o


class SArr:
    __array_priority__ = 1e10
    __array_ufunc__ = None

    def __init__(self, a, k="f"):
        self.a = a
        self.k = k
        self.serial = next(core.Ctx.cur.serial) if core.Ctx.cur else 0
        self.base = self

    # -- structure
    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return np.dtype({"f": np.float64, "i": np.int64, "b": np.bool_, "o": object}[self.k])

    @property
    def T(self):
        return self._view(self.a.T)

    @property
    def flat(self):
        return Flat(self)

    @property
    def flags(self):
        return self.a.flags

    def _view(self, a):
        r = SArr(a, self.k)
        r.base = self.base
        return r

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return f"SArr({self.a.tolist()})"

    def view(self, *a):
        return self

    def copy(self, *a, **k):
        return SArr(self.a.copy(), self.k)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.a.tolist()

    def item(self, *a):
        return self.a.item(*a)

    def astype(self, dt, **kw):
        k = kind_of(dt)
        return self.map(lambda v: conv(v, k), k)

    def map(self, f, k):
        o = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            o[i] = f(self.a[i])
        return SArr(o, k)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return self._view(self.a.reshape(*[operator.index(x) for x in s]))

    def flatten(self, *a):
        return SArr(self.a.flatten(), self.k)

    def ravel(self, *a):
        return self._view(self.a.ravel())

    def squeeze(self):
        return mk(self.a.squeeze(), self.k)

    def fill(self, v):
        self[...] = v

    def transpose(self, *a):
        return self._view(self.a.transpose(*a))

    # -- indexing
    def _idx(self, i):
        if isinstance(i, SArr):
            if i.k == "b":
                return np.array([bool(v) for v in i.a.ravel()], dtype=bool).reshape(i.shape)
            return i.a.astype(int)
        if isinstance(i, list):
            return [operator.index(v) for v in i]
        return i

    def _norm(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return tuple(self._idx(i) for i in idx)

    def _sym_positions(self, idx):
        return [p for p, i in enumerate(idx) if isinstance(i, SNum)]

    def _dims(self, idx):
        """Array axis each index position refers to (no newaxis with symbolic)."""
        ax, out = 0, []
        n = sum(1 for i in idx if i is not None and i is not Ellipsis)
        for i in idx:
            if i is None:
                out.append(None)
            elif i is Ellipsis:
                out.append(None)
                ax += self.a.ndim - n
            else:
                out.append(ax)
                ax += 1
        return out

    def __getitem__(self, idx):
        if isinstance(idx, str):
            raise Unsupported("field access on a plain array")
        idx = self._norm(idx)
        idx = tuple(_slice_index(i) for i in idx)
        sp = self._sym_positions(idx)
        if sp:
            dims = self._dims(idx)
            p = sp[0]
            n = self.a.shape[dims[p]]
            i = idx[p]
            c = ctx()
            c.safe("index in bounds", z_and(i >= -n, i < n))
            vals = []
            for j in range(n):
                vals.append(self[idx[:p] + (j,) + idx[p + 1:]])
            if any(isinstance(v, SArr) for v in vals):
                j = i.__index__()
                return self[idx[:p] + (j,) + idx[p + 1:]]
            r = vals[-1]
            for j in range(n - 2, -1, -1):
                r = ite((i == j) | (i == j - n), vals[j], r)
            return r
        r = self.a[idx]
        if isinstance(r, np.ndarray):
            if r.shape == () and Ellipsis not in idx:
                return r[()]
            return self._view(r)
        return r

    def __setitem__(self, idx, v):
        c = core.Ctx.cur
        if c is not None:
            note_write(c, self.base)
        idx = self._norm(idx)
        idx = tuple(_slice_index(i) for i in idx)
        sp = self._sym_positions(idx)
        if sp:
            if len(sp) == 1 and not isinstance(v, (SArr, list, tuple, np.ndarray)) and all(
                    isinstance(i, (int, np.integer, SNum)) for i in idx) and len(idx) == self.a.ndim:
                p = sp[0]
                i = idx[p]
                n = self.a.shape[p]
                c.safe("index in bounds", z_and(i >= -n, i < n))
                for j in range(n):
                    k = idx[:p] + (j,) + idx[p + 1:]
                    self.a[k] = ite((i == j) | (i == j - n), conv(v, self.k), self.a[k])
                return
            idx = tuple(i.__index__() if isinstance(i, SNum) else i for i in idx)
        if isinstance(v, Opaque):
            tgt = self.a[idx]
            if isinstance(tgt, np.ndarray):
                for i in np.ndindex(*tgt.shape):
                    tgt[i] = v.value(self.k)
                if not np.shares_memory(tgt, self.a):
                    raise Unsupported("unknown value through a fancy index")
            else:
                self.a[idx] = v.value(self.k)
            return
        if isinstance(v, (SArr, list, tuple, np.ndarray)):
            o, _ = to_obj(v)
            tgt = self.a[idx]
            if not isinstance(tgt, np.ndarray):
                if o.size == 1:
                    self.a[idx] = conv(o.ravel()[0], self.k)
                    return
                raise ValueError("setting an array element with a sequence.")
            o = np.broadcast_to(o, tgt.shape) if o.shape != tgt.shape else o
            n = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                n[i] = conv(o[i], self.k)
            self.a[idx] = n
        else:
            if isinstance(v, np.generic):
                v = v.item()
            self.a[idx] = conv(v, self.k)

    # -- arithmetic
    def _bin(self, o, f, k=None):
        if isinstance(o, SRec):
            return NotImplemented
        b, kb = to_obj(o)
        a, b = np.broadcast_arrays(self.a, b)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = f(a[i], b[i])
        return mk(r, k or _join(self.k, kb))

    def __add__(self, o):
        return self._bin(o, lambda a, b: core.valued(a + b))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: core.valued(b + a))

    def __sub__(self, o):
        return self._bin(o, lambda a, b: core.valued(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: core.valued(b - a))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, sdiv, "f")

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: sdiv(b, a), "f")

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a ** b)

    def __neg__(self):
        return self.map(lambda v: -v, self.k)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.map(abs, self.k)

    def _iop(self, o, f):
        self[...] = f(self, o)
        return self

    def __iadd__(self, o):
        return self._iop(o, operator.add)

    def __isub__(self, o):
        return self._iop(o, operator.sub)

    def __imul__(self, o):
        return self._iop(o, operator.mul)

    def __itruediv__(self, o):
        return self._iop(o, operator.truediv)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, "b")

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, "b")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, "b")

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, "b")

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b, "b")

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b, "b")

    __hash__ = None

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b, "b")

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b, "b")

    def __invert__(self):
        return self.map(lambda v: ~v if isinstance(v, SBool) else (not v), "b")

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.a.ravel()[0])

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def dot(self, o):
        return dot(self, o)

    # -- reductions
    def _red(self, f, init, axis=None, k=None):
        if axis is None:
            r = init
            first = init is None
            for v in self.a.ravel():
                if first:
                    r, first = v, False
                else:
                    r = f(r, v)
            return r
        axis = axis % self.a.ndim
        m = np.moveaxis(self.a, axis, -1)
        o = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            o[i] = SArr(m[i], self.k)._red(f, init)
        return mk(o, k or self.k)

    def sum(self, axis=None, **kw):
        return self._red(operator.add, None if self.a.size else 0.0, axis)

    def prod(self, axis=None):
        return self._red(operator.mul, None, axis)

    def mean(self, axis=None, **kw):
        n = self.a.size if axis is None else self.a.shape[axis]
        return sdiv(self.sum(axis), n) if axis is None else self.sum(axis) / n

    def max(self, axis=None, **kw):
        return self._red(core.m_max, None, axis)

    def min(self, axis=None, **kw):
        return self._red(core.m_min, None, axis)

    def all(self, axis=None):
        r = True
        for v in self.a.ravel():
            r = z_and(r, v)
        return r

    def any(self, axis=None):
        r = False
        for v in self.a.ravel():
            r = z_or(r, v)
        return r

    def argmin(self):
        best = 0
        f = self.a.ravel()
        for i in range(1, len(f)):
            if f[i] < f[best]:
                best = i
        return best

    def argmax(self):
        best = 0
        f = self.a.ravel()
        for i in range(1, len(f)):
            if f[i] > f[best]:
                best = i
        return best


class Flat:
    def __init__(self, s):
        self.s = s

    def _i(self, i):
        return np.unravel_index(operator.index(i), self.s.a.shape)

    def __getitem__(self, i):
        return self.s[self._i(i)]

    def __setitem__(self, i, v):
        self.s[self._i(i)] = v

    def __iter__(self):
        return iter(self.s.ravel())


def _slice_index(i):
    if isinstance(i, slice):
        f = lambda v: v if v is None else operator.index(v)
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def sdiv(a, b):
    if is_sym(a) or is_sym(b):
        return core.div(a, b)
    if b == 0:
        # numpy semantics would give inf/nan with a warning
        raise Unsupported("division of concrete numbers by zero in an array")
    return a / b


def z_and(a, b):
    if a is True or (isinstance(a, (bool, np.bool_)) and a):
        return b
    if isinstance(a, (bool, np.bool_)) and not a:
        return False
    if isinstance(b, (bool, np.bool_)):
        return a if b else False
    if isinstance(a, (SBool, SNum)) or isinstance(b, (SBool, SNum)):
        import z3
        return SBool(z3.And(core.term_b(a), core.term_b(b)))
    return a and b


def z_or(a, b):
    if isinstance(a, (bool, np.bool_)):
        return True if a else b
    if isinstance(b, (bool, np.bool_)):
        return True if b else a
    if isinstance(a, (SBool, SNum)) or isinstance(b, (SBool, SNum)):
        import z3
        return SBool(z3.Or(core.term_b(a), core.term_b(b)))
    return a or b


def z_not(a):
    if isinstance(a, SBool):
        return ~a
    if isinstance(a, SNum):
        import z3
        return SBool(z3.Not(core.term_b(a)))
    return not a


def dot(a, b):
    a = a if isinstance(a, SArr) else SArr(*to_obj(a))
    b = b if isinstance(b, SArr) else SArr(*to_obj(b))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    if a.ndim == 1 and b.ndim == 1:
        r = 0.0
        for x, y in zip(a.a, b.a):
            r = r + x * y
        from .core import Ctx, SReal
        if isinstance(r, SReal) and Ctx.cur is not None and Ctx.cur.o.get("sqrt_alias"):
            import z3
            r = SReal(z3.simplify(r.t))
        return r
    if a.ndim == 2 and b.ndim == 1:
        o = np.empty((a.shape[0],), dtype=object)
        for i in range(a.shape[0]):
            o[i] = dot(a[i], b)
        return SArr(o, "f")
    if a.ndim == 1 and b.ndim == 2:
        o = np.empty((b.shape[1],), dtype=object)
        for i in range(b.shape[1]):
            o[i] = dot(a, b[:, i])
        return SArr(o, "f")
    if a.ndim == 2 and b.ndim == 2:
        o = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                o[i, j] = dot(a[i], b[:, j])
        return SArr(o, "f")
    raise Unsupported("dot of these ranks")


# ====================================================================== records
def note_write(c, obj):
    """Frame bookkeeping of the symbolic loops."""
    if getattr(obj, "frozen", False):
        raise core.Unsupported("write into an array of which a list in an arbitrary iteration may hold more names")
    for L in c.loop_stack:
        L.note_write(obj)


class SRec:
    """A numpy record (or 0-d structured array): named fields."""
    __array_priority__ = 1e10
    __array_ufunc__ = None

    def __init__(self, dtype, vals=None):
        d = object.__setattr__
        d(self, "_dt", np.dtype(dtype))
        d(self, "_v", {})
        d(self, "serial", next(core.Ctx.cur.serial) if core.Ctx.cur else 0)
        for n in self._dt.names:
            ft = self._dt[n]
            self._v[n] = _zero(ft)
        if vals is not None:
            if isinstance(vals, SRec):
                vals = [vals._v[n] for n in self._dt.names]
            for n, v in zip(self._dt.names, vals):
                self._set(n, v)

    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return ()

    @property
    def base(self):
        return self

    def view(self, *a):
        return self

    def _set(self, n, v):
        if n not in self._v:
            raise Unsupported(f"record has no field {n}")
        c = core.Ctx.cur
        if c is not None:
            note_write(c, self)
        old = self._v[n]
        if isinstance(old, SArr):
            old[...] = v
        else:
            if isinstance(v, SArr):
                v = v.a.item()
            if isinstance(v, np.generic) or isinstance(v, np.ndarray):
                v = v.item()
            self._v[n] = conv(v, kind_of(self._dt[n]))

    def __getattr__(self, n):
        v = object.__getattribute__(self, "_v")
        if n in v:
            return v[n]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n in self._v:
            self._set(n, v)
        else:
            object.__setattr__(self, n, v)

    def __getitem__(self, n):
        if isinstance(n, str):
            if n not in self._v:
                raise ValueError(f"no field of name {n}")
            return self._v[n]
        if n == () or n is Ellipsis:
            return self
        if isinstance(n, int):
            return self._v[self._dt.names[n]]
        raise IndexError("too many indices for array: array is 0-dimensional")

    def __setitem__(self, n, v):
        if isinstance(n, str):
            self._set(n, v)
        elif n == () or n is Ellipsis:
            for k in self._dt.names:
                self._set(k, v._v[k])
        else:
            raise Unsupported("record item assignment")

    def copy(self):
        return SRec(self._dt, self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __eq__(self, o):
        if not isinstance(o, SRec):
            return False
        r = True
        for n in self._dt.names:
            e = self._v[n] == o._v[n]
            r = z_and(r, e.all() if isinstance(e, SArr) else e)
        return r

    __hash__ = None

    def all(self):
        raise Unsupported("all() of a record")

    def item(self):
        return tuple(self._v[n] for n in self._dt.names)

    def flatten(self):
        return SRecArr.of([self], self._dt)


def _zero(ft):
    if ft.subdtype is not None:
        base, shp = ft.subdtype
        o = np.empty(shp, dtype=object)
        z = {"f": 0.0, "i": 0, "b": False}[kind_of(base)]
        o.fill(z)
        return SArr(o, kind_of(base))
    return {"f": 0.0, "i": 0, "b": False}[kind_of(ft)]


class SRecArr:
    """Array of records, concrete shape (object ndarray of SRec)."""
    __array_priority__ = 1e10
    __array_ufunc__ = None

    def __init__(self, a, dt):
        object.__setattr__(self, "a", a)
        object.__setattr__(self, "_dt", np.dtype(dt))
        object.__setattr__(self, "serial", next(core.Ctx.cur.serial) if core.Ctx.cur else 0)

    @classmethod
    def new(cls, shape, dt):
        if not isinstance(shape, tuple):
            shape = (shape,)
        shape = tuple(operator.index(s) for s in shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = SRec(dt)
        return cls(a, dt)

    @classmethod
    def of(cls, recs, dt):
        a = np.empty((len(recs),), dtype=object)
        for i, r in enumerate(recs):
            a[i] = SRec(dt, r)
        return cls(a, dt)

    @property
    def dtype(self):
        return self._dt

    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    @property
    def ndim(self):
        return self.a.ndim

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def view(self, *a):
        return self

    def copy(self):
        b = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            b[i] = self.a[i].copy()
        return SRecArr(b, self._dt)

    def flatten(self):
        return SRecArr(self.copy().a.flatten(), self._dt)

    def __deepcopy__(self, memo):
        return self.copy()

    def _field(self, n):
        els = [self.a[i]._v[n] for i in np.ndindex(*self.a.shape)]
        ft = self._dt[n]
        k = kind_of(ft.subdtype[0] if ft.subdtype is not None else ft)
        o, _ = to_obj(els)
        sub = ft.subdtype[1] if ft.subdtype is not None else ()
        return FieldView(self, n, o.reshape(self.a.shape + tuple(sub)), k)

    def __getattr__(self, n):
        if n in object.__getattribute__(self, "_dt").names:
            return self._field(n)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        self._setf(n, v)

    def _setf(self, n, v):
        if n not in self._dt.names:
            raise Unsupported("attribute on a record array")
        ft = self._dt[n]
        sub = tuple(ft.subdtype[1]) if ft.subdtype is not None else ()
        o, _ = to_obj(v)
        o = np.broadcast_to(o, self.a.shape + sub)
        for i in np.ndindex(*self.a.shape):
            self.a[i]._set(n, mk(o[i], "o") if sub else o[i])

    def __getitem__(self, i):
        if isinstance(i, str):
            return self._field(i)
        idx = i if isinstance(i, tuple) else (i,)
        nidx = []
        for p, j in enumerate(idx):
            if isinstance(j, SNum):
                ctx().safe("index in bounds", z_and(j >= -self.a.shape[p], j < self.a.shape[p]))
                j = j.__index__()
            elif isinstance(j, SArr):
                j = j.a.astype(int) if j.k != "b" else np.array([bool(v) for v in j.a])
            nidx.append(_slice_index(j))
        r = self.a[tuple(nidx)]
        if isinstance(r, SRec):
            return r
        return SRecArr(r, self._dt)

    def __setitem__(self, i, v):
        if isinstance(i, str):
            self._setf(i, v)
            return
        t = self[i]
        if isinstance(t, SRec):
            if isinstance(v, SRec):
                vals = [v._v[n] for n in self._dt.names]
                vals = [x.copy() if isinstance(x, SArr) else x for x in vals]
            else:
                vals = list(v)
            for n, x in zip(self._dt.names, vals):
                t._set(n, x)
        else:
            src = list(v)
            src = [s.copy() for s in src]
            if len(src) != len(t):
                raise ValueError("could not broadcast record arrays")
            for k in range(len(t)):
                t[k] = src[k]

    def sort(self, order=None, **kw):
        recs = [r.copy() for r in self.a.ravel()]
        out = []
        for r in recs:          # stable insertion sort, forks on comparisons
            j = len(out)
            while j > 0 and bool(r._v[order] < out[j - 1]._v[order]):
                j -= 1
            out.insert(j, r)
        for k, r in enumerate(out):
            self[k] = r


class FieldView(SArr):
    """recarr.field -- reads are a snapshot, writes go to the records."""

    def __init__(self, owner, name, a, k):
        super().__init__(a, k)
        self.owner = owner
        self.fname = name

    def __setitem__(self, idx, v):
        super().__setitem__(idx, v)
        nd = self.owner.a.ndim
        for i in np.ndindex(*self.owner.a.shape):
            x = self.a[i]
            if isinstance(x, np.ndarray):
                self.owner.a[i]._v[self.fname].a[...] = x
            else:
                self.owner.a[i]._v[self.fname] = x
