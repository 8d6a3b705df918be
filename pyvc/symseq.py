"""pyvc.symseq -- sequences of symbolic length (lists, arrays, record arrays).

A store holds one z3 array (Int -> Real/Int/Bool) per leaf field; elements are
proxies (store, index), so aliasing of views and elements is exact.
Templates: 'f' 'i' 'b'; ('vec', k, t); {'field': t, ...} with optional '__cls__'.
"""
import numpy as np
import z3

from . import core
from .arr import SArr, SRec, SRecArr, kind_of, note_write, to_obj, z_and, z_or
from .core import SBool, SInt, SNum, SReal, Unsupported, conv, ctx, lift

SORT = {"f": z3.RealSort, "i": z3.IntSort, "b": z3.BoolSort}


def dtype_template(dt):
    dt = np.dtype(dt)
    out = {}
    for n in dt.names:
        ft = dt[n]
        if ft.subdtype is not None:
            base, shp = ft.subdtype
            if len(shp) != 1:
                raise Unsupported("record field of rank 2")
            out[n] = ("vec", shp[0], kind_of(base)) if shp[0] <= 8 else Row(shp[0], kind_of(base))
        else:
            out[n] = kind_of(ft)
    return out


class Row:
    """Template of a long row of plain values inside a record (a two-index z3 array)."""

    def __init__(self, m, k):
        self.m, self.k = m, k


def leaves(t, path=""):
    if isinstance(t, (str, Row)):
        yield path, t
    elif isinstance(t, tuple):
        for k in range(t[1]):
            yield from leaves(t[2], f"{path}.{k}")
    else:
        for n, u in t.items():
            if n != "__cls__":
                yield from leaves(u, f"{path}.{n}")


def sub_template(t, key):
    if isinstance(t, tuple):
        return t[2]
    return t[key]


class Store:
    def __init__(self, template, name=None, terms=None):
        c = ctx()
        self.template = template
        self.serial = next(c.serial)
        self.base = self
        self.a = {}
        nm = name or c.fresh_name("seq")
        for p, k in leaves(template):
            self.a[p] = terms[p] if terms is not None else _array(nm + p, k)
        self.kinds = dict(leaves(template))
        self.dead = False

    def get(self, path, i):
        if self.dead:
            raise Unsupported("an element used after its sequence moved")
        t = z3.Select(self.a[path], i)
        a = self.a[path]
        if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            t = z3.simplify(t)
        return lift(t)

    def put(self, path, i, v):
        c = core.Ctx.cur
        if c is not None:
            note_write(c, self)
        if self.dead:
            raise Unsupported("an element used after its sequence moved")
        if isinstance(v, SArr):
            v = v.a.item()
        v = conv(v, self.kinds[path])
        t = core.term_b(v) if self.kinds[path] == "b" else core.term(v, self.kinds[path] == "f")
        self.a[path] = z3.Store(self.a[path], i, t)

    def __vc_havoc__(self, template=None):
        c = ctx()
        nm = c.fresh_name("hav")
        for p, k in leaves(self.template):
            self.a[p] = _array(nm + p, k)

    def copy(self):
        return Store(self.template, terms=dict(self.a))


def _array(name, k):
    if isinstance(k, Row):
        return z3.Array(name, z3.IntSort(), z3.IntSort(), SORT[k.k]())
    return z3.Array(name, z3.IntSort(), SORT[k]())


def iterm(i):
    if isinstance(i, (SNum, SBool)):
        return core.term(i)
    if isinstance(i, (float,)):
        raise TypeError("list indices must be integers or slices, not float")
    return z3.IntVal(int(i))


class SymSeq:
    """n elements of a store, from offset off."""
    __array_priority__ = 1e10
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, store, n, template=None, off=None, path="", flavor="list"):
        d = object.__setattr__
        d(self, "store", store)
        d(self, "n", n)
        d(self, "t", template if template is not None else store.template)
        d(self, "off", off)
        d(self, "path", path)
        d(self, "flavor", flavor)

    @classmethod
    def fresh(cls, template, n=None, flavor="list", name=None):
        c = ctx()
        if n is None:
            n = c.fresh_int("len")
            c.assume(n >= 0)
        return cls(Store(template, name), n, flavor=flavor)

    # protocol
    @property
    def __vc_seq__(self):
        return True

    def __vc_symbolic__(self):
        return core._const(self.n) is None

    def __vc_len__(self):
        return self.n

    def __len__(self):
        k = core._const(self.n)
        if k is None:
            raise Unsupported("len() of a symbolic sequence outside the shims")
        return int(k)

    def __iter__(self):
        k = core._const(self.n)
        if k is None:
            raise Unsupported("iteration over a symbolic sequence outside a for statement")
        for i in range(int(k)):
            yield self[i]

    def __bool__(self):
        if self.flavor != "list":
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.n > 0)

    def __vc_heap__(self):
        return [self.store]

    @property
    def serial(self):
        return self.store.serial

    def havoc(self, length=False):
        self.store.__vc_havoc__()
        if length:
            c = ctx()
            object.__setattr__(self, "n", c.fresh_int("len"))
            c.assume(self.n >= 0)

    def copy(self, *a):
        return SymSeq(self.store.copy(), self.n, self.t, self.off, self.path, self.flavor)

    __vc_copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self, *a):
        return self.copy()

    def view(self, *a):
        return self

    @property
    def shape(self):
        return (self.n, self.t[1]) if isinstance(self.t, tuple) else (self.n,)

    @property
    def size(self):
        return self.n * self.t[1] if isinstance(self.t, tuple) else self.n

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        t = self.t[2] if isinstance(self.t, tuple) else self.t
        return np.dtype({"f": float, "i": np.int64, "b": bool}[t])

    # indexing
    def _ix(self, i):
        c = ctx()
        if c.spec:
            t = iterm(i)
        else:
            n = self.n
            k = core._const(i)
            if k is not None:
                k = int(k)
                c.safe("index in bounds", (n > k) if k >= 0 else (n >= -k))
                t = z3.IntVal(k) if k >= 0 else core.term(n + k)
            else:
                c.safe("index in bounds", z_and(i >= -n, i < n))
                t = iterm(i)
                if c.feasible(t < 0):
                    t = z3.If(t < 0, t + core.term(n), t)
        if self.off is not None:
            t = t + core.term(self.off)
        return z3.simplify(t)

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.field(i)
        if isinstance(i, tuple):
            if len(i) == 2 and isinstance(self.t, tuple):
                a, b = i
                if isinstance(a, slice) and a == slice(None):
                    b = core._const(b) if isinstance(b, SNum) else b
                    if isinstance(b, slice):
                        from .opaque import Opaque
                        from .arr import _slice_index
                        return Opaque(len(range(*_slice_index(b).indices(self.t[1]))))
                    if not -self.t[1] <= b < self.t[1]:
                        ctx().safe("index in bounds", False)
                    b %= self.t[1]
                    return SymSeq(self.store, self.n, self.t[2], self.off, f"{self.path}.{b}", "ndarray")
                return self[a][b]
            if len(i) == 1:
                return self[i[0]]
            if not any(isinstance(x, slice) for x in i[:-1]):
                return self[i[0]][i[1:]]
            raise Unsupported("multi-index of a symbolic sequence")
        if isinstance(i, slice):
            return self._slice(i)
        if isinstance(i, SArr):
            i = i.a.item()
        return elem(self.store, self.path, self.t, self._ix(i))

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice step of a symbolic sequence")
        a = 0 if s.start is None else s.start
        b = self.n if s.stop is None else s.stop
        c = ctx()
        n = self.n
        if not c.spec:
            if c.feasible(core.term_b(_b(a < 0))) or c.feasible(core.term_b(_b(b < 0))):
                raise Unsupported("negative slice bound of a symbolic sequence")
            if c.feasible(core.term_b(_b(b > n))):
                b = core.ite(_b(b > n), n, b)
            ln = b - a
            if c.feasible(core.term_b(_b(ln < 0))):
                ln = core.ite(_b(ln < 0), 0, ln)
        else:
            ln = b - a
        off = a if self.off is None else self.off + a
        r = SymSeq(self.store, ln, self.t, None if core._const(off) == 0 else off, self.path, self.flavor)
        return r.copy() if self.flavor == "list" else r

    def __setitem__(self, i, v):
        if isinstance(i, str):
            f = self.field(i)
            f[slice(None)] = v
            return
        if isinstance(i, tuple):
            if len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
                self[i][slice(None)] = v
                return
            if len(i) == 2:
                self[i[0]][i[1]] = v
                return
            if len(i) == 1:
                i = i[0]
            elif not any(isinstance(x, slice) for x in i[:-1]):
                self[i[0]][i[1:]] = v
                return
        if isinstance(i, slice):
            self._fill(i, v)
            return
        if isinstance(i, SArr):
            i = i.a.item()
        put_elem(self.store, self.path, self.t, self._ix(i), v, self.flavor)

    def _fill(self, s, v):
        if s != slice(None):
            # (a list would change its length if the lengths differed)
            if s.step not in (None, 1):
                raise Unsupported("slice assignment in a symbolic sequence")
            a, b = 0 if s.start is None else s.start, self.n if s.stop is None else s.stop
            ctx().safe("slice inside the sequence", z_and(_b(a >= 0), z_and(_b(a <= b), _b(b <= self.n))))
            off = a if self.off is None else self.off + a
            SymSeq(self.store, b - a, self.t, off, self.path, "ndarray")._fill(slice(None), v)
            return
        if isinstance(v, list) and getattr(v, "sym", None) is not None:
            v = v.sym
        if hasattr(v, "cols"):
            raise Unsupported("unknown array stored into a symbolic sequence")
        if isinstance(v, SymSeq):
            c = ctx()
            c.safe("equal lengths", _b(v.n == self.n))
            self._each(lambda j, p: v.at(j, p))
        else:
            self._each(lambda j, p: v)

    def _each(self, f):
        """self[j].path = f(j, path) for every element."""
        c = ctx()
        st = self.store
        note_write(c, st)
        for p, k in leaves(self.t, self.path):
            j = z3.Int(c.fresh_name("j"))
            rel = p[len(self.path):]
            if isinstance(k, Row):
                i2 = z3.Int(c.fresh_name("j"))
                v = conv(constant(f(SInt(j), rel)), k.k)
                st.a[p] = z3.Lambda([j, i2], self._keep(core.term(v, k.k == "f"), j, st.a[p], i2))
                continue
            c.spec += 1
            try:
                v = conv(f(SInt(j), rel), k)
            finally:
                c.spec -= 1
            t = core.term_b(v) if k == "b" else core.term(v, k == "f")
            off = core.term(self.off) if self.off is not None else z3.IntVal(0)
            t = z3.substitute(t, (j, j - off)) if self.off is not None else t
            if self.off is not None:
                t = z3.If(z3.And(j >= off, j < off + core.term(self.n)), t, z3.Select(st.a[p], j))
            st.a[p] = z3.Lambda([j], t)

    def _keep(self, t, j, old, i2):
        if self.off is None:
            return t
        off = core.term(self.off)
        return z3.If(z3.And(j >= off, j < off + core.term(self.n)), t, z3.Select(old, j, i2))

    def sort(self, order=None, **kw):
        """Assumed contract of numpy: a permutation of the elements, in ascending order."""
        if order is None or not isinstance(self.t, dict):
            raise Unsupported("sort of this sequence")
        c = ctx()
        old = self.copy()
        note_write(c, self.store)
        nm = c.fresh_name("sorted")
        perm, inv = z3.Function(nm + "p", z3.IntSort(), z3.IntSort()), z3.Function(nm + "i", z3.IntSort(), z3.IntSort())
        new = SymSeq(Store(self.store.template), self.n, self.t, self.off, self.path, self.flavor)
        j, k = z3.Int(c.fresh_name("j")), z3.Int(c.fresh_name("k"))
        n = core.term(self.n)
        at = lambda q, i, l: core.term(q.at(SInt(i), l)) if q.store.kinds[q.path + l] != "b" else core.term_b(q.at(SInt(i), l))
        for l, kd in leaves(self.t):
            c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), at(new, j, l) == at(old, perm(j), l)),
                                     patterns=[perm(j), at(new, j, l)])))
        c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            perm(j) >= 0, perm(j) < n, inv(perm(j)) == j)), patterns=[perm(j)])))
        c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            inv(j) >= 0, inv(j) < n, perm(inv(j)) == j)), patterns=[inv(j)])))
        c.assume(SBool(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n),
                                                    at(new, j, "." + order) <= at(new, k, "." + order)))))
        self._each(lambda i, l: new.at(i, l))
        c.last_sorted = (lambda i: SInt(perm(core.term(i)))), (lambda i: SInt(inv(core.term(i))))

    def __vc_flip__(self):
        r = self.copy()
        r = SymSeq(Store(self.store.template), self.n, self.t, None, self.path, self.flavor)
        r._each(lambda i, l: self.at(self.n - 1 - i, l))
        return r

    def at(self, j, path=""):
        """Leaf value, no obligations (specification use)."""
        t = iterm(j)
        if self.off is not None:
            t = t + core.term(self.off)
        return self.store.get(self.path + path, t)

    def __vc_resize__(self, m):
        """numpy's resize: the elements over and over again (zeros if there are none)."""
        c = ctx()
        c.safe("non-negative size", _b(m >= 0))
        r = SymSeq(Store(self.store.template), m, self.t, None, self.path, self.flavor)
        n = core.term(self.n)

        def at(i, l):
            i, k = core.term(i), self.store.kinds[self.path + l]
            v = self.at(SInt(z3.If(i < n, i, i % n)), l)
            z = {"f": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False)}[k]
            return lift(z3.If(n == 0, z, core.term_b(v) if k == "b" else core.term(v, k == "f")))
        r._each(at)
        return r

    def field(self, n):
        if not isinstance(self.t, dict) or n not in self.t:
            raise AttributeError(n)
        return SymSeq(self.store, self.n, self.t[n], self.off, f"{self.path}.{n}", "ndarray")

    def __getattr__(self, n):
        t = object.__getattribute__(self, "t")
        if isinstance(t, dict) and n in t and self.flavor == "recarray":
            return self.field(n)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if isinstance(self.t, dict) and n in self.t:
            self[n] = v
            return
        object.__setattr__(self, n, v)

    def append(self, v):
        if self.flavor != "list" or self.off is not None:
            raise Unsupported("append to a view")
        i = core.term(self.n)
        put_elem(self.store, self.path, self.t, i, v, "append")
        object.__setattr__(self, "n", self.n + 1)
        if isinstance(self.t, dict) and isinstance(v, self.t.get("__cls__", ())) and not isinstance(v, RecProxy):
            # the object itself is the element from now on
            v.__dict__.clear()
            v.__class__ = RecProxy
            RecProxy.__init__(v, self.store, self.path, self.t, z3.simplify(i))

    # element-wise
    def __vc_map__(self, f, kind):
        r = SymSeq.fresh(retype(self.t, kind), self.n, self.flavor)
        r._each(lambda j, p: f(self.at(j, p)))
        return r

    def __vc_like__(self, v, kind=None):
        r = SymSeq.fresh(retype(self.t, kind), self.n, self.flavor)
        if v is not None:
            r._each(lambda j, p: v)
        return r

    def __vc_array__(self, dt=None):
        r = self.copy()
        object.__setattr__(r, "flavor", "ndarray" if not isinstance(self.t, dict) else "recarray")
        if dt is not None and not isinstance(self.t, dict):
            k = kind_of(dt)
            r = self.__vc_map__(lambda v: conv(v, k), k)
            object.__setattr__(r, "flavor", "ndarray")
        return r

    def astype(self, dt):
        return self.__vc_array__(dt)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = [core._const(x) if isinstance(x, SNum) else x for x in s]
        if isinstance(self.t, tuple) and len(s) == 2 and s[0] == -1 and s[1] == self.t[1]:
            return SymSeq(self.store, self.n, self.t, self.off, self.path, self.flavor)
        raise Unsupported("reshape of a symbolic sequence")

    def _bin(self, o, f, kind=None):
        c = ctx()
        if isinstance(o, SymSeq):
            c.safe("equal lengths", _b(o.n == self.n))
            g = lambda j, p: f(self.at(j, p), o.at(j, p))
        elif isinstance(o, SArr):
            if not isinstance(self.t, tuple) or o.shape != (self.t[1],):
                raise Unsupported("broadcast against a symbolic sequence")
            g = lambda j, p: f(self.at(j, p), o.a[int(p[1:])])
        else:
            g = lambda j, p: f(self.at(j, p), o)
        k = kind
        if k is None:
            k = "f" if (self._leafkind() == "f" or isinstance(o, (float, SReal)) or (
                isinstance(o, SymSeq) and o._leafkind() == "f") or (isinstance(o, SArr) and o.k == "f")) else "i"
        r = SymSeq.fresh(retype(self.t, k), self.n, "ndarray")
        r._each(g)
        return r

    __vc_bin__ = _bin

    def _leafkind(self):
        t = self.t
        while isinstance(t, tuple):
            t = t[2]
        if isinstance(t, dict):
            raise Unsupported("arithmetic on records")
        return t

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = ctx()
        if isinstance(o, (SymSeq, SArr)):
            raise Unsupported("division by an array")
        c.safe("division by zero", _b(o != 0) if isinstance(o, SNum) else o != 0)
        return self._bin(o, lambda a, b: SReal(core.term(a, True) / core.term(b, True)), "f")

    def __neg__(self):
        return self.__vc_map__(lambda v: -v, self._leafkind())

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b, "b")

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b, "b")

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b, "b")

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b, "b")

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b, "b")

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b, "b")

    def __vc_where__(self, a=None, b=None):
        if a is not None:
            return self._bin2(a, b)
        return (Where(self),)

    def all(self):
        c = ctx()
        j = z3.Int(c.fresh_name("j"))
        return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < core.term(self.n)),
                                               core.term_b(self.at(SInt(j))))))

    def any(self):
        c = ctx()
        j = z3.Int(c.fresh_name("j"))
        return SBool(z3.Exists([j], z3.And(j >= 0, j < core.term(self.n), core.term_b(self.at(SInt(j))))))


class RowView(SymSeq):
    """The long row of one record."""

    def __init__(self, store, path, i, n, off=None):
        row = store.kinds[path]
        SymSeq.__init__(self, store, n, row.k, off, path, "ndarray")
        object.__setattr__(self, "i", i)

    @property
    def index(self):
        """The number of the record this row belongs to."""
        return SInt(self.i) if not isinstance(self.i, int) else self.i

    def at(self, j, path=""):
        t = iterm(j)
        if self.off is not None:
            t = t + core.term(self.off)
        return lift(z3.simplify(z3.Select(self.store.a[self.path], self.i, t)))

    def __getitem__(self, j):
        if isinstance(j, slice):
            return self._slice(j)
        if isinstance(j, SArr):
            j = j.a.item()
        return lift(z3.simplify(z3.Select(self.store.a[self.path], self.i, self._ix(j))))

    def _slice(self, s):
        r = SymSeq._slice(self, s)
        return RowView(self.store, self.path, self.i, r.n, r.off)

    def __setitem__(self, j, v):
        note_write(ctx(), self.store)
        if isinstance(j, slice):
            raise Unsupported("slice assignment in a long row")
        v = conv(v, self.t)
        self.store.a[self.path] = z3.Store(self.store.a[self.path], self.i, self._ix(j), core.term(v, self.t == "f"))

    def copy(self, *a):
        raise Unsupported("copy of a long row")


class Where:
    """np.where(cond)[0] of a symbolic mask: only its emptiness and first element
    are available."""

    def __init__(self, mask):
        self.mask = mask
        self._first = None

    @property
    def size(self):
        return WhereSize(self)

    def __vc_len__(self):
        return WhereSize(self)

    def nonempty(self):
        return self.mask.any()

    def __getitem__(self, i):
        if i != 0:
            raise Unsupported("np.where(...)[k]")
        c = ctx()
        c.safe("index in bounds", self.nonempty())
        k = c.fresh_int("first")
        c.assume((k >= 0) & (k < self.mask.n))
        c.assume(self.mask.at(k))
        j = z3.Int(c.fresh_name("j"))
        c.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.t),
                                                 z3.Not(core.term_b(self.mask.at(SInt(j))))))))
        return k


class WhereSize:
    def __init__(self, w):
        self.w = w

    def _z(self, o):
        if o != 0:
            raise Unsupported("size of np.where compared with a non-zero value")

    def __gt__(self, o):
        self._z(o)
        return self.w.nonempty()

    def __eq__(self, o):
        self._z(o)
        return ~self.w.nonempty()

    def __ne__(self, o):
        self._z(o)
        return self.w.nonempty()

    def __bool__(self):
        return bool(self.w.nonempty())


def _b(p):
    return p if isinstance(p, SBool) else SBool(z3.BoolVal(bool(p)))


def retype(t, kind):
    if isinstance(t, str):
        return kind or t
    if isinstance(t, tuple):
        return ("vec", t[1], retype(t[2], kind))
    return {n: (u if n == "__cls__" else retype(u, kind)) for n, u in t.items()}


def elem(store, path, t, i):
    if isinstance(t, str):
        return store.get(path, i)
    if isinstance(t, tuple):
        return RowArr(store, path, t, i)
    if isinstance(t, Row):
        return RowView(store, path, i, t.m)
    return RecProxy(store, path, t, i)


def put_elem(store, path, t, i, v, flavor="list"):
    if isinstance(t, str):
        store.put(path, i, v)
        return
    if isinstance(t, tuple):
        if isinstance(v, (int, float, SNum)):
            for k in range(t[1]):
                put_elem(store, f"{path}.{k}", t[2], i, v, flavor)
            return
        vs = list(v)
        if len(vs) == 1 and t[1] != 1:
            vs = vs * t[1]
        if len(vs) != t[1]:
            raise ValueError("could not broadcast input array")
        for k, x in enumerate(vs):
            put_elem(store, f"{path}.{k}", t[2], i, x, flavor)
        return
    if isinstance(t, Row):
        put_row(store, path, t, i, v)
        return
    names = [n for n in t if n != "__cls__"]
    if isinstance(v, RecProxy) and v._store is store and flavor in ("list", "append"):
        raise Unsupported("the same object would occur twice in a list")
    home = None
    if isinstance(v, RecProxy) and flavor in ("list", "append") and "__cls__" in t:
        if not getattr(v._store, "single", False):
            raise Unsupported("an object of one list would occur in another too")
        home = v                    # a single object: from here on it is the element
    if isinstance(v, SRecArr) and v.a.size == 1:
        v = v.a.ravel()[0]
    if isinstance(v, (tuple, SRec, RecProxy)) or hasattr(v, "__dict__"):
        vals = list(v) if isinstance(v, tuple) else [getattr(v, n) for n in names]
        # a snapshot first: v may be an element of this very store
        vals = [SArr(x.a.copy(), x.k) if isinstance(x, RowArr) else x for x in vals]
        for n, x in zip(names, vals):
            put_elem(store, f"{path}.{n}", t[n], i, x, flavor)
        if home is not None:
            RecProxy.__init__(home, store, path, t, z3.simplify(i))
        return
    raise Unsupported(f"element of type {type(v).__name__}")


def put_row(store, path, t, i, v):
    c = ctx()
    note_write(c, store)
    j, k = z3.Int(c.fresh_name("j")), z3.Int(c.fresh_name("j"))
    if isinstance(v, RowView):
        t = z3.Select(v.store.a[v.path], v.i, k)
    else:
        vs = list(v)
        if len(vs) != t.m:
            raise Unsupported("a row of another length")
        ks = {core._const(x) if isinstance(x, SNum) else x for x in vs}
        if len(ks) != 1 or None in ks:
            raise Unsupported("a long row of different values")
        t = core.term(conv(ks.pop(), t.k), t.k == "f")
    old = store.a[path]
    store.a[path] = z3.Lambda([j, k], z3.If(j == i, t, z3.Select(old, j, k)))


class RowArr(SArr):
    """One element that is itself a short array (or a part of one)."""

    def __init__(self, store, path, t, i):
        self._store, self._path, self._t, self._i = store, path, t, i
        k = t[2]
        while isinstance(k, tuple):
            k = k[2]
        self.k = k
        self.serial = store.serial
        self.base = store

    @property
    def a(self):
        es = [elem(self._store, f"{self._path}.{k}", self._t[2], self._i) for k in range(self._t[1])]
        if es and isinstance(es[0], SArr):
            return np.stack([e.a for e in es])
        o = np.empty((self._t[1],), dtype=object)
        for k, e in enumerate(es):
            o[k] = e
        return o

    def __getitem__(self, idx):
        if isinstance(self._t[2], tuple):
            i = idx[0] if isinstance(idx, tuple) else idx
            kc = core._const(i) if not isinstance(i, (slice, SArr, list, type(None), type(Ellipsis))) else None
            if kc is not None:
                n = self._t[1]
                if not -n <= kc < n:
                    ctx().safe("index in bounds", False)
                r = RowArr(self._store, f"{self._path}.{int(kc) % n}", self._t[2], self._i)
                rest = idx[1:] if isinstance(idx, tuple) else ()
                return r[rest] if rest else r
        return SArr.__getitem__(self, idx)

    def __setitem__(self, idx, v):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(self._t[2], tuple):
            if isinstance(idx, tuple) and core._const(idx[0]) is not None:
                self[idx[0]][idx[1:]] = v
                return
            raise Unsupported("assignment to part of a nested row")
        if isinstance(idx, slice):
            ks = range(self._t[1])[idx]
            vs = [v] * len(ks) if isinstance(v, (int, float, SNum)) else list(v)
            if len(vs) != len(ks):
                raise ValueError("could not broadcast input array")
            for k, x in zip(ks, vs):
                self._store.put(f"{self._path}.{k}", self._i, x)
            return
        if idx is Ellipsis:
            return self.__setitem__(slice(None), v)
        n = self._t[1]
        kc = core._const(idx)
        if kc is None:
            ctx().safe("index in bounds", z_and(idx >= -n, idx < n))
            for k in range(n):
                p = f"{self._path}.{k}"
                self._store.put(p, self._i, core.ite((idx == k) | (idx == k - n), conv(v, self.k),
                                                     self._store.get(p, self._i)))
            return
        kc = int(kc)
        if not -n <= kc < n:
            ctx().safe("index in bounds", False)
        self._store.put(f"{self._path}.{kc % n}", self._i, v)

    def _view(self, a):
        # views of rows are snapshots; writing to one is not supported
        r = SArr(a, self.k)
        r.base = self.base
        a.flags.writeable = False
        return r

    def copy(self, *a, **k):
        return SArr(self.a.copy(), self.k)


class RecProxy:
    __array_priority__ = 1e10
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, store, path, t, i):
        d = object.__setattr__
        d(self, "_store", store)
        d(self, "_path", path)
        d(self, "_t", t)
        d(self, "_i", i)

    @property
    def serial(self):
        return self._store.serial

    @property
    def base(self):
        return self._store

    def __vc_heap__(self):
        return [self._store]

    def __getattr__(self, n):
        t = object.__getattribute__(self, "_t")
        if n in t:
            return elem(self._store, f"{self._path}.{n}", t[n], self._i)
        cls = t.get("__cls__")
        if cls is not None and not n.startswith("__"):
            f = getattr(cls, n, None)
            if callable(f):
                return lambda *a, **k: f(self, *a, **k)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n not in self._t:
            raise Unsupported(f"new attribute {n} on a symbolic element")
        put_elem(self._store, f"{self._path}.{n}", self._t[n], self._i, v)

    def __getitem__(self, n):
        if isinstance(n, str):
            return getattr(self, n)
        raise Unsupported("record index")

    def __setitem__(self, n, v):
        if isinstance(n, str):
            setattr(self, n, v)
            return
        raise Unsupported("record index")

    def __eq__(self, o):
        r = True
        for n in self._t:
            if n == "__cls__":
                continue
            e = getattr(self, n) == getattr(o, n)
            r = z_and(r, e.all() if isinstance(e, SArr) else e)
        return r

    def __ne__(self, o):
        from .arr import z_not
        return z_not(self == o)

    def copy(self):
        return self.__deepcopy__({})

    def __copy__(self):
        return self.__deepcopy__({})

    def __deepcopy__(self, memo):
        st = Store(self._t)
        st.single = True
        put_elem(st, "", self._t, z3.IntVal(0), tuple(
            (x.copy() if isinstance(x, SArr) else x) for x in (getattr(self, n) for n in self._t if n != "__cls__")))
        return RecProxy(st, "", self._t, z3.IntVal(0))

    def view(self, *a):
        return self


# ------------------------------------------------------------------ constructors
def alloc(shape, k, v):
    shp = shape if isinstance(shape, (tuple, list)) else (shape,)
    c = ctx()
    q = grid_prefix(shp)
    if q:
        t = k
        for m in reversed(shp[q + 1:]):
            t = ("vec", int(core._const(m)), t)
        g = SymGrid({ix: SymSeq.fresh(t, shp[q], "ndarray") for ix in np.ndindex(*[int(core._const(x)) for x in shp[:q]])}, shp)
        c.safe("non-negative size", _b(shp[q] >= 0))
        if v is not None:
            for s in g.cells.values():
                s._each(lambda j, p: v)
        return g
    n = shp[0]
    c.safe("non-negative size", _b(n >= 0))
    t = k
    if len(shp) == 2:
        m = core._const(shp[1])
        if m is None:
            if core._const(n) is None:
                return Sym2D.fresh(shp[0], shp[1], k, v)
            raise Unsupported("array with a symbolic second dimension")
        t = ("vec", int(m), k)
    elif len(shp) > 2:
        raise Unsupported("symbolic array of rank 3")
    r = SymSeq.fresh(t, n, "ndarray")
    if v is not None:
        r._each(lambda j, p: v)
    return r


def alloc_rec(shape, dt):
    if isinstance(shape, tuple):
        if len(shape) != 1:
            q = grid_prefix(shape)
            if not q or q != len(shape) - 1:
                raise Unsupported("record array of rank 2 with symbolic size")
            return SymGrid({ix: SymSeq.fresh(dtype_template(dt), shape[q], "recarray")
                            for ix in np.ndindex(*[int(core._const(x)) for x in shape[:q]])}, shape)
        shape = shape[0]
    return SymSeq.fresh(dtype_template(dt), shape, "recarray")


def arange(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) > 2:
        raise Unsupported("arange step")
    r = SymSeq.fresh("i", core.ite(_b(hi - lo > 0), hi - lo, 0), "ndarray")
    r._each(lambda j, p: j + lo)
    return r


def linspace(a, b, n):
    if n < 0:
        raise ValueError("number of samples")
    r = SymSeq.fresh("f", n, "ndarray")
    if n > 1:
        r._each(lambda j, p: a + (b - a) * j / (n - 1))
    else:
        r._each(lambda j, p: a)
    return r


def repeat(lst, k):
    if list.__len__(lst) != 1:
        raise Unsupported("repetition of a list")
    v = list.__getitem__(lst, 0)
    t = "b" if isinstance(v, (bool, SBool)) else "i" if isinstance(v, (int, SInt)) else "f"
    return sym_list(t, core.ite(_b(k > 0), k, 0), lambda j, p: v)


def sym_list(t, n, f=None):
    from .loops import VList
    r = VList()
    r.template = t
    r.sym = SymSeq.fresh(t, n, "list")
    if f is not None:
        r.sym._each(f)
    return r


def obj_template(v):
    """Template of a fresh object used as list element."""
    if isinstance(v, (bool, SBool)):
        return "b"
    if isinstance(v, (int, SInt)):
        return "i"
    if isinstance(v, (float, SReal)):
        return "f"
    if isinstance(v, (list, tuple)) or isinstance(v, SArr):
        vs = list(v)
        ts = [obj_template(x) for x in vs]
        t = "f" if "f" in ts and set(ts) <= {"f", "i", "b"} else ts[0]
        if isinstance(v, list) and len(vs) > 8 and isinstance(t, str):
            return Row(len(vs), t)
        return ("vec", len(vs), t) + (("list",) if isinstance(v, list) else ())
    if hasattr(v, "__dict__"):
        t = {n: obj_template(x) for n, x in vars(v).items()}
        t["__cls__"] = type(v)
        return t
    raise Unsupported(f"element of type {type(v).__name__}")


def leaf_of(v, path):
    for p in [x for x in path.split(".") if x]:
        v = v[int(p)] if p.isdigit() else getattr(v, p)
    return v


def sym_listcomp(it, f):
    from . import shim
    c = ctx()
    if isinstance(it, shim.SRange):
        n = core.ite(_b(it.hi - it.lo > 0), it.hi - it.lo, 0)
        get = lambda j: j + it.lo
    elif hasattr(it, "__vc_seq__"):
        n = shim.vc_len(it)
        get = lambda j: it[j]
    else:
        raise Unsupported("comprehension over this sequence")
    j = c.fresh_int("j")
    c.spec += 1
    try:
        v = f(get(j))
    finally:
        c.spec -= 1
    t = obj_template(v)
    r = sym_list(t, n)
    for p, k in leaves(t):
        if isinstance(k, Row):
            ks = {core._const(x) if isinstance(x, SNum) else x for x in leaf_of(v, p)}
            if len(ks) != 1 or None in ks:
                raise Unsupported("a long row of different values")
            r.sym.store.a[p] = z3.Lambda([j.t, z3.Int(c.fresh_name("j"))], core.term(conv(ks.pop(), k.k), k.k == "f"))
            continue
        x = conv(leaf_of(v, p), k)
        tm = core.term_b(x) if k == "b" else core.term(x, k == "f")
        r.sym.store.a[p] = z3.Lambda([j.t], tm)
    return r


class Sym2D:
    """Array with two symbolic dimensions (images)."""
    __array_priority__ = 1e10
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, n, m, kind, term):
        c = ctx()
        self.n, self.m, self.k, self.term = n, m, kind, term
        self.serial = next(c.serial)
        self.base = self

    @classmethod
    def fresh(cls, n, m, kind, v=None, name=None):
        c = ctx()
        i, j = z3.Int(c.fresh_name("i")), z3.Int(c.fresh_name("j"))
        if v is None:
            t = z3.Array(name or c.fresh_name("img"), z3.IntSort(), z3.IntSort(), SORT[kind]())
        else:
            t = z3.Lambda([i, j], core.term(conv(v, kind), kind == "f"))
        return cls(n, m, kind, t)

    @property
    def shape(self):
        return (self.n, self.m)

    @property
    def size(self):
        return self.n * self.m

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return np.dtype({"f": float, "i": np.int64, "b": bool}[self.k])

    def __vc_len__(self):
        return self.n

    def __vc_heap__(self):
        return [self]

    def __vc_havoc__(self, template=None):
        self.term = z3.Array(ctx().fresh_name("img"), z3.IntSort(), z3.IntSort(), SORT[self.k]())

    def copy(self, *a):
        return Sym2D(self.n, self.m, self.k, self.term)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt):
        return self.copy()

    def _ix(self, i, n):
        c = ctx()
        t = iterm(i)
        if not c.spec:
            c.safe("index in bounds", SBool(z3.And(t >= -core.term(n), t < core.term(n))))
            if c.feasible(t < 0):
                t = z3.If(t < 0, t + core.term(n), t)
        return t

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            raise Unsupported("row of a symbolic image")
        a, b = i
        if isinstance(a, slice) or isinstance(b, slice):
            raise Unsupported("slice of a symbolic image")
        return lift(z3.simplify(z3.Select(self.term, self._ix(a, self.n), self._ix(b, self.m))))

    def __setitem__(self, i, v):
        note_write(ctx(), self)
        a, b = i
        v = conv(v, self.k)
        old, i, j = self.term, self._ix(a, self.n), self._ix(b, self.m)
        self.term = z3.Store(old, i, j, core.term(v, self.k == "f"))
        c = ctx()
        for name, thres, w in getattr(c, "pix_sums", ()):
            x = lift(z3.simplify(z3.Select(old, i, j)))
            gain = [core.ite(_b(q > thres), w(SInt(i), SInt(j), q), 0) for q in (x, v)]
            c.assume(SInt(pix_sum(name, self.term)) == SInt(pix_sum(name, old)) - gain[0] + gain[1])


def pix_sum(name, term):
    return z3.Function("sum!" + name, term.sort(), z3.IntSort())(term)


BIG = 2000


def big(n):
    k = core._const(n) if isinstance(n, SNum) else n
    return k is None or k > BIG


def grid_prefix(shp):
    """Number of leading dimensions of known size, when a long one follows and the
    rest is short; 0 if the array is not of this kind."""
    q = 0
    while q < len(shp) and not big(shp[q]):
        q += 1
    if q == 0 or q >= len(shp):
        return 0
    if any(big(m) or int(core._const(m)) > 8 for m in shp[q + 1:]):
        return 0
    return q


def constant(v):
    """The common value of a constant array."""
    if isinstance(v, SArr):
        vs = list(v.a.ravel())
        if vs and all(not isinstance(x, SNum) and x == vs[0] for x in vs):
            return vs[0]
        raise Unsupported("row assignment")
    return v


class SymGrid:
    """An array with a few leading dimensions of known size and one long one."""
    __array_priority__ = 1e10
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, cells, shape, pre=()):
        d = object.__setattr__
        d(self, "cells", cells)
        d(self, "shp", tuple(shape))
        d(self, "pre", pre)
        d(self, "depth", len(next(iter(cells))))

    @property
    def shape(self):
        return self.shp[len(self.pre):]

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def serial(self):
        return min(s.serial for s in self.cells.values())

    def __vc_heap__(self):
        return [s.store for s in self.cells.values()]

    def __vc_len__(self):
        return self.shape[0]

    def __iter__(self):
        for i in range(int(core._const(self.shape[0]))):
            yield self[i]

    def _split(self, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        pre = list(self.pre)
        while ix and len(pre) < self.depth:
            i = ix[0]
            n = int(core._const(self.shp[len(pre)]))
            if isinstance(i, SArr):
                i = i.a.item()
            if isinstance(i, slice):
                raise Unsupported("slice of a symbolic array of rank > 1")
            if isinstance(i, SNum):
                c = ctx()
                if core._const(i) is None:
                    c.safe("index in bounds", z_and(i >= -n, i < n))
                    i = c.concretize(core.term(i))
                i = core._const(i)
            if not -n <= i < n:
                ctx().safe("index in bounds", False)
            pre.append(int(i) % n)
            ix = ix[1:]
        return tuple(pre), ix

    def __getitem__(self, ix):
        if isinstance(ix, str):
            raise Unsupported("field of a grid")
        pre, ix = self._split(ix)
        if len(pre) < self.depth:
            return SymGrid(self.cells, self.shp, pre)
        s = self.cells[pre]
        if not ix:
            return s
        return s[ix if len(ix) > 1 else ix[0]]

    def __setitem__(self, ix, v):
        pre, ix = self._split(ix)
        if len(pre) < self.depth:
            raise Unsupported("assignment to part of a grid")
        s = self.cells[pre]
        if not ix:
            s[slice(None)] = v
        else:
            s[ix if len(ix) > 1 else ix[0]] = v

    def __setattr__(self, n, v):
        for p, s in self.cells.items():
            if p[:len(self.pre)] == self.pre:
                setattr(s, n, v)

    def view(self, *a):
        return self
