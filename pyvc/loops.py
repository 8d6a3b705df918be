"""pyvc.loops -- loop protocol: concrete unrolling or a cut at an invariant."""
import z3

from . import core
from .arr import SArr, SRec, SRecArr, note_write
from .core import Ctx, PathEnd, Restart, SBool, SInt, SNum, SReal, Unsupported, ctx


class VList(list):
    """A list created by verified code.  Mutations are noted for loop frames;
    a list havocked by a symbolic loop switches to a symbolic sequence."""

    def __init__(self, xs=()):
        super().__init__(xs)
        self.serial = next(Ctx.cur.serial) if Ctx.cur else 0
        self.sym = None
        self.template = None

    def _w(self):
        if Ctx.cur is not None:
            note_write(Ctx.cur, self)

    @property
    def __vc_seq__(self):
        return True

    def __vc_symbolic__(self):
        return self.sym is not None

    def __vc_copy__(self):
        if self.sym is None:
            return VList(self)
        r = VList()
        r.sym = self.sym.copy()
        r.template = self.template
        return r

    def copy(self):
        return self.__vc_copy__()

    def __deepcopy__(self, memo):
        import copy
        if self.sym is not None:
            return self.__vc_copy__()
        return VList([copy.deepcopy(x, memo) for x in self])

    def __vc_len__(self):
        return self.sym.n if self.sym is not None else list.__len__(self)

    def __len__(self):
        if self.sym is not None:
            raise Unsupported("len() of a symbolic list outside the shims")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return bool(self.sym.n > 0)
        return list.__len__(self) > 0

    def __getitem__(self, i):
        if self.sym is not None:
            return self.sym[i]
        if isinstance(i, slice):
            from .arr import _slice_index
            return VList(list.__getitem__(self, _slice_index(i)))
        if isinstance(i, SNum) and core._const(i) is None:
            n = list.__len__(self)
            ctx().safe("index in bounds", SBool(z3.And(i.t >= -n, i.t < n)))
            vals = list(self)
            if all(core.is_num(v) or isinstance(v, SBool) for v in vals):
                r = vals[-1]
                for j in range(n - 2, -1, -1):
                    r = core.ite((i == j) | (i == j - n), vals[j], r)
                return r
            for j in range(n):
                if (i == j) | (i == j - n):
                    return vals[j]
            raise Unsupported("cannot enumerate a symbolic index")
        if isinstance(i, SNum):
            i = core._const(i)
        if isinstance(i, SArr):
            i = i.__index__() if hasattr(i, "__index__") else i.a.item()
        if Ctx.cur is not None and isinstance(i, int):
            n = list.__len__(self)
            if not -n <= i < n:
                ctx().safe("index in bounds", False)
        return list.__getitem__(self, i)

    def __setitem__(self, i, v):
        self._w()
        if self.sym is not None:
            self.sym[i] = v
            return
        if isinstance(i, slice):
            from .arr import _slice_index
            list.__setitem__(self, _slice_index(i), v)
            return
        if isinstance(i, SNum) and core._const(i) is None:
            n = list.__len__(self)
            ctx().safe("index in bounds", SBool(z3.And(i.t >= -n, i.t < n)))
            if all(core.is_num(x) or isinstance(x, SBool) for x in self) and (core.is_num(v) or isinstance(v, SBool)):
                for j in range(n):
                    list.__setitem__(self, j, core.ite((i == j) | (i == j - n), v, list.__getitem__(self, j)))
                return
            for j in range(n):
                if (i == j) | (i == j - n):
                    i = j
                    break
            else:
                raise Unsupported("cannot enumerate a symbolic index")
        if isinstance(i, SNum):
            i = core._const(i)
        if Ctx.cur is not None and isinstance(i, int):
            n = list.__len__(self)
            if not -n <= i < n:
                ctx().safe("index in bounds", False)
        list.__setitem__(self, i, v)

    def __iter__(self):
        if self.sym is not None:
            raise Unsupported("iteration over a symbolic list outside a for statement")
        return list.__iter__(self)

    def append(self, v):
        self._w()
        if self.sym is not None:
            self.sym.append(v)
            return
        list.append(self, v)

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def pop(self, *a):
        self._w()
        if self.sym is not None:
            raise Unsupported("pop of a symbolic list")
        return list.pop(self, *a)

    def insert(self, i, v):
        self._w()
        if self.sym is not None:
            raise Unsupported("insert into a symbolic list")
        return list.insert(self, i, v)

    def sort(self, key=None, reverse=False):
        from .shim import vc_sorted
        self._w()
        if self.sym is not None:
            raise Unsupported("sort of a symbolic list")
        list.__setitem__(self, slice(None), vc_sorted(list(self), key, reverse))

    def __mul__(self, k):
        if isinstance(k, SNum) and core._const(k) is None:
            from .symseq import repeat
            return repeat(self, k)
        return VList(list.__mul__(self, k if not isinstance(k, SNum) else core._const(k)))

    __rmul__ = __mul__

    def __add__(self, o):
        if self.sym is not None:
            raise Unsupported("concatenation of symbolic lists")
        return VList(list.__add__(self, list(o)))

    def __vc_havoc__(self, template=None):
        from .symseq import SymSeq
        t = template if template is not None else self.template
        if self.sym is not None:
            self.sym.havoc(length=True)
            return
        if t is None:
            vals = list.__iter__(self)
            vals = list(vals)
            if vals and all(core.is_num(v) or isinstance(v, SBool) for v in vals):
                # fixed length, scalar contents
                for j, v in enumerate(vals):
                    list.__setitem__(self, j, havoc_value(v, "h"))
                return
            if vals and all(isinstance(v, SArr) and v.k in "fi" for v in vals):
                # fixed length, arrays of fixed shape: any arrays (not to be written into, two could be one)
                for j, v in enumerate(vals):
                    import numpy as np
                    a = np.empty(v.a.shape, dtype=object)
                    for i in np.ndindex(*a.shape):
                        a[i] = ctx().fresh_real("h") if v.k == "f" else ctx().fresh_int("h")
                    n = SArr(a, v.k)
                    n.frozen = True
                    list.__setitem__(self, j, n)
                return
            raise Unsupported("a symbolic loop mutates a list of unknown element type")
        if isinstance(t, tuple) and t[0] == "fixed":
            for j, v in enumerate(list(list.__iter__(self))):
                if hasattr(v, "__vc_havoc__"):
                    v.__vc_havoc__()
                else:
                    list.__setitem__(self, j, havoc_value(v, "h"))
            return
        self.template = t
        self.sym = SymSeq.fresh(t, None, "list")


def to_sym(v, t):
    """Turn a list with known elements into a symbolic sequence with these elements."""
    from .symseq import SymSeq, put_elem
    xs = list(list.__iter__(v))
    s = SymSeq.fresh(t, len(xs), "list")
    for i, x in enumerate(xs):
        put_elem(s.store, "", t, z3.IntVal(i), x, "append")
    v.template, v.sym = t, s


def havoc_value(v, name):
    """A fresh value of the same kind as v."""
    c = ctx()
    if isinstance(v, (bool, SBool)):
        return c.fresh_bool(name)
    if isinstance(v, (int, SInt)):
        return c.fresh_int(name)
    if isinstance(v, (float, SReal)):
        return c.fresh_real(name)
    if isinstance(v, SArr):
        n = v.copy()
        havoc_obj(n)
        return n
    if isinstance(v, tuple):
        return tuple(havoc_value(x, name) for x in v)
    return KEEP


KEEP = object()


def havoc_obj(o, template=None):
    c = ctx()
    if isinstance(o, SArr):
        import numpy as np
        for i in np.ndindex(*o.a.shape):
            v = o.a[i]
            if v is None or (isinstance(v, float) and v != v):
                continue
            if o.k == "i":
                o.a[i] = c.fresh_int("h")
            elif o.k == "b":
                o.a[i] = c.fresh_bool("h")
            else:
                o.a[i] = c.fresh_real("h")
        return
    if isinstance(o, SRec):
        for n, v in o._v.items():
            if isinstance(v, SArr):
                havoc_obj(v)
            else:
                o._v[n] = havoc_value(v, "h")
        return
    if isinstance(o, SRecArr):
        import numpy as np
        for i in np.ndindex(*o.a.shape):
            havoc_obj(o.a[i])
        return
    if hasattr(o, "__vc_havoc__"):
        if template is not None:
            o.__vc_havoc__(template)
        else:
            o.__vc_havoc__()
        return
    raise Unsupported(f"cannot havoc {type(o).__name__}")


class NS:
    """Locals as seen by an invariant; roles may rename."""

    def __init__(self, d, k=None, extra=None):
        self.__dict__.update(d)
        self._k = k
        self._d = d
        if extra:
            self.__dict__.update(extra)

    def __getattr__(self, n):
        raise Unsupported(f"loop invariant refers to a local '{n}' the code does not have")


class LoopSpec:
    """How to cut one loop.

    inv(v, k): list of (name, SBool); v = locals, k = iteration counter (for)
    variant(v): optional integer that decreases and stays >= 0
    """

    def __init__(self, inv=None, variant=None, templates=None, force=False, exit=None, vars=()):
        self.inv = inv or (lambda v, k: [])
        self.exit = exit
        self.variant = variant
        self.templates = templates or {}
        self.force = force


class Loop:
    def __init__(self, vc, fn, idx, is_for, names, it):
        self.vc, self.fn, self.idx, self.is_for, self.names = vc, fn, idx, is_for, names
        self.phase = 0
        self.it = it
        self.spec = None
        self.n = 0

    # ---- selection
    def start(self):
        from . import shim
        c = Ctx.cur
        self.sym = False
        if c is None:
            if self.is_for:
                self.iter = iter(self.it)
            return self
        sp = c.loop_specs.get(self.fn)
        if self.is_for:
            if hasattr(self.it, "__vc_lines__"):
                self.it = self.it.__vc_lines__()
            it = self.it
            s = isinstance(it, (shim.SRange, shim.SZip)) or (hasattr(it, "__vc_seq__") and it.__vc_symbolic__())
            self.it_sym = s
        else:
            s = False
        cand = None
        if sp is not None:
            cand = sp(self) if callable(sp) else sp.get(self.idx)
        if s and cand is None and isinstance(it, shim.SRange) and it.step == 1:
            # as many iterations as a constant says, from a symbolic start: unrolled
            w = z3.simplify(core.term(it.hi - it.lo), som=True)
            w = w.as_long() if z3.is_int_value(w) else None
            if w is not None and 0 <= int(w) <= 64:
                self.iter = iter([it.lo + i for i in range(int(w))])
                self.it_sym = False
                return self
        if s or (cand is not None and (cand.force or not self.is_for)):
            if cand is None:
                raise Unsupported(f"symbolic loop {self.idx} of {self.fn} has no invariant")
            self.sym = True
            self.spec = cand
            self.key = (self.fn, self.idx, tuple(L.key for L in c.loop_stack if L.sym), tuple(c.chosen))
            # the same loop met again on this path (an enclosing loop that is unrolled) has its own frame
            n = c.loop_seen[self.key] = c.loop_seen.get(self.key, 0) + 1
            self.key += (n,)
            self.serial0 = next(c.serial)
            self.objs = {}
            c.loop_stack.append(self)
            if self.is_for:
                self._bounds()
        else:
            if self.is_for:
                self.iter = iter(self.it)
        return self

    def _bounds(self):
        from . import shim
        it = self.it
        if isinstance(it, (shim.SRange, range)):
            self.lo, self.hi, self.stepv = (it.lo, it.hi, it.step) if isinstance(it, shim.SRange) else (
                it.start, it.stop, it.step)
            if self.stepv not in (1, -1):
                raise Unsupported("range step in a symbolic loop")
            self.val = lambda k: k
        elif isinstance(it, shim.SZip):
            ns = [shim.vc_len(p) for p in it.parts]
            self.lo, self.hi, self.stepv = 0, shim.m_min(*ns), 1
            if it.kind == "enumerate":
                self.val = lambda k: (k + it.start, it.parts[0][k])
            else:
                self.val = lambda k: tuple(p[k] for p in it.parts)
        elif hasattr(it, "__vc_seq__"):
            self.lo, self.hi, self.stepv = 0, shim.vc_len(it), 1
            self.val = lambda k: it[k]
        else:
            xs = list(it)
            self.lo, self.hi, self.stepv = 0, len(xs), 1
            v = VList(xs)
            self.val = lambda k: v[k]

    # ---- frame
    def note_write(self, obj):
        c = Ctx.cur
        if not self.sym or self.phase != 1:
            return
        if obj.serial < self.serial0:
            if obj.serial not in self.reach:
                raise Unsupported(f"loop {self.idx} of {self.fn} changes something its locals do not reach")
            fr = c.loop_frames.setdefault(self.key, set())
            if obj.serial not in fr:
                fr.add(obj.serial)
                raise Restart()

    # ---- stepping
    def _get(self, getters):
        from .load import UNBOUND
        out = []
        for g in getters:
            try:
                out.append(g())
            except NameError:
                out.append(UNBOUND)
        return out

    def step(self, getters, loc):
        from .load import UNBOUND
        c = Ctx.cur
        vals = self._get(getters)
        if not self.sym:
            if self.is_for:
                try:
                    v = next(self.iter)
                except StopIteration:
                    return [False, None] + vals
                self.n += 1
                return [True, v] + vals
            self.n += 1
            if c is not None and self.n > c.o["unroll"] and not getattr(self, "_conc", True):
                raise Unsupported(f"loop {self.idx} of {self.fn} not bounded after {c.o['unroll']} iterations")
            return [True, None] + vals
        loc = dict(loc)
        for n, v in zip(self.names, vals):
            if v is not UNBOUND:
                loc[n] = v
        sg = 1 if not self.is_for else self.stepv
        if self.phase == 0:
            c.in_loop += 1
            for n, t in self.spec.templates.items():
                v = loc.get(n)
                if isinstance(v, VList) and v.sym is None and not (isinstance(t, tuple) and t[0] == "fixed"):
                    to_sym(v, t)
            for nm, p in self.spec.inv(NS(loc, None, dict(L=self)), self.lo if self.is_for else 0):
                c.oblige("loop-init", f"{self.fn}#{self.idx}: {nm}", p)
            # havoc
            nv = []
            for n, v in zip(self.names, vals):
                if v is UNBOUND:
                    nv.append(v)
                    continue
                h = havoc_value(v, n)
                nv.append(v if h is KEEP else h)
                if h is KEEP and hasattr(v, "serial"):
                    pass
            fr = c.loop_frames.get(self.key, set())
            tmpl = {}
            for n, t in self.spec.templates.items():
                if n in loc:
                    tmpl[loc[n].serial if hasattr(loc[n], "serial") else id(loc[n])] = t
            done = set()
            objs = find_objs(loc, c)
            self.reach = {o.serial for o in objs} | set(getattr(c, "heap_objs", {}))
            for o in objs:
                if o.serial in fr and o.serial not in done:
                    done.add(o.serial)
                    havoc_obj(o, tmpl.get(o.serial))
            miss = fr - done
            # objects not reachable from locals: registered by the context
            for o in list(getattr(c, "heap_objs", {}).values()):
                if o.serial in miss:
                    havoc_obj(o)
                    miss = miss - {o.serial}
            for n, v in zip(self.names, nv):
                if v is not UNBOUND:
                    loc[n] = v
            if self.is_for:
                k = c.fresh_int("k")
                self.k = k
                lo, hi = self.lo, self.hi
                if sg == 1:
                    c.assume((k >= lo) & ((k <= hi) | (k == lo)))
                else:
                    c.assume((k <= lo) & ((k >= hi) | (k == lo)))
            else:
                self.k = c.fresh_int("k")
                c.assume(self.k >= 0)
            for nm, p in self.spec.inv(NS(loc, None, dict(L=self)), self.k):
                c.assume(p)
            self.phase = 1
            if self.is_for:
                go = c.fork((self.k < self.hi) if sg == 1 else (self.k > self.hi))
                if not go:
                    self.phase = 2
                    return [False, None] + nv
                self.loc = loc
                if isinstance(self.lo, int) and isinstance(self.hi, int) and abs(self.hi - self.lo) <= 8:
                    # a short range: one path for each value
                    for x in range(self.lo, self.hi, sg):
                        if x == self.hi - sg or c.fork(self.k == x):
                            c.assume(self.k == x)
                            self.k = x
                            return [True, self.val(x)] + nv
                return [True, self.val(self.k)] + nv
            if self.spec.variant is not None:
                self.v0 = self.spec.variant(NS(loc, None, dict(L=self)))
            return [True, None] + nv
        if self.phase == 1:
            nk = self.k + sg if self.is_for else self.k + 1
            for nm, p in self.spec.inv(NS(loc, None, dict(L=self)), nk):
                c.oblige("loop-step", f"{self.fn}#{self.idx}: {nm}", p)
            if self.spec.variant is not None:
                v1 = self.spec.variant(NS(loc, None, dict(L=self)))
                c.oblige("termination", f"{self.fn}#{self.idx}: variant decreases",
                         SBool(z3.And(core.term_b(v1 < self.v0), core.term_b(self.v0 >= 0))))
            raise PathEnd()
        raise Unsupported("loop protocol")

    def cond(self, f):
        c = Ctx.cur
        r = f()
        if c is None:
            return bool(r)
        if self.sym:
            b = bool(r)
            if not b:
                self.phase = 2
            return b
        self._conc = not isinstance(r, (SBool, SNum))
        return bool(r)

    def done(self, loc=None):
        c = Ctx.cur
        if c is None or not self.sym:
            return
        if self.spec.exit is not None:
            self.spec.exit(NS(dict(loc), None, dict(L=self)))
        if self in c.loop_stack:
            i = c.loop_stack.index(self)
            del c.loop_stack[i:]
            c.in_loop = len(c.loop_stack)


def find_objs(loc, c, depth=6):
    """Heap objects reachable from the local variables."""
    seen = {}
    out = []

    def w(o, d):
        if id(o) in seen or d < 0:
            return
        if isinstance(o, (int, float, str, bool, SNum, SBool, type(None))):
            return
        seen[id(o)] = o       # (kept alive: ids are reused)
        if isinstance(o, SArr):
            out.append(o.base)
            return
        if isinstance(o, SRec):
            out.append(o)
            for v in o._v.values():
                w(v, d - 1)
            return
        if isinstance(o, SRecArr):
            out.append(o)
            for r in o.a.ravel()[:400]:
                w(r, d - 1)
            return
        if isinstance(o, VList):
            out.append(o)
            if o.sym is None:
                for v in list.__iter__(o):
                    w(v, d - 1)
            else:
                out.extend(o.sym.__vc_heap__())
            return
        if hasattr(o, "__vc_heap__"):
            for x in o.__vc_heap__():
                out.append(x)
            return
        if isinstance(o, (list, tuple)):
            for v in o:
                w(v, d - 1)
            return
        if isinstance(o, dict):
            for v in o.values():
                w(v, d - 1)
            return
        if hasattr(o, "__dict__") and not callable(o) and not isinstance(o, type(z3)):
            if hasattr(o, "__vc_cells__"):
                out.extend(o.__vc_cells__())
            elif hasattr(o, "serial"):
                out.append(o)
            for v in list(vars(o).values()):
                w(v, d - 1)
    for v in loc.values():
        w(v, depth)
    return out


def make_loop(vc, fn, idx, is_for, names, it):
    return Loop(vc, fn, idx, is_for, names, it).start()
