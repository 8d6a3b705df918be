"""pyvc.contracts -- callee contracts used at call sites instead of bodies."""
import numpy as np
import z3

from . import core
from .arr import SArr, SRec, SRecArr
from .core import SBool, SNum


def key_of(v, depth=0):
    """A hashable identity of an argument value (terms compared structurally)."""
    if isinstance(v, (SNum, SBool)):
        return ("t", z3.simplify(v.t).sexpr() if False else z3.simplify(v.t).get_id(), z3.simplify(v.t))
    if isinstance(v, SArr):
        return ("a",) + tuple(key_of(x) for x in v.a.ravel())
    if isinstance(v, SRec):
        return ("r",) + tuple(key_of(x) for x in v._v.values())
    if isinstance(v, SRecArr):
        return ("ra",) + tuple(key_of(x) for x in v.a.ravel())
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(key_of(x) for x in v)
    if isinstance(v, (int, float, str, bool, type(None))):
        return ("c", float(v) if isinstance(v, int) and not isinstance(v, bool) else v)
    if isinstance(v, np.generic):
        return ("c", v.item())
    if hasattr(v, "__dict__") and depth < 4:
        return ("o", type(v).__name__) + tuple((n, key_of(x, depth + 1)) for n, x in sorted(vars(v).items())
                                               if n not in ("serial",))
    return ("id", id(v))


class Pure:
    """The callee as an arbitrary deterministic, side-effect-free function of its
    arguments (and of the state reachable from them), with an optional pre- and
    postcondition that is proved separately."""

    def __init__(self, key, shape, pre=None, post=None):
        self.key, self.shape, self.pre, self.post = key, shape, pre, post

    def apply(self, c, a, k):
        kk = ("pure", self.key) + tuple(key_of(x) for x in a) + tuple((n, key_of(x)) for n, x in sorted(k.items()))
        c.stats.assumed_contracts.add(self.key)
        c.fn_stack.append(self.key)
        try:
            if self.pre is not None:
                for nm, p in self.pre(*a, **k):
                    c.oblige("call-pre", f"{self.key}: {nm}", p)
            if kk not in c.memo:
                kk = self.congruent(c, kk)
            if kk not in c.memo:
                r = make(c, self.shape, self.key.rsplit(".", 1)[-1])
                c.memo[kk] = (a, r)
                if self.post is not None:
                    for p in self.post(r, *a, **k):
                        c.assume(p if isinstance(p, SBool) else bool(p))
        finally:
            c.fn_stack.pop()
        return copy_res(c.memo[kk][1])


    def congruent(self, c, kk):
        """An earlier call whose arguments are equal (not only identical) to these."""
        for o in list(c.memo):
            if isinstance(o, tuple) and o[:2] == kk[:2] and len(o) == len(kk):
                d = []
                if same_shape(o[2:], kk[2:], d) and d and len(d) <= 40:
                    if all(core.proved_equal(c, x, y) for x, y in d):
                        return o
        return kk


def same_shape(a, b, out):
    if isinstance(a, tuple) and isinstance(b, tuple):
        num = ("t", "c")
        if a[:1] in (("t",), ("c",)) and b[:1] in (("t",), ("c",)) and len(a) > 1 and len(b) > 1:
            if a == b:
                return True
            x, y = _val(a), _val(b)
            if x is None or y is None:
                return False
            out.append((x, y))
            return True
        return len(a) == len(b) and all(same_shape(x, y, out) for x, y in zip(a, b))
    return a == b


def _val(k):
    if k[0] == "t":
        return k[2]
    if isinstance(k[1], float) and k[1] == k[1] and abs(k[1]) != float("inf"):
        return core.rv(k[1])
    return None


def copy_res(r):
    if isinstance(r, SArr):
        return r.copy()
    if isinstance(r, tuple):
        return tuple(copy_res(x) for x in r)
    return r


def make(c, shape, name):
    """shape: 'f','i','b', int (vector), (n,m) array, or a list of shapes (tuple)."""
    if shape == "f":
        return c.fresh_real(name)
    if shape == "i":
        return c.fresh_int(name)
    if shape == "b":
        return c.fresh_bool(name)
    if isinstance(shape, list):
        return tuple(make(c, s, name) for s in shape)
    shp = (shape,) if isinstance(shape, int) else shape
    o = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        o[i] = c.fresh_real(name)
    return SArr(o, "f")


class Spec:
    """A contract given by a Python function (ctx, args, kwargs) -> result."""

    def __init__(self, key, f):
        self.key, self.f = key, f

    def apply(self, c, a, k):
        c.stats.assumed_contracts.add(self.key)
        c.fn_stack.append(self.key)
        try:
            return self.f(*a, **k)
        finally:
            c.fn_stack.pop()
