"""pyvc.core -- symbolic values, path exploration, proof obligations.

The functions of /repo are executed by CPython itself on symbolic scalars (z3
Int / Real / Bool terms).  Every branch on a symbolic condition forks the path;
paths are enumerated by replaying decision prefixes.  Obligations are discharged
as they are met, under the path condition.
"""
import itertools
import math
import time
from fractions import Fraction

import z3


class PathEnd(BaseException):
    """The current path is finished (dead, or cut at a loop back edge)."""


class Unsupported(BaseException):
    """The code left the fragment the verifier can execute."""


class NeedFork(BaseException):
    """A fork was needed inside a guarded (merged) evaluation."""


class Restart(BaseException):
    """Restart the exploration of this contract (a loop frame grew)."""


class ObligationFailed(BaseException):
    pass


def rv(x):
    """Python number -> z3 numeral term."""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    f = float(x)
    if math.isnan(f):
        # one constant that stands for "not a number": its way through the code can be followed, nothing is known of it
        return z3.Real("NaN")
    if not math.isfinite(f):
        raise Unsupported(f"non-finite constant {f} meets a symbolic value")
    return z3.RealVal(str(Fraction(repr(f)) if f != int(f) or abs(f) < 1e15 else Fraction(int(f))))


_sin = z3.Function("sin", z3.RealSort(), z3.RealSort())
_cos = z3.Function("cos", z3.RealSort(), z3.RealSort())
_tan = z3.Function("tan", z3.RealSort(), z3.RealSort())
_atan = z3.Function("atan", z3.RealSort(), z3.RealSort())
_asin = z3.Function("asin", z3.RealSort(), z3.RealSort())
_acos = z3.Function("acos", z3.RealSort(), z3.RealSort())
_sqrt = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
_exp = z3.Function("exp", z3.RealSort(), z3.RealSort())
UF_PY = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan,
         "asin": math.asin, "acos": math.acos, "sqrt": math.sqrt, "exp": math.exp}


class Stats:
    def __init__(self):
        self.by_backend = {}
        self.solver_time = 0.0
        self.queries = 0
        self.obligations = []   # dicts
        self.trusted = set()
        self.paths = 0
        self.functions = set()  # functions executed under the prover (inlined or target)
        self.assumed_contracts = set()
        self.covers = 0


import os
TRACE = bool(os.environ.get('PYVC_TRACE'))


class Budget(Unsupported):
    pass


class Ctx:
    cur = None

    def __init__(self, name, stats, opts=None):
        self.name = name
        self.stats = stats
        o = dict(feas_ms=400, prove_ms=8000, max_paths=4000, merge=False, total_s=120.0,
                 poly=True, poly_first=True, unroll=64, feas_check=True)
        o.update(opts or {})
        self.o = o
        self.loop_frames = {}       # loop key -> set of object serials (survives restarts)
        self.loop_specs = {}        # function name -> list of loop specs
        self.contracts = {}         # function name -> Contract used at call sites
        self.body_of = set()        # functions under verification (body executed, not contract)
        self.failed = []
        self.names = set()
        self.t0 = time.time()
        self.reset([])

    # ------------------------------------------------------------ paths
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.pc = []                # list of z3 Bools (path condition and facts)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.o["feas_ms"])
        self.nfresh = itertools.count()
        self.serial = itertools.count(1)
        self.oldser = itertools.count(1)
        self.objser = {}            # id -> (object, serial)
        self.defs = []              # (z3 var, python callable(env)->float) definitional order
        self.sqrt_of = {}           # var name -> radicand term
        self.rel = {}               # var name -> ('sqrt', term)
        self.memo = {}
        self.arith_tag = {}
        self.alg_hints = []
        self.value_hints = []
        self.aux = []               # unconstrained reals (results of contracts, havocked locals)
        self.guard = 0
        self.spec = 0
        self.seqs = {}
        self.inputs = {}            # name -> z3 var
        self.loop_stack = []
        self.loop_seen = {}
        self.call_depth = 0
        self.pathnotes = []
        self.chosen = []
        self.files = {}
        self.opened = []
        self.holes = {}
        self.fn_stack = []
        self.in_loop = 0

    def explore(self, run):
        while True:
            try:
                self._explore(run)
                return
            except Restart:
                self.budget()
                continue

    def budget(self):
        """Stop at the time limit, and soon after the outcome is clear."""
        t = time.time() - self.t0
        if t > self.o["total_s"]:
            raise Budget("time budget exhausted in " + self.name)
        if self.failed:
            late = t - self.failed[0]["at"]
            if late > (15 if any(f["status"] == "refuted" and not f["aux"] for f in self.failed) else 60):
                raise Budget("stopped after the first failures in " + self.name)

    def _explore(self, run):
        # obligations of an abandoned attempt are dropped
        keep = len(self.stats.obligations)
        self.failed = []
        stack = [[]]
        n = 0
        normal = 0
        Ctx.cur = self
        try:
            while stack:
                prefix = stack.pop()
                n += 1
                if n > self.o["max_paths"]:
                    raise Unsupported(f"more than {self.o['max_paths']} paths in {self.name}")
                self.budget()
                self.reset(prefix)
                try:
                    run(self)
                    normal += 1
                except PathEnd:
                    pass
                stack.extend(self.pending)
            self.stats.paths += n
            self.normal_paths = normal
        except Budget:
            self.stats.paths += n
            raise
        except BaseException:
            del self.stats.obligations[keep:]
            raise
        finally:
            Ctx.cur = None

    def seq_len(self):
        return [n for n, _ in self.seqs.values() if not isinstance(n, int)]

    def replaying(self):
        return len(self.trace) < len(self.prefix)

    def assume(self, t):
        if isinstance(t, SBool):
            t = t.t
        if isinstance(t, bool):
            if not t:
                raise PathEnd()
            return
        self.pc.append(t)
        self.solver.add(t)

    def feasible(self, t, ms=None):
        self.stats.queries += 1
        t1 = time.time()
        r = self.solver.check(t)
        self.stats.solver_time += time.time() - t1
        return r != z3.unsat

    def fork(self, cond):
        """Decide a symbolic condition; returns a Python bool."""
        if isinstance(cond, SBool):
            cond = cond.t
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.guard or self.spec:
            raise NeedFork()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if self.o["feas_check"]:
                ct = self.feasible(c)
                cf = self.feasible(z3.Not(c))
            else:
                ct = cf = True
            if not ct and not cf:
                raise PathEnd()
            if ct and cf:
                d = True
                self.pending.append(self.trace + [False])
            else:
                d = ct
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def concretize(self, t, limit=70):
        """Fork over the feasible integer values of t."""
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(limit):
            if self.replaying():
                # the value tried is recorded in the trace as ('v', k)
                k = self.prefix[len(self.trace)]
                if isinstance(k, tuple):
                    val, yes = k[1], k[2]
                    self.trace.append(k)
                    if yes:
                        self.assume(t == val)
                        return val
                    self.assume(t != val)
                    continue
            if self.guard or self.spec:
                raise NeedFork()
            r = self.solver.check()
            if r == z3.unsat:
                raise PathEnd()
            if r != z3.sat:
                raise Unsupported("cannot enumerate a symbolic index")
            val = self.solver.model().eval(t, model_completion=True)
            if not z3.is_int_value(val):
                raise Unsupported("symbolic index has no integer value")
            val = val.as_long()
            if self.feasible(t != val):
                self.pending.append(self.trace + [("v", val, False)])
            self.trace.append(("v", val, True))
            self.assume(t == val)
            return val
        raise Unsupported("symbolic index with too many values")

    # ------------------------------------------------------------ fresh values
    def fresh_name(self, base):
        return f"{base}!{next(self.nfresh)}"

    def fresh_real(self, base="r"):
        n = self.fresh_name(base)
        self.aux.append(n)
        return SReal(z3.Real(n))

    def fresh_int(self, base="i"):
        return SInt(z3.Int(self.fresh_name(base)))

    def fresh_bool(self, base="b"):
        return SBool(z3.Bool(self.fresh_name(base)))

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, name, goal, info=None):
        """Prove goal under the path condition; record; then assume it."""
        from . import solve
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if self.replaying():
            if z3.is_false(g):
                raise PathEnd()
            self.assume(g)
            return
        where = self.fn_stack[-1] if self.fn_stack else ""
        rec = dict(contract=self.name, kind=kind, name=name, fn=where)
        if z3.is_true(g):
            rec.update(status="proved", backend="simplify")
            self.stats.by_backend["simplify"] = self.stats.by_backend.get("simplify", 0) + 1
            self.stats.obligations.append(rec)
            return
        t1 = time.time()
        res = solve.prove(self, g)
        dt = time.time() - t1
        self.stats.solver_time += dt
        rec["time"] = round(dt, 3)
        if res[0] == "proved":
            rec.update(status="proved", backend=res[1])
            self.stats.by_backend[res[1]] = self.stats.by_backend.get(res[1], 0) + 1
        else:
            rec.update(status=res[0], backend=res[1], model=res[2] if len(res) > 2 else None,
                       goal=str(goal)[:600], aux=bool(self.in_loop and kind != "post"),
                       path=[str(x) for x in self.pathnotes][-12:])
            if res[0] == "refuted":
                rec["inputs"] = res[3] if len(res) > 3 else {}
            rec["at"] = time.time() - self.t0
            self.failed.append(rec)
            if rec["status"] != "refuted":
                self.stats.obligations.append(rec)
                self.budget()
                self.stats.obligations.pop()
        self.stats.obligations.append(rec)
        if TRACE:
            print(f"[{dt:.2f}s] {rec['status']} {rec.get('backend')} {kind}: {name} in {where}", flush=True)
            if rec["status"] != "proved":
                print("    goal", str(goal)[:500], "model", str(rec.get("model"))[:1500])
        if z3.is_false(g):
            raise PathEnd()
        self.assume(g)

    def safe(self, name, goal):
        """Safety obligation (division, sqrt domain, index in bounds)."""
        if self.spec:
            return
        self.oblige("safety", name, goal)


def ctx():
    c = Ctx.cur
    if c is None:
        raise Unsupported("symbolic operation outside an exploration")
    return c


# ====================================================================== scalars
def is_sym(x):
    return isinstance(x, (SNum, SBool))


def is_num(x):
    if isinstance(x, SNum):
        return True
    import numpy as _np
    return isinstance(x, (int, float, Fraction, _np.number, _np.bool_))


def term(x, real=False):
    """z3 term of a python or symbolic number."""
    if isinstance(x, SNum):
        t = x.t
    elif isinstance(x, SBool):
        t = z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    elif hasattr(x, "item") and not isinstance(x, (int, float)):
        v = x.item()
        if isinstance(v, (SNum, SBool)):
            return term(v, real)
        t = rv(v)
    else:
        t = rv(x)
    if real and z3.is_int(t):
        t = z3.ToReal(t)
        t = z3.simplify(t) if z3.is_int_value(t.arg(0)) else t
    return t


def lift(t):
    if z3.is_bool(t):
        return SBool(t)
    return SInt(t) if z3.is_int(t) else SReal(t)


def _pair(a, b):
    ta, tb = term(a), term(b)
    if z3.is_int(ta) and z3.is_int(tb):
        return ta, tb, True
    return term(a, True), term(b, True), False


def _const(x):
    """Concrete value of x or None."""
    if isinstance(x, SNum):
        t = x.t
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        return None
    if isinstance(x, (int, float, Fraction)):
        return x
    if isinstance(x, SBool):
        return None
    try:
        return x.item()
    except Exception:
        return None


def _scalar(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == () and hasattr(x, "item"))


class SNum:
    __slots__ = ("t",)
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{self.t}>"

    def __hash__(self):
        return hash(self.t)

    # arithmetic
    def __add__(self, o):
        if not _scalar(o):
            return NotImplemented
        if _const(o) == 0 and (isinstance(self, SReal) or isinstance(_const(o), int)):
            return self
        a, b, _ = _pair(self, o)
        return lift(a + b)

    def __radd__(self, o):
        if not _scalar(o):
            return NotImplemented
        if _const(o) == 0 and (isinstance(self, SReal) or isinstance(_const(o), int)):
            return self
        a, b, _ = _pair(o, self)
        return lift(a + b)

    def __sub__(self, o):
        if not _scalar(o):
            return NotImplemented
        if _const(o) == 0 and (isinstance(self, SReal) or isinstance(_const(o), int)):
            return self
        a, b, _ = _pair(self, o)
        return lift(a - b)

    def __rsub__(self, o):
        if not _scalar(o):
            return NotImplemented
        a, b, _ = _pair(o, self)
        return lift(a - b)

    def __mul__(self, o):
        if not _scalar(o):
            return NotImplemented
        k = _const(o)
        if k is not None:
            if k == 0:
                return 0 if isinstance(self, SInt) and isinstance(k, int) else 0.0
            if k == 1 and (isinstance(self, SReal) or isinstance(k, int)):
                return self
        a, b, _ = _pair(self, o)
        c = Ctx.cur
        if c is not None and c.o.get("sqrt_alias") and not c.spec:
            if z3.is_div(a) and a.arg(1).eq(b):     # (x / b) * b, b != 0 was an obligation
                return SReal(a.arg(0))
            if z3.is_div(b) and b.arg(1).eq(a):
                return SReal(b.arg(0))
        return lift(a * b)

    def __rmul__(self, o):
        return self.__mul__(o) if _scalar(o) else NotImplemented

    def __truediv__(self, o):
        if not _scalar(o):
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if not _scalar(o):
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        a, b, i = _pair(self, o)
        ctx().safe("division by zero", b != 0)
        if not i:
            return SReal(z3.ToReal(z3.ToInt(a / b)))
        k = _const(o)
        if k is not None and k > 0:
            return SInt(a / b)
        return SInt(z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))

    def __rfloordiv__(self, o):
        return lift(term(o)).__floordiv__(self)

    def __mod__(self, o):
        a, b, i = _pair(self, o)
        ctx().safe("modulo by zero", b != 0)
        if i:
            k = _const(o)
            if k is not None and k > 0:
                return SInt(a % b)
            return SInt(a - b * z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))
        return SReal(a - b * z3.ToReal(z3.ToInt(a / b)))

    def __rmod__(self, o):
        return lift(term(o)).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        k = _const(o)
        if k is None:
            raise Unsupported("symbolic exponent")
        if k == int(k):
            k = int(k)
            if k == 0:
                return 1
            if k < 0:
                return 1.0 / (self ** (-k))
            r = self
            for _ in range(k - 1):
                r = r * self
            return r
        if k == 0.5:
            return m_sqrt(self)
        raise Unsupported(f"power {k}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __neg__(self):
        return lift(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        z = rv(0) if isinstance(self, SInt) else z3.RealVal(0)
        x = alg(self)
        if x is not self:
            # the sign of a known root is in the path condition
            c = ctx()
            if not c.feasible(x.t < 0):
                return x
            if not c.feasible(x.t > 0):
                return -x
        return lift(z3.If(self.t >= z, self.t, -self.t))

    # comparison
    def _cmp(self, o, f):
        if not _scalar(o):
            return NotImplemented
        k = _const(o)
        if k is not None and isinstance(k, float) and math.isinf(k):
            return f(0.0, k)
        if k is not None and isinstance(k, float) and math.isnan(k):
            return f(0.0, k)
        if k == 0 and isinstance(self, SReal):
            a, b, _ = _pair(alg(self), o)
        else:
            a, b, _ = _pair(self, o)
        return SBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return ctx().fork(self.t != 0)

    def __float__(self):
        k = _const(self)
        if k is not None:
            return float(k)
        raise Unsupported("float() of a symbolic value outside the shims")

    # numpy-scalar-like interface
    shape = ()
    ndim = 0
    size = 1

    def astype(self, dt):
        from .arr import kind_of
        return conv(self, kind_of(dt))

    def item(self):
        return self

    def copy(self):
        return self

    def any(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return ctx_hole(self, "")

    def __format__(self, spec):
        return ctx_hole(self, spec)


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        k = _const(self)
        if k is not None:
            return k
        return ctx().concretize(self.t)

    def __int__(self):
        return self.__index__()

    def is_integer(self):
        return True

    def _bits(self, o, f):
        k = _const(self)
        j = _const(o)
        if k is not None and j is not None:
            return f(k, j)
        raise Unsupported("bit operation on a symbolic integer")

    def __and__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __rand__(self, o):
        return self._bits(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __rshift__(self, o):
        k = _const(o)
        if k is None:
            raise Unsupported("symbolic shift")
        return self // (1 << k)

    def __lshift__(self, o):
        k = _const(o)
        if k is None:
            raise Unsupported("symbolic shift")
        return self * (1 << k)


class SReal(SNum):
    __slots__ = ()

    def is_integer(self):
        return SBool(z3.IsInt(self.t))


class SBool:
    __slots__ = ("t",)
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t if not isinstance(t, bool) else z3.BoolVal(t)

    def __repr__(self):
        return f"<{self.t}>"

    def __hash__(self):
        return hash(self.t)

    def __bool__(self):
        return ctx().fork(self.t)

    def _o(self, o):
        if isinstance(o, SBool):
            return o.t
        if isinstance(o, SNum):
            return o.t != 0
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        if not _scalar(o) and not isinstance(o, bool):
            return NotImplemented
        return SBool(z3.And(self.t, self._o(o)))

    __rand__ = __and__

    def __or__(self, o):
        if not _scalar(o) and not isinstance(o, bool):
            return NotImplemented
        return SBool(z3.Or(self.t, self._o(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.t, self._o(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == self._o(o))
        return SInt(term(self)) == o

    def __ne__(self, o):
        return SBool(z3.Not(term_b(self == o)))

    def __add__(self, o):
        return SInt(term(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return SInt(term(self)) - o

    def __mul__(self, o):
        return SInt(term(self)) * o

    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self

    shape = ()
    ndim = 0

    def __str__(self):
        return ctx_hole(self, "")

    def __format__(self, spec):
        return ctx_hole(self, spec)


def term_b(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SNum):
        return x.t != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def ctx_hole(v, spec):
    c = ctx()
    k = f"\u27e6{len(c.holes)}\u27e7"
    c.holes[k] = (v, spec)
    return k


def div(a, b):
    ta, tb = term(a, True), term(b, True)
    kb = _const(b)
    if kb is not None:
        if kb == 0:
            ctx().safe("division by zero", False)
        return SReal(ta / tb) if kb != 1 else SReal(ta)
    if ctx().o.get("sqrt_alias") and not ctx().spec:
        ctx().safe("division by zero", alg(SReal(tb)).t != 0 if isinstance(b, SReal) else tb != 0)
        if _const(a) == 0:
            return 0.0
        if z3.is_mul(ta) and any(x.eq(tb) for x in ta.children()):
            xs = ta.children()
            xs.pop([x.eq(tb) for x in xs].index(True))
            return SReal(z3.Product(*xs) if len(xs) > 1 else xs[0])
        return SReal(ta / tb)
    ctx().safe("division by zero", tb != 0)
    if _const(a) == 0:
        return 0.0
    return SReal(ta / tb)


def conv(x, kind):
    """Convert a scalar to kind 'f', 'i', 'b' or 'o' as numpy/Python would."""
    if hasattr(x, "cols"):
        return x.value(kind)
    if kind == "o":
        return x
    if kind == "f":
        if isinstance(x, (SNum, SBool)):
            return SReal(term(x, True)) if not isinstance(x, SReal) else x
        return float(x)
    if kind == "i":
        if isinstance(x, SReal):
            t = x.t
            # truncation towards zero
            return SInt(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return SInt(term(x))
        return int(x)
    if kind == "b":
        if isinstance(x, SNum):
            return SBool(x.t != 0)
        if isinstance(x, SBool):
            return x
        return bool(x)
    raise Unsupported(f"conversion to {kind}")


def ite(c, a, b):
    """Merge two scalars under a (symbolic) condition."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    ct = term_b(c)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return SBool(z3.If(ct, term_b(a), term_b(b)))
    ta, tb, i = _pair(a, b)
    if ta.eq(tb):
        return a
    return lift(z3.If(ct, ta, tb))


# ====================================================================== math
def _memo(fn, t, mk):
    c = ctx()
    key = (fn, t.get_id())
    if key not in c.memo:
        c.memo[key] = (t, mk())
    return c.memo[key][1]


def _perfect_square(t):
    """x*x -> |x| for syntactic squares."""
    t = z3.simplify(t)
    return None


def m_sqrt(x, squares=False):
    """squares: the argument is built as a sum of squares of reals (not negative)."""
    if not is_sym(x):
        if float(x) < 0:
            ctx().safe("sqrt of a negative number", False)
        r = math.sqrt(x)
        return r
    c = ctx()
    t = term(x, True)
    if c.spec and ("sqrt", z3.simplify(t).get_id()) not in c.memo:
        raise Unsupported("square root under a quantifier")

    def mk():
        if c.o.get("sqrt_alias"):
            r = sqrt_alias(c, z3.simplify(t))
            if r is not None:
                return r
        if not squares:
            c.safe("sqrt of a negative number", t >= 0)
        s = z3.Real(c.fresh_name("sqrt"))
        c.defs.append((s, t, lambda v: math.sqrt(v) if v > 0 or v < -1e-12 else 0.0))
        c.rel[s.decl().name()] = ("sqrt", t)
        c.assume(s >= 0)
        c.assume(s * s == t)
        return SReal(s)
    key = ("sqrt", z3.simplify(t).get_id())
    if key not in c.memo:
        c.memo[key] = (z3.simplify(t), mk())
    return c.memo[key][1]


def _samples(c):
    from . import solve
    import random
    key = ("samples", len(c.inputs), len(c.defs), len(c.aux))
    if key not in c.memo:
        rng = random.Random(7)
        envs = []
        for _ in range(40):
            if len(envs) == 5:
                break
            try:
                envs.append((solve.sample_env(c, rng, c.aux), {}))
            except (solve.Uneval, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        c.memo[key] = envs
    return c.memo[key]


def rel_sig(c, *ts):
    """What the root variables in ts stand for on this path (names recur across paths)."""
    out, seen, todo = {}, set(), list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0:
            n = x.decl().name()
            if n in c.rel and n not in out:
                out[n] = c.rel[n][1].get_id()
                todo.append(c.rel[n][1])
        else:
            todo.extend(x.children())
    return tuple(sorted(out.items()))


def known_equal(c, t, cands):
    """The first candidate (term, value) with term == t as rational functions over
    the known square roots (numeric filter first, then proved)."""
    from . import poly, solve
    envs = _samples(c)
    bad = (solve.Uneval, ZeroDivisionError, OverflowError, ValueError, TypeError)
    ref = []
    for e, m in envs:
        try:
            ref.append((e, m, solve.neval(t, e, {})))
        except bad:
            continue
    if len(ref) < 2:
        return None

    def near(u):
        try:
            return all(abs(solve.neval(u, e, {}) - v) <= 1e-8 * (1 + abs(v)) for e, m, v in ref)
        except bad:
            return False
    cache = c.__dict__.setdefault("alias_cache", {})
    for u, r in cands:
        if not near(u):
            continue
        key = (t.get_id(), u.get_id(), rel_sig(c, t, u))
        if key not in cache:
            try:
                ok = poly.prove_eq(c, t, u, 6.0)
            except poly.Give as e:
                ok = False
                if TRACE:
                    print("  poly gave up:", e, flush=True)
            cache[key] = (t, u, ok, [r[1] for r in c.rel.values()])
        if cache[key][2]:
            return r
    return None


def proved_equal(c, x, y):
    """x == y on this path: numeric filter, then proved."""
    from . import poly
    if x.sort() != y.sort():
        x, y = (z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (x, y))
        if x.sort() != y.sort():
            return False
    if x.sort() == z3.RealSort():
        if known_equal(c, z3.simplify(x), [(z3.simplify(y), True)]):
            return True
    return not c.feasible(x != y)


def length_uf(xs):
    """The length of a vector as a function of its coordinates of which only this is used: it is not
    negative and that of the opposite vector (option length_uf, where the value plays no role)."""
    c = ctx()
    ts = [term(x, True) for x in xs]
    f = z3.Function(f"length{len(ts)}", *([z3.RealSort()] * (len(ts) + 1)))
    t = f(*ts)
    if not c.spec:
        c.assume(z3.And(t >= 0, t == f(*[-x for x in ts])))
    return SReal(t)


def sqrt_alias(c, t):
    """An existing square root of a radicand that equals t, or 1."""
    cand = [(z3.RealVal(1), SReal(z3.RealVal(1)))]
    for k, v in c.memo.items():
        if isinstance(k, tuple) and k[0] == "sqrt":
            cand.append((v[0], v[1]))
    return known_equal(c, t, cand)


def alg(x):
    """In algebraic mode: x rewritten to a known square root, radicand, or its
    negative, or to zero or one, when equal to it."""
    c = Ctx.cur
    if c is None or not c.o.get("sqrt_alias") or not isinstance(x, SReal) or c.spec:
        return x
    t = z3.simplify(x.t)
    if z3.is_rational_value(t) or (z3.is_app(t) and t.num_args() == 0):
        return x
    cand = [(z3.RealVal(0), SReal(z3.RealVal(0))), (z3.RealVal(1), SReal(z3.RealVal(1)))]
    for k, v in c.memo.items():
        if isinstance(k, tuple) and k[0] == "sqrt":
            cand += [(v[1].t, v[1]), (-v[1].t, SReal(-v[1].t)), (v[0], SReal(v[0])), (-v[0], SReal(-v[0]))]
    for h in getattr(c, "alg_hints", []):
        cand += [(h.t, h), (-h.t, SReal(-h.t))]
    r = known_equal(c, t, cand)
    return x if r is None else r


def valued(x):
    """In algebraic mode: x replaced by the hinted value it is equal to."""
    c = Ctx.cur
    if c is None or not getattr(c, "value_hints", None) or not isinstance(x, SReal) or c.spec:
        return x
    t = z3.simplify(x.t)
    if z3.is_rational_value(t) or (z3.is_app(t) and t.num_args() == 0):
        return x
    r = known_equal(c, t, [(z3.simplify(h.t), h) for h in c.value_hints])
    return x if r is None else r


def _uf(fn, f, x):
    """sin(x) etc. as variables tied to x (congruence through memoisation)."""
    c = ctx()
    t = z3.simplify(term(x, True))
    key = (fn, t.get_id())
    if key in c.memo:
        return c.memo[key][1], False
    v = f(t)
    # equal arguments must give equal results: z3 does it, v is an application
    c.memo[key] = (t, SReal(v))
    return c.memo[key][1], True


def _trig_pair(x):
    c = ctx()
    s, new = _uf("sin", _sin, x)
    k, _ = _uf("cos", _cos, x)
    if new:
        t = z3.simplify(term(x, True))
        c.assume(s.t * s.t + k.t * k.t == 1)
        c.rel[("trig", s.t.get_id())] = (s.t, k.t)
        tag = c.arith_tag.get(t.get_id())
        if tag is not None:
            kind, y = tag
            if kind == "atan":
                r = m_sqrt(1.0 + y * y)
                c.assume(k.t * r.t == 1)
                c.assume(s.t == term(y, True) * k.t)
            elif kind == "asin":
                r = m_sqrt(1.0 - y * y)
                c.assume(s.t == term(y, True))
                c.assume(k.t == r.t)
            elif kind == "acos":
                r = m_sqrt(1.0 - y * y)
                c.assume(k.t == term(y, True))
                c.assume(s.t == r.t)
        c.stats.trusted.add("axioms: sin^2+cos^2=1; sin/cos/tan of arctan, arcsin, arccos; parity")
    return s, k


def m_sin(x):
    if not is_sym(x):
        return math.sin(x)
    return _trig_pair(x)[0]


def m_cos(x):
    if not is_sym(x):
        return math.cos(x)
    return _trig_pair(x)[1]


def m_tan(x):
    if not is_sym(x):
        return math.tan(x)
    s, k = _trig_pair(x)
    ctx().safe("tan at a pole", k.t != 0)
    return s / k


def _inverse(name, f, x, dom=None, rng=None):
    c = ctx()
    r, new = _uf(name, f, x)
    if new:
        xr = x if isinstance(x, SReal) else SReal(term(x, True))
        if dom is not None:
            c.safe(f"{name} outside its domain", dom(xr.t))
        for a in rng(r.t):
            c.assume(a)
        c.arith_tag[z3.simplify(r.t).get_id()] = (name, xr)
        c.memo[("keep", r.t.get_id())] = (r.t, r)
    return r


PI = z3.RealVal("3.14159265358979")
PI_LO, PI_HI = z3.RealVal("3.1415926"), z3.RealVal("3.1415927")


def m_atan(x):
    if not is_sym(x):
        return math.atan(x)
    t = term(x, True)
    return _inverse("atan", _atan, x, None, lambda r: [
        r < PI_HI / 2, r > -PI_HI / 2, (r > 0) == (t > 0), (r < 0) == (t < 0)])


def m_asin(x):
    if not is_sym(x):
        return math.asin(x)
    t = term(x, True)
    return _inverse("asin", _asin, x, lambda v: z3.And(v >= -1, v <= 1), lambda r: [
        r <= PI_HI / 2, r >= -PI_HI / 2, (r > 0) == (t > 0), (r < 0) == (t < 0)])


def m_acos(x):
    if not is_sym(x):
        return math.acos(x)
    t = term(x, True)
    pi = rv(math.pi)
    return _inverse("acos", _acos, x, lambda v: z3.And(v >= -1, v <= 1), lambda r: [
        r >= 0, r <= pi, (r == 0) == (t == 1), (r == pi) == (t == -1)])


def m_atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return math.atan2(y, x)
    raise Unsupported("arctan2 of symbolic values")


def m_fabs(x):
    return abs(x)


def m_floor(x):
    if not is_sym(x):
        return math.floor(x)
    if isinstance(x, SInt):
        return x
    return SInt(z3.ToInt(x.t))


def m_ceil(x):
    if not is_sym(x):
        return math.ceil(x)
    if isinstance(x, SInt):
        return x
    return SInt(-z3.ToInt(-x.t))


def m_fmod(x, y):
    if not is_sym(x) and not is_sym(y):
        return math.fmod(x, y)
    q = conv(div(x, y), "i")
    return x - y * q


def m_round(x, nd=None):
    if not is_sym(x):
        return round(x) if nd is None else round(x, nd)
    if isinstance(x, SInt):
        return x
    if nd in (None, 0):
        f = z3.ToInt(x.t)
        fr = x.t - z3.ToReal(f)
        h = z3.RealVal("1/2")
        t = z3.If(fr < h, f, z3.If(fr > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SInt(t) if nd is None else SReal(z3.ToReal(t))
    raise Unsupported("round to decimals")


def m_min(*a):
    r = a[0]
    for b in a[1:]:
        if is_sym(r) or is_sym(b):
            r = _pick(b < r, b, r, r, b)
        else:
            r = b if b < r else r
    return r


def _pick(cond, x, y, big, small):
    """cond ? x : y; in algebraic mode the sign of big - small is looked up first."""
    c = ctx()
    if c.o.get("sqrt_alias") and not c.spec:
        d = core_sub(big, small)
        e = alg(d)
        if e is not d:
            if not c.feasible(e.t < 0):
                return x
            if not c.feasible(e.t > 0):
                return y
    return ite(cond, x, y)


def core_sub(a, b):
    d = a - b
    return d if isinstance(d, SReal) else SReal(term(d, True))


def m_max(*a):
    r = a[0]
    for b in a[1:]:
        if is_sym(r) or is_sym(b):
            r = _pick(b > r, b, r, b, r)
        else:
            r = b if b > r else r
    return r
