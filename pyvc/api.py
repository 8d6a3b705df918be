"""pyvc.api -- contracts written once, run by the prover and against the real code.

A contract is a function h(B).  B supplies inputs (symbolic or concrete), the
preconditions (B.req), the calls, and the postconditions (B.ens).  No z3 here:
this file is also imported by the interpreter that runs the real package.
"""
REG = []


class Contract:
    def __init__(self, prop, f, fns, cases, opts, bounded, sym, conc, loops, contracts, hooks, note, jit):
        self.prop, self.f, self.fns, self.cases = prop, f, fns, cases
        self.opts, self.bounded, self.sym, self.conc = opts, bounded, sym, conc
        self.loops, self.contracts, self.hooks = loops, contracts, hooks
        self.name = f.__name__
        self.note = note
        self.jit = jit


def contract(prop, fns, cases=120, opts=None, bounded=None, sym=True, conc=True, loops=None, contracts=None,
             hooks=None, note="", jit=True):
    """fns: functions of /repo under contract here.
    bounded: None for a proof for all inputs, else the stated bound.
    sym: run the prover; conc: run on the real code as well.
    loops: f(B) -> {function: {loop number: spec}} invariants.
    contracts: names of callee contracts used at call sites."""
    def deco(f):
        REG.append(Contract(prop, f, list(fns), cases, opts, bounded, sym, conc, loops, contracts, hooks, note, jit))
        return f
    return deco


class Discard(Exception):
    """Concrete case outside the precondition."""


class Violation(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name)
        self.name, self.detail = name, detail


class Base:
    """Shared by the symbolic and the concrete builder."""

    def vec(self, name, n=3, lo=None, hi=None, s=(-10.0, 10.0)):
        return self.np.array([self.real(f"{name}{i}", lo, hi, s) for i in range(n)], dtype=self.np.float64)

    def ivec(self, name, n, lo, hi):
        return self.np.array([self.int(f"{name}{i}", lo, hi) for i in range(n)], dtype=self.np.int32)

    def pos(self, name, s=(0.01, 10.0)):
        v = self.real(name, None, None, s)
        self.req(v > 0)
        return v

    def call(self, key, *a, **k):
        return self.fn(key)(*a, **k)

    def fn(self, key):
        mod, _, q = key.partition(".")
        o = self.mod(mod)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    def eq_vec(self, a, b, tol=1e-7):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        return self.all_([self.eq(x, y, tol) for x, y in zip(a, b)])

    def ens_vec(self, name, a, b, tol=1e-7):
        a, b = list(a), list(b)
        self.ens(name + ": length", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.ens(f"{name}[{i}]", self.eq(x, y, tol))

    def ens_eq(self, name, a, b, tol=1e-7):
        self.ens(name, self.eq(a, b, tol))

    def between(self, lo, x, hi):
        return self.all_([self.le(lo, x), self.le(x, hi)])

    def det3(self, m):
        return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))

    def dot3(self, a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    def cross3(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
