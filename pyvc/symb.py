"""pyvc.symb -- the symbolic builder: inputs are z3 variables, B.ens is an obligation."""
import copy

import z3

from . import api, core, shim
from .arr import SArr, z_and, z_not, z_or
from .core import SBool, SNum, Unsupported


class SymB(api.Base):
    conc = False

    def __init__(self, ctx, pkg):
        self.ctx, self.pkg = ctx, pkg
        self.np = shim.NUMPY
        self.math = shim.MATH

    def mod(self, n):
        return self.pkg.module(n)

    # ---- inputs
    def _in(self, name, v, lo, hi, s):
        c = self.ctx
        if name in c.inputs:
            raise Unsupported("duplicate input " + name)
        c.inputs[name] = (v.t, lo if lo is not None else s[0], hi if hi is not None else s[1])
        if lo is not None:
            c.assume(v >= lo)
        if hi is not None:
            c.assume(v <= hi)
        return v

    def real(self, name, lo=None, hi=None, s=(-10.0, 10.0)):
        return self._in(name, core.SReal(z3.Real(name)), lo, hi, s)

    def int(self, name, lo=None, hi=None, s=(0, 10)):
        return self._in(name, core.SInt(z3.Int(name)), lo, hi, s)

    def bool(self, name):
        v = core.SBool(z3.Bool(name))
        self.ctx.inputs[name] = (v.t, None, None)
        return v

    def choice(self, name, opts):
        i = self._in(name, core.SInt(z3.Int(name)), 0, len(opts) - 1, None)
        r = self.ctx.concretize(i.t)
        self.ctx.chosen.append((name, r))
        return opts[r]

    def seq(self, name, template, flavor="list", lo=0, nmax=8, rng=None, n=None, dtype=None, samp=None):
        from . import symseq
        from .loops import VList
        if template is None:
            template = symseq.dtype_template(dtype)
        template = _tmpl(template)
        if n is None:
            n = self.int(name + ".n", lo, None, s=(lo, nmax))
        r = symseq.SymSeq.fresh(template, n, flavor, name)
        st = r.store
        self.ctx.seqs[name] = (core.term(n) if isinstance(n, SNum) else int(n), dict(st.a))
        if rng:
            for p, (a, b) in rng.items():
                if a is not None or b is not None:
                    self.req(self.forall(0, n, lambda j: self.between_opt(a, r.at(j, p), b)))
        if flavor == "list":
            v = VList()
            v.template = template
            v.sym = r
            return v
        return r

    def between_opt(self, a, x, b):
        return z_and(True if a is None else x >= a, True if b is None else x <= b)

    def image(self, name, nx=(1, 8), ny=(1, 8), kind="i", lo=0, hi=255):
        from . import symseq
        n = self.int(name + ".nx", nx[0], None, s=nx)
        m = self.int(name + ".ny", ny[0], None, s=ny)
        r = symseq.Sym2D.fresh(n, m, kind, name=name)
        i, j = z3.Ints(name + "!i " + name + "!j")
        self.ctx.assume(z3.ForAll([i, j], z3.And(z3.Select(r.term, i, j) >= lo, z3.Select(r.term, i, j) <= hi)))
        return r

    def pixel_sums(self, thres, weights):
        """Sums over the pixels of an image that are brighter than a threshold: for each name a
        function of the image.  What a finite sum does when one pixel changes is assumed wherever
        the code stores one; weights: {name: f(row, column, value)}."""
        from . import symseq
        self.ctx.pix_sums = [(n, thres, w) for n, w in weights.items()]

        def total(name, img):
            return core.SInt(symseq.pix_sum(name, img.term))
        return total

    # ---- quantifiers
    def total(self, f):
        """Evaluate f in specification mode: indexing is total there."""
        self.ctx.spec += 1
        try:
            return f()
        finally:
            self.ctx.spec -= 1

    def forall(self, lo, hi, f):
        c = self.ctx
        j = z3.Int(c.fresh_name("q"))
        c.spec += 1
        try:
            p = self._b(f(core.SInt(j)))
        finally:
            c.spec -= 1
        p = p.t if isinstance(p, SBool) else z3.BoolVal(p)
        if z3.is_true(z3.simplify(p)):
            return True
        return SBool(z3.ForAll([j], z3.Implies(z3.And(j >= core.term(lo), j < core.term(hi)), p)))

    def order(self):
        """Where the elements of the list sorted last came from and went to, if known."""
        return getattr(self.ctx, "last_sorted", (None, None))

    def exists(self, lo, hi, f, at=None):
        """`at` names an index to try first."""
        c = self.ctx
        if at is not None:
            here = self.all_([at >= lo, at < hi, f(at)])
            return self.any_([here, self.exists(lo, hi, f)])
        j = z3.Int(c.fresh_name("q"))
        c.spec += 1
        try:
            p = self._b(f(core.SInt(j)))
        finally:
            c.spec -= 1
        p = p.t if isinstance(p, SBool) else z3.BoolVal(p)
        return SBool(z3.Exists([j], z3.And(j >= core.term(lo), j < core.term(hi), p)))

    def ens_forall(self, name, lo, hi, f):
        """Skolemised: proved for a fresh index."""
        c = self.ctx
        j = core.SInt(z3.Int(c.fresh_name("sk")))
        c.spec += 1
        try:
            p = self._b(f(j))
        finally:
            c.spec -= 1
        p = p.t if isinstance(p, SBool) else z3.BoolVal(p)
        c.oblige("post", name, SBool(z3.Implies(z3.And(j.t >= core.term(lo), j.t < core.term(hi)), p)))

    def length(self, x):
        return shim.vc_len(x)

    # ---- logic
    def req(self, p, name=None):
        self.ctx.assume(self._b(p))

    def _b(self, p):
        if isinstance(p, SArr):
            p = p.all()
        if isinstance(p, SNum):
            p = SBool(core.term_b(p))
        if isinstance(p, SBool):
            return p
        return bool(p)

    def ens(self, name, p, hint=None):
        p = self._b(p)
        self.ctx.oblige("post", name, p if isinstance(p, SBool) else bool(p))

    def eq(self, a, b, tol=1e-7):
        if isinstance(a, SArr) or isinstance(b, SArr):
            a, b = shim.as_arr(a), shim.as_arr(b)
            if a.shape != b.shape:
                return False
            return (a == b).all()
        return a == b

    def le(self, a, b, tol=1e-9):
        return a <= b

    def lt(self, a, b, tol=0):
        return a < b

    def ge(self, a, b, tol=1e-9):
        return a >= b

    def gt(self, a, b, tol=0):
        return a > b

    def all_(self, ps):
        r = True
        for p in ps:
            r = z_and(r, p)
        return r

    def any_(self, ps):
        r = False
        for p in ps:
            r = z_or(r, p)
        return r

    def not_(self, p):
        return z_not(p)

    def implies(self, a, b):
        return z_or(z_not(a), b)

    def iff(self, a, b):
        a, b = self._b(a), self._b(b)
        if isinstance(a, bool):
            return b if a else z_not(b)
        if isinstance(b, bool):
            return a if b else z_not(a)
        return SBool(a.t == b.t)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def sqrt(self, x):
        return core.m_sqrt(x)

    def floor(self, x):
        return core.m_floor(x)

    def case(self, p):
        """Split the proof on p."""
        return bool(p)

    def pure(self, key, shape, pre=None, post=None):
        from .contracts import Pure
        return Pure(key, shape, pre, post)

    def uf(self, name, *args):
        """An arbitrary function of real arguments (the same one at every use)."""
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return core.SReal(f(*[core.term(a, True) for a in args]))

    def ufi(self, name, *args):
        """An arbitrary integer function of integer arguments."""
        f = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))
        return core.SInt(f(*[core.term(a) if isinstance(a, core.SNum) else z3.IntVal(int(a)) for a in args]))

    def ufb(self, name, *args):
        """An arbitrary predicate over integers."""
        f = z3.Function(name, *([z3.IntSort()] * len(args)), z3.BoolSort())
        return SBool(f(*[core.term(a) if isinstance(a, core.SNum) else z3.IntVal(int(a)) for a in args]))

    def ufr(self, name, *args):
        """An arbitrary real function of integer arguments."""
        f = z3.Function(name, *([z3.IntSort()] * len(args)), z3.RealSort())
        return core.SReal(f(*[core.term(a) if isinstance(a, core.SNum) else z3.IntVal(int(a)) for a in args]))

    def tuples(self, n, f):
        """For all n-tuples of integers; f returns (trigger, statement)."""
        c = self.ctx
        js = [z3.Int(c.fresh_name("t")) for _ in range(n)]
        c.spec += 1
        try:
            pat, p = f(*[core.SInt(j) for j in js])
            p = self._b(p)
        finally:
            c.spec -= 1
        p = p.t if isinstance(p, SBool) else z3.BoolVal(p)
        return SBool(z3.ForAll(js, p, patterns=[pat.t]))

    def norm(self, *xs):
        """The root of the sum of squares, named outside of any quantifier."""
        if self.ctx.o.get("length_uf"):
            return core.length_uf(xs)
        t = self.total(lambda: sum([x * x for x in xs[1:]], xs[0] * xs[0]))
        return core.m_sqrt(t, squares=True)

    def abs_le(self, name, d, p, qs):
        """-p <= d <= p, as d*d + sum of squares of qs == p*p and p >= 0."""
        c = self.ctx
        self.lemma(name + ": squares", d * d + sum([q * q for q in qs], 0) == p * p)
        self.lemma(name + ": not negative", p >= 0)
        D, P = z3.Real(c.fresh_name("d")), z3.Real(c.fresh_name("p"))
        Q = [z3.Real(c.fresh_name("q")) for _ in qs]
        s = z3.Solver()
        s.add(D * D + sum([q * q for q in Q]) == P * P, P >= 0, z3.Or(D > P, D < -P))
        s2 = z3.Solver()
        s2.add(P > 0, D <= P, D >= -P, z3.Or(D / P > 1, D / P < -1, D / P * P != D))
        if s.check() != z3.unsat or s2.check() != z3.unsat:
            raise core.Unsupported("absolute value lemma")
        d, p = core.term(d, True), core.term(p, True)
        c.assume(z3.And(d <= p, d >= -p))
        c.assume(z3.Implies(p > 0, z3.And(d / p <= 1, d / p >= -1, d / p * p == d)))

    def induct(self, name, lo, hi, P):
        """P(lo), and P(m) => P(m+1) for lo <= m < hi: hence P(m) for lo <= m <= hi."""
        c = self.ctx
        self.lemma(name + ": base", self.total(lambda: P(lo)))
        m = core.SInt(z3.Int(c.fresh_name("ind")))
        p, q = self.total(lambda: (self._b(P(m)), self._b(P(m + 1))))
        c.oblige("lemma", name + ": step", self.implies(self.all_([m >= lo, m < hi, p]), q))
        c.assume(self.forall(lo, hi + 1, P))

    def havoc_row(self, v):
        """Arbitrary new contents of the long row of one record."""
        from .arr import note_write
        c = self.ctx
        note_write(c, v.store)
        f = z3.Array(c.fresh_name("row"), z3.IntSort(), {"f": z3.RealSort(), "i": z3.IntSort()}[v.t])
        j, k = z3.Int(c.fresh_name("j")), z3.Int(c.fresh_name("k"))
        v.store.a[v.path] = z3.Lambda([j, k], z3.If(j == v.i, z3.Select(f, k), z3.Select(v.store.a[v.path], j, k)))

    def ring(self, v, maxlen=None):
        """The deque with the elements of a symbolic list."""
        from .ring import Ring
        r = Ring()
        r.template, r.sym, r.maxlen = v.template, v.sym, maxlen
        return r

    def havoc_seq(self, s):
        """Arbitrary new contents, the same length."""
        from .arr import note_write
        note_write(self.ctx, s.store)
        s.store.__vc_havoc__()

    def havoc_part(self, s, upto):
        """Arbitrary new contents for the first elements of a view; the rest of the
        underlying sequence keeps its values."""
        st = s.store
        old = dict(st.a)
        st.__vc_havoc__()
        j = z3.Int(self.ctx.fresh_name("j"))
        off = core.term(s.off) if s.off is not None else z3.IntVal(0)
        here = z3.And(j >= off, j < off + core.term(upto))
        for p in st.a:
            st.a[p] = z3.Lambda([j], z3.If(here, z3.Select(st.a[p], j), z3.Select(old[p], j)))

    def whole(self, s):
        """The sequence a view is part of, and where the view starts."""
        from .symseq import SymSeq
        off = s.off if s.off is not None else 0
        return SymSeq(s.store, s.n + off, s.store.template, None, "", s.flavor), off

    def vlist(self, xs):
        from .loops import VList
        return VList(xs)

    def outer(self, L):
        """Counters of the cut loops around loop L."""
        out = []
        for o in self.ctx.loop_stack:
            if o is L:
                break
            if o.sym:
                out.append(o.k)
        return out

    def row(self, m, kind):
        from .symseq import Row
        return Row(m, kind)

    def spec(self, key, f):
        from .contracts import Spec
        return Spec(key, f)

    def loop(self, inv=None, variant=None, **k):
        from .loops import LoopSpec
        return LoopSpec(inv, variant, **k)

    def generalize(self, vals, pairs):
        """Replace the term of each pair by a value required to be equal to it."""
        for a, b in pairs:
            self.req(a == b)
        sub = [(core.term(a), core.term(b)) for a, b in pairs]
        return [core.lift(z3.substitute(core.term(v), *sub)) for v in vals]

    def ens_combo(self, name, a, b, hyps):
        """a == b as the combination sum c*(l - r) of facts l == r."""
        d = a - b
        for c, l, r in hyps:
            self.lemma(name + ": hypothesis", l == r)
            d = d - c * (l - r)
        self.lemma(name + ": identity", d == 0)
        self.ens(name, a == b)

    def unit(self, name):
        """An arbitrary unit vector (the last component is algebraic over the others)."""
        c = self.ctx
        a, b = self.real(name + "0", -1, 1), self.real(name + "1", -1, 1)
        z = z3.Real(c.fresh_name(name + "2"))
        t = 1 - a.t * a.t - b.t * b.t
        c.inputs[name + "2"] = (z, -1, 1)
        c.rel[z.decl().name()] = ("sqrt", t)
        c.assume(z * z == t)
        import math

        def val(v):
            return math.sqrt(v)       # ValueError: the sample is dropped
        c.defs.append((z, t, val))
        from .arr import SArr
        import numpy as np
        o = np.empty(3, dtype=object)
        o[:] = [a, b, core.SReal(z)]
        return SArr(o, "f")

    def matrix_mapping(self, s, name):
        """An arbitrary matrix M that maps the unit vector s to a unit vector r (every
        rotation is one); the last column is solved for, which needs s[2] != 0."""
        r = self.unit(name)
        rows = []
        for i in range(3):
            a, b = self.real(f"{name}M{i}0", s=(-1, 1)), self.real(f"{name}M{i}1", s=(-1, 1))
            rows.append([a, b, (r[i] - a * s[0] - b * s[1]) / s[2]])
        return self.np.array(rows, dtype=self.np.float64), r

    def sqrt_hint(self, e):
        """sqrt(e*e) is e (e >= 0 is an obligation)."""
        c = self.ctx
        self.lemma("hint: non-negative", e >= 0)
        t = z3.simplify(core.term(e * e, True))
        c.memo[("sqrt", t.get_id())] = (t, e)

    def sign_hint(self, e):
        self.ctx.alg_hints.append(e)

    def value_hint(self, *es):
        """Vector sums of the code that are equal to e are written as e."""
        for e in es:
            self.ctx.value_hints.append(e)

    def snap(self, x):
        return copy.deepcopy(x)

    @property
    def nan(self):
        return core.SReal(z3.Real("NaN"))

    def same(self, a, b):
        """The same list or array (code that hands on a copy is left to the real runs)."""
        if a is not b:
            raise core.Unsupported("another object of the same kind")
        return True

    def opened(self, end):
        """The file opened last whose name ends so."""
        fs = [f for f in self.ctx.opened if f.path.endswith(end)]
        if not fs:
            raise core.Unsupported(f"no file {end} opened")
        return fs[-1]

    def text_rows(self, path, head, n, fields):
        """A text file of any length: the lines head, then n lines with the numbers fields(j) (pairs of a value and its
        decimals, None for an integer)."""
        from .files import Rows
        self.ctx.files[str(path)] = Rows.of(head, n, fields)

    def holds_rows(self, f, head, n, fields):
        from .files import holds_rows
        return holds_rows(f, head, n, fields)

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        return False

    def lemma(self, name, p):
        """A stepping stone: proved, then available."""
        self.ctx.oblige("lemma", name, self._b(p))

    def witness(self, name, v):
        pass


def _tmpl(t):
    if isinstance(t, tuple):
        return (t[0], t[1], _tmpl(t[2]))
    if isinstance(t, dict):
        return {n: (u if n == "__cls__" else _tmpl(u)) for n, u in t.items()}
    return t
