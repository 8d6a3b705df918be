"""pyvc.poly -- polynomial normal forms over towers of square roots.

prove_eq(ctx, a, b) shows a == b by bringing a - b to a rational function whose
numerator vanishes modulo the defining relations of the square roots (s*s = e,
newest first), of sine/cosine pairs (s*s + c*c = 1) and of equality hypotheses
registered with ctx.rel (triangular).  Denominators are non-zero because every
division of the executed code carries its own obligation.
"""
import time

import z3
from sympy import QQ
from sympy.polys.rings import PolyRing
from sympy.polys.orderings import lex


class Give(Exception):
    pass


MAXTERMS = 60000


def prove_eq(ctx, a, b, limit=20.0):
    return Prover(ctx, limit).zero(a - b)


class Prover:
    def __init__(self, ctx, limit):
        self.ctx = ctx
        self.t0 = time.time()
        self.limit = limit
        self.atoms = {}      # key -> (index)
        self.order = []      # names
        self.memo = {}

    def chk(self):
        if time.time() - self.t0 > self.limit:
            raise Give("time")

    # -------- collect atoms
    def atom_of(self, t):
        if z3.is_app(t) and t.num_args() == 0:
            return t.decl().name()
        return "app!" + str(t.get_id())

    def collect(self, t, out, seen):
        i = t.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return
        if z3.is_quantifier(t) or not z3.is_app(t):
            raise Give("term")
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            for c in t.children():
                self.collect(c, out, seen)
            return
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            self.collect(t.arg(0), out, seen)
            return
        if k == z3.Z3_OP_ITE:
            raise Give("ite")
        n = self.atom_of(t)
        if n not in out:
            out[n] = t
            r = self.ctx.rel.get(n)
            if r is not None:
                self.collect(r[1], out, seen)

    def zero(self, t):
        out = {}
        seen = set()
        self.collect(t, out, seen)
        # sine/cosine partners
        pairs = []
        ids = {v.get_id(): n for n, v in out.items()}
        for key, val in self.ctx.rel.items():
            if isinstance(key, tuple) and key[0] == "trig":
                s, c = val
                if c.get_id() in ids:
                    if s.get_id() not in ids:
                        out[self.atom_of(s)] = s
                        ids[s.get_id()] = self.atom_of(s)
                    pairs.append((ids[s.get_id()], ids[c.get_id()]))
        names = list(out)
        if not names:
            return z3.is_true(z3.simplify(t == 0))
        R = PolyRing([f"v{i}" for i in range(len(names))], QQ, lex)
        self.R = R
        self.gen = dict(zip(names, R.gens))
        self.idx = {n: i for i, n in enumerate(names)}
        # relations: name -> (num, den) with name^2 = num/den
        sq = [n for n in names if self.ctx.rel.get(n, ("",))[0] == "sqrt"]
        # newest square root first
        sq.sort(key=lambda n: -int(n.rsplit("!", 1)[1]))
        lin = [n for n in names if self.ctx.rel.get(n, ("",))[0] == "def"]
        lin.sort(key=lambda n: -self.ctx.rel[n][2])
        self.trig = {c: s for s, c in pairs}
        # substitute definitional atoms (n = term), newest first handled in conv
        self.sqset = set(sq)
        num, den = self.conv(t)
        num = self.red_trig(num)
        for n in sq:
            self.chk()
            if not self.uses(num, n):
                continue
            rn, rd = self.conv(self.ctx.rel[n][1])
            num = self.elim(num, self.idx[n], rn, rd)
            if num is None:
                return False
            num = self.red_trig(num)
        return num == 0

    def uses(self, p, n):
        i = self.idx[n]
        return any(m[i] for m in p)

    def elim(self, num, i, rn, rd):
        """num as polynomial in v_i with v_i^2 = rn/rd; both parity parts must
        vanish, so return one polynomial: we keep A + v*B with A, B free of v."""
        parts = {}
        for m, c in num.terms():
            e = m[i]
            mm = list(m)
            mm[i] = e % 2
            parts.setdefault(e // 2, {})[tuple(mm)] = c
        if not parts:
            return num
        top = max(parts)
        if top == 0:
            return num
        acc = self.R.zero
        for k in range(top, -1, -1):
            self.chk()
            p = self.R.from_dict(parts[k]) if k in parts else self.R.zero
            # Horner in w = rn/rd, clearing denominators: acc*rn + p*rd^(top-k)
            acc = acc * rn + p * (rd ** (top - k)) if k != top else p
            if len(acc) > MAXTERMS:
                raise Give("size")
        # v occurs at most once in each monomial now; acc may still contain v (odd part)
        return acc

    def red_trig(self, p):
        for c, s in self.trig.items():
            ic = self.idx[c]
            if any(m[ic] > 1 for m in p):
                g = self.gen[s]
                p = self.elim(p, ic, 1 - g * g, self.R.one)
        return p

    def conv(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        self.chk()
        r = self._conv(t)
        n, d = r
        n = self.red(n)
        d = self.red(d)
        if len(n) > MAXTERMS or len(d) > MAXTERMS:
            raise Give("size")
        r = (n, d)
        self.memo[i] = (t, r)
        return r

    def red(self, p):
        """Cheap reductions during construction (polynomial relations only)."""
        p = self.red_trig(p)
        return p

    def _conv(self, t):
        R = self.R
        if z3.is_int_value(t):
            return R(t.as_long()), R.one
        if z3.is_rational_value(t):
            return R(QQ(t.numerator_as_long(), t.denominator_as_long())), R.one
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_ADD:
            return self.sum([self.conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            v = [self.conv(c) for c in ch]
            return self.sum([v[0]] + [(-n, d) for n, d in v[1:]])
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(ch[0])
            return -n, d
        if k == z3.Z3_OP_MUL:
            n, d = R.one, R.one
            for c in ch:
                a, b = self.conv(c)
                n, d = self.mul(n, d, a, b)
            return n, d
        if k == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0])
            c, d = self.conv(ch[1])
            if c == 0:
                raise Give("zero denominator")
            return self.mul(a, b, d, c)
        if k == z3.Z3_OP_POWER:
            e = ch[1]
            if not z3.is_rational_value(e) or e.denominator_as_long() != 1 or e.numerator_as_long() < 0:
                raise Give("power")
            n, d = self.conv(ch[0])
            e = e.numerator_as_long()
            return n ** e, d ** e
        return self.gen[self.atom_of(t)], R.one

    def mul(self, a, b, c, d):
        # cancel equal factors cheaply
        if a == d:
            a, d = self.R.one, self.R.one
        if c == b:
            c, b = self.R.one, self.R.one
        n, e = a * c, b * d
        return self.cancel(n, e)

    def cancel(self, n, d):
        if n == 0:
            return n, self.R.one
        # monomial content
        if len(d) == 1:
            (m, c), = d.terms()
            g = list(m)
            for mm in n:
                g = [min(x, y) for x, y in zip(g, mm)]
                if not any(g):
                    break
            if any(g):
                g = tuple(g)
                n = self.R.from_dict({tuple(x - y for x, y in zip(mm, g)): cc for mm, cc in n.terms()})
                d = self.R.from_dict({tuple(x - y for x, y in zip(m, g)): c})
        return n, d

    def sum(self, fr):
        n, d = fr[0]
        for a, b in fr[1:]:
            if b == d:
                n = n + a
            elif b == self.R.one:
                n = n + a * d
            elif d == self.R.one:
                n, d = n * b + a, b
            else:
                # try divisibility
                q, r = divmod(b, d) if len(b) < 200 and len(d) < 200 else (None, 1)
                if r == 0:
                    n, d = n * q + a, b
                else:
                    q, r = divmod(d, b) if len(b) < 200 and len(d) < 200 else (None, 1)
                    if r == 0:
                        n = n + a * q
                    else:
                        n, d = n * b + a * d, d * b
            if len(n) > MAXTERMS:
                raise Give("size")
        return self.cancel(n, d) if len(d) == 1 else (n, d)
