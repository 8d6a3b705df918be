"""pyvc.solve -- discharging one obligation: z3, polynomial normal form, cvc5.

prove(ctx, goal) returns
  ("proved", backend)
  ("refuted", backend, model_text, inputs)   a counter-model of the obligation
  ("unknown", backend)
"""
import math
import random
import time

import z3

from . import poly
from .core import UF_PY


class Uneval(Exception):
    pass


def neval(t, env, cache):
    """Evaluate a quantifier-free z3 term numerically (floats)."""
    i = t.get_id()
    if i in cache:
        return cache[i]
    r = _neval(t, env, cache)
    cache[i] = r
    return r


def _neval(t, env, cache):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.numerator_as_long() / t.denominator_as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_quantifier(t):
        raise Uneval("quantifier")
    k = t.decl().kind()
    ch = t.children()
    if not ch:
        n = t.decl().name()
        if n in env:
            return env[n]
        raise Uneval(n)
    if k == z3.Z3_OP_ITE:
        return neval(ch[1], env, cache) if neval(ch[0], env, cache) else neval(ch[2], env, cache)
    if k == z3.Z3_OP_AND:
        return all(neval(c, env, cache) for c in ch)
    if k == z3.Z3_OP_OR:
        return any(neval(c, env, cache) for c in ch)
    if k == z3.Z3_OP_IMPLIES:
        return (not neval(ch[0], env, cache)) or neval(ch[1], env, cache)
    v = [neval(c, env, cache) for c in ch]
    if k == z3.Z3_OP_ADD:
        return sum(v)
    if k == z3.Z3_OP_SUB:
        return v[0] - sum(v[1:])
    if k == z3.Z3_OP_MUL:
        return math.prod(v)
    if k == z3.Z3_OP_UMINUS:
        return -v[0]
    if k == z3.Z3_OP_DIV:
        if v[1] == 0:
            raise Uneval("div")
        return v[0] / v[1]
    if k == z3.Z3_OP_POWER:
        return v[0] ** v[1]
    if k == z3.Z3_OP_IDIV:
        if v[1] == 0:
            raise Uneval("div")
        return v[0] // v[1]
    if k == z3.Z3_OP_MOD:
        return v[0] % v[1]
    if k == z3.Z3_OP_TO_REAL:
        return float(v[0])
    if k == z3.Z3_OP_TO_INT:
        return math.floor(v[0])
    if k == z3.Z3_OP_IS_INT:
        return v[0] == int(v[0])
    if k == z3.Z3_OP_NOT:
        return not v[0]
    if k == z3.Z3_OP_EQ:
        if isinstance(v[0], float) or isinstance(v[1], float):
            return abs(v[0] - v[1]) <= 1e-7 * (1 + abs(v[0]) + abs(v[1]))
        return v[0] == v[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(v)) == len(v)
    if k == z3.Z3_OP_XOR:
        return v[0] != v[1]
    if k == z3.Z3_OP_LE:
        return v[0] <= v[1] + (1e-9 if isinstance(v[0] - v[1], float) else 0)
    if k == z3.Z3_OP_LT:
        return v[0] < v[1]
    if k == z3.Z3_OP_GE:
        return v[0] >= v[1] - (1e-9 if isinstance(v[0] - v[1], float) else 0)
    if k == z3.Z3_OP_GT:
        return v[0] > v[1]
    n = t.decl().name()
    if n in UF_PY:
        try:
            return UF_PY[n](v[0])
        except ValueError as e:
            raise Uneval(str(e))
    raise Uneval(n)


def sample_env(ctx, rng, kinds):
    env = {}
    for name, (v, lo, hi) in ctx.inputs.items():
        if z3.is_int(v):
            a = int(lo) if lo is not None else -5
            b = int(hi) if hi is not None else a + 12
            env[name] = rng.randint(a, max(a, min(b, a + 3000)))
        elif z3.is_bool(v):
            env[name] = rng.random() < 0.5
        else:
            a = float(lo) if lo is not None else -3.0
            b = float(hi) if hi is not None else max(a, 0) + 3.0
            if rng.random() < 0.15:
                env[name] = float(round(rng.uniform(a, b)))
            else:
                env[name] = rng.uniform(a, b)
            env[name] = min(max(env[name], a), b)
    for n in kinds or ():
        env[n] = rng.uniform(-2.0, 3.0)
    for v, t, f in ctx.defs:
        env[v.decl().name()] = f(neval(t, env, {}))
    return env


def numeric_refute(ctx, goal, tries=60, seed=1):
    """Search a numeric point satisfying the path condition and not the goal."""
    rng = random.Random(seed)
    t0 = time.time()
    for _ in range(tries):
        if time.time() - t0 > 3:
            break
        try:
            env = sample_env(ctx, rng, None)
            cache = {}
            if neval(goal, env, cache):
                continue
            if all(neval(p, env, cache) for p in ctx.pc):
                return env
        except (Uneval, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
    return None


def flatten_and(g):
    if z3.is_and(g):
        for c in g.children():
            yield from flatten_and(c)
    else:
        yield g


def prove(ctx, goal):
    parts = list(flatten_and(goal))
    if len(parts) == 1:
        return prove1(ctx, goal)
    best = None
    for p in parts:
        r = prove1(ctx, p)
        if r[0] != "proved":
            return r
        best = r if best is None or r[1] != "z3" else best
    return best


def _z3(ctx, goal, ms, tactic=None):
    if tactic:
        s = z3.Tactic(tactic).solver()
        for p in ctx.pc:
            s.add(p)
        s.set("timeout", ms)
        s.add(z3.Not(goal))
        r = s.check()
    else:
        s = ctx.solver
        s.push()
        s.set("timeout", ms)
        s.add(z3.Not(goal))
        r = s.check()
    m = None
    if r == z3.sat:
        m = s.model()
    if not tactic:
        s.pop()
        s.set("timeout", ctx.o["feas_ms"])
    return r, m


def small_model(ctx, goal, m):
    """Prefer a counter-model with short sequences."""
    ns = [z3v for z3v in ctx.seq_len()]
    if not ns:
        return m
    for k in (2, 4, 8):
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*ctx.pc)
        s.add(z3.Not(goal))
        s.add(*[n <= k for n in ns])
        if s.check() == z3.sat:
            return s.model()
    return m


def model_inputs(ctx, m):
    out = {}
    for name, (n, arrs) in ctx.seqs.items():
        k = m.eval(n, model_completion=True).as_long() if not isinstance(n, int) else n
        if k > 60:
            continue
        for p, a in arrs.items():
            if _rank(a) != 1:
                continue
            for i in range(k):
                x = m.eval(z3.Select(a, i), model_completion=True)
                out[f"{name}[{i}]{p}"] = _pyval(x)
    for name, (v, _, _) in ctx.inputs.items():
        x = m.eval(v, model_completion=True)
        y = _pyval(x)
        if y is not None:
            out[name] = y
    return out


def _rank(a):
    try:
        a.sort().domain_n(1)
        return 2
    except z3.Z3Exception:
        return 1


def _pyval(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return x.numerator_as_long() / x.denominator_as_long()
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_true(x) or z3.is_false(x):
        return z3.is_true(x)
    return None


def prove1(ctx, goal):
    is_eq = z3.is_eq(goal) and z3.is_real(goal.arg(0))
    quick = min(ctx.o["prove_ms"], 600)
    if is_eq and ctx.o["poly"]:
        try:
            if poly.prove_eq(ctx, goal.arg(0), goal.arg(1)):
                return ("proved", "polynomial-normal-form")
        except poly.Give:
            pass
    if int_only(goal):
        s = z3.Solver()
        s.set("timeout", 400)
        s.add(*[p for p in ctx.pc if int_only(p)])
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return ("proved", "z3")
    r, m = _z3(ctx, goal, quick)
    if r == z3.unsat:
        return ("proved", "z3")
    if r == z3.sat:
        m = small_model(ctx, goal, m)
        return ("refuted", "z3", str(m)[:3000], model_inputs(ctx, m))
    env = numeric_refute(ctx, goal)
    if env is not None:
        return ("refuted", "numeric", str({k: env[k] for k in list(env)[:60]})[:3000],
                {k: env[k] for k in ctx.inputs if k in env})
    # only the relevant part of the path condition (sound: dropping hypotheses)
    pcs = relevant(ctx, goal)
    if ctx.o.get("opaque_products"):
        s = z3.Solver()
        s.set("timeout", ctx.o["prove_ms"] // 2)
        s.add(*[opaque_products(p) for p in pcs])
        s.add(z3.Not(opaque_products(goal)))
        if s.check() == z3.unsat:
            return ("proved", "z3")
    nl = any(_nonlinear(p) for p in pcs + [goal])
    if len(pcs) < len(ctx.pc):
        s = z3.Solver()
        s.set("timeout", ctx.o["prove_ms"] // 2)
        s.add(*pcs)
        s.add(z3.Not(goal))
        r2 = s.check()
        if r2 == z3.unsat:
            return ("proved", "z3")
    if nl:
        def nlsat():
            s = z3.Then("simplify", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat").solver()
            s.set("timeout", ctx.o["prove_ms"] // 2)
            s.add(*[uf_to_var(p) for p in pcs])
            s.add(z3.Not(uf_to_var(goal)))
            return s.check() == z3.unsat
        if forked(nlsat, ctx.o["prove_ms"] / 2000 + 1):
            return ("proved", "z3-nlsat")
    r, m = _z3(ctx, goal, ctx.o["prove_ms"])
    if r == z3.unsat:
        return ("proved", "z3")
    if r == z3.sat:
        m = small_model(ctx, goal, m)
        return ("refuted", "z3", str(m)[:3000], model_inputs(ctx, m))
    if ctx.o.get("cvc5", True):
        if forked(lambda: cvc5_prove(ctx, pcs, goal, ctx.o["prove_ms"]), ctx.o["prove_ms"] / 1000 + 1):
            return ("proved", "cvc5")
    return ("unknown", "z3")


def forked(f, secs):
    """f() in a child that is killed when the time is up (z3 does not always stop)."""
    import os
    import select
    import signal
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(wr, b"1" if f() else b"0")
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ok, _, _ = select.select([rd], [], [], secs)
        return bool(ok) and os.read(rd, 1) == b"1"
    finally:
        os.close(rd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


_ufv = {}


def uf_to_var(t):
    """Abstract applications of the uninterpreted functions by variables."""
    apps = {}
    seen = set()

    def walk(x):
        if x.get_id() in seen or z3.is_quantifier(x):
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in UF_PY and x.num_args() == 1:
            apps[x.get_id()] = x
            return
        for c in x.children():
            walk(c)
    walk(t)
    if not apps:
        return t
    for i, x in apps.items():
        _ufv[i] = x          # kept alive, so that the id stays its own
    return z3.substitute(t, *[(x, z3.Real("uf!" + str(i))) for i, x in apps.items()])


def cvc5_prove(ctx, pcs, goal, ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*pcs)
        s.add(z3.Not(goal))
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if c.getCommandName() == "check-sat":
                res = str(o).strip()
        return res == "unsat"
    except Exception:
        return False


_nlc = {}


_opq = {}


def opaque_products(t):
    """Products and quotients of unknowns as applications of unknown functions (sound: it forgets what they are)."""
    i = t.get_id()
    if i in _opq:
        return _opq[i][1]
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        cs = [opaque_products(c) for c in t.children()]
        if z3.is_mul(t) and z3.is_real(t) and sum(1 for c in cs if not z3.is_rational_value(c)) > 1:
            f = z3.Function("times!", z3.RealSort(), z3.RealSort(), z3.RealSort())
            r = None
            for c in sorted((c for c in cs if not z3.is_rational_value(c)), key=lambda c: c.get_id()):
                r = c if r is None else f(r, c)
            for c in cs:
                if z3.is_rational_value(c):
                    r = c * r
        elif z3.is_div(t) and not z3.is_rational_value(cs[1]):
            r = z3.Function("over!", z3.RealSort(), z3.RealSort(), z3.RealSort())(cs[0], cs[1])
        else:
            r = t if all(a.eq(b) for a, b in zip(t.children(), cs)) else t.decl()(*cs)
    _opq[i] = (t, r)
    return r


def _nonlinear(t):
    seen = set()

    def w(x):
        if x.get_id() in seen:
            return False
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return w(x.body())
        if z3.is_mul(x):
            if sum(1 for c in x.children() if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1:
                return True
        if z3.is_div(x):
            if not z3.is_rational_value(x.arg(1)):
                return True
        return any(w(c) for c in x.children())
    return w(t)


_io = {}


def int_only(t):
    """No quantifier, no real, no array, no product: the index part of the path condition."""
    i = t.get_id()
    if i not in _io:
        seen = set()

        def w(x):
            if x.get_id() in seen:
                return True
            seen.add(x.get_id())
            if z3.is_quantifier(x) or z3.is_real(x) or z3.is_array(x):
                return False
            if z3.is_mul(x) and sum(1 for c in x.children() if not z3.is_int_value(c)) > 1:
                return False
            return all(w(c) for c in x.children())
        _io[i] = (t, w(t))
    return _io[i][1]


_vc = {}


def fvars(t):
    i = t.get_id()
    if i in _vc:
        return _vc[i][1]
    out = set()
    seen = set()

    def w(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            w(x.body())
            return
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in UF_PY:
                    out.add(str(x))
                for c in x.children():
                    w(c)
    w(t)
    _vc[i] = (t, out)
    return out


def relevant(ctx, goal):
    """Cone of influence with respect to shared symbols, two rounds."""
    want = set(fvars(goal))
    pcs = [(p, fvars(p)) for p in ctx.pc]
    chosen = set()
    for _ in range(2):
        add = set()
        for i, (p, fv) in enumerate(pcs):
            if i not in chosen and (fv & want):
                chosen.add(i)
                add |= fv
        if not add - want:
            break
        want |= add
    return [pcs[i][0] for i in sorted(chosen)]
