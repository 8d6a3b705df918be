"""pyvc.load -- mechanical extraction of the functions of /repo.

Every run parses the package's current source.  Transformations (and nothing
else): (1) every for/while statement is re-expressed with an explicit step
protocol, so that a loop over a symbolic range is cut at its invariant; (2)
boolean operators and comparison chains become calls that do not fork the path
when all operands are plain; (3) simple `if` statements may be merged (option);
(4) each function is wrapped by a dispatcher so that a call can be replaced by
the callee's contract; (5) the names numpy, math, numba, scipy, open, float, ...
resolve to the verifier's versions.  Dropped: numba decorators and their machine
types, docstrings, type annotations' meaning, print output.
"""
import ast
import builtins
import copy as _copy
import importlib
import itertools
import os
import sys
import types

from . import core, shim
from .core import Unsupported

REPO = os.path.join(os.environ.get("PYVC_REPO", "/repo"), "openptv_python")
MODS = ["constants", "vec_utils", "parameters", "calibration", "ray_tracing", "trafo", "multimed", "imgcoord", "epi",
        "tracking_frame_buf", "find_candidate", "correspondences", "sortgrid", "segmentation", "orientation",
        "tracking_run", "track", "image_processing"]


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vc(attr):
    return ast.Attribute(value=_name("_vc_"), attr=attr, ctx=ast.Load())


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def stored_names(nodes):
    """Local names bound by these statements (not in nested functions)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_With(self, n):
            self.generic_visit(n)
    for s in nodes:
        V().visit(s)
    return [n for n in out if not n.startswith("_vc")]


class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []
        self.loops = {}
        self.n = 0

    def qual(self):
        return self.mod + "." + ".".join(self.stack)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        key = self.qual()
        self.loops.setdefault(key, 0)
        n.body = [self.visit(s) for s in n.body]
        n.body = _flat(n.body)
        dec = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        wrap = ast.Call(func=_vc("wrap"), args=[ast.Constant(key)], keywords=[])
        # classmethod / staticmethod / property must stay outermost
        outer = [d for d in dec if isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod", "property")]
        inner = [d for d in dec if d not in outer]
        n.decorator_list = outer + [wrap] + inner
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs:
            a.annotation = None
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        return n

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.stack:
            return ast.copy_location(ast.Call(func=_vc("vlist"), args=[n], keywords=[]), n)
        return n

    def visit_ListComp(self, n):
        n = self.generic_visit(n)
        if not self.stack:
            return n
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and not g.is_async:
            # [elt for target in iter] -> _vc_.listcomp(iter, lambda v: elt)
            if isinstance(g.target, ast.Name):
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[],
                                                  kw_defaults=[], defaults=[]), body=n.elt)
                return ast.copy_location(ast.Call(func=_vc("listcomp"), args=[g.iter, f], keywords=[]), n)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                used = {}
                args = []
                for e in g.target.elts:
                    nm = e.id
                    if nm in used:
                        nm = f"_vcdup{len(args)}"
                    used[nm] = 1
                    args.append(ast.arg(arg=nm))
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[],
                                                  defaults=[]), body=n.elt)
                star = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="_vct")], kwonlyargs=[],
                                                     kw_defaults=[], defaults=[]),
                                  body=ast.Call(func=f, args=[ast.Starred(value=_name("_vct"), ctx=ast.Load())],
                                                keywords=[]))
                return ast.copy_location(ast.Call(func=_vc("listcomp"), args=[g.iter, star], keywords=[]), n)
        return ast.copy_location(ast.Call(func=_vc("vlist"), args=[n], keywords=[]), n)

    # ---- boolean operators
    def visit_BoolOp(self, n):
        n = self.generic_visit(n)
        f = "and_" if isinstance(n.op, ast.And) else "or_"
        if any(isinstance(x, ast.NamedExpr) for v in n.values for x in ast.walk(v)):
            return n
        return ast.copy_location(ast.Call(func=_vc(f), args=[_lam(v) for v in n.values], keywords=[]), n)

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1:
            return n
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
            return n
        # a < b < c with simple middle operands
        parts = []
        left = n.left
        for o, c in zip(n.ops, n.comparators):
            parts.append(_lam(ast.Compare(left=left, ops=[o], comparators=[c])))
            left = c
        return ast.copy_location(ast.Call(func=_vc("and_"), args=parts, keywords=[]), n)

    def visit_UnaryOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(func=_vc("not_"), args=[n.operand], keywords=[]), n)
        return n

    def visit_IfExp(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(
            ast.Call(func=_vc("ifexp"), args=[n.test, _lam(n.body), _lam(n.orelse)], keywords=[]), n)

    # ---- merged ifs
    def visit_If(self, n):
        names = mergeable(n)
        if names is None and self.stack:
            place = one_place(n)
            if place is not None:
                return self.merge_places(n, place)
        n = self.generic_visit(n)
        n.body, n.orelse = _flat(n.body), _flat(n.orelse)
        if names is None or not self.stack:
            return n
        self.n += 1
        k = self.n
        th, el, cv = f"_vcthen_{k}", f"_vcelse_{k}", f"_vcc_{k}"
        params = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[],
                               defaults=[])
        ret = ast.Return(value=ast.Tuple(elts=[_name(x) for x in names], ctx=ast.Load()))
        body = _copy.deepcopy(n.body)
        orelse = _copy.deepcopy(n.orelse)
        f1 = ast.FunctionDef(name=th, args=params, body=body + [ret], decorator_list=[])
        f2 = ast.FunctionDef(name=el, args=_copy.deepcopy(params), body=orelse + [_copy.deepcopy(ret)],
                             decorator_list=[])
        out = [ast.Assign(targets=[_name(cv, ast.Store())], value=n.test), f1, f2]
        getters = ast.Tuple(elts=[_lam(_name(x)) for x in names], ctx=ast.Load())
        tgt = f"_vcm_{k}"
        out.append(ast.Assign(targets=[_name(tgt, ast.Store())], value=ast.Call(
            func=_vc("merge_if"), args=[_name(cv), _name(th), _name(el), getters], keywords=[])))
        asg = ast.Assign(targets=[ast.Tuple(elts=[_name(x, ast.Store()) for x in names], ctx=ast.Store())],
                         value=_name(tgt))
        plain = ast.If(test=_name(cv), body=n.body, orelse=n.orelse)
        out.append(ast.If(test=ast.Compare(left=_name(tgt), ops=[ast.IsNot()], comparators=[ast.Constant(None)]),
                          body=[asg], orelse=[plain]))
        return [ast.copy_location(s, n) for s in out]

    def merge_places(self, n, places):
        """`if c: a[i] = v` -- read the place, merge, write the place back."""
        self.n += 1
        k = self.n
        plain = self.generic_visit(_copy.deepcopy(n))
        plain.body, plain.orelse = _flat(plain.body), _flat(plain.orelse)
        names = [f"_vcpl_{k}_{i}" for i in range(len(places))]
        sub = dict(zip(places, names))

        def fn(name, body):
            body = [_Places(sub).visit(_copy.deepcopy(x)) for x in body]
            check = []
            for x in body:
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    check.append(ast.Expr(self.visit(ast.parse(
                        next(p for p in places if sub[p] == t.id), mode="eval").body)))
            body = [self.visit(x) for x in body]
            ret = ast.Return(value=ast.Tuple(elts=[_name(x) for x in names], ctx=ast.Load()))
            params = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[],
                                   kw_defaults=[], defaults=[])
            return ast.FunctionDef(name=name, args=params, body=check + _flat(body) + [ret], decorator_list=[])
        th, el, cv, tgt = f"_vcthen_{k}", f"_vcelse_{k}", f"_vcc_{k}", f"_vcm_{k}"
        reads = [self.visit(ast.parse(p, mode="eval").body) for p in places]
        getters = ast.Tuple(elts=[_call(_vc("total"), _lam(x)) for x in reads], ctx=ast.Load())
        out = [ast.Assign(targets=[_name(cv, ast.Store())], value=plain.test), fn(th, n.body), fn(el, n.orelse)]
        out.append(ast.Assign(targets=[_name(tgt, ast.Store())], value=ast.Call(
            func=_vc("merge_if"), args=[_name(cv), _name(th), _name(el), getters], keywords=[])))
        asg = [ast.Expr(_call(_vc("spec_on")))]
        for i, p in enumerate(places):
            a = ast.parse(f"{p} = {tgt}[{i}]").body[0]
            asg.append(self.visit(a))
        asg.append(ast.Expr(_call(_vc("spec_off"))))
        pl = ast.If(test=_name(cv), body=plain.body, orelse=plain.orelse)
        out.append(ast.If(test=ast.Compare(left=_name(tgt), ops=[ast.IsNot()], comparators=[ast.Constant(None)]),
                          body=_flat(asg), orelse=[pl]))
        return [ast.fix_missing_locations(ast.copy_location(s, n)) for s in out]

    # ---- loops
    def visit_For(self, n):
        if not self.stack:
            return self.generic_visit(n)
        key = self.qual()
        k = self.loops[key]
        self.loops[key] += 1
        names = stored_names([n])
        n = self.generic_visit(n)
        return self._loop(n, key, k, names, True)

    def visit_While(self, n):
        if not self.stack:
            return self.generic_visit(n)
        key = self.qual()
        k = self.loops[key]
        self.loops[key] += 1
        names = stored_names([n])
        n = self.generic_visit(n)
        return self._loop(n, key, k, names, False)

    def _loop(self, n, key, k, names, is_for):
        self.n += 1
        L, go, v = f"_vcL{self.n}", f"_vcgo{self.n}", f"_vcv_{self.n}"
        getters = ast.List(elts=[_lam(_name(x)) for x in names], ctx=ast.Load())
        mkargs = [ast.Constant(key), ast.Constant(k), ast.Constant(is_for),
                  ast.List(elts=[ast.Constant(x) for x in names], ctx=ast.Load())]
        if is_for:
            mkargs.append(n.iter)
        # all local names, for invariants
        if not is_for:
            mkargs.append(ast.Constant(None))
        make = ast.Assign(targets=[_name(L, ast.Store())],
                          value=ast.Call(func=_vc("loop"), args=mkargs, keywords=[]))
        tgt = ast.Tuple(elts=[_name(go, ast.Store()), _name(v, ast.Store())] + [_name(x, ast.Store()) for x in names],
                        ctx=ast.Store())
        step = ast.Assign(targets=[tgt], value=ast.Call(
            func=ast.Attribute(value=_name(L), attr="step", ctx=ast.Load()),
            args=[getters, ast.Call(func=_vc("locs"), args=[ast.Call(func=_name("locals"), args=[], keywords=[])],
                                    keywords=[])], keywords=[]))
        body = []
        if is_for:
            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(go)),
                          body=_flat(n.orelse) + [ast.Break()], orelse=[])
            body = [step, stop, ast.Assign(targets=[n.target], value=_name(v))]
        else:
            test = ast.Call(func=ast.Attribute(value=_name(L), attr="cond", ctx=ast.Load()), args=[_lam(n.test)],
                            keywords=[])
            stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test),
                          body=_flat(n.orelse) + [ast.Break()], orelse=[])
            body = [step, stop]
        w = ast.While(test=ast.Constant(True), body=body + _flat(n.body), orelse=[])
        done = ast.Expr(ast.Call(func=ast.Attribute(value=_name(L), attr="done", ctx=ast.Load()), args=[
            ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[]))
        return [ast.copy_location(make, n), ast.copy_location(w, n), ast.copy_location(done, n)]


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(_flat(x))
        elif x is not None:
            out.append(x)
    return out


class _Places(ast.NodeTransformer):
    def __init__(self, sub):
        self.sub = sub

    def _do(self, n):
        x = self.sub.get(ast.unparse(n))
        if x is not None:
            return ast.Name(id=x, ctx=n.ctx)
        return self.generic_visit(n)
    visit_Subscript = visit_Attribute = _do


def _call(f, *a):
    return ast.Call(func=f, args=list(a), keywords=[])


def _plain(e):
    """An expression without effects and without calls."""
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda,
                                  ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.JoinedStr, ast.List,
                                  ast.Dict, ast.Starred, ast.Slice)) for x in ast.walk(e))


def one_place(n):
    """The array elements or fields assigned by an `if` whose branches do nothing
    else.  Several only if they are different fields and get plain values, so that
    it does not matter whether they are parts of one object."""
    if not _plain(n.test) or len(n.orelse) > 1 and len(n.body) > 1:
        return None
    places = []
    stmts = n.body + n.orelse
    for s in stmts:
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
        elif isinstance(s, ast.AugAssign):
            t = s.target
        else:
            return None
        if not isinstance(t, (ast.Subscript, ast.Attribute)) or not _plain(t) or not _plain(s.value):
            return None
        u = ast.unparse(t)
        if u not in places:
            places.append(u)
    if len(places) == 1 and len(n.body) == 1 and len(n.orelse) <= 1:
        return places
    last = set()
    for s in stmts:
        if not isinstance(s, ast.Assign) or not isinstance(s.value, (ast.Constant, ast.Name)) \
                or not isinstance(s.targets[0], ast.Attribute):
            return None
        last.add(s.targets[0].attr)
    if len(last) == len(places):
        return places
    return None


def mergeable(n):
    """Names assigned by an `if` whose branches only assign plain names."""
    names = []

    def simple(e):
        for x in ast.walk(e):
            if isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp,
                              ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.JoinedStr, ast.List, ast.Dict)):
                if isinstance(x, ast.Call) and ast.unparse(x.func) in (
                        "abs", "float", "int", "min", "max", "np.abs", "math.fabs", "np.sqrt", "len"):
                    continue
                return False
        return True

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in names:
                names.append(t.id)
            return True
        if isinstance(t, ast.Tuple):
            return all(tgt(x) for x in t.elts)
        return False

    def stmts(b):
        for s in b:
            if isinstance(s, ast.Assign):
                if not all(tgt(t) for t in s.targets) or not simple(s.value):
                    return False
            elif isinstance(s, ast.AugAssign):
                if not tgt(s.target) or not simple(s.value):
                    return False
            elif isinstance(s, ast.If):
                if not simple(s.test) or not stmts(s.body) or not stmts(s.orelse):
                    return False
            elif isinstance(s, ast.Pass):
                pass
            else:
                return False
        return True
    if not simple(n.test):
        return None
    if stmts(n.body) and stmts(n.orelse) and names:
        return names
    return None


UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()


class VC:
    """Run-time support called by the transformed code."""

    def __init__(self, pkg):
        self.pkg = pkg

    def and_(self, *fs):
        return self._bool(fs, True)

    def or_(self, *fs):
        return self._bool(fs, False)

    def _bool(self, fs, is_and):
        from .arr import z_and, z_not, z_or
        c = core.Ctx.cur
        v = fs[0]()
        if len(fs) == 1:
            return v
        if not isinstance(v, core.SBool):
            if hasattr(v, "a") and not hasattr(v, "__len__"):
                v = bool(v)
            t = bool(v)
            if t == is_and:
                return self._bool(fs[1:], is_and)
            return v
        import z3
        s = z3.simplify(v.t)
        if z3.is_true(s) or z3.is_false(s):
            t = z3.is_true(s)
            return self._bool(fs[1:], is_and) if t == is_and else t
        # guarded evaluation of the rest
        g = v.t if is_and else z3.Not(v.t)
        mark = len(c.pc)
        c.solver.push()
        c.guard += 1
        c.assume(g)
        try:
            r = self._bool(fs[1:], is_and)
            ok = isinstance(r, (core.SBool, bool))
        except core.NeedFork:
            ok = False
        except PathEndT:
            ok = False
        finally:
            c.guard -= 1
            facts = c.pc[mark + 1:]
            del c.pc[mark:]
            c.solver.pop()
        for f in facts:              # definitional facts hold under the guard
            c.assume(z3.Implies(g, f))
        if not ok:
            if c.guard:
                raise core.NeedFork()
            t = c.fork(v.t)
            return self._bool(fs[1:], is_and) if t == is_and else t
        return z_and(v, r) if is_and else z_or(v, r)

    def not_(self, v):
        from .arr import z_not
        if isinstance(v, (core.SBool, core.SNum)):
            return z_not(v)
        return not v

    def ifexp(self, c, f, g):
        if isinstance(c, core.SNum):
            c = core.SBool(core.term_b(c))
        if not isinstance(c, core.SBool):
            return f() if c else g()
        if core.Ctx.cur.o["merge"]:
            r = self.merge_if(c, lambda: (f(),), lambda: (g(),), ())
            if r is not None:
                return r[0]
        return f() if core.Ctx.cur.fork(c.t) else g()

    def vlist(self, xs):
        if core.Ctx.cur is None:
            return xs
        from .loops import VList
        return VList(xs)

    def listcomp(self, it, f):
        from .loops import VList
        if core.Ctx.cur is not None and isinstance(it, range) and it.step == 1 and len(it) > 2000:
            it = shim.SRange(it.start, it.stop, 1)
        if isinstance(it, (shim.SRange, shim.SZip)) or (hasattr(it, "__vc_seq__") and it.__vc_symbolic__()):
            from .symseq import sym_listcomp
            return sym_listcomp(it, f)
        xs = [f(v) for v in it]
        return VList(xs) if core.Ctx.cur is not None else xs

    def total(self, f):
        c = core.Ctx.cur
        if c is None:
            return lambda: f()

        def g():
            c.spec += 1
            try:
                return f()
            finally:
                c.spec -= 1
        return g

    def spec_on(self):
        core.Ctx.cur.spec += 1

    def spec_off(self):
        core.Ctx.cur.spec -= 1

    def merge_if(self, c, th, el, getters):
        import z3
        cx = core.Ctx.cur
        if isinstance(c, core.SNum):
            c = core.SBool(core.term_b(c))
        if cx is None or not cx.o["merge"] or not isinstance(c, core.SBool):
            return None
        s = z3.simplify(c.t)
        if z3.is_true(s) or z3.is_false(s):
            return None
        vals = []
        for g in getters:
            try:
                vals.append(g())
            except NameError:
                vals.append(UNBOUND)
        res = []
        for g, f in ((c.t, th), (z3.Not(c.t), el)):
            mark = len(cx.pc)
            cx.solver.push()
            cx.guard += 1
            cx.assume(g)
            try:
                r = f(*vals) if getters != () else f()
            except (core.NeedFork, PathEndT, Exception):
                r = None
            finally:
                cx.guard -= 1
                facts = cx.pc[mark + 1:]
                del cx.pc[mark:]
                cx.solver.pop()
            for x in facts:
                cx.assume(z3.Implies(g, x))
            if r is None:
                return None
            res.append(r)
        out = []
        for a, b in zip(*res):
            if a is b:
                out.append(a)
            elif _mergeval(a) and _mergeval(b):
                out.append(core.ite(c, a, b))
            else:
                return None
        return tuple(out)

    def wrap(self, key):
        pkg = self.pkg

        def deco(f):
            if not callable(f):
                return f

            def w(*a, **k):
                c = core.Ctx.cur
                if c is None:
                    return f(*a, **k)
                ct = c.contracts.get(key)
                if ct is not None and key not in c.body_of:
                    return ct.apply(c, a, k)
                c.stats.functions.add(key)
                c.fn_stack.append(key)
                nl = len(c.loop_stack)
                if len(c.fn_stack) > 60:
                    raise Unsupported("recursion")
                try:
                    return f(*a, **k)
                finally:
                    c.fn_stack.pop()
                    if len(c.loop_stack) > nl:
                        del c.loop_stack[nl:]
                        c.in_loop = len(c.loop_stack)
            w.__name__ = getattr(f, "__name__", key)
            w.__wrapped__ = f
            w.__qualname__ = getattr(f, "__qualname__", key)
            w.__doc__ = None
            return w
        return deco

    def loop(self, *a):
        from .loops import make_loop
        return make_loop(self, *a)

    def locs(self, d):
        return d


PathEndT = core.PathEnd


def _mergeval(v):
    return isinstance(v, (int, float, bool, core.SNum, core.SBool))


ATTRS = {}


class AttrCell:
    """One attribute of one object, as a thing a loop may change."""

    def __init__(self, o, n, serial):
        self.o, self.n, self.serial = o, n, serial

    def __vc_havoc__(self):
        from .loops import KEEP, havoc_value
        v = havoc_value(getattr(self.o, self.n), self.n)
        if v is KEEP:
            raise Unsupported(f"a symbolic loop replaces the attribute {self.n}")
        object.__setattr__(self.o, self.n, v)


def cells(c, o):
    s = obj_serial(c, o)
    return [AttrCell(o, n, s + ATTRS.setdefault(n, len(ATTRS) + 1) / 1e6) for n in vars(o)]


def obj_serial(c, o, new=False):
    e = c.objser.get(id(o))
    if e is None:
        # an object nobody has written to since the start of the path is older than every loop
        e = c.objser[id(o)] = (o, next(c.serial) if new else -next(c.oldser))
    return e[1]


def track(cls):
    """Attribute assignments of instances count as writes in the frames of loops."""
    if issubclass(cls, (tuple, BaseException)) or "__slots__" in vars(cls) or cls.__flags__ & (1 << 8) or any(
            b.__name__ == "Enum" for b in cls.__mro__) or isinstance(cls, type) and cls.__setattr__ is not object.__setattr__:
        return
    set_ = object.__setattr__

    def __setattr__(self, n, v):
        c = core.Ctx.cur
        if c is not None and type(self).__setattr__ is __setattr__:
            s = obj_serial(c, self, not self.__dict__)
            if c.loop_stack:
                cell = AttrCell(self, n, s + ATTRS.setdefault(n, len(ATTRS) + 1) / 1e6)
                for L in c.loop_stack:
                    L.note_write(cell)
        set_(self, n, v)
    cls.__setattr__ = __setattr__
    cls.__vc_cells__ = lambda self: cells(core.Ctx.cur, self)


class Package:
    """The shadow package."""

    def __init__(self, root=REPO):
        self.root = root
        self.mods = {}
        self.src = {}
        self.trees = {}
        self.vc = VC(self)
        self.modserial = itertools.count(-10 ** 9)
        self.bi = dict(vars(builtins))
        self.bi.update(shim.BUILTINS)
        self.bi["__import__"] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 1 or name.startswith("openptv_python"):
            if level == 0:
                name = name[len("openptv_python"):].lstrip(".")
            if name == "":
                ns = types.ModuleType("openptv_python")
                for f in fromlist or ():
                    setattr(ns, f, self.module(f))
                return ns
            return self.module(name)
        top = name.split(".")[0]
        if top == "numpy":
            return shim.NUMPY
        if top == "math":
            return shim.MATH
        if top == "numba":
            return shim.NUMBA
        if top == "scipy":
            m = shim._Hole(name)
            return m
        if top == "yaml":
            from . import files
            return files.YAML
        if top == "pathlib":
            from . import files
            return files.PATHLIB
        if top in ("copy", "dataclasses", "typing", "collections", "__future__", "functools", "itertools", "operator",
                   "os", "enum", "abc", "warnings", "re", "sys"):
            return importlib.__import__(name, globals, locals, fromlist, 0)
        raise Unsupported(f"import of {name}")

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = f"{self.root}/{name}.py"
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.src[name] = src
        for x in ast.walk(tree):
            if isinstance(x, ast.Module) or isinstance(x, ast.FunctionDef) or isinstance(x, ast.ClassDef):
                b = x.body
                if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(
                        b[0].value.value, str):
                    b[0] = ast.Pass()
        self.trees[name] = ast.parse(src)
        tr = Tr(name)
        tree = tr.visit(tree)
        tree.body = _flat(tree.body)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("openptv_shadow." + name)
        m.__dict__["__builtins__"] = self.bi
        m.__dict__["_vc_"] = self.vc
        self.mods[name] = m
        sys.modules.setdefault("openptv_shadow", types.ModuleType("openptv_shadow"))
        sys.modules["openptv_shadow." + name] = m
        code = compile(tree, path, "exec")
        # module-level objects have numbers of their own (the same on every path)
        cx = core.Ctx.cur
        if cx is not None:
            saved, cx.serial = cx.serial, self.modserial
        try:
            exec(code, m.__dict__)
        finally:
            if cx is not None:
                cx.serial = saved
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__:
                track(v)
        return m

    def fn(self, key):
        mod, _, q = key.partition(".")
        o = self.module(mod)
        for p in q.split("."):
            o = getattr(o, p)
        return o
