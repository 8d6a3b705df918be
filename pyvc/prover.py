"""pyvc.prover -- run one contract through the prover."""
import time
import traceback

import z3

from . import core, load, shim
from .core import Ctx, NeedFork, PathEnd, Restart, Stats, Unsupported
from .symb import SymB


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in tb if "/repo/" in f.filename or "props" in f.filename
          or "openptv_python" in f.filename]
    last = tb[-1] if tb else None
    return "; ".join(fr[-3:]) + (f" ({last.filename.rsplit('/', 1)[-1]}:{last.lineno})" if last else "")


def run_contract(c, tier="quick", verbose=False):
    t0 = time.time()
    opts = dict(c.opts or {})
    if tier == "thorough":
        opts["prove_ms"] = 3 * opts.get("prove_ms", 8000)
        opts["total_s"] = 3 * opts.get("total_s", 120.0)
    stats = Stats()
    ctx = Ctx(c.name, stats, opts)
    z3.set_param("smt.random_seed", 1)
    out = dict(name=c.name, status="error", message="", obligations=[], failed=[], functions=[], trusted=[],
               backends={}, solver_s=0.0, paths=0, bounded=c.bounded, fns=c.fns)
    try:
        pkg = load.Package(load.REPO)
        shim.HOOKS.clear()

        def run(cx):
            B = SymB(cx, pkg)
            if c.hooks:
                shim.HOOKS.clear()
                shim.HOOKS.update(c.hooks(B))
            cx.loop_specs = c.loops(B) if c.loops else {}
            cx.contracts = c.contracts(B) if c.contracts else {}
            try:
                c.f(B)
            except (PathEnd, Restart, Unsupported, NeedFork):
                raise
            except (ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError, OSError,
                    RuntimeError, AssertionError, NameError, StopIteration, ArithmeticError) as e:
                if verbose:
                    traceback.print_exc()
                cx.pathnotes.append(f"{type(e).__name__}: {e} at {where(e)}")
                cx.oblige("exception", f"no {type(e).__name__} ({where(e)})", False)
                raise PathEnd()
        ctx.explore(run)
        out["status"] = "done"
        out["normal_paths"] = ctx.normal_paths
    except Unsupported as e:
        out["status"] = "unsupported"
        out["message"] = f"{e} at {where(e)}"
        if verbose:
            traceback.print_exc()
    except NeedFork:
        out["status"] = "unsupported"
        out["message"] = "fork inside a guarded evaluation"
        if verbose:
            traceback.print_exc()
    except (SyntaxError, Exception) as e:
        out["status"] = "error"
        out["message"] = f"{type(e).__name__}: {e} at {where(e)}"
        if verbose:
            traceback.print_exc()
    out["obligations"] = len(stats.obligations)
    names = {}
    for o in stats.obligations:
        k = f"{o['kind']}: {o['name']}"
        names[k] = names.get(k, 0) + 1
    out["by_name"] = names
    out["kinds"] = {}
    for o in stats.obligations:
        out["kinds"][o["kind"]] = out["kinds"].get(o["kind"], 0) + 1
    out["discharged"] = sum(1 for o in stats.obligations if o["status"] == "proved")
    out["failed"] = [o for o in stats.obligations if o["status"] != "proved"][:40]
    out["backends"] = stats.by_backend
    out["solver_s"] = round(stats.solver_time, 2)
    out["queries"] = stats.queries
    out["functions"] = sorted(stats.functions)
    out["trusted"] = sorted(stats.trusted)
    out["assumed"] = sorted(stats.assumed_contracts)
    out["paths"] = stats.paths
    out["wall"] = round(time.time() - t0, 2)
    if out["status"] == "done":
        if out["failed"]:
            out["status"] = "failed"
        elif not out.get("normal_paths") or not any(k in out["kinds"] for k in ("post",)):
            out["status"] = "vacuous"
            out["message"] = "no feasible path reaches a postcondition"
        else:
            out["status"] = "proved"
    return out
