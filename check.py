"""check.py PROPERTY [--tier quick|thorough] -- decide one property of /repo.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Runs under python3-vt (z3, cvc5, sympy); the real code runs under /opt/venv.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
REALPY = os.environ.get("PYVC_PY", "/opt/venv/bin/python")
sys.setrecursionlimit(20000)


def real_job(job, tmp, tag):
    j = os.path.join(tmp, tag + ".json")
    o = os.path.join(tmp, tag + ".out")
    with open(j, "w") as f:
        json.dump(job, f)
    env = dict(os.environ)
    env["PYTHONPATH"] = ROOT
    env["PYTHONHASHSEED"] = "0"
    log = open(os.path.join(tmp, tag + ".log"), "w")
    p = subprocess.Popen([REALPY, os.path.join(ROOT, "pyvc", "concrete.py"), j, o], env=env, stdout=log, stderr=log)
    return p, o


def real_wait(po, limit):
    p, o = po
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return dict(_error="time limit")
    if not os.path.exists(o):
        try:
            return dict(_error=open(o[:-4] + ".log").read()[-2000:])
        except OSError:
            return dict(_error="no output")
    return json.load(open(o))


QUICK_S = 360        # seconds for all proofs of a property


def _work(c, tier, path):
    import pickle
    import resource
    from pyvc import prover
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    c.opts = dict(c.opts or {})
    limit = (QUICK_S if tier == "quick" else 500) - 20
    c.opts["total_s"] = min(c.opts.get("total_s", 120.0), limit if tier == "quick" else limit / 3)
    r = prover.run_contract(c, tier)
    with open(path + ".tmp", "wb") as f:
        pickle.dump(json.loads(json.dumps(r, default=str)), f)
    os.replace(path + ".tmp", path)
    os._exit(0)


def prove_all(prop, syms, tier, jobs, limit):
    """One process per contract, each with a deadline; a proof that does not end in
    time is 'unknown', never a violation."""
    import pickle
    cx = mp.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    todo = sorted(syms, key=lambda c: -(c.opts or {}).get("total_s", 0))
    live, out = {}, {}
    t0 = time.time()
    try:
        while todo or live:
            while todo and len(live) < jobs:
                c = todo.pop(0)
                path = os.path.join(tmp, c.name)
                p = cx.Process(target=_work, args=(c, tier, path), daemon=True)
                p.start()
                live[c.name] = (c, p, path, time.time())
            time.sleep(0.02)
            for n, (c, p, path, t1) in list(live.items()):
                mine = (c.opts or {}).get("total_s", 120.0) * (1 if tier == "quick" else 3) + 30
                late = time.time() - t1 > mine or time.time() - t0 > limit
                if p.is_alive() and not late:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                del live[n]
                if os.path.exists(path):
                    out[n] = pickle.load(open(path, "rb"))
                else:
                    out[n] = dict(name=n, status="unsupported", message="no answer within the time limit",
                                  obligations=0, discharged=0, failed=[], functions=[], trusted=[], backends={},
                                  solver_s=0.0, paths=0, bounded=c.bounded, fns=c.fns, kinds={}, by_name={},
                                  wall=round(time.time() - t1, 1))
    finally:
        subprocess.run(["rm", "-rf", tmp])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--no-conc", action="store_true")
    ap.add_argument("--no-jit", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--replay", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop, tier = a.prop.upper(), a.tier
    t0 = time.time()
    from pyvc import api
    importlib.import_module("props." + prop.lower())
    regs = [c for c in api.REG if c.prop == prop and (a.only is None or c.name in a.only.split(","))]
    if a.replay:
        return replay(a.replay)
    if a.v:
        from pyvc import prover
        for c in regs:
            if c.sym:
                r = prover.run_contract(c, tier, True)
                show(r)
        if a.no_conc:
            return 0
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    try:
        return decide(a, prop, tier, seed, regs, tmp, t0)
    finally:
        subprocess.run(["rm", "-rf", tmp])


def show(r):
    print(f"  {r['name']}: {r['status']} {r['message']} obligations={r['obligations']} discharged={r['discharged']} "
          f"paths={r['paths']} queries={r.get('queries')} solver={r['solver_s']}s wall={r.get('wall')}s "
          f"{r['backends']}")
    for f in r["failed"][:3]:
        print("    FAILED", f["kind"], f["name"], f["status"], f["backend"], "in", f["fn"], str(f.get("inputs"))[:300],
              str(f.get("path"))[:300], str(f.get("goal"))[:300])
    if len(r["failed"]) > 3:
        print("    ... and", len(r["failed"]) - 3, "more")


def split_known(kf, viol):
    from pyvc import known
    new, old = [], []
    for v in viol:
        k = known.match(kf, v)
        if k:
            k["_seen"] = True
        (old if k else new).append(v)
    return new, old


def decide(a, prop, tier, seed, regs, tmp, t0):
    names = [c.name for c in regs]
    scale = 1.0 if tier == "quick" else 12.0
    secs = 12 if tier == "quick" else 120
    jobs = {}
    conc = [c.name for c in regs if c.conc]
    if conc and not a.no_conc:
        jobs["py"] = real_job(dict(prop=prop, cases=scale, seed=seed, seconds=secs, only=conc, replay=None, jit=False),
                              tmp, "py")
        if not a.no_jit and any(c.conc and c.jit for c in regs):
            jobs["jit"] = real_job(dict(prop=prop, cases=scale / 3, seed=seed + 1000, seconds=secs, only=conc,
                                        replay=None, jit=True), tmp, "jit")
    syms = [c for c in regs if c.sym]
    results = {}
    if syms:
        results = prove_all(prop, syms, tier, a.j, QUICK_S if tier == "quick" else 500)
    limit = 240 if tier == "quick" else 780
    reals = {k: real_wait(v, limit) for k, v in jobs.items()}
    from pyvc import known
    kf = known.load(prop)
    viol = []       # (contract, obligation, replay dict, found)
    notes = []
    for tag, res in reals.items():
        if "_error" in res:
            notes.append(f"real run {tag}: {res['_error'][-600:]}")
            continue
        for n, r in res.items():
            for v in r["violations"]:
                viol.append(dict(contract=n, obligation=v["ensure"], inputs=v["inputs"], detail=v["detail"], how=tag,
                                 found=True))
            if r.get("harness_errors"):
                notes.append(f"{n}: harness error {r['harness_errors'][0]}")
    viol, was_known = split_known(kf, viol)
    hit = {v["contract"] for v in viol + was_known}
    standins = []
    open_ = [c for c in syms if results[c.name]["status"] != "proved" and c.name not in hit]
    if open_ and conc and not a.no_conc and not viol:
        viol += split_known(kf, search(prop, seed, tmp, results, open_, conc, standins))[0]
    if not viol:
        for c in open_:
            r = results[c.name]
            # after a failed loop obligation what is known behind the loop means nothing
            if any(f["kind"].startswith("loop") for f in r["failed"]):
                continue
            hard = [f for f in r["failed"] if f["status"] == "refuted" and not f.get("aux")
                    and f["kind"] in ("post", "lemma", "safety", "call-pre")]
            if hard:
                f = hard[0]
                viol.append(dict(contract=c.name, obligation=f"{f['kind']}: {f['name']}", inputs=f.get("inputs"),
                                 detail=f"goal: {f.get('goal')}\nmodel: {f.get('model')}\npath: {f.get('path')}",
                                 how="verifier", found=False))
    # known findings
    real_viol, _ = split_known(kf, viol)
    for k in kf:
        if k.get("status") == "open" and k.get("_seen"):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    write_evidence(prop, tier, seed, regs, results, reals, real_viol, standins, notes, time.time() - t0)
    for r in results.values():
        show(r)
    for tag, res in reals.items():
        for n, r in res.items():
            if isinstance(r, dict):
                print(f"  real[{tag}] {n}: cases={r['cases']} distinct={r['distinct']} discarded={r['discarded']} "
                      f"violations={len(r['violations'])} {r.get('stopped', '')}")
    for n in notes:
        print("  note:", n)
    if real_viol:
        seen = set()
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        real_viol.sort(key=lambda v: not v["found"])
        for v in real_viol:
            if v["contract"] in seen:
                continue
            seen.add(v["contract"])
            path = os.path.join(ROOT, "replays", f"{prop}-{v['contract']}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            print(f"  {v['contract']}: {v['obligation']} :: {str(v['detail'])[:300]}")
            print(f"VIOLATION property={prop} replay={path}" + ("" if v["found"] else " no-failing-input-found"))
        return 1
    if all("_error" in r for r in reals.values()) and reals:
        print("ERROR: the check itself failed")
        return 2
    print(f"OK property={prop} tier={tier} wall={time.time() - t0:.1f}s")
    return 0


def search(prop, seed, tmp, results, open_, conc, standins):
    """Obligations that are not discharged: replay the counter-models on the real
    code, then search there for a failing input, in every contract that runs."""
    out = []
    jobs = []
    for c in open_:
        if c.name not in conc:
            continue
        for i, f in enumerate([f for f in results[c.name]["failed"] if f["status"] == "refuted"][:6]):
            jobs.append((c, f, real_job(dict(prop=prop, cases=1, seed=seed, seconds=20, only=[c.name],
                                             replay=dict(contract=c.name, inputs=f.get("inputs") or {}), jit=False),
                                        tmp, f"rep-{c.name}-{i}")))
            if len(jobs) % 6 == 0:
                jobs[-1][2][0].wait()
    done = set()
    for c, f, j in jobs:
        vs = real_wait(j, 60).get(c.name, {}).get("violations", [])
        if vs and c.name not in done:
            done.add(c.name)
            out.append(dict(contract=c.name, obligation=f"{f['kind']}: {f['name']}", inputs=vs[0]["inputs"],
                            detail=vs[0]["ensure"] + "\n" + vs[0]["detail"], how="counter-model", found=True,
                            model=f.get("model")))
    if out:
        return out
    js = [real_job(dict(prop=prop, cases=40, seed=seed + 77 + 13 * i, seconds=max(10, 180 // len(conc)), only=conc, replay=None, jit=False),
                   tmp, f"search{i}") for i in range(6)]
    n = {}
    for j in js:
        for name, r in real_wait(j, 300).items():
            if not isinstance(r, dict):
                continue
            n[name] = n.get(name, 0) + r.get("cases", 0)
            for v in r["violations"]:
                if name not in done:
                    done.add(name)
                    out.append(dict(contract=name, obligation=v["ensure"], inputs=v["inputs"], detail=v["detail"],
                                    how="search", found=True))
    for c in open_:
        standins.append((c.name, n.get(c.name, sum(n.values()))))
    return out


def write_evidence(prop, tier, seed, regs, results, reals, viol, standins, notes, wall):
    pr = {c.name: results[c.name] for c in regs if c.sym}
    full = {n: r for n, r in pr.items() if not r["bounded"]}
    bnd = {n: r for n, r in pr.items() if r["bounded"]}
    trusted = set()
    fns = set()
    backends = {}
    for r in pr.values():
        trusted |= set(r["trusted"]) | {f"contract used at call sites: {x}" for x in r.get("assumed", [])}
        fns |= set(r["functions"])
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    proved = [n for n, r in full.items() if r["status"] == "proved"]
    conc = {t: {n: dict(cases=r["cases"], distinct=r["distinct"], discarded=r["discarded"])
                for n, r in res.items() if isinstance(r, dict)} for t, res in reals.items()}
    cov = dict(
        obligations=sum(r["obligations"] for r in full.values()),
        discharged=sum(r["discharged"] for r in full.values()),
        checker_cmd=f"python3-vt /verif/check.py {prop} --tier {tier}",
        trusted_base=sorted(trusted) + [
            "floating-point numbers are treated as real numbers (rounding, overflow and NaN are not modelled in the "
            "proofs; the run-time cross-check uses the real arithmetic with a tolerance)",
            "machine integers are treated as unbounded integers",
            "numpy / math operations follow pyvc/shim.py and pyvc/arr.py (modelled, cross-checked at run time)",
            "numba decorators are dropped (cross-checked by running the compiled code on the same contracts)",
            "soundness of pyvc itself, z3, cvc5 and sympy's polynomial arithmetic"],
        contracts_proved=len(proved),
        contracts=[dict(name=n, status=r["status"], message=r["message"], under_contract=r["fns"],
                        obligations=r["obligations"], discharged=r["discharged"], kinds=r["kinds"],
                        named=dict(list(r["by_name"].items())[:60]), paths=r["paths"], solver_s=r["solver_s"],
                        backends=r["backends"]) for n, r in full.items()],
        bounded=[dict(name=n, bound=r["bounded"], status=r["status"], message=r["message"], under_contract=r["fns"],
                      obligations=r["obligations"], discharged=r["discharged"], paths=r["paths"],
                      solver_s=r["solver_s"]) for n, r in bnd.items()],
        run_only=[c.name for c in regs if not c.sym],
        standin_for_unproved=[dict(contract=n, real_cases=k) for n, k in standins],
        functions_executed_by_prover=sorted(fns),
        backends=backends,
        solver_s=round(sum(r["solver_s"] for r in pr.values()), 2),
        real_code_cross_check=conc,
        notes=notes)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if full else "exploration", coverage=cov,
              assumptions=[c.note for c in regs if c.note], wall_s=round(wall, 2), violations=len(viol))
    if not full:
        ev["coverage"]["evaluations"] = sum(x["cases"] for t in conc.values() for x in t.values())
        ev["coverage"]["distinct_nontrivial"] = sum(x["distinct"] for t in conc.values() for x in t.values())
        ev["coverage"]["rule"] = "seeded cases that satisfy the precondition, distinct by inputs"
        ev["coverage"]["samples"] = [r["sample"] for res in reals.values() for r in res.values()
                                     if isinstance(r, dict) and r.get("sample")][:3]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def replay(path):
    v = json.load(open(path))
    print(json.dumps(v, indent=1)[:4000])
    if not v.get("found"):
        return 0
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    try:
        r = real_wait(real_job(dict(prop=v["property"], cases=1, seed=1, seconds=60, only=[v["contract"]],
                                    replay=dict(contract=v["contract"], inputs=v["inputs"]), jit=v["how"] == "jit"),
                               tmp, "rep"), 120)
        print(json.dumps(r, indent=1)[:4000])
        return 1 if r.get(v["contract"], {}).get("violations") else 0
    finally:
        subprocess.run(["rm", "-rf", tmp])


if __name__ == "__main__":
    sys.exit(main())
