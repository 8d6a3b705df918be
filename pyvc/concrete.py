"""pyvc.concrete -- run the contracts against the real package (installed in /opt/venv).

usage: python concrete.py JOB.json OUT.json
JOB: {prop, cases, seed, seconds, only: [names], replay: {contract, inputs}|null, jit: bool}
Used (a) to replay counter-models, (b) to search failing inputs when an obligation
fails, (c) as the bounded stand-in where no proof is possible, (d) as a runtime
cross-check of the contracts under the real numpy / numba machine arithmetic.
"""
import copy
import json
import math
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings


def main():
    job = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix="pyvc-run-")
    if not job.get("jit"):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    else:
        os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
        os.environ.setdefault("NUMBA_CPU_NAME", "generic")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("NUMBA_NUM_THREADS", "2")
    sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    work = os.path.join(scratch, "w")
    os.mkdir(work)
    os.chdir(work)
    out = {}
    try:
        out = run(job)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    with open(sys.argv[2], "w") as f:
        json.dump(out, f, default=str)


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def run(job):
    import importlib
    import numpy as np
    from pyvc import api
    sink = open(os.devnull, "w")
    importlib.import_module("props." + job["prop"].lower())
    res = {}
    signal.signal(signal.SIGALRM, _late)
    for c in api.REG:
        if c.prop != job["prop"] or (job.get("only") is not None and c.name not in job["only"]):
            continue
        if not c.conc or (job.get("jit") and not c.jit):
            continue
        r = dict(cases=0, discarded=0, violations=[], distinct=0, sample=None)
        res[c.name] = r
        rep = job.get("replay")
        t0 = time.time()
        seen = set()
        n = 1 if rep else int(c.cases * job.get("cases", 1.0))
        i = 0
        while i < n:
            if not rep and time.time() - t0 > job.get("seconds", 20):
                r["stopped"] = "time"
                break
            seed = f"{job['seed']}/{c.name}/{i}"
            B = ConB(random.Random(seed), rep["inputs"] if rep else None, np, i)
            np.random.seed(abs(hash(i)) % 2**31)
            i += 1
            so = sys.stdout
            sys.stdout = sink
            try:
                signal.setitimer(signal.ITIMER_REAL, job.get("case_s", 40))
                try:
                    c.f(B)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    sys.stdout = so
                r["cases"] += 1
            except api.Discard:
                r["discarded"] += 1
                if r["discarded"] < 4 * n + 50 and not rep:
                    n += 1 if n < 6 * c.cases * max(1, job.get("cases", 1.0)) else 0
                continue
            except api.Violation as v:
                r["cases"] += 1
                r["violations"].append(dict(ensure=v.name, detail=str(v.detail)[:1500], inputs=B.inputs, seed=seed))
            except Late:
                r["violations"].append(dict(ensure="terminates", detail=f"no answer within {job.get('case_s', 40)} s",
                                            inputs=B.inputs, seed=seed))
                break
            except Exception as e:
                r["cases"] += 1
                tb = traceback.format_exc()
                if "openptv_python" not in tb.split("props", 1)[-1] and "/openptv_python/" not in tb:
                    r.setdefault("harness_errors", []).append(tb[-1500:])
                    if len(r["harness_errors"]) > 2:
                        break
                else:
                    r["violations"].append(dict(ensure="no exception", detail=tb[-1500:], inputs=B.inputs, seed=seed))
            seen.add(json.dumps(B.inputs, sort_keys=True, default=str))
            if r["sample"] is None and B.inputs:
                r["sample"] = dict(list(B.inputs.items())[:24])
            if len(r["violations"]) >= 3:
                break
        r["distinct"] = len(seen)
    return res


def make_base():
    from pyvc import api

    class ConB(api.Base):
        conc = True

        def __init__(self, rng, given, np, index=0):
            self.rng, self.given, self.np = rng, given, np
            self.inputs = {}
            self.math = math
            self.index = index
            self.ctx = None

        def mod(self, n):
            import importlib
            return importlib.import_module("openptv_python." + n)

        def _take(self, name, gen):
            if name in self.inputs:
                raise RuntimeError("duplicate input " + name)
            if self.given is not None:
                v = self.given[name] if name in self.given else gen()
            else:
                v = gen()
            self.inputs[name] = v
            return v

        def real(self, name, lo=None, hi=None, s=(-10.0, 10.0)):
            a = float(lo if lo is not None else s[0])
            b = float(hi if hi is not None else s[1])

            def gen():
                u = self.rng.random()
                if u < 0.06:
                    return a
                if u < 0.12:
                    return b
                if u < 0.22:
                    return min(max(float(round(self.rng.uniform(a, b))), a), b)
                if u < 0.27 and a <= 0 <= b:
                    return 0.0
                return self.rng.uniform(a, b)
            v = float(self._take(name, gen))
            if (lo is not None and v < lo - 1e-12) or (hi is not None and v > hi + 1e-12):
                raise api.Discard()
            return v

        def int(self, name, lo=None, hi=None, s=(0, 10)):
            a = int(lo if lo is not None else s[0])
            b = int(hi if hi is not None else s[1])
            v = int(self._take(name, lambda: self.rng.randint(a, b)))
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise api.Discard()
            return v

        def bool(self, name):
            return bool(self._take(name, lambda: self.rng.random() < 0.5))

        def choice(self, name, opts):
            return opts[self.int(name, 0, len(opts) - 1)]

        def _build(self, name, t, path, rng):
            if t == "f":
                a, b = rng.get(path, (None, None)) if rng.get(path) else (None, None)
                a, b = self.samp.get(path, (a, b))
                return self.real(f"{name}{path}", None, None, (a if a is not None else -10.0,
                                                               b if b is not None else 10.0))
            if t == "i":
                a, b = rng.get(path) or (None, None)
                a, b = self.samp.get(path, (a, b))
                return self.int(f"{name}{path}", None, None, (a if a is not None else 0, b if b is not None else 10))
            if t == "b":
                return self.bool(f"{name}{path}")
            if isinstance(t, tuple):
                xs = [self._build(name, t[2], f"{path}.{k}", rng) for k in range(t[1])]
                if len(t) > 3:
                    return xs
                return self.np.array(xs)
            d = {n: self._build(name, u, f"{path}.{n}", rng) for n, u in t.items() if n != "__cls__"}
            return t["__cls__"](**d) if "__cls__" in t else d

        def seq(self, name, template, flavor="list", lo=0, nmax=8, rng=None, n=None, dtype=None, samp=None):
            np = self.np
            rng = rng or {}
            self.samp = samp or {}
            if n is None:
                n = self.int(name + ".n", lo, None, s=(lo, nmax))
            if template is None:
                r = np.recarray(n, dtype=dtype)
                for i in range(n):
                    for f in dtype.names:
                        ft = dtype[f]
                        sh = ft.subdtype[1] if ft.subdtype is not None else ()
                        k = (ft.subdtype[0] if ft.subdtype is not None else ft).kind
                        k = "f" if k == "f" else "i"
                        t = k if sh == () else ("vec", sh[0], k)
                        r[i][f] = self._build(f"{name}[{i}]", t, "." + f, rng)
                return r
            xs = [self._build(f"{name}[{i}]", template, "", rng) for i in range(n)]
            if flavor == "ndarray":
                k = template
                while isinstance(k, tuple):
                    k = k[2]
                a = np.array(xs, dtype={"f": np.float64, "i": np.int64, "b": bool}[k])
                if not xs and isinstance(template, tuple):
                    a = a.reshape(0, template[1])
                return a
            return xs

        def image(self, name, nx=(1, 8), ny=(1, 8), kind="i", lo=0, hi=255):
            n = self.int(name + ".nx", nx[0], None, s=nx)
            m = self.int(name + ".ny", ny[0], None, s=ny)
            a = self.np.zeros((n, m), dtype=self.np.uint8)
            for i in range(n):
                for j in range(m):
                    a[i, j] = self.int(f"{name}[{i},{j}]", lo, hi)
            return a

        def total(self, f):
            return f()

        def forall(self, lo, hi, f):
            return all(bool(self.np.all(f(j))) for j in range(int(lo), int(hi)))

        def order(self):
            return None, None

        def exists(self, lo, hi, f, at=None):
            return any(bool(self.np.all(f(j))) for j in range(int(lo), int(hi)))

        def ens_forall(self, name, lo, hi, f):
            for j in range(int(lo), int(hi)):
                self.ens(name, f(j), f"index {j}")

        def length(self, x):
            return len(x)

        def req(self, p, name=None):
            if not bool(self.np.all(p)):
                raise api.Discard()

        def ens(self, name, p, hint=None):
            if not bool(self.np.all(p)):
                raise api.Violation(name, hint if hint is not None else "")

        def ens_eq(self, name, a, b, tol=1e-7):
            self.ens(name, self.eq(a, b, tol), f"{a!r} vs {b!r}")

        def eq(self, a, b, tol=1e-7):
            np = self.np
            if isinstance(a, (int, bool, str)) and isinstance(b, (int, bool, str)):
                return a == b
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype.kind in "iub" and b.dtype.kind in "iub":
                return bool((a == b).all())
            a, b = a.astype(float), b.astype(float)
            if not (np.isfinite(a).all() and np.isfinite(b).all()):
                return False
            return bool((np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))).all())

        def le(self, a, b, tol=1e-9):
            return bool(a <= b + tol * (1 + abs(a) + abs(b)))

        def lt(self, a, b, tol=0):
            return bool(a < b)

        def ge(self, a, b, tol=1e-9):
            return bool(a >= b - tol * (1 + abs(a) + abs(b)))

        def gt(self, a, b, tol=0):
            return bool(a > b)

        def all_(self, ps):
            return all(bool(self.np.all(p)) for p in ps)

        def any_(self, ps):
            return any(bool(self.np.all(p)) for p in ps)

        def not_(self, p):
            return not p

        def implies(self, a, b):
            return (not a) or bool(b)

        def iff(self, a, b):
            return bool(a) == bool(b)

        def ite(self, c, a, b):
            return a if c else b

        def norm(self, *xs):
            return math.sqrt(sum(float(x) ** 2 for x in xs))

        def abs_le(self, name, d, p, qs):
            pass

        def sqrt(self, x):
            return math.sqrt(x) if x > 0 else 0.0

        def floor(self, x):
            return int(math.floor(x))

        def case(self, p):
            return bool(p)

        def unit(self, name):
            v = [self.real(name + str(i), None, None, (-1, 1)) for i in range(3)]
            n = math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
            self.req(n > 0.05)
            return self.np.array(v) / n

        def matrix_mapping(self, s, name):
            o, p, k = [self.real(name + x, None, None, (-1.5, 1.5)) for x in ("omega", "phi", "kappa")]
            c = self.mod("calibration").Calibration()
            c.ext_par["omega"], c.ext_par["phi"], c.ext_par["kappa"] = o, p, k
            self.mod("calibration").rotation_matrix(c.ext_par)
            dm = c.ext_par["dm"].copy()
            return dm, dm @ s

        def sqrt_hint(self, e):
            pass

        def sign_hint(self, e):
            pass

        def value_hint(self, *es):
            pass

        def snap(self, x):
            return copy.deepcopy(x)

        def raises(self, exc, f, *a, **k):
            try:
                f(*a, **k)
            except exc:
                return True
            return False

        def lemma(self, name, p):
            self.ens(name, p)

        def witness(self, name, v):
            pass
    return ConB


class _Lazy:
    cls = None


def ConB(*a):
    if _Lazy.cls is None:
        _Lazy.cls = make_base()
    return _Lazy.cls(*a)


if __name__ == "__main__":
    main()
