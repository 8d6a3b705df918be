"""plant.py ID [--fast]: judge a planted bug in a scratch copy of /repo.

builds nothing; checks: patch applies, package imports, demo passes without and fails
with the patch, stable tests pass (unless --fast), and this property's check reports it.
"""
import json, os, subprocess, sys, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    bid, fast = sys.argv[1], "--fast" in sys.argv
    d = os.path.join(ROOT, "seeded", bid)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="plant-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=tmp + "/numba", PYTHONHASHSEED="0",
               NUMBA_CPU_NAME="generic", NUMBA_CPU_FEATURES="", OPENBLAS_NUM_THREADS="1", PYTHONPATH=tmp + "/repo")
    try:
        sh(f"cp -a /repo {tmp}/repo")
        shutil.copytree(d, tmp + "/demo")
        clean = sh(f"bash {tmp}/demo/demo.sh", cwd=tmp + "/repo", env=env)
        r = sh(f"git apply {d}/patch.diff", cwd=tmp + "/repo")
        if r.returncode:
            print(bid, "PATCH DOES NOT APPLY", r.stderr); return
        shutil.rmtree(tmp + "/numba", ignore_errors=True)
        bad = sh(f"bash {tmp}/demo/demo.sh", cwd=tmp + "/repo", env=env)
        print(bid, f"demo clean={clean.returncode} patched={bad.returncode}", "OK" if clean.returncode == 0 and bad.returncode else "BAD DEMO")
        if clean.returncode: print(clean.stdout[-800:], clean.stderr[-800:])
        t0 = time.time()
        c = sh(f"python3-vt {ROOT}/check.py {prop}", env=dict(env, PYVC_REPO=tmp + "/repo"), cwd=ROOT)
        v = [ln for ln in c.stdout.splitlines() if ln.startswith("VIOLATION")]
        print(bid, f"check rc={c.returncode} {time.time() - t0:.0f}s", v[:1])
        if c.returncode != 1: print(c.stdout[-1500:], c.stderr[-500:])
        if not fast:
            t = open("/opt/vp/test.sh").read().replace("/repo", tmp + "/repo")
            open(tmp + "/test.sh", "w").write(t.replace(". /opt/vp/env.sh", "set -a; . /opt/vp/env.sh; set +a"))
            sh(f"bash {tmp}/test.sh {tmp}/out.json")
            o = json.load(open(tmp + "/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base["stable"]
            miss = [x for x in stable if x not in o["passed"]]
            print(bid, "tests:", len(o["passed"]), "passed; broken stable tests:", miss[:4])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
