"""Run the contracts on the real code with other seeds (a false alarm must not depend on the seed).
usage: stress.py PROP [seeds] [scale]"""
import json, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
prop = sys.argv[1].upper()
seeds = int(sys.argv[2]) if len(sys.argv) > 2 else 6
scale = float(sys.argv[3]) if len(sys.argv) > 3 else 3
tmp = tempfile.mkdtemp()
from pyvc import contracts
regs = check.load_prop(prop) if hasattr(check, "load_prop") else None
jobs = []
for s in range(seeds):
    jobs.append((s, check.real_job(dict(prop=prop, cases=scale, seed=5000 + 31 * s, seconds=40, only=None, replay=None, jit=False), tmp, f"s{s}")))
for s, j in jobs:
    for n, r in check.real_wait(j, 900).items():
        if not isinstance(r, dict):
            print(prop, n, r)
            continue
        for v in r["violations"][:2]:
            print(prop, "seed", s, n, v["ensure"], str(v["detail"])[:200], json.dumps(v["inputs"])[:300])
        if r.get("harness_errors"):
            print(prop, "seed", s, n, r["harness_errors"][0][-300:])
subprocess.run(["rm", "-rf", tmp])
print(prop, "stress done")
