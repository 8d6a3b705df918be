"""Nothing to build: the verifier is Python, the code under test is read at each run.
Checks that the tools answer."""
import subprocess
import sys

import z3

s = z3.Solver()
x = z3.Real("x")
s.add(x * x < 0)
assert s.check() == z3.unsat
import cvc5  # noqa
import sympy  # noqa
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, numba, scipy"], capture_output=True, text=True)
if r.returncode:
    print(r.stderr)
    sys.exit(1)
print("tools ok")
