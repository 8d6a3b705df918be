"""Print the table of contracts for DESIGN.md."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import api  # noqa: E402
for i in range(1, 21):
    importlib.import_module(f"props.c{i:02d}")
print("| property | contract | functions under contract | decided by |\n|---|---|---|---|")
for c in sorted(api.REG, key=lambda c: c.prop):
    how = []
    if c.sym:
        how.append(f"proof, bounded ({c.bounded})" if c.bounded else "proof")
    if c.conc:
        how.append("real runs" + ("" if c.sym else " only"))
    print(f"| {c.prop} | {c.name} | {', '.join(f.split('.', 1)[1] if '.' in f else f for f in c.fns)} | {' + '.join(how)}"
          f"{'; ' + c.note if getattr(c, 'note', '') else ''} |")
