"""Write DESIGN.md: tools/design_head.md, the table of contracts, the table of planted bugs (tools/caught.json)."""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(ROOT + "/tools/design_head.md").read().rstrip()
table = subprocess.run([sys.executable, ROOT + "/tools/contract_table.py"], capture_output=True, text=True, check=True).stdout
caught = json.load(open(ROOT + "/tools/caught.json"))
rows = ["| planted bug | breaks | needs | reported by contract | with input |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))
    c = caught.get(b, ["not run", ""])
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | {c[0]} | {c[1]} |")
with open(ROOT + "/DESIGN.md", "w") as f:
    f.write(head + "\n\n## 5. Contracts\n\nGenerated by `tools/contract_table.py`.  *proof* = every obligation discharged, unbounded unless "
            "marked bounded; *real runs* = the same contract executed on the real code.\n\n" + table)
    f.write("\n## 6. Planted bugs and what catches them\n\nEach was checked with `tools/plant.py` (patch applies, stable tests pass, demonstration "
            "fails with it and passes without it).\n\n" + "\n".join(rows) + "\n")
