"""Write /verif/MANIFEST.json from the contracts present in props/."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(ROOT + "/properties.jsonl")]
notes = json.load(open(ROOT + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/props/{i.lower()}.py"):
        checks.append(dict(
            property=i, quick_cmd=f"python3-vt check.py {i} --tier quick",
            thorough_cmd=f"python3-vt check.py {i} --tier thorough",
            technique="contract-based deductive verification of the real source (symbolic execution with loop "
                      "invariants, obligations discharged by z3 / polynomial normal forms / cvc5)",
            level="proof", level_note=notes.get(i, "see DESIGN.md")))
    else:
        na.append(dict(property=i, reason=notes.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt setup.py", checks=checks, not_applicable=na,
               hooks=dict(guard="none", enable="no hooks: /repo is verified as it is"),
               notes="See DESIGN.md. Every check reads /repo's current source; nothing is cached between runs."),
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
