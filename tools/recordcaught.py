"""recordcaught.py LOG...: read the output of plant.py and update tools/caught.json."""
import json
import os
import re
import sys
P = os.path.dirname(os.path.abspath(__file__)) + "/caught.json"
d = json.load(open(P)) if os.path.exists(P) else {}
for log in sys.argv[1:]:
    for ln in open(log):
        m = re.match(r"(\S+) check rc=(\d+) \d+s (.*)", ln)
        if m:
            v = re.search(r"replay=\S*/C\d\d-(\w+)\.json( no-failing-input-found)?", m[3])
            d[m[1]] = [v[1], "no" if v[2] else "yes"] if v and m[2] == "1" else ["missed", ""]
json.dump(d, open(P, "w"), indent=1, sort_keys=True)
