"""Known findings: genuine defects of /repo recorded rather than repaired."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")


def load(prop):
    if not os.path.exists(PATH):
        return []
    return [k for k in json.load(open(PATH)) if k["property"] == prop]


def match(kf, v):
    """A violation is a known finding only if its contract, its obligation and
    every listed input value agree."""
    for k in kf:
        if k.get("status") != "open" or k["contract"] != v["contract"]:
            continue
        if k["obligation"] != v["obligation"]:
            continue
        ins = v.get("inputs") or {}
        if all(ins.get(n) == x for n, x in k.get("inputs", {}).items()):
            return k
    return None
