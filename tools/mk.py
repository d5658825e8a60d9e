#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN
from props import PROPS, NA
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
checks = []
for i in ids:
    if i in PLAN:
        c = dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, technique=PLAN[i].get("technique", "abstract interpretation of the type-checked MIR (symbolic value graph with a linear-arithmetic domain), rule over the resulting graph"), level=PLAN[i]["level"],
                 level_note=PLAN[i].get("note", "All inputs covered: obligations are discharged for unconstrained symbolic bytes, not for samples. Fails closed when the analysis cannot decide. Trusts the rustc front end and the analysis engine (not machine-checked)."))
        checks.append(c)
na = [dict(property=i, reason=NA[i]) for i in ids if i not in PLAN]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
