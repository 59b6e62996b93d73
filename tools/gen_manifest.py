#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, specs.py and the table below"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs import SPECS, INFO, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        level, tech, note = INFO[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py all --build", checks=checks, not_applicable=na,
         notes="No hooks are needed: the harnesses compile /repo's sources unchanged. Explorer in lib/mc.cpp; one harness per property in harness/; stand-ins for the libraries that are not installed in shim/.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
