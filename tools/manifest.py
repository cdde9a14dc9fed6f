#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if not c:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
                       technique=c.get("technique", "property-based testing"), level=c.get("level", "exploration"), level_note=c.get("note", "Searched, not proved: holds on every generated case.")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: the checks drive the public API of /repo's working tree through a harness module with a replace directive.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
