#!/usr/bin/env python3
"""Writes MANIFEST.json from the property files present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LEVEL = {"C19": "fault_enumeration"}
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = TECH.pop("not_applicable", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")) and i not in NA:
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t[0], level=LEVEL.get(i, "exploration"), level_note=t[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./check.py --setup", checks=checks, not_applicable=na,
         notes="Every check builds the library from /repo's working tree into /verif/build (keyed by content hash). VERIF_SEED selects the generated cases.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
