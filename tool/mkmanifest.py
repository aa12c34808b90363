#!/usr/bin/env python3
"""write MANIFEST.json from tool/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i, thorough_cmd="./check.sh %s --thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=p.get("technique", "contract-based deductive verification (Verus) of functions extracted mechanically from /repo; bounded replay harness for failing inputs"),
            level=p.get("level", "proof"), level_note=p.get("note", "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
