#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from CLAIMED (edited here) and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from tools.claims import CLAIMED, NA
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for x in props:
    i = x["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh %s" % i, "thorough_cmd": "bash check.sh %s --tier thorough" % i,
            "technique": CLAIMED[i].get("technique", "contract-based deductive verification: VCs generated from /repo's LLVM IR, function contracts and loop invariants, discharged by z3/cvc5"),
            "level": CLAIMED[i].get("level", "proof"), "level_note": CLAIMED[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "machinery not built yet (work in progress)")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
