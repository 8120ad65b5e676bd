#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = ("abstract interpretation of the SSA form (complete over all inputs) and exhaustive product with a reference transducer",
       "Sound for every input of every length within the modelled Go subset; anything outside it is reported as undecided, which fails. "
       "Trusts go/ssa, the checker's transfer functions and the pinned Unicode 17 reference.")
CHECKS = json.load(open(os.path.join(here, "tools", "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh", "checks": [], "not_applicable": []}
for i in ids:
    c = CHECKS[i]
    if "not_applicable" in c:
        m["not_applicable"].append({"property": i, "reason": c["not_applicable"]})
        continue
    m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i}",
        "technique": c["technique"], "level": "other", "level_note": c["note"]})
m["notes"] = "Every check rebuilds the checker in checker/ and analyses /repo's current source; nothing of the code under analysis is executed. See DESIGN.md."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
