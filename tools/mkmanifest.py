#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE, HOOKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
if HOOKS: m["hooks"] = HOOKS
for i in ids:
    if i in PROPS:
        q = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
            "technique": q.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo; bounded replay harness as stand-in/witness search"),
            "level": q.get("level", "proof"), "level_note": q["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "n/a")
