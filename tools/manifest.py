#!/usr/bin/env python3
# Writes MANIFEST.json from checks.py and properties.jsonl.
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, os.path.join(V, "engine")); sys.path.insert(0, V)
import checks
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
          "technique": c["technique"], "level": "model_checking",
          "level_note": "Bounded: " + c["bounds"] + ". Every feasible path within these bounds is executed symbolically and every assertion is discharged by the SMT solver for all values. " + ("Assumes: " + "; ".join(c["assumptions"]) + ". " if c["assumptions"] else "") + "Trusts clang 18 -O1, the shadow-term pass in engine/, Z3 and the stand-ins for the Python API. " + c["note"]})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not claimed")
