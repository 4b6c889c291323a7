#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = NOTE.get(i, {})
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i,
                       "technique": n.get("technique", "property-based testing (Hypothesis) against a numpy reference model"),
                       "level": "exploration",
                       "level_note": n.get("note", "Generated-input search over the stated domain with shrinking; no exhaustiveness claim. Trusts numpy and the reference model in vlib/ref.py.")})
    else:
        na.append({"property": i, "reason": NOTE.get(i, {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check runs through run.sh, which gives it a private HOME and numba cache and unpacks hypothesis from the offline wheels."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
