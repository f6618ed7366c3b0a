#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    pl = PLAN.get(p["id"])
    if not pl:
        na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": pl.get("technique", "TLA+ specification model-checked with TLC; recorded sessions of the real code validated against it"),
        "level": "model_checking",
        "level_note": pl["note"] + " Assumes: " + "; ".join(pl.get("assumes", ["the harness records outcomes faithfully"])) + ".",
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API and in-memory transports."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
