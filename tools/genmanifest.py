#!/usr/bin/env python3
"""Writes MANIFEST.json. One entry per claimed property; the rest go under not_applicable."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit-state bounded-exhaustive enumeration of {what}, every case executed on the real code and checked against {oracle}"
CLAIM = json.load(open(os.path.join(here, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CLAIM.get(i)
    if c is None:
        na.append({"property": i, "reason": "not claimed yet: the check is still being built"})
        continue
    if "na" in c:
        na.append({"property": i, "reason": c["na"]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": c["technique"] if "technique" in c else ENUM.format(**c),
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "DESIGN.md describes every check. known_findings.txt lists recorded findings and fixes."}
hooks = os.path.join(here, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
