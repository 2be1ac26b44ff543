#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks/*/check.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    d = os.path.join(V, "harness/checks", p["id"].lower(), "check.json")
    if os.path.exists(d):
        c = json.load(open(d))
        checks.append({
            "property": p["id"],
            "quick_cmd": "bin/check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p["id"], "reason": "no monitor built yet for this property"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Monitors are built through a go build overlay from /repo's working tree; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
