#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props/*.json (one file per property)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(p)) for p in sorted(glob.glob(os.path.join(ROOT, "meta", "props", "*.json")))]
keys = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in keys}) + "\n")
checks, na = [], []
for p in props:
    if p.get("not_applicable"):
        na.append({"property": p["id"], "reason": p["not_applicable"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "runtime monitoring: " + p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, pandas, scipy, sklearn' && chmod +x check.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes public entry points of the imported working tree. "
             "Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json.",
}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
