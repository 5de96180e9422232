#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand after editing it)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    if not os.path.isdir(os.path.join(root, "harness", p["id"].lower())):
        print("no harness yet:", p["id"]); continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    })
have = {c["property"] for c in checks}
na = [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]
na += [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in have and p["id"] not in NOT_APPLICABLE]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none: the checks instrument a generated overlay of the sources at build time", "enable": "check.sh passes go build -overlay", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
