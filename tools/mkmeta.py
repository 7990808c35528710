#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and checks.CHECKS (claimed = has a check)."""
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, "tools")]
import properties, checks
T = checks.TECH
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in properties.P:
        if p["id"] in checks.CHECKS: f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="All checks: python3 check.py <id>. They build their monitors from /repo's working tree into /verif/build (removed afterwards), run them, and write evidence/<id>.json. VERIF_TIER=thorough deepens every workload. No hooks are needed: the library is header-only and all observation is at the public interface.")
for p in properties.P:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = T[i]
        m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i, technique=t, level="exploration", level_note=n))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
