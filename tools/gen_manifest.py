#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
from notes import NOTES, NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for pid in props:
    if pid in NA:
        continue
    tech, note = NOTES[pid]
    assert pid in CHECKS, pid
    checks.append(dict(property=pid,
                       quick_cmd="VERIF_TIER=quick python3 run_check.py " + pid,
                       thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="property-based testing: " + tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks: the harnesses compile /repo's sources directly. Unguarded changes in /repo are 'fix:' commits, listed in known_findings.txt.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(NA), "not applicable")
