"""Writes MANIFEST.json from the registry."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vp.registry import CHECKS, TECH, NOTE, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH[i], "level": "other", "level_note": NOTE[i]})
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in CHECKS]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of the current tree's MIR (see DESIGN.md). No hooks in /repo are needed."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
