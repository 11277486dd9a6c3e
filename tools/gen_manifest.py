#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from stages.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import stages as S
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in S.STAGES:
        continue
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json", "technique": S.TECHNIQUE.get(i, "property-based testing: generated cases, exhaustive-search oracle, shrinking"),
        "level": "exploration", "level_note": S.LEVEL_NOTE.get(i, "Random generated-input search: shows presence of violations, never absence; assurance is bounded by the generators, sizes and case counts recorded in the evidence."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
     "not_applicable": [{"property": i, "reason": S.NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in S.STAGES],
     "notes": "Known findings and repaired defects: known_findings.txt. Design: DESIGN.md. No hooks are compiled into /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
