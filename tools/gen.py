#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json from the tables in tools/table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import table
root = os.path.join(os.path.dirname(__file__), "..")
checks, man = {}, []
for pid in sorted(table.CHECKS):
    c = table.CHECKS[pid]
    checks[pid] = {k: c[k] for k in ("quick", "thorough", "outside", "stubs") if k in c}
    man.append({
        "property": pid,
        "quick_cmd": f"./run.sh quick {pid}",
        "thorough_cmd": f"./run.sh thorough {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c.get("technique", table.TECHNIQUE),
        "level": "model_checking",
        "level_note": c["note"] + " " + table.TRUST,
    })
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": p, "reason": r} for p, r in sorted(table.NOT_APPLICABLE.items())]
missing = [p for p in props if p not in table.CHECKS and p not in table.NOT_APPLICABLE]
na += [{"property": p, "reason": "no check built yet"} for p in missing]
json.dump(checks, open(os.path.join(root, "checks.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": man, "not_applicable": na, "notes": table.NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(man), "checks;", "missing:", missing)
