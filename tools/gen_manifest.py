#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMED = json.load(open(os.path.join(root, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED and "technique" in CLAIMED[i]:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": c["technique"],
                       "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": CLAIMED.get(i, {}).get("reason", "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with pgregory.net/rapid in /verif/harness; every check rebuilds harness and tools from /repo's working tree. Replay: ./check <ID> --replay <file>. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
