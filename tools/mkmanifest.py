#!/usr/bin/env python3
"""Generates MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import registry
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    c = registry.CHECKS.get(i)
    if not c:
        m["not_applicable"].append({"property": i, "reason": getattr(registry, "NOT_APPLICABLE", {}).get(i, registry.UNBUILT)})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "./check %s quick" % i,
        "thorough_cmd": "./check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["level_note"],
    })
m["notes"] = ("No hooks are added to /repo: the harnesses link /repo's sources with linker --wrap seams "
              "(allocation, randomness, file and socket calls), so there is no guard. Known findings: known-findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
