#!/usr/bin/env python3
"""Prints the table of DESIGN.md section 2 from the evidence files of the last runs (development aid)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| id | property | executions | distinct states / cases | checks | quick s |\n|---|---|---|---|---|---|")
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); f = R + "/evidence/%s.json" % p["id"]
    d = json.load(open(f)) if os.path.exists(f) else {}
    c = {}
    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(v, (int, float)) and k not in c: c[k] = v
                walk(v)
        elif isinstance(o, list):
            for x in o: walk(x)
    walk(d)
    print("| %s | %s | %s | %s | %s | %s |" % (p["id"], p["title"], c.get("evaluations", c.get("traces_validated_against_impl", "")), max(c.get("distinct_nontrivial", 0), c.get("distinct_states", 0), c.get("states", 0)) or "", c.get("oracle_comparisons", ""), round(c.get("wall_s", 0))))
