#!/usr/bin/env python3
"""Adds the planted changes that DESIGN.md's table does not list yet.  (last column: filled in by hand afterwards)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + "/DESIGN.md"; s = open(p).read()
have = dict(re.findall(r"^\| (C\d\d-[\w-]+) \| (.*)$", s, re.M))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d))
    rows.append("| %s | %s" % (i, have[i]) if i in have else "| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("strengthened", "-")))
head = "| change | property | needs | strengthened first |\n|---|---|---|---|\n"
a = s.index(head) + len(head); b = s.index("\n\n", a)
open(p, "w").write(s[:a] + "\n".join(rows) + s[b:]); print(len(rows), "changes")
