#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
mark = "<!-- table -->"
s = s[:s.index(mark)] + mark + "\n| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
