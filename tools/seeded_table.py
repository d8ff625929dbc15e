#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md. Usage: seeded_table.py [ID=CHECK|missed ...] for exceptions."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ex = dict(a.split("=") for a in sys.argv[1:])
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append((m["property"], d, m["needs"], ex.get(d, m["property"])))
out = "| bug | property | needs | caught by |\n|-----|----------|-------|-----------|\n"
out += "".join("| %s | %s | %s | %s |\n" % (d, p, n, c) for p, d, n, c in sorted(rows))
s = open(V + "/DESIGN.md").read()
b, e = "<!-- table -->\n", "<!-- end -->\n"
if "@TABLE@\n" in s:
    s = s.replace("@TABLE@\n", b + e)
i, j = s.index(b) + len(b), s.index(e)
open(V + "/DESIGN.md", "w").write(s[:i] + out + s[j:])
print(len(rows), "planted bugs")
