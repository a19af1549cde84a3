#!/usr/bin/env python3
"""Rewrites the table of planted bugs in ../DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.join(here, "..")
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
mark = "<!-- seeded -->"
rows = ["| id | property, caught by | breaks | needs |", "|---|---|---|---|"]
d = os.path.join(top, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    f = lambda x: str(x).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], f(m["what_it_breaks"]), f(m["needs"])))
a = s.index(mark) + len(mark)
open(p, "w").write(s[:a] + "\n" + "\n".join(rows) + "\n")
