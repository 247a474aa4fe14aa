#!/usr/bin/env python3
"""rewrites the list of planted bugs in DESIGN.md"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/")))
p = HERE + "/DESIGN.md"
s = open(p).read().split("<!-- TABLE -->")[0]
open(p, "w").write(s + "<!-- TABLE -->\n\n" + "\n".join(rows) + "\n")
