#!/usr/bin/env python3
"""Writes the table of planted bugs (from seeded/*/meta.json) into DESIGN.md after the line 'Seeded bugs'."""
import json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | bin/check %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), m["property"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
a, b = s.split("<!-- seeded -->\n")[0], s.split("<!-- /seeded -->\n")[1]
open(p, "w").write(a + "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->\n" + b)
