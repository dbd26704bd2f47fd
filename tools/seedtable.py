#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seedtable -->.*?<!-- /seedtable -->", lambda _: "<!-- seedtable -->\n" + "\n".join(rows) + "\n<!-- /seedtable -->", s, flags=re.S)
open(p, "w").write(s)
