#!/usr/bin/env python3
"""Rewrites the generated tail of DESIGN.md: the table of planted bugs (from seeded/*/meta.json)."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read().split("<!-- planted -->")[0]
rows = ["<!-- planted -->", "", "| bug | check that catches it | needs | breaks |", "|---|---|---|---|"]
miss = json.load(open(os.path.join(here, "tools/missed.json"))) if os.path.exists(os.path.join(here, "tools/missed.json")) else {}
for d in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (i, miss.get(i, m["property"]), m["needs"], m["what_it_breaks"]))
open(p, "w").write(s + "\n".join(rows) + "\n")
