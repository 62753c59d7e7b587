#!/usr/bin/env python3
"""Fills the table of planted changes in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = json.load(open(os.path.join(R, "tools", "missed.json")))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for id in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", id, "meta.json")))
    by = m["property"]
    if id in missed:
        by += " (missed first; added: %s)" % missed[id]
    rows.append("| %s | %s | %s | %s |" % (id, m["property"], m["needs"].replace("|", "/"), by))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- planted -->\n).*(<!-- /planted -->)", lambda g: g.group(1) + "\n".join(rows) + "\n" + g.group(2), s, flags=re.S)
open(f, "w").write(s)
