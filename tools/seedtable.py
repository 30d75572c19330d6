#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
head = d[:d.index("## Planted changes")]
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"].replace("|", "\\|"), j["needs"].replace("|", "\\|")))
missed = "c01-growth, c02-allof, c04-empty, c04-setleft, c05-float, c07-before, c12-sort, c12-report, c16-eq"
open(V + "/DESIGN.md", "w").write(head + """## Planted changes (`seeded/`)

Each is written from the property's text, passes the 142 tests, and has a demonstration. Each was run
against its own property's check (quick) and is caught by it; most are also caught by
others (C01 and C03 see what loses or adds matches, every check sees memory errors). Missed at
first, and what made them caught was added to the harness concerned: %s (a change since
superseded by a repair of the same line is no longer kept).

| id | caught by | what it breaks | needs |
|---|---|---|---|
""" % missed + "\n".join(rows) + "\n")
