#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (no check uses it).
A bug listed in MISSED is one its property's quick check does not report."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
MISSED = {}
rows = []
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    i = m.parent.name
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {MISSED.get(i, 'quick ' + d['property'])} |")
mark = "<!-- planted bugs: generated -->"
f = V / "DESIGN.md"
t = f.read_text().split(mark)[0]
f.write_text(t + mark + "\n\n| change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
