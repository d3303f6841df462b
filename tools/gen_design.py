#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md, between its markers (run by hand)."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open("DESIGN.md").read()
t = "<!-- planted -->\n| change | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
