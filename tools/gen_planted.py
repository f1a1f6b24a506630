#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md (documentation only; no check uses it)."""
import json, os, re
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(top, "seeded"))):
    m = json.load(open(os.path.join(top, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
open(p, "w").write(s)
