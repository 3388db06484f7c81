#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
NOTE = {"m11-long-line": " (missed at first: lines of up to 4 KiB added)",
        "m13-narrow-areas": " (missed at first: areas up to the type's limit added)",
        "m20-many-labels": " (missed at first: very many labels added)"}
path = os.path.join(root, "tools", "notes.json")
if os.path.exists(path):
    NOTE.update(json.load(open(path)))
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s%s | %s | %s |" % (d, m["property"], NOTE.get(d, ""), m["what_it_breaks"], m["needs"]))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
