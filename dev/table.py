#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.setdefault(m["property"], []).append(d.split("-", 1)[1])
t = "\n".join(textwrap.fill(f"- {p}: " + ", ".join(v), 76, subsequent_indent="  ") for p, v in sorted(rows.items()))
s = open(V + "/DESIGN.md").read()
b = "<!-- planted -->\n"
e = "\n<!-- /planted -->\n"
if b in s:
    s = s[:s.index(b)] + b + t + s[s.index(e):]
else:
    s = s.replace("SEEDEDTABLE\n", "By property (all caught by the check of that property):\n\n" + b + t + e + "\n")
open(V + "/DESIGN.md", "w").write(s)
