#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = f"{V}/DESIGN.md"
t = open(f).read()
t = re.sub(r"(<!-- tools/seedtable.py -->\n).*?(\n<!-- end -->)", lambda m: m[1] + "\n".join(rows) + m[2], t, flags=re.S)
open(f, "w").write(t)
