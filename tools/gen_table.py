#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/planted.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/planted.json"))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json"))
    r = res.get(i, {})
    rows.append((m["property"], f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(f'{p} {w}' for p, w in sorted(r.items()))} |"))
rows.sort()
t = open(V + "/DESIGN.md").read()
body = "| change | property | breaks | needs | checks |\n|---|---|---|---|---|\n" + "\n".join(r for _, r in rows) + "\n"
t = t[:t.index("<!-- table -->")] + "<!-- table -->\n\n" + body
open(V + "/DESIGN.md", "w").write(t)
