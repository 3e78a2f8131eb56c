#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(f"{V}/tools/seed_results.txt"):
    a = l.split()
    if len(a) >= 3: res.setdefault(a[0], {})[a[1]] = a[2]
t = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for s in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    c = [p for p, r in res.get(s, {}).items() if r == "CAUGHT"]
    t += f"| {s} | {m['property']} | {m['needs']} | {', '.join(sorted(c)) or 'not caught'} |\n"
d = open(f"{V}/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + t + "<!-- /seeds -->", d, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(d)
