#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for s in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{s}/meta.json"))
    d[m["property"]].append((s, " ".join(m["what_it_breaks"].split())))
out = ["| check | planted bugs it catches |", "|---|---|"]
for p in sorted(d):
    out.append(f"| {p} | " + "; ".join(f"`{s}` ({w})" for s, w in d[p]) + " |")
t = open(f"{H}/DESIGN.md").read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(out) + "\n" + m[2], t, flags=re.S)
open(f"{H}/DESIGN.md", "w").write(t)
