#!/usr/bin/env python3
"""Rewrites the catch table at the end of DESIGN.md from a log of evaluations (dev only).
Usage: catchtable.py LOG.jsonl, one {"id", "prop", "caught"} per line; later lines win."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
last = {}
for line in open(sys.argv[1]):
    r = json.loads(line)
    last[r["id"], r["prop"]] = r
rows = []
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    r = last.get((i, m["property"]))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['property']}: {'caught' if r and r['caught'] else 'NOT caught' if r else 'not run'} |")
d = os.path.join(V, "DESIGN.md")
t = open(d).read().split("## Planted bugs")[0].rstrip() + "\n\n## Planted bugs\n\nWritten from the properties and the code; each was kept whether caught or not, and the checks that missed one were strengthened.\n\n| change | what it breaks | quick check of its property |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(d, "w").write(t)
print(len(rows))
