"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | change | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "B*", "meta.json"))):
    d = json.load(open(m))
    b = m.split(os.sep)[-2]
    rows.append(f"| {b} | {d['property']} | {d['what_it_breaks']} (needs: {d['needs']}) | {d['property']} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
i = s.index("| id | property |")
j = s.index("\n\n", i)
open(p, "w").write(s[:i] + "\n".join(rows) + s[j:])
