#!/usr/bin/env python3
"""Rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["| bug | caught by | needs |", "|----|----|----|"]
for b in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
s = open(root + "/DESIGN.md").read()
s = re.sub(r"\| bug \| caught by \| needs \|\n(\|.*\n)+", lambda _: "\n".join(rows) + "\n", s, count=1)
open(root + "/DESIGN.md", "w").write(s)
