#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand, not by a check)."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=open(here+"/DESIGN.md").read()
i=d.index("| bug | property | needs |")
rows=["| bug | property | needs |","|---|---|---|"]
for n in sorted(os.listdir(here+"/seeded")):
    m=json.load(open(f"{here}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} |")
open(here+"/DESIGN.md","w").write(d[:i]+"\n".join(rows)+"\n")
