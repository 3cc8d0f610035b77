#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md. Which check caught which is in tools/bugs/caught.json."""
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{V}/tools/bugs/caught.json"))
rows = ["| bug | breaks | caught by |", "|-----|--------|-----------|"]
for d in ("seeded", "mutants"):
    for m in sorted(glob.glob(f"{V}/{d}/*/meta.json")):
        k = os.path.basename(os.path.dirname(m))
        x = json.load(open(m))
        rows.append(f"| {d}/{k} | {x['what_it_breaks']} | {caught.get(k, x['property'])} |")
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"<!-- BUGS -->.*<!-- /BUGS -->", lambda _: "<!-- BUGS -->\n" + "\n".join(rows) + "\n<!-- /BUGS -->", s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
