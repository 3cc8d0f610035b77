#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.checks import CHECKS  # noqa: E402

props = [json.loads(line) for line in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="check not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c.get("technique", "runtime monitoring under ASan/UBSan with a reference-model oracle"),
                       level="exploration",
                       level_note=c.get("note", "Held on the executions counted in the evidence; reach is bounded by the random workloads. Trusts the independent reference model in /verif.")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="All checks build /repo's working tree with sanitizers into /verif/.build and run the real code under random and hostile workloads; no hooks in /repo are needed.")
s = json.dumps(m, indent=1) + "\n"
open(f"{V}/MANIFEST.json", "w").write(s)
