#!/usr/bin/env python3
"""Development tool: turns a description of a planted bug into /verif/seeded/<id>/.
A bug file defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], and
either DEMO_CC (+ DEMO_YAML) for C++ or DEMO_PY / DEMO_SH."""
import json
import os
import runpy
import subprocess
import sys
import tempfile

V = "/verif"
HELP = '''#include <cstdlib>
#include <iostream>
#define CHECK(x) do { if (!(x)) { std::cerr << "demo: line " << __LINE__ << ": " #x << std::endl; std::_Exit(1); } } while (0)
'''
only = [a[1:] for a in sys.argv[1:] if a[0] == "+"]
for f in [a for a in sys.argv[1:] if a[0] != "+"]:
    b = runpy.run_path(f)
    for n in sorted(k for k in b if k.startswith("bug_")):
        d = b[n]()
        if only and d["id"] not in only:
            continue
        sid = d["id"]
        out = f"{V}/seeded/{sid}"
        with tempfile.TemporaryDirectory() as w:
            files = sorted({e[0] for e in d["edits"]})
            patch = ""
            ok = True
            for fn in files:
                s = o = open(f"/repo/{fn}").read()
                for e in d["edits"]:
                    if e[0] == fn:
                        if s.count(e[1]) != (e[3] if len(e) > 3 else 1):
                            print(f"{sid}: {fn}: {s.count(e[1])} matches of {e[1][:60]!r}")
                            ok = False
                        s = s.replace(e[1], e[2])
                os.makedirs(os.path.dirname(f"{w}/a/{fn}"), exist_ok=True)
                os.makedirs(os.path.dirname(f"{w}/b/{fn}"), exist_ok=True)
                open(f"{w}/a/{fn}", "w").write(o)
                open(f"{w}/b/{fn}", "w").write(s)
                r = subprocess.run(["diff", "-u", f"a/{fn}", f"b/{fn}"], cwd=w, capture_output=True, text=True)
                import re
                patch += re.sub(r"^(---|\+\+\+) (\S+)\t.*$", r"\1 \2", r.stdout, flags=re.M)
                base = subprocess.run(["git", "-C", "/repo", "show", f"72ae822:{fn}"], capture_output=True, text=True).stdout.split("\n")
                if not any(x[1:] in base and x[1:].strip() for x in patch.split("\n") if x[:1] == "-" and x[:3] != "---"):
                    print(f"{sid}: {fn}: removes no original line")
                    ok = False
        if not ok:
            continue
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(patch)
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(f"{out}/meta.json", "w"), indent=1)
        if "cc" in d:
            sh = open(f"{V}/tools/demo/{d.get('demo', 'demo_cpp.sh')}").read().replace("@FLAGS@", d.get("flags", "")).replace("@LEAKS@", "1" if d.get("leaks") else "0")
            open(f"{out}/demo.sh", "w").write(sh)
            cc = d["cc"]
            i = cc.rfind("#include")
            i = cc.find("\n", i) + 1
            open(f"{out}/demo.cc", "w").write(HELP + cc)
            if "yaml" in d:
                open(f"{out}/demo.yaml", "w").write(d["yaml"])
        elif "py" in d:
            open(f"{out}/demo.sh", "w").write('''#!/bin/bash
# Exit 0: behaves as promised.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/tmp"
export REPO=$(pwd) WORK=$W TMPDIR=$W/tmp PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$(pwd)/python
python3 "$D/demo.py"
rc=$?
[ $rc -eq 0 ] && echo "demo: ok" || echo "demo: FAILED ($rc)"
exit $rc
''')
            open(f"{out}/demo.py", "w").write(d["py"])
        for k, v in d.get("files", {}).items():
            open(f"{out}/{k}", "w").write(v)
        print(sid, "written")
