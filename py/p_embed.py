"""C18: the definition embedded in generated code"""
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, REPO, Mon  # noqa: E402
from podio_gen.generator_utils import DefinitionError  # noqa: E402
from podio_gen.podio_config_reader import PodioConfigReader  # noqa: E402
from readcmp import compare  # noqa: E402


def gen(mon, y, out, pkg, extra):
    env = dict(os.environ, PYTHONHASHSEED=str(mon.r.randrange(10000)), TMPDIR=mon.tmp)
    p = subprocess.run([sys.executable, "-B", f"{REPO}/python/podio_class_generator.py", "-q", *extra, y, out, pkg, "ROOT", "SIO"], capture_output=True, text=True, errors="backslashreplace", env=env, timeout=200)
    mon.stat("generator_runs")
    return p


def tree(d):
    return {os.path.relpath(os.path.join(p, f), d): open(os.path.join(p, f), encoding="utf-8").read() for p, _, fs in os.walk(d) for f in fs}


def case(mon):
    r = mon.r = mon.rng()
    d = f"{mon.tmp}/case"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pkg = f"pk{mon.idx % 7}"
    m = G.random_model(f"c18/{mon.seed}/{mon.idx}", pkg, upstream_chance=0.3, compile_safe=False)
    mon.note(m.summary())
    extra, up = [], None
    if m.upstream:
        open(f"{d}/up.yaml", "w").write(m.upstream.yaml(r))
        extra = ["--upstream-edm", f"{m.upstream.package}:{d}/up.yaml"]
        up = PodioConfigReader.read(f"{d}/up.yaml", m.upstream.package)
    open(f"{d}/m.yaml", "w").write(m.yaml(r))
    p = gen(mon, f"{d}/m.yaml", f"{d}/a", pkg, extra)
    if not mon.check(p.returncode == 0, "embedded:generator-fails", lambda: p.stdout[-800:] + p.stderr[-1500:]):
        return
    a = tree(f"{d}/a")
    h = a[f"{pkg}/DatamodelDefinition.h"]
    x = re.search(r'R"DATAMODELDEF\((.*)\)DATAMODELDEF"', h, re.S)
    if not mon.check(x is not None, "embedded:no-definition", h):
        return
    mon.stat("histories")
    mon.stat("embedded_definitions")
    mon.distinct("nontrivial", x[1])
    mon.sample(m.summary())
    try:
        json.loads(x[1])
    except ValueError as e:
        mon.violation("embedded:not-json", f"{e}: {x[1]}")
        return
    # read again it is the definition
    open(f"{d}/e.yaml", "w").write(x[1])
    try:
        dm = PodioConfigReader.read(f"{d}/e.yaml", pkg, upstream_edm=up)
    except DefinitionError as e:
        mon.violation("embedded:cannot-be-read", f"{e}: {x[1]}")
        return
    compare(mon, dm, m, "embedded ")
    # and it makes the same code
    p = gen(mon, f"{d}/e.yaml", f"{d}/b", pkg, extra)
    if mon.check(p.returncode == 0, "embedded:cannot-generate", lambda: p.stdout[-800:] + p.stderr[-1500:]):
        b = tree(f"{d}/b")
        for f in sorted(set(a) | set(b)):
            if a.get(f) != b.get(f):
                la, lb = a.get(f, "").split("\n"), b.get(f, "").split("\n")
                i = next((i for i, (u, v) in enumerate(zip(la, lb)) if u != v), min(len(la), len(lb)))
                mon.violation("embedded:generates-other-code", f"{f} line {i + 1}: {la[i:i + 3]} became {lb[i:i + 3]}")
                break
            mon.stat("checks")


Mon().run(case)
