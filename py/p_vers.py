"""C24: version texts given to the code generator"""
import argparse
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import REPO, Mon  # noqa: E402
import podio_class_generator as gen  # noqa: E402

YAML = "schema_version: 1\ndatatypes:\n  Thing:\n    Description: d\n    Author: a\n    Members: ['int x // x']\n"


def num(r):
    return r.choice([0, 1, 2, 9, 10, 99, 100, 255, 999, 65534, 65535, r.randrange(65536)])


def case(mon):
    r = mon.rng("version")
    for _ in range(50):
        v = tuple(num(r) for _ in range(r.choice([2, 3, 3])))
        s = r.choice(["", "", "v"]) + str(v[0])
        for x in v[1:]:
            s += r.choice([".", ".", "-"]) + ("0" if r.random() < 0.1 else "") + str(x)
        mon.what = "valid version"
        try:
            got = gen.parse_version(s)
        except Exception as e:
            mon.violation("version-text:valid-rejected", f"{s!r}: {e!r}")
            continue
        mon.check(tuple(got) == v, "version-text:value", f"{s!r} parsed as {got}")
        mon.stat("texts")
        mon.distinct("nontrivial", s)
    for _ in range(40):
        a, b, c, d = (num(r) for _ in range(4))
        s = r.choice(["", "v", f"{a}", f"v{a}", f"{a}.", f".{a}.{b}", f"{a}..{b}", f"{a}.{b}.", f"{a}.{b}.{c}.{d}", f"{a}.{b}.x", f"x.{a}.{b}", f"vv{a}.{b}", f"V{a}.{b}", f"{a}.{b} ", f" {a}.{b}", f"{a},{b}",
                      f"{a}.{b}.{c}-rc1", f"{a}_{b}", f"-{a}.{b}", f"{a}.-{b}", f"{a}.{b}v", f"{a} .{b}", f"{a}.{b}.{c}a", f"{a}:{b}", f"{a}.{b}+{c}", f"version {a}.{b}", f"{a}.{b}.{c} {d}", f"0x{a}.{b}", f"{a}/{b}",
                      f"{a}.{b}..{c}", f"{a}.{b}--{c}", f"{a}e1.{b}", "latest", f"{a}.v{b}"])
        mon.what = "invalid version"
        try:
            got = gen.parse_version(s)
            mon.violation("version-text:invalid-accepted", f"{s!r} parsed as {got}")
        except (argparse.ArgumentTypeError, ValueError, TypeError):
            mon.stat("checks")
            mon.stat("rejected")
        except Exception as e:
            mon.violation("version-text:wrong-exception", f"{s!r}: {e!r}")
        mon.distinct("invalid", s)
    mon.check(gen.parse_version(None) is None, "version-text:none")
    if mon.idx % 4 == 0:
        y = os.path.join(mon.tmp, "m.yaml")
        open(y, "w").write(YAML)
        out = os.path.join(mon.tmp, f"o{mon.idx}")
        p = subprocess.run([sys.executable, "-B", f"{REPO}/python/podio_class_generator.py", "-q", f"--datamodel-version={s}", y, out, "pkg", "ROOT"], capture_output=True, text=True, errors="backslashreplace",
                           env=dict(os.environ, TMPDIR=mon.tmp), timeout=120)
        files = [f for _, _, fs in os.walk(out) for f in fs]
        mon.check(p.returncode != 0 and not files, "version-text:command-line-accepts-invalid", f"{s!r}: exit {p.returncode}, {len(files)} files")
        mon.stat("command_line_runs")


Mon().run(case)
