"""C23: comparison of two versions of a datamodel and what is made of it"""
import collections
import contextlib
import copy
import io
import os
import subprocess
import sys
import traceback

import yaml

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, REPO, Mon  # noqa: E402
from podio_gen.podio_config_reader import PodioConfigReader  # noqa: E402
from podio_gen.schema_evolution import SchemaMigrationReader  # noqa: E402
import podio_schema_evolution as S  # noqa: E402
from vf.edits import Edit, diff, judge_truth, migrations  # noqa: E402

M = G.M


def seen(c):
    k = type(c).__name__
    if k == "ChangedMemberType":
        return (k, c.klassname, (c.old_member.name, c.old_member.full_type, c.new_member.full_type))
    if k == "RenamedMember":
        return (k, c.klassname, (c.member_name_old, c.member_name_new))
    if k == "RenamedDataType":
        return (k, c.name_old, c.name_new)
    if hasattr(c, "member"):
        return (k, c.klassname, c.member.name)
    return (k, c.klassname, None)


def case_pair(mon):
    r = mon.rng()
    seed = f"c23/{mon.seed}/{mon.idx}"
    # links and interfaces do not take part but are there
    g = G.Gen(seed, "pkg", compile_safe=False, extra=mon.idx % 3 == 0)
    old = g.model()
    new = copy.deepcopy(old)
    e = Edit(new, g, r)
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        e.one()
    old.schema_version, new.schema_version = 1, r.choice([2, 3])
    if mon.idx % 5 == 4:
        new, old = old, new
        e.renames = [(k, b, a) for k, a, b in e.renames]
    changes = diff(new, old)
    mon.note(f"edits {e.log}; differences {changes}")
    paths = [f"{mon.tmp}/{n}.yaml" for n in ("new", "old")]
    for p, m in zip(paths, (new, old)):
        open(p, "w").write(m.yaml(r))
    try:
        dm = [PodioConfigReader.read(p, n, ignore_extracode=True) for p, n in zip(paths, ("new", "old"))]
    except Exception as ex:
        # not a valid definition: what the reader accepts is judged elsewhere
        mon.stat("edited_model_not_valid")
        mon.note(str(ex))
        return
    mon.stat("pairs")
    mon.stat("pairs_equal", not changes)
    mon.stat("differences", len(changes))
    for c in changes:
        mon.distinct("kinds_of_difference", c[0])
    if changes:
        mon.distinct("nontrivial", repr(sorted(map(repr, changes))))
    declared = [x for x in e.renames if r.random() < 0.6]
    # declarations that come close to what has happened: the other direction, another type, another member
    for k, f, t in [x for x in e.renames if x not in declared and x[0]]:
        z = r.random()
        if z < 0.3:
            declared.append((k, t, f))
        elif z < 0.45:
            declared.append((r.choice(old.types + old.comps).name, f, t))
        elif z < 0.6:
            declared.append(r.choice([(k, f, t + "1"), (k, f + "1", t), (k, f, f), (k, t, t)]))
        if z < 0.6:
            mon.stat("renames_nearly_declared")
    noise = []
    if r.random() < 0.3:
        h = r.choice(old.types)
        noise.append((h.name, {"from_version": 1, "to_version": 2, "rename_member": {"from": "noSuchMember", "to": r.choice([x.name for x in h.mem] + ["other"])}}))
    if r.random() < 0.1:
        noise.append(("NoSuchType", {"from_version": 1, "to_version": 2, "rename_datatype": {"from": "NoSuchType", "to": "Other"}}))
    evo = None
    if declared or noise or r.random() < 0.2:
        evo = f"{mon.tmp}/evo.yaml"
        open(evo, "w").write(G.dump(r, migrations(r, declared, noise)))
        mon.stat("with_migrations")
    out = io.StringIO()
    try:
        comp = S.DataModelComparator(dm[0])
        got = comp.compare(dm[1])
        judge = S.SchemaEvolutionJudge(dm[0], evolution_file=evo)
        res = judge.judge(dm[1], got)
        with contextlib.redirect_stdout(out):
            ok = comp.print_comparison(res)
    except Exception:
        mon.violation("compare:crash", traceback.format_exc()[-1800:])
        return
    a, b = collections.Counter(map(seen, got)), collections.Counter(changes)
    mon.check(a == b, "compare:differences", lambda: f"reported in excess {list((a - b).elements())} missing {list((b - a).elements())}")
    left, renamed, errors, neutral, warn, comp_warn, sig = judge_truth(new, old, changes, declared)
    # the result of judging
    final = collections.Counter(map(seen, res.schema_changes))
    want = +left + collections.Counter(renamed)
    tr = [x for x in final.elements() if x[0] == "RenamedDataType"]
    decl = {(f, t) for k, f, t in declared if k is None}
    for _, f, t in tr:
        s = [x for x in sig.values() if f in x["old"] and t in x["new"]]
        mon.check(bool(s), "judge:renamed-datatype-differs", lambda: f"{f} -> {t}")
        want[("DroppedDatatype", f, None)] -= 1
        want[("AddedDatatype", t, None)] -= 1
        want[("RenamedDataType", f, t)] += 1
    for f, t in decl:
        # a declared renaming of a datatype is one if only the name has changed
        if any(f in x["old"] and t in x["new"] for x in sig.values()):
            mon.check(("RenamedDataType", f, t) in tr, "judge:declared-datatype-renaming", lambda: f"{f} -> {t}: {tr}")
    want = +want
    mon.check(final == want, "judge:resulting-changes", lambda: f"in excess {list((final - want).elements())} missing {list((want - final).elements())}")
    # errors
    for kls, x in errors:
        mon.check(any(kls in t and x in t for t in res.errors), "judge:accepted-what-cannot-evolve", lambda: f"{kls}.{x}: {res.errors}")
    if not errors and not neutral:
        mon.check(not res.errors, "judge:error-for-evolvable-change", lambda: f"{res.errors}")
    if not neutral:
        mon.check(bool(ok) == (not errors), "judge:success", lambda: f"{ok} {errors}")
    # warnings
    for kls, f, t in warn:
        mon.check(any(kls in w and f in w and t in w for w in res.warnings), "judge:no-warning-of-possible-rename", lambda: f"{kls}: {f} -> {t}: {res.warnings}")
    for f, t in comp_warn:
        mon.check(any(f in w and t in w for w in res.warnings), "judge:no-warning-of-possible-component-rename", lambda: f"{f} -> {t}: {res.warnings}")
    if not warn and not comp_warn:
        mon.check(not res.warnings, "judge:warning-without-reason", lambda: f"{res.warnings}")
    mon.stat("errors_expected", len(errors))
    mon.stat("warnings_expected", len(warn) + len(comp_warn))
    mon.stat("renames_declared", len(renamed))
    # the printed report names every change
    t = out.getvalue()
    mon.check(f"Detected {len(res.schema_changes)} schema changes" in t and all(str(x) in t for x in res.schema_changes + res.errors + res.warnings), "report:incomplete", lambda: t)
    # again, and in another order: the same answer
    if mon.idx % 4 == 1:
        again = S.DataModelComparator(dm[0]).compare(dm[1])
        mon.check([seen(x) for x in again] == [seen(x) for x in got], "compare:differs-when-repeated", "")
        back = collections.Counter(map(seen, S.DataModelComparator(dm[1]).compare(dm[0])))
        wb = collections.Counter(diff(old, new))
        mon.check(back == wb, "compare:differences-in-reverse", lambda: f"in excess {list((back - wb).elements())} missing {list((wb - back).elements())}")
    # the command
    if mon.idx % (6 if mon.thorough else 8) == 0:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{REPO}/python", PYTHONHASHSEED=str(r.randrange(1000)))
        p = subprocess.run([sys.executable, f"{REPO}/python/podio_schema_evolution.py", *paths] + (["-e", evo] if evo else []), capture_output=True, text=True, errors="backslashreplace", env=env, timeout=120)
        mon.stat("commands")
        if not neutral:
            mon.check(p.returncode == (1 if errors else 0), "command:exit", lambda: f"{p.returncode} errors {errors} {p.stdout[-600:]} {p.stderr[-600:]}")
        mon.check("Traceback" not in p.stderr and p.stdout.strip() == t.strip(), "command:report", lambda: f"{p.stdout[-900:]} {p.stderr[-600:]}")
    # the generator accepts exactly what needs no intervention
    if mon.idx % 40 == 7 and not neutral and not new.upstream:
        cmd = [sys.executable, "-B", f"{REPO}/python/podio_class_generator.py", "-q", "-d", "--old-description", paths[1]]
        p = subprocess.run(cmd + (["--evolution_file", evo] if evo else []) + [paths[0], f"{mon.tmp}/gen", "pkg", "ROOT"], capture_output=True, text=True, errors="backslashreplace", timeout=200)
        mon.stat("generator_runs")
        mon.check((p.returncode == 0) == (not errors and not warn and not comp_warn), "generator:accepts", lambda: f"exit {p.returncode} errors {errors} warnings {warn + comp_warn} {p.stdout[-600:]} {p.stderr[-900:]}")


# ---- migration files -----------------------------------------------------------
def case_file(mon):
    r = mon.rng("file")
    want, d = {}, {}
    for k in range(r.choice([0, 1, 1, 2, 4])):
        n = r.choice(["A", "ns::B", "C_c", "Long::Name", "d"]) + str(k)
        l, w = [], []
        for _ in range(r.choice([0, 1, 2, 3])):
            a = r.choice([0, 1, 2, 5, 99])
            b = a + r.choice([1, 1, 2, 50])
            t = r.choice(["rename_member", "rename_datatype"])
            det = {"from": r.choice(["x", "old_name", "ns::Old", "a b"]), "to": r.choice(["y", "newName", "ns::New"])}
            if r.random() < 0.2:
                det["comment"] = "more"
            l.append(G.shuf(r, {"from_version": a, "to_version": b, t: G.shuf(r, det)}))
            w.append((a, b, t, tuple(sorted(det.items()))))
        d[n] = l
        want[n] = w
    data = {"migrations": d}
    if r.random() < 0.2:
        data["other"] = 1
    bad = None
    if r.random() < 0.6:
        n = r.choice(["A", "ns::B"])
        good = {"from_version": 1, "to_version": 2, "rename_member": {"from": "a", "to": "b"}}

        def entry(**kw):
            x = dict(good)
            for k, v in kw.items():
                if v is None:
                    x.pop(k, None)
                else:
                    x[k] = v
            return x
        broken = {
            "no migrations": None, "migrations a list": [good], "migrations a text": "x", "migrations empty": None,
            "type not a list": good, "type a text": "rename",
            "no from_version": entry(from_version=None), "no to_version": entry(to_version=None), "no versions": entry(from_version=None, to_version=None),
            "equal versions": entry(from_version=2), "versions reversed": entry(from_version=r.choice([3, 10])), "from text": entry(from_version="1"), "to text": entry(to_version="2"),
            "from float": entry(from_version=1.0), "to float": entry(to_version=2.5), "no change": entry(rename_member=None), "two changes": entry(rename_datatype={"from": "a", "to": "b"}),
            "unknown change": {"from_version": 1, "to_version": 2, r.choice(["rename", "renamemember", "Rename_member", "drop_member", "RENAME_MEMBER"]): {"from": "a", "to": "b"}},
            "unknown in addition": entry(note="x"), "no from": entry(rename_member={"to": "b"}), "no to": entry(rename_member={"from": "b"}), "no details": entry(rename_member={}),
            "details a text": entry(rename_member="from to"), "details a list": entry(rename_member=["from", "to"]), "details nothing": {"from_version": 1, "to_version": 2, "rename_member": None},
            "entry a text": "rename_member", "entry a list": [good], "no from of a datatype": {"from_version": 1, "to_version": 2, "rename_datatype": {"to": "b"}},
        }
        bad = r.choice(sorted(broken))
        v = broken[bad]
        if bad == "no migrations":
            data.pop("migrations")
            data["migration"] = d
        elif bad.startswith("migrations"):
            data["migrations"] = v
        elif bad.startswith("type"):
            d[n] = v
        else:
            l = d.get(n) if isinstance(d.get(n), list) else []
            l.insert(r.randint(0, len(l)), v)
            d[n] = l
    p = f"{mon.tmp}/mig.yaml"
    open(p, "w").write(G.dump(r, copy.deepcopy(data)))
    mon.note(f"{bad}: {data}")
    mon.stat("migration_files")
    mon.distinct("migration_files", repr(data))
    try:
        got = SchemaMigrationReader.read_yaml(p)
    except Exception as e:
        mon.check(bad is not None, "migrations:rejects-valid-file", lambda: f"{e} {data}")
        return
    if not mon.check(bad is None, "migrations:accepts-invalid-file", lambda: f"{bad}: {data}"):
        return
    seen_ = {k: [(x.from_version, x.to_version, x.type.value, tuple(sorted(x.details.items()))) for x in v] for k, v in got.items()}
    mon.check({k: sorted(v) for k, v in seen_.items()} == {k: sorted(v) for k, v in want.items()}, "migrations:read", lambda: f"{seen_} expected {want}")
    mon.check(all([x[:2] for x in v] == sorted(x[:2] for x in v) for v in seen_.values()), "migrations:order", lambda: f"{seen_}")


def case(mon):
    mon.what = ""
    if mon.idx % 4 == 3:
        for _ in range(4):
            case_file(mon)
    else:
        case_pair(mon)
    mon.stat("histories")


Mon().run(case)
