"""C21: what the code generator writes: determinism, minimal updates, the list of files"""
import copy
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, REPO, VERIF, Mon  # noqa: E402
from vf.edits import Edit  # noqa: E402

SCRIPT = f"{REPO}/python/podio_class_generator.py"
LIST = "podio_generated_files.cmake"
OLD = 1_000_000_000_000_000_000


def tree(d):
    """{relative path: content} of all files below d"""
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            r[os.path.relpath(q, d)] = open(q, "rb").read()
    return r


def stamps(d, files):
    return {f: (os.stat(os.path.join(d, f)).st_mtime_ns, os.stat(os.path.join(d, f)).st_ino) for f in files}


def age(d):
    for p, _, fs in os.walk(d):
        for f in fs:
            os.utime(os.path.join(p, f), ns=(OLD, OLD))


def listed(txt, pkg):
    """the files of the generated list"""
    r = []
    for m in re.finditer(r"SET\((\w+)\n(.*?)\)", txt, re.S):
        for line in m[2].split("\n"):
            line = line.strip()
            if line:
                line = line.replace("${ARG_OUTPUT_FOLDER}/", "", 1).replace("${datamodel}", pkg)
                kind = {"headers": ".h", "sources": ".cc", "selection_xml": ".xml"}.get(m[1], "?")
                r.append(line if line.endswith(kind) else "not in the right list: " + line)
    return r


class Case:
    def __init__(self, mon):
        self.mon, self.r = mon, mon.rng()
        self.d = f"{mon.tmp}/case"
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.n = 0

    def run(self, y, out, pkg, opts=(), tail=(), crash=0, warm=None):
        """one generator process in random circumstances; returns (process, log)"""
        r = self.r
        self.n += 1
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VF_"))}
        env["PYTHONHASHSEED"] = str(r.choice([0, 1, r.randrange(2**32)]))
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        tmp = f"{self.d}/tmp{r.choice([0, 0, 0, 1]) if warm is None else warm}"
        os.makedirs(tmp, exist_ok=True)
        env["TMPDIR"] = tmp
        loc = r.randrange(4)
        if loc == 0:
            env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        elif loc == 1:
            env.update(LC_ALL="C.UTF-8")
        cwd = f"{self.d}/{r.choice(['w', 'w/x', 'out', '.'])}"
        os.makedirs(cwd, exist_ok=True)
        # paths absolute or relative to the working directory
        if r.random() < 0.5:
            y, out = os.path.relpath(y, cwd), os.path.relpath(out, cwd)
        log = f"{self.d}/log{self.n}"
        cmd = [sys.executable, "-B", f"{VERIF}/py/audited.py", log, str(crash), SCRIPT, *opts, *(["-q"] if r.random() < 0.5 else []), y, out, pkg, *tail]
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=300)
        ops = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
        self.mon.stat("generator_runs")
        self.mon.note(f"run {' '.join(cmd[5:])} in {cwd} hash seed {env['PYTHONHASHSEED']} locale {loc} crash {crash}: exit {p.returncode}")
        self.tmpdir = tmp
        return p, ops

    def contained(self, ops, out):
        for ev, p in ops:
            ok = p == out or p.startswith(out + "/") or p.startswith(self.tmpdir + "/") or p == "/dev/null" or (ev == "os.mkdir" and out.startswith(p + "/"))
            self.mon.check(ok, "write:outside-of-output", lambda: f"{ev} {p}")
            self.mon.stat("file_operations")

    def good(self, p, what):
        return self.mon.check(p.returncode == 0, "generator:fails", lambda: f"{what}: exit {p.returncode} {p.stdout[-800:]} {p.stderr[-1500:]}")


def perturb(r, d, files, mon):
    """changes some files of a generated tree; returns (changed, foreign)"""
    changed, foreign = set(), {}
    files = sorted(files)
    for f in r.sample(files, min(len(files), r.choice([0, 0, 1, 2, 5, len(files)]))):
        q = os.path.join(d, f)
        c = open(q, "rb").read()
        k = r.choice(["delete", "append", "cut", "cut", "empty", "flip", "other", "cutchar", "crlf"])
        if k == "delete":
            os.remove(q)
        elif k == "append":
            open(q, "ab").write(r.choice([b"\n", b" ", b"// more\n", "é".encode()]))
        elif k == "cut":
            open(q, "wb").write(c[:r.randrange(max(1, len(c)))])
        elif k == "cutchar":
            # in the middle of a character
            i = [j for j, b in enumerate(c) if b & 0xc0 == 0x80]
            if not i:
                continue
            open(q, "wb").write(c[:r.choice(i)])
            mon.stat("cut_in_a_character")
        elif k == "crlf":
            if b"\n" not in c:
                continue
            open(q, "wb").write(c.replace(b"\n", b"\r\n"))
        elif k == "empty":
            open(q, "wb").write(b"")
        elif k == "flip":
            if not c:
                continue
            i = r.randrange(len(c))
            x = b"x" if c[i:i + 1] != b"x" and c[i] < 128 and c[i:i + 1] not in (b"\n", b"\r") else None
            if x is None:
                continue
            open(q, "wb").write(c[:i] + x + c[i + 1:])
        else:
            o = os.path.join(d, r.choice(files))
            o = open(o, "rb").read() if os.path.exists(o) else b"other"
            if o == c:
                continue
            open(q, "wb").write(b"//" + o)
        changed.add(f)
        mon.stat("perturbed_" + k)
    for i in range(r.choice([0, 1, 3])):
        f = os.path.join(r.choice(["", "src", os.path.dirname(files[0]) if files else "", "sub"]), r.choice(["Foreign", "Old"]) + str(i) + r.choice([".h", ".cc", ".txt", ".cmake"]))
        q = os.path.join(d, f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        foreign[f] = b"foreign %d" % i
        open(q, "wb").write(foreign[f])
    return changed, foreign


def agree(mon, got, want, key, ignore=()):
    for f in sorted(set(got) | set(want)):
        if f in ignore:
            continue
        mon.check(got.get(f) == want.get(f), key, lambda: f"{f}: {'missing' if f not in got else 'in excess' if f not in want else first_diff(got[f], want[f])}")


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"differs at byte {i}: {a[max(0, i - 40):i + 60]!r} against {b[max(0, i - 40):i + 60]!r}"


def case(mon):
    c = Case(mon)
    r, d = c.r, c.d
    julia = r.random() < 0.15
    seed, pkg = f"c21/{mon.seed}/{mon.idx}", f"pk{mon.idx % 7}"
    m = G.random_model(seed, pkg, upstream_chance=0.3, size=r.choice([0.5, 1, 1, 2]), compile_safe=False)
    if julia and m.upstream:
        m.upstream.options["includeSubfolder"] = True
    os.makedirs(f"{d}/def")
    opts, tail = [], []
    if julia:
        opts += ["-l", "julia"]
        mon.stat("julia")
    else:
        tail = r.sample(["ROOT", "SIO", "ARROW"], r.randint(1, 3))
    if m.upstream:
        open(f"{d}/def/up.yaml", "w", encoding="utf-8").write(m.upstream.yaml(r))
        opts += ["--upstream-edm", f"{m.upstream.package}:{d}/def/up.yaml"]
        mon.stat("with_upstream")
    if not julia and r.random() < 0.3:
        opts += ["--datamodel-version", r.choice(["1.2", "v00-99-1", "3.4.5"])]
    if not julia and r.random() < 0.06:
        opts += ["-c"]
        mon.stat("formatted")
    dd = m.dict(r)
    y = f"{d}/def/m.yaml"
    open(y, "w", encoding="utf-8").write(G.dump(r, dd))
    mon.sample(f"{m.summary()} {opts} {tail}")
    mon.stat("histories")
    mon.distinct("nontrivial", json.dumps(dd) + str(tail))

    # reference
    A = f"{d}/out/a"
    before = tree(f"{d}/def")
    p, ops = c.run(y, A, pkg, opts, tail)
    if not c.good(p, "first"):
        return
    c.contained(ops, A)
    ref = tree(A)
    if not julia:
        lst = listed(ref.get(LIST, b"").decode(), pkg)
        mon.check(sorted(lst) == sorted(set(ref) - {LIST}), "list:not-the-files-made", lambda: f"listed only {sorted(set(lst) - set(ref))}, not listed {sorted(set(ref) - set(lst) - {LIST})}, {len(lst)} entries")
        mon.check(len(lst) == len(set(lst)), "list:repeats", lambda: lst)
    mon.stat("files", len(ref))
    mon.stat_max("files", len(ref))

    # elsewhere, formatted differently, dry first
    B = f"{d}/out/{r.choice(['b', 'deep/er/b', 'with space'])}"
    y2 = f"{d}/def/other.yaml"
    open(y2, "w", encoding="utf-8").write(G.dump(r, dd))
    before["other.yaml"] = open(y2, "rb").read()
    if r.random() < 0.5:
        p, ops = c.run(y2, B, pkg, opts + [r.choice(["-d", "--dryrun"])], tail)
        c.good(p, "dry")
        c.contained(ops, B)
        mon.check(not tree(B), "dry-run:writes", lambda: sorted(tree(B)))
        mon.stat("dry_runs")
    if r.random() < 0.5:
        # interrupted, then again
        k = r.randint(1, max(1, len(ref)))
        p, ops = c.run(y2, B, pkg, opts, tail, crash=k)
        w = [x for e, x in ops if e == "open" and x.startswith(B + "/")]
        if w and p.returncode == 99:
            q = w[-1]
            full = open(q, "rb").read() if os.path.exists(q) else b""
            open(q, "wb").write(full[:r.randrange(len(full) + 1)])
            mon.stat("interrupted")
    p, ops = c.run(y2, B, pkg, opts, tail)
    if c.good(p, "second"):
        c.contained(ops, B)
        agree(mon, tree(B), ref, "output:not-reproducible")

    # prior states of the output
    for _ in range(2):
        age(A)
        changed, foreign = perturb(r, A, ref, mon)
        age(A)
        state = tree(A)
        if r.random() < 0.3:
            p, ops = c.run(y, A, pkg, opts + ["-d"], tail)
            c.good(p, "dry over existing")
            agree(mon, tree(A), state, "dry-run:changes-files")
            mon.stat("dry_runs")
        st = stamps(A, [f for f in list(ref) + list(foreign) if f in state])
        p, ops = c.run(y, A, pkg, opts, tail)
        if not c.good(p, f"over {sorted(changed)}"):
            return
        c.contained(ops, A)
        now = tree(A)
        want = dict(ref)
        want.update({f: x for f, x in state.items() if f not in ref})
        agree(mon, now, want, "output:not-brought-up-to-date")
        for f, s in stamps(A, [f for f in st if f in now]).items():
            if f in changed or (f == LIST and changed):
                continue
            mon.check(s == st[f], "output:touched-without-need", lambda: f"{f} was rewritten with the same content; changed before: {sorted(changed)}")
            mon.stat("untouched")

    # another version of the definition in the same place
    m2 = copy.deepcopy(m)
    g = G.Gen(seed, pkg)
    e = Edit(m2, g, r)
    g.used.update(x.lower() for x in re.findall(r"\w+", G.dump(r, dd)))
    for _ in range(r.choice([1, 2, 4])):
        e.one()
    y3 = f"{d}/def/new.yaml"
    open(y3, "w", encoding="utf-8").write(G.dump(r, m2.dict(r)))
    before["new.yaml"] = open(y3, "rb").read()
    tail2 = tail if julia else r.sample(["ROOT", "SIO", "ARROW"], r.randint(1, 3))
    C = f"{d}/out/c"
    p, ops = c.run(y3, C, pkg, opts, tail2)
    if p.returncode == 0:
        new = tree(C)
        old = tree(A)
        age(A)
        if r.random() < 0.3:
            k = r.randint(1, len(new))
            c.run(y3, A, pkg, opts, tail2, crash=k)
            mon.stat("interrupted")
        old = tree(A)
        age(A)
        st = stamps(A, old)
        p, ops = c.run(y3, A, pkg, opts, tail2)
        c.good(p, "new version over the old one")
        c.contained(ops, A)
        now = tree(A)
        agree(mon, {f: x for f, x in now.items() if f in new}, new, "output:depends-on-earlier-version")
        agree(mon, {f: x for f, x in now.items() if f not in new}, {f: x for f, x in old.items() if f not in new}, "output:foreign-changed")
        diff = {f for f in new if old.get(f) != new[f]}
        for f, s in stamps(A, [f for f in st if f in now]).items():
            if f not in diff and not (f == LIST and diff):
                mon.check(s == st[f], "output:touched-without-need", lambda: f"{f} was rewritten with the same content")
                mon.stat("untouched")
        mon.stat("new_versions")
    else:
        mon.stat("edited_model_not_valid")
    agree(mon, tree(f"{d}/def"), dict(before, **({"up.yaml": before["up.yaml"]} if m.upstream else {})), "write:definition-changed")
    # nothing else came to be
    extra = [f for f in tree(d) if not f.startswith(("out/", "def/", "tmp0/", "tmp1/", "log"))]
    mon.check(not extra, "write:outside-of-output", lambda: f"{extra}")
    shutil.rmtree(d, ignore_errors=True)


Mon().run(case)
