"""Monitors that drive the code generator and compile what it makes."""
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import yaml

from . import build as B
from . import genmodel, probe


def versions(ctx):
    """C24: a version given to the generator is the one the generated datamodel has"""
    r = random.Random(f"c24/{ctx.seed}")
    n = ctx.n(12, 60)
    d = os.path.join(B.BUILD, "versions")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    want, src, inc = [], [], []

    def num():
        return r.choice([0, 1, 9, 10, 255, 65534, 65535, r.randrange(65536)])
    for i in range(n):
        v = None if i % 6 == 5 else tuple(num() for _ in range(r.choice([2, 3, 3])))
        text = None if v is None else r.choice(["", "v"]) + str(v[0]) + "".join(r.choice(".-") + str(x) for x in v[1:])
        pkg = f"vpkg{i}"
        y = os.path.join(d, pkg + ".yaml")
        sv = r.choice([1, 2, 3, 50, 65535])
        open(y, "w").write(f"schema_version: {sv}\noptions:\n  includeSubfolder: true\ndatatypes:\n  Thing{i}:\n    Description: d\n    Author: a\n    Members: ['int x // x']\n")
        p = B.run_generator(y, pkg, os.path.join(d, pkg), extra=[f"--datamodel-version={text}"] if text else [])
        if not ctx.check(p.returncode == 0, "version:generator-refuses", f"{text}: {p.stdout} {p.stderr}", cmd=["versions"]):
            return
        want.append((pkg, v, sv, text))
        inc.append(f"-I{d}/{pkg}")
        src += [f'#include "{d}/{pkg}/src/{f}"\n' for f in sorted(os.listdir(f"{d}/{pkg}/src")) if f.endswith(".cc")]
    main = "".join(src) + '#include "podio/DatamodelRegistry.h"\n#include <iostream>\nint main() {\n'
    for pkg, v, sv, _ in want:
        main += f'  {{ auto v = podio::DatamodelRegistry::instance().getDatamodelVersion("{pkg}"); std::cout << "{pkg} " << (v ? std::string(*v) : "none") << " " << {pkg}::meta::schemaVersion << "\\n"; }}\n'
    main += "}\n"
    open(os.path.join(d, "main.cc"), "w").write(main)
    core = os.path.join(B.BUILD, "asan", "o")
    objs = [os.path.join(core, f) for f in sorted(os.listdir(core)) if f.startswith("core_") and f.endswith(".o")]
    exe = os.path.join(d, "main")
    p = subprocess.run(["clang++", "-std=c++20", *B.FLAVOURS["asan"], "-w", f"-I{B.BUILD}/asan/inc", f"-I{B.REPO}/include", *inc, os.path.join(d, "main.cc"), *objs, "-o", exe, "-pthread"], capture_output=True, text=True, errors="backslashreplace")
    if not ctx.check(p.returncode == 0, "version:generated-code-does-not-compile", p.stderr[-3000:], cmd=["versions"]):
        return
    p = subprocess.run([exe], capture_output=True, text=True, errors="backslashreplace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"), timeout=120)
    got = dict((x.split(" ")[0], x.split(" ")[1:]) for x in p.stdout.strip().split("\n") if " " in x)
    for pkg, v, sv, text in want:
        w = "none" if v is None else ".".join(str(x) for x in (v + (0,))[:3])
        ctx.check(got.get(pkg) == [w, str(sv)], "version:of-generated-datamodel", f"version given {text!r}, schema version {sv}: the datamodel reports {got.get(pkg)} {p.stderr[-500:]}", cmd=["versions"])
        ctx.stat("generated_versions")
        ctx.distinct("nontrivial", hash(text))
    shutil.rmtree(d, ignore_errors=True)


ERR = re.compile(r"^(\S+?):\d+:\d+: (?:fatal )?error: (.*)$", re.M)


def first_error(txt, d):
    m = ERR.search(txt)
    if not m:
        return "link", txt[-1500:]
    what = re.sub(r"'[^']*'", "'..'", m[2])
    return what[:80], txt[m.start():m.start() + 1500]


def generate(d, m, r, handlers=("ROOT",)):
    """generates the model and its upstream models below d; returns (ok, message)"""
    ups = []
    mods = []
    x = m
    while x:
        mods.insert(0, x)
        x = x.upstream
    for x in mods:
        y = f"{d}/{x.package}.yaml"
        open(y, "w").write(x.yaml(r))
        p = B.run_generator(y, x.package, f"{d}/{x.package}", handlers=handlers, extra=ups)
        if p.returncode:
            return False, f"{x.summary()}: {p.stdout[-1500:]} {p.stderr[-1500:]}"
        ups = ["--upstream-edm", f"{x.package}:{y}"]
    return True, ""


def header_dirs(d, mods):
    """where generated headers are found, depending on whether they are included with their folder"""
    return [f"{d}/{x.package}" if x.opt("includeSubfolder") else f"{d}/{x.package}/{x.package}" for x in mods]


INCLUDE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', re.M)


def include_case(base, seed):
    """a random model is generated: every header a generated file includes is there"""
    d = os.path.join(base, f"i{seed}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    m = genmodel.random_model(f"c19i/{seed}", package=f"pk{seed % 97}", upstream_chance=0.7)
    r = random.Random(f"inc{seed}")
    res = dict(model=m, viol=[], includes=0)
    cmd = ["includes", str(seed)]
    try:
        ok, msg = generate(d, m, r)
        if not ok:
            res["viol"].append(("generator:fails-on-valid-model", msg, cmd))
            return res
        mods = [m] + ([m.upstream] if m.upstream else [])
        dirs = [f"{B.REPO}/include", f"{B.BUILD}/asan/inc", *header_dirs(d, mods)]
        for sub in (m.package, "src"):
            for f in sorted(os.listdir(f"{d}/{m.package}/{sub}")):
                if f.endswith((".h", ".cc")):
                    t = open(f"{d}/{m.package}/{sub}/{f}", encoding="utf-8").read()
                    for i in INCLUDE.findall(t):
                        if "/" in i and i.split("/")[0] not in ("podio", *(x.package for x in mods)):
                            continue
                        res["includes"] += 1
                        if not any(os.path.exists(f"{x}/{i}") for x in dirs):
                            res["viol"].append(("generated-code-does-not-compile:missing-header", f"model {seed} ({m.summary()}): {f} includes {i}", cmd))
                            return res
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_case(ctx, base, seed, keep=False):
    """one random model: generates, compiles with a probe, runs it. Returns dict of results"""
    d = os.path.join(base, str(seed))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    m = genmodel.random_model(f"c19/{seed}", package=f"pk{seed % 97}", upstream_chance=0.3)
    r = random.Random(f"probe{seed}")
    res = dict(model=m, seed=seed, viol=[], checks=0)
    cmd = ["model", str(seed)]

    def bad(key, detail):
        res["viol"].append((key, f"model {seed} ({m.summary()}): {detail}", cmd))
    ok, msg = generate(d, m, r)
    if not ok:
        bad("generator:fails-on-valid-model", msg)
        return res
    mods = []
    x = m
    while x:
        mods.append(x)
        x = x.upstream
    incs = [f"-I{d}/{x.package}" for x in mods] + [f"-I{d}/{x.package}/{x.package}" for x in mods]
    src = {x.package: [f"{d}/{x.package}/src/{f}" for f in sorted(os.listdir(f"{d}/{x.package}/src")) if f.endswith(".cc")] for x in mods}
    heads = [f"{d}/{m.package}/{m.package}/{f}" for f in sorted(os.listdir(f"{d}/{m.package}/{m.package}"))]
    base = ["-std=c++20", "-w", f"-I{B.BUILD}/asan/inc", f"-I{B.REPO}/include"]
    flags = base + incs
    strict = base + [f"-I{x}" for x in header_dirs(d, mods)]
    core = os.path.join(B.BUILD, "asan", "o")
    objs = [os.path.join(core, f) for f in sorted(os.listdir(core)) if f.startswith("core_") and f.endswith(".o")]
    open(f"{d}/probe.cc", "w").write(probe.Probe(m, r).text())
    exe = f"{d}/probe"

    def run(args):
        return subprocess.run(args, capture_output=True, text=True, errors="replace")
    # some of the files alone: each must bring what it needs
    for f in r.sample(src[m.package], min(2, len(src[m.package]))) + r.sample(heads, min(2, len(heads))):
        p = run(["clang++", *strict, "-fsyntax-only", "-x", "c++", f])
        res["alone"] = res.get("alone", 0) + 1
        if p.returncode:
            k, e = first_error(p.stderr, d)
            bad("generated-code-does-not-compile:" + k, e)
            return res
    for i, x in enumerate(mods):
        # an upstream model is built on its own
        r.shuffle(src[x.package])
        open(f"{d}/{x.package}.cc", "w").write("".join(f'#include "{f}"\n' for f in src[x.package]))
        own = [f"-I{y}" for y in header_dirs(d, mods[i:])]
        p = run(["clang++", *base, *own, *B.FLAVOURS["asan"], "-c", f"{d}/{x.package}.cc", "-o", f"{d}/{x.package}.o"])
        if p.returncode:
            k, e = first_error(p.stderr, d)
            bad("generated-code-does-not-compile:" + k, e)
            return res
    p = run(["clang++", *flags, *B.FLAVOURS["asan"], "-c", f"{d}/probe.cc", "-o", f"{d}/probe.o"])
    if p.returncode:
        k, e = first_error(p.stderr, d)
        bad("api:not-as-declared:" + k, e)
        return res
    p = run(["clang++", *B.FLAVOURS["asan"], *[f"{d}/{x.package}.o" for x in mods], f"{d}/probe.o", *objs, "-o", exe, "-pthread"])
    if p.returncode:
        bad("generated-code-does-not-link", p.stderr[-1500:])
        return res
    try:
        p = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1"))
    except subprocess.TimeoutExpired:
        bad("hang", "the probe did not finish")
        return res
    for line in p.stdout.split("\n"):
        if line.startswith("BAD "):
            bad("api:" + line.split(" ")[1], line)
        elif line.startswith("JSON "):
            res["json"] = line[5:]
        elif line.startswith("CHECKS "):
            res["checks"] = int(line.split()[1])
    if p.returncode or not res["checks"]:
        bad("crash:probe", p.stderr[-2500:])
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return res


def models(ctx):
    """C19: random datamodels, generated, compiled and held against their definition"""
    n = ctx.n(40, 2000)
    base = os.path.join(B.BUILD, "models")
    os.makedirs(base, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(lambda i: model_case(ctx, base, ctx.seed * 100000 + i), range(n)):
            m = res["model"]
            for key, detail, cmd in res["viol"]:
                ctx.violation(key, detail, cmd=cmd)
            ctx.stat("models")
            ctx.stat("checks", res["checks"])
            ctx.stat("files_compiled_alone", res.get("alone", 0))
            ctx.stat("datatypes", len(m.types))
            ctx.stat("components", len(m.comps))
            ctx.stat("interfaces", len(m.ifaces))
            ctx.stat("links", len(m.links))
            ctx.stat("with_upstream", 1 if m.upstream else 0)
            ctx.distinct("options", hash(tuple(m.opt(k) for k in sorted(m.DEFAULTS)) + (bool(m.upstream),)))
            ctx.distinct("nontrivial", hash(m.summary()))
            ctx.sample(m.summary())


def io_case(base, seed, backend):
    """one random model, of which frames are written and read with a backend"""
    d = os.path.join(base, f"{backend.lower()}{seed}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    m = genmodel.random_model(f"io{backend}/{seed}", package=f"pk{seed % 97}", upstream_chance=0.3)
    r = random.Random(f"io{seed}")
    res = dict(model=m, viol=[], checks=0)
    cmd = ["io", backend, str(seed)]

    def bad(key, detail):
        res["viol"].append((key, f"model {seed} ({m.summary()}): {detail}", cmd))
    try:
        ok, msg = generate(d, m, r, handlers=("ROOT", backend))
        if not ok:
            bad("generator:fails-on-valid-model", msg)
            return res
        mods = [m] + ([m.upstream] if m.upstream else [])
        own = os.path.join(B.BUILD, f"asan-m-vf_{backend.lower()}")
        flags = ["-std=c++20", "-w", f"-I{B.VERIF}/stubs/{dict(ROOT='rootio').get(backend, backend.lower())}", *(["-DPODIO_ENABLE_RNTUPLE=1"] if backend == "ROOT" else [f"-I{B.VERIF}/stubs/root", f"-DPODIO_ENABLE_{backend}=1"]), f"-I{own}/inc", f"-I{own}/inc/podio", f"-I{B.REPO}/include"]
        objs = [f"{own}/o/{f}" for f in sorted(os.listdir(f"{own}/o")) if f.startswith("core_") and f.endswith(".o")]
        todo = []
        for i, x in enumerate(mods):
            src = [f"{d}/{x.package}/src/{f}" for f in sorted(os.listdir(f"{d}/{x.package}/src")) if f.endswith(".cc")]
            r.shuffle(src)
            open(f"{d}/{x.package}.cc", "w").write("".join(f'#include "{f}"\n' for f in src))
            todo.append((x.package, [f"-I{y}" for y in header_dirs(d, mods[i:])], "generated-code-does-not-compile:"))
        classes = []
        if backend == "ROOT":  # what the dictionaries of ROOT will have
            for x in mods:
                names = re.findall(r'<class name="([^"]*)"', open(f"{d}/{x.package}/src/selection.xml").read())
                want = [w for c in x.comps for w in (c.name, f"std::vector<{c.name}>")]
                for t in x.types:
                    ns, bare = t.name.rpartition("::")[0::2]
                    q = ns + "::" if ns else ""
                    want += [t.name, f"{q}Mutable{bare}", f"{t.name}Collection", f"{t.name}Data", f"std::vector<{t.name}Data>"]
                res["checks"] += len(want)
                for w in want:
                    if w not in names:
                        bad("root:selection-lacks-class", f"{w} is not among {names}")
                classes += [n[12:-1] for n in names if n.startswith("std::vector<")]
        open(f"{d}/probe.cc", "w").write(probe.IOProbe(m, r).io_text(backend, *([classes] if classes else [])))
        todo.append(("probe", [f"-I{d}/{x.package}" for x in mods] + [f"-I{d}/{x.package}/{x.package}" for x in mods], "api:not-as-declared:"))
        for name, inc, key in todo:
            p = subprocess.run(["clang++", *flags, *inc, *B.FLAVOURS["asan"], "-c", f"{d}/{name}.cc", "-o", f"{d}/{name}.o"], capture_output=True, text=True, errors="replace")
            if p.returncode:
                k, e = first_error(p.stderr, d)
                bad(key + k, e)
                return res
        p = subprocess.run(["clang++", *B.FLAVOURS["asan"], *[f"{d}/{n}.o" for n, _, _ in todo], *objs, "-o", f"{d}/probe", "-pthread", "-lz"], capture_output=True, text=True, errors="replace")
        if p.returncode:
            bad("generated-code-does-not-link", p.stderr[-1500:])
            return res
        try:
            p = subprocess.run([f"{d}/probe"], cwd=d, capture_output=True, text=True, errors="replace", timeout=120, env={**{k: v for k, v in os.environ.items() if k not in ("PODIO_SIOBLOCK_PATH", "LD_LIBRARY_PATH")}, "ASAN_OPTIONS": "detect_leaks=0"})
        except subprocess.TimeoutExpired:
            bad("hang", "the probe did not finish")
            return res
        for line in p.stdout.split("\n"):
            if line.startswith("BAD "):
                bad(line.split(" ")[1], line)
            elif line.startswith("CHECKS "):
                res["checks"] = int(line.split()[1])
        if p.returncode or not res["checks"]:
            bad("crash:io-probe", p.stderr[-2500:])
        return res
    finally:
        if not res["viol"]:
            shutil.rmtree(d, ignore_errors=True)


def io_models(backend):
    def f(ctx):
        n = ctx.n(16, 600)
        base = os.path.join(B.BUILD, "models")
        os.makedirs(base, exist_ok=True)
        with ThreadPoolExecutor(8) as ex:
            for res in ex.map(lambda i: io_case(base, ctx.seed * 100000 + i, backend), range(n)):
                for key, detail, cmd in res["viol"]:
                    ctx.violation(key, detail, cmd=cmd)
                ctx.stat("random_datamodels")
                ctx.stat("random_datamodel_checks", res["checks"])
                ctx.sample(res["model"].summary())
    return f


def includes(ctx):
    """C19: more random datamodels, whose generated files are only searched for headers that are not there"""
    base = os.path.join(B.BUILD, "models")
    os.makedirs(base, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(lambda i: include_case(base, ctx.seed * 100000 + i), range(ctx.n(300, 6000))):
            for key, detail, cmd in res["viol"]:
                ctx.violation(key, detail, cmd=cmd)
            ctx.stat("models_searched_for_headers")
            ctx.stat("includes", res["includes"])
            ctx.stat("checks", res["includes"])


def embedded(ctx):
    """C18: what the registry holds at run time is what was embedded when generating"""
    out = os.path.join(B.BUILD, "registered.json")
    p = subprocess.run([ctx.exes["d_model"], f"out={out}"], capture_output=True, text=True, errors="backslashreplace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    if not ctx.check(os.path.exists(out), "registry:dump", p.stderr[-1500:], cmd=["embedded"]):
        return
    got = json.load(open(out))
    for pkg, ver in (("vm", "none"), ("vx", B.VX_VERSION)):
        h = open(os.path.join(os.path.dirname(ctx.exes["d_model"]), "gen", pkg, pkg, "DatamodelDefinition.h"), encoding="utf-8").read()
        x = re.search(r'R"DATAMODELDEF\((.*)\)DATAMODELDEF"', h, re.S)
        ctx.check(x and got[pkg]["definition"] == x[1], "registry:not-the-embedded-definition", pkg, cmd=["embedded"])
        ctx.check(got[pkg]["version"] == ver, "registry:version-of-generated-model", f"{pkg}: {got[pkg]['version']} expected {ver}", cmd=["embedded"])
    os.remove(out)


def evolution(ctx):
    """C27: datamodels generated together with older versions of them"""
    from . import evocase
    n = ctx.n(90, 4000)
    base = os.path.join(B.BUILD, "evolution")
    os.makedirs(base, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(lambda i: evocase.case(base, ctx.seed * 100000 + i), range(n)):
            for key, detail, cmd in res["viol"]:
                ctx.violation(key, detail, cmd=cmd)
            ctx.stat("histories")
            ctx.stat("checks", res["checks"])
            ctx.stat("rules_run", res.get("rules", 0))
            ctx.stat("histories_" + res["kind"].replace(" ", "_"))
            ctx.distinct("nontrivial", hash(res["summary"]))
            ctx.sample(res["summary"])
    shutil.rmtree(base, ignore_errors=True)


def dumped_models(ctx):
    """C29: a datamodel definition dumped from a file is YAML that says the same and generates the same code"""
    d = os.path.dirname(ctx.exes["d_sio"])
    w = tempfile.mkdtemp(dir=B.BUILD)
    try:
        f = f"{w}/one.sio"
        p = subprocess.run([ctx.exes["d_sio"], "mode=one", f"out={f}", "to=1"], capture_output=True, text=True, errors="backslashreplace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        if not ctx.check(os.path.exists(f), "dump:file", p.stderr[-1500:], cmd=["dumped"]):
            return
        os.makedirs(f"{w}/bin")
        for t in ("podio-dump", "json-to-yaml"):
            shutil.copy(f"{B.REPO}/tools/{t}", f"{w}/bin/{t}")
        os.symlink(ctx.exes["podio-dump-tool"], f"{w}/bin/podio-dump-tool")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", PYTHONDONTWRITEBYTECODE="1")
        run = lambda *a: subprocess.run([f"{w}/bin/podio-dump", *a], capture_output=True, text=True, errors="backslashreplace", timeout=120, env=env)
        for pkg, extra in (("vm", []), ("vx", ["--upstream-edm", f"vm:{w}/vm.yaml", "--datamodel-version", B.VX_VERSION])):
            r = run("--dump-edm", pkg, f)
            if not ctx.check(r.returncode == 0, "dump:wrapper-exit-code", r.stderr[-800:], cmd=["dumped"]):
                continue
            h = open(f"{d}/gen/{pkg}/{pkg}/DatamodelDefinition.h", encoding="utf-8").read()
            want = json.loads(re.search(r'R"DATAMODELDEF\((.*)\)DATAMODELDEF"', h, re.S)[1])
            try:
                got = yaml.safe_load(r.stdout)
            except yaml.YAMLError as e:
                got = repr(e)
            ctx.check(got == want, "dump:yaml-differs", pkg, cmd=["dumped"])
            open(f"{w}/{pkg}.yaml", "w").write(r.stdout)
            g = B.run_generator(f"{w}/{pkg}.yaml", pkg, f"{w}/{pkg}", handlers=("ROOT", "SIO"), extra=extra)
            if not ctx.check(g.returncode == 0, "dump:yaml-not-valid", g.stderr[-800:], cmd=["dumped"]):
                continue
            for root, _, fs in os.walk(f"{w}/{pkg}"):
                for x in fs:
                    rel = os.path.relpath(os.path.join(root, x), f"{w}/{pkg}")
                    if not x.endswith((".h", ".cc", ".xml")):
                        continue
                    a = open(f"{w}/{pkg}/{rel}", "rb").read()
                    b = open(f"{d}/gen/{pkg}/{rel}", "rb").read() if os.path.exists(f"{d}/gen/{pkg}/{rel}") else None
                    ctx.check(a == b, "dump:other-code-from-the-dumped-model", f"{pkg}/{rel}", cmd=["dumped"])
                    ctx.stat("generated_files_compared")
        r = run("--dump-edm", "none", f)
        ctx.check(r.returncode != 0, "dump:wrapper-exit-code", "unknown model", cmd=["dumped"])
        a, b = run("-d", "-e", "-1", f), subprocess.run([ctx.exes["podio-dump-tool"], "-d", "-e", "-1", f], capture_output=True, text=True, errors="backslashreplace", timeout=120, env=env)
        ctx.check(a.returncode == b.returncode == 0 and a.stdout == b.stdout, "dump:wrapper-output", a.stderr[-500:], cmd=["dumped"])
        ctx.stat("wrapper_runs", 4)
    finally:
        shutil.rmtree(w, ignore_errors=True)


PLUGIN = """#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
__attribute__((constructor)) static void loaded() {
  Dl_info i;
  dladdr((void*)loaded, &i);
  printf("PLUGIN %s\\n", i.dli_fname);
  fflush(stdout);
}
"""


def plugins(ctx):
    """C30: the libraries with SIO blocks are found where the environment says, each once"""
    w = tempfile.mkdtemp(dir=B.BUILD)
    try:
        open(f"{w}/p.c", "w").write(PLUGIN)
        subprocess.run(["clang", "-shared", "-fPIC", f"{w}/p.c", "-o", f"{w}/p.so"], check=True)

        def case(i):
            r = random.Random(f"plugins{ctx.seed}/{i}")
            d = f"{w}/{i}"
            os.makedirs(d)
            dirs = {}
            for k in range(r.choice([1, 1, 2, 2, 3, 4, 5])):
                p = f"{d}/{r.choice('abcd')}{k}"
                kind = r.choice(["missing", "empty", "other", "libs", "libs", "libs"] + (["file"] if k else []))
                libs = {}
                if kind == "file":
                    open(p, "w").write("x")
                elif kind != "missing":
                    os.makedirs(p)
                if kind in ("other", "libs"):
                    shutil.copy(f"{w}/p.so", f"{p}/libother.so")
                    shutil.copy(f"{w}/p.so", f"{p}/libsioblocks.so")
                if kind == "libs":
                    for n in r.sample(["libvmSioBlocks.so", "libvxSioBlocks.so", "libASioBlocks.so", "SioBlocksB.so"], r.randint(1, 3)):
                        good = r.random() < 0.8
                        if good:
                            shutil.copy(f"{w}/p.so", f"{p}/{n}")
                        else:
                            open(f"{p}/{n}", "w").write("not a library")
                        libs[n] = good
                dirs[p] = libs
            order = list(dirs)
            env = {k: v for k, v in os.environ.items() if k not in ("LD_LIBRARY_PATH", "PODIO_SIOBLOCK_PATH")}
            env["ASAN_OPTIONS"] = "detect_leaks=0"
            var = r.choice(["PODIO_SIOBLOCK_PATH", "PODIO_SIOBLOCK_PATH", "LD_LIBRARY_PATH", "none"])
            if var == "PODIO_SIOBLOCK_PATH":
                env[var] = ":".join(order)
                if r.random() < 0.5: # not looked at
                    os.makedirs(f"{d}/other")
                    shutil.copy(f"{w}/p.so", f"{d}/other/libotherSioBlocks.so")
                    env["LD_LIBRARY_PATH"] = f"{d}/other"
            elif var == "LD_LIBRARY_PATH":
                env[var] = ":".join(order)
            want, fails = [], 0
            for p in order if var != "none" else []:
                new = []
                for n, good in dirs[p].items():
                    if not any(n == os.path.basename(x) for x in want):
                        if good:
                            new.append(f"{p}/{n}")
                        else:
                            fails += 1
                want += sorted(new)
            p = subprocess.run([ctx.exes["d_files"], "mode=plugins", "to=1", f"out={d}/out.sio", "how=" + r.choice(["reader", "writer"])], capture_output=True, text=True, errors="backslashreplace", env=env, timeout=120)
            return dict(env={k: env.get(k) for k in ("PODIO_SIOBLOCK_PATH", "LD_LIBRARY_PATH")}, dirs=dirs, var=var, want=want, fails=fails, out=p.stdout, err=p.stderr, rc=p.returncode)
        n = ctx.n(60, 3000)
        with ThreadPoolExecutor(max_workers=6) as ex:
            for i, x in enumerate(ex.map(case, range(n))):
                info = f"case {i}: {x['env']} with {x['dirs']}: {x['out'][-600:]} {x['err'][-600:]}"
                got = re.findall(r"^PLUGIN (.*)$", x["out"], re.M)
                if not ctx.check(x["rc"] in (0, 1), "plugins:crash", info, cmd=["plugins", str(i)]):
                    continue
                # the order of the directories is kept, the one of files in a directory is not specified
                by = lambda v: [(d, sorted(os.path.basename(q) for q in v if os.path.dirname(q) == d)) for d in dict.fromkeys(map(os.path.dirname, v))]
                none = x["var"] == "PODIO_SIOBLOCK_PATH" and not any(x["dirs"].values())
                ctx.check(by(got) == by(x["want"]), "plugins:libraries-loaded", f"expected {x['want']} {info}", cmd=["plugins", str(i)])
                ctx.check(len(got) == len(set(got)), "plugins:loaded-twice", info, cmd=["plugins", str(i)])
                if none:
                    ctx.check("EXCEPTION" in x["out"] and "CREATED" not in x["out"], "plugins:no-library-not-reported", info, cmd=["plugins", str(i)])
                else:
                    ctx.check(x["out"].count("CREATED") == 2 and "EXCEPTION" not in x["out"], "plugins:not-usable", info, cmd=["plugins", str(i)])
                    ctx.check(x["err"].count("ERROR while loading") == x["fails"], "plugins:broken-library-not-reported", f"expected {x['fails']} {info}", cmd=["plugins", str(i)])
                ctx.stat("plugin_environments")
                ctx.stat("libraries_loaded", len(got))
                ctx.distinct("nontrivial", repr((x["dirs"], x["var"])))
    finally:
        shutil.rmtree(w, ignore_errors=True)
