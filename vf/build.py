"""Builds monitors against /repo's current working tree with sanitizers.

Everything goes to /verif/.build (git ignored). ninja tracks headers through
depfiles, generated code is refreshed by content, so a build reflects exactly
the current tree of /repo."""
import filecmp
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
PY = sys.executable

CORE_DEFAULT = ["CollectionIDTable.cc", "GenericParameters.cc", "DatamodelRegistry.cc",
                "DatamodelRegistryIOHelpers.cc", "UserDataCollection.cc", "CollectionBufferFactory.cc",
                "MurmurHash3.cpp", "SchemaEvolution.cc", "Glob.cc"]


class BuildError(Exception):
    pass


class GeneratorError(Exception):
    """the code generator of /repo failed on a valid datamodel"""


def core_sources():
    txt = open(f"{REPO}/src/CMakeLists.txt").read()
    m = re.search(r"SET\(core_sources\s+(.*?)\)", txt, re.S)
    src = m[1].split() if m else CORE_DEFAULT
    return [s for s in src if s != "Pythonizations.cc"]


def sync_tree(src, dst):
    """make dst equal to src by content, keeping mtimes of unchanged files"""
    os.makedirs(dst, exist_ok=True)
    want = set()
    for root, _, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            want.add(p)
            s, d = os.path.join(src, p), os.path.join(dst, p)
            if not os.path.exists(d) or not filecmp.cmp(s, d, shallow=False):
                shutil.copyfile(s, d)
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.relpath(os.path.join(root, f), dst))
            if p not in want:
                os.remove(os.path.join(dst, p))


def run_generator(yaml, package, out, handlers=("ROOT",), extra=(), timeout=120):
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, f"{REPO}/python/podio_class_generator.py", "-q", *extra, yaml, out, package, *handlers],
                       capture_output=True, text=True, errors="backslashreplace", timeout=timeout, env=env)
    return r


VX_VERSION = "12.0.345"

FLAVOURS = {
    "asan": ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
}
WARN_OFF = ["-w"]


def version_header(dst):
    cm = open(f"{REPO}/CMakeLists.txt").read()
    s = open(f"{REPO}/podioVersion.in.h").read()
    for k in ("MAJOR", "MINOR", "PATCH"):
        v = re.search(r"VERSION_%s\s+(\d+)" % k, cm)[1]
        s = s.replace(f"@podio_VERSION_{k}@", v)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst).read() != s:
        open(dst, "w").write(s)


def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


def version_tables(dst, seed):
    """versions as literals, as they only work in macros and at compile time"""
    import random
    r = random.Random(f"versions{seed}")

    def one(near=None):
        if near and r.random() < 0.5:
            v = list(near)
            i = r.randrange(3)
            v[i] = min(65535, max(0, v[i] + r.choice([-1, 0, 1])))
            return tuple(v)
        return tuple(r.choice([0, 1, 2, 99, 255, 256, 32767, 32768, 65534, 65535, r.randrange(65536), r.randrange(65536)]) for _ in range(3))
    vs = [one() for _ in range(300)]
    vs += [one(r.choice(vs)) for _ in range(300)]
    cm = open(f"{REPO}/CMakeLists.txt").read()
    tree = ", ".join(re.search(r"VERSION_%s\s+(\d+)" % k, cm)[1] for k in ("MAJOR", "MINOR", "PATCH"))
    s = "#define VF_VERSIONS(X) \\\n" + " \\\n".join(f"  X({a}, {b}, {c})" for a, b, c in vs) + f"\n#define VF_TREE_VERSION {tree}\n"
    write_if_changed(os.path.join(dst, "vf_versions.h"), s)
    s = ""
    for _ in range(200):
        a = r.choice(vs)
        b = one(a)
        for op, want in (("<", a < b), ("==", a == b), (">=", a >= b)):
            t = f"PODIO_VERSION({a[0]}, {a[1]}, {a[2]}) {op} PODIO_VERSION({b[0]}, {b[1]}, {b[2]})"
            s += f"#if {t}\n  check({str(want).lower()}, \"version:preprocessor\", \"{t}\");\n#else\n  check({str(not want).lower()}, \"version:preprocessor\", \"{t}\");\n#endif\n"
        s += f"#if PODIO_MAJOR_VERSION(PODIO_VERSION({a[0]}, {a[1]}, {a[2]})) != {a[0]} || PODIO_MINOR_VERSION(PODIO_VERSION({a[0]}, {a[1]}, {a[2]})) != {a[1]} || PODIO_PATCH_VERSION(PODIO_VERSION({a[0]}, {a[1]}, {a[2]})) != {a[2]}\n  check(false, \"version:preprocessor-parts\", \"{a}\");\n#endif\n"
    write_if_changed(os.path.join(dst, "vf_version_ifs.h"), s)


class Builder:
    def __init__(self, flavour="asan", model=False, defines=(), tag=None):
        self.flavour = flavour
        self.model = model
        self.defines = list(defines)
        self.dir = os.path.join(BUILD, tag or (flavour + ("-m" if model else "") + "".join("-" + d.split("=")[0].lower() for d in defines)))
        os.makedirs(self.dir, exist_ok=True)
        self.gen = os.path.join(self.dir, "gen")

    def generate(self):
        """generated datamodels and adapters; returns list of unity source files"""
        from . import model as M
        tmp = tempfile.mkdtemp(prefix="vfgen", dir=self.dir)
        try:
            for pkg, extra in (("vm", []), ("vx", ["--upstream-edm", f"vm:{VERIF}/models/vm.yaml", "--datamodel-version", VX_VERSION])):
                r = run_generator(f"{VERIF}/models/{pkg}.yaml", pkg, os.path.join(tmp, pkg), extra=extra,
                                  handlers=("ROOT", *(("SIO",) if "VF_SIO" in self.defines else ()), *(("ARROW",) if "VF_ARROW" in self.defines else ())))
                if r.returncode:
                    raise GeneratorError(r.stdout[-2000:] + r.stderr[-4000:])
            vm = M.Model(f"{VERIF}/models/vm.yaml", "vm")
            vx = M.Model(f"{VERIF}/models/vx.yaml", "vx", vm)
            ad = M.Adapter([vm, vx])
            ad.write(os.path.join(tmp, "ad"))
            # unity chunks
            uni = os.path.join(tmp, "uni")
            os.makedirs(uni)
            for pkg, mod, n in (("vm", vm, 7), ("vx", vx, 2)):
                src = sorted(f for f in os.listdir(os.path.join(tmp, pkg, "src")) if f.endswith(".cc"))
                groups = {}
                for f in src:
                    b = f[:-3]
                    for t in sorted(list(mod.datatypes) , key=lambda x: -len(x)):
                        bt = t.split("::")[-1]
                        if b in (bt, "Mutable" + bt, bt + "Obj", bt + "Collection", bt + "CollectionData", bt + "SIOBlock"):
                            b = bt
                            break
                    groups.setdefault(b, []).append(f)
                order = sorted(groups, key=lambda g: (-len(groups[g]), g))
                chunks = [[] for _ in range(n)]
                for i, g in enumerate(order):
                    chunks[i % n] += groups[g]
                for i, c in enumerate(chunks):
                    open(os.path.join(uni, f"{pkg}_{i}.cc"), "w").write("".join(f'#include "{pkg}/src/{f}"\n' for f in c))
            ops = sorted(f for f in os.listdir(os.path.join(tmp, "ad")) if f.startswith("ops_"))
            n = 8
            ops.sort(key=lambda f: -os.path.getsize(os.path.join(tmp, "ad", f)))
            for i in range(n):
                open(os.path.join(uni, f"ad_{i}.cc"), "w").write("".join(f'#include "ad/{f}"\n' for f in ops[i::n]))
            sync_tree(tmp, self.gen)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return sorted(os.path.join(self.gen, "uni", f) for f in os.listdir(os.path.join(self.gen, "uni")))

    def build(self, exes, jobs=None, core=True, libs=()):
        """exes: {name: [sources in /verif/cpp]}; returns {name: path}"""
        inc = os.path.join(self.dir, "inc")
        version_header(os.path.join(inc, "podio", "podioVersion.h"))
        if "d_vers" in exes:
            version_tables(inc, os.environ.get("VERIF_SEED", "1"))
        units = self.generate() if self.model else []
        flags = ["-std=c++20", *FLAVOURS[self.flavour], *WARN_OFF, f"-I{inc}", f"-I{inc}/podio", f"-I{REPO}/include",
                 f"-I{VERIF}/cpp"] + [f"-D{d}" for d in self.defines]
        sources = core_sources()
        if "VF_SIO" in self.defines:
            flags = [*flags[:1], f"-I{VERIF}/stubs/sio", f"-I{VERIF}/stubs/root", f"-I{REPO}/tools/src", "-DPODIO_ENABLE_SIO=1", "-DPODIO_ENABLE_RNTUPLE=1", *flags[1:]]
            sources += ["SIOBlock.cc", "SIOBlockUserData.cc", "SIOFrameData.cc", "SIOReader.cc", "SIOWriter.cc", "Reader.cc", "Writer.cc"]
            libs = [*libs, "-lz", "-lfmt"]
        if "VF_ARROW" in self.defines:
            flags = [*flags[:1], f"-I{VERIF}/stubs/arrow", "-DPODIO_ENABLE_ARROW=1", *flags[1:]]
            sources += sorted(f for f in os.listdir(f"{REPO}/src") if f.startswith("Arrow") and f.endswith(".cc"))
        if "VF_ROOT" in self.defines:
            flags = [*flags[:1], f"-I{VERIF}/stubs/rootio", "-DPODIO_ENABLE_RNTUPLE=1", *flags[1:]]
            sources += ["ROOTFrameData.cc", "ROOTReader.cc", "ROOTWriter.cc", "RNTupleReader.cc", "RNTupleWriter.cc", "RootHelpers.cc", "Reader.cc", "Writer.cc", "DataSource.cc"]
        if self.model:
            flags += [f"-I{self.gen}", f"-I{self.gen}/vm", f"-I{self.gen}/vx", f"-I{self.gen}/ad"]
        pch_h = os.path.join(self.dir, "pch.h")
        inc_list = ["vf_ops.h", "podio/LinkCollection.h", "podio/UserDataCollection.h"]
        write_if_changed(pch_h, "".join(f'#include "{i}"\n' for i in inc_list) +
                         "#ifdef PODIO_JSON_OUTPUT\n#include <nlohmann/json.hpp>\n#endif\n#include <algorithm>\n#include <ranges>\n#include <iomanip>\n#include <thread>\n")
        o = ["ninja_required_version = 1.5", "builddir = .",
             "cxx = clang++", "flags = " + " ".join(flags),
             "rule cc", "  command = $cxx $flags $xf -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "  description = CXX $out",
             "rule pch", "  command = $cxx $flags -x c++-header $in -MD -MF $out.d -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = $cxx $flags $in -o $out -pthread $libs", "  description = LINK $out"]
        use_pch = self.model
        if use_pch:
            o.append(f"build pch.pch: pch {pch_h}")
        xf = "-include-pch pch.pch" if use_pch else ""
        dep = " | pch.pch" if use_pch else ""
        objs = []

        def add(src, obj, p=True):
            o.append(f"build {obj}: cc {src}" + (dep if p else ""))
            if p and xf:
                o.append(f"  xf = {xf}")
            return obj
        # big ones first
        for u in units:
            objs.append(add(u, f"o/{os.path.basename(u)}.o"))
        if core:
            for s in sources:
                objs.append(add(f"{REPO}/src/{s}", f"o/core_{s}.o", p=False))
        objs.append(add(f"{VERIF}/cpp/vf_base.cc", "o/vf_base.o", p=False))
        if self.model:
            objs.append(add(f"{VERIF}/cpp/vf_event.cc", "o/vf_event.o"))
        for name, srcs in exes.items():
            eo = [add(f"{VERIF}/cpp/{s}" if not s.startswith("/") else s, f"o/{name}_{os.path.basename(s)}.o") for s in srcs]
            o.append(f"build {name}: link {' '.join(eo + objs)}")
            if libs:
                o.append("  libs = " + " ".join(libs))
        write_if_changed(os.path.join(self.dir, "build.ninja"), "\n".join(o) + "\n")
        cmd = ["ninja", "-C", self.dir, "-k", "1"] + ([f"-j{jobs}"] if jobs else []) + list(exes)
        r = subprocess.run(cmd, capture_output=True, text=True, errors="backslashreplace")
        if r.returncode:
            raise BuildError(r.stdout[-200000:] + r.stderr[-2000:])
        return {n: os.path.join(self.dir, n) for n in exes}
