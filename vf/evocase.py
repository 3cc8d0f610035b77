"""C27: code generated together with older versions of a datamodel. Random models, several
older versions of them, the code compiled and held against the older definitions."""
import copy
import os
import random
import re
import shutil
import subprocess

from . import build as B
from . import genmodel as G
from .edits import Edit, diff, judge_truth, migrations
from .probe import cpp

KINDS = ["rename_mem"] * 5 + ["add_mem"] * 3 + ["drop_mem"] * 2 + ["type_mem"] * 3 + ["add_comp", "drop_comp", "drop_comp", "add_type", "drop_type", "rename_type", "rename_type", "noise", "reorder", "reorder"]

HARD = ["add_vec", "drop_vec", "type_vec", "add_one", "drop_one", "add_many", "drop_many", "comp_type", "array"]


def declared_renames(new, old):
    """(class, from, to) of members, (None, from, to) of datatypes, known from the history"""
    out = []
    for kind in ("comps", "types"):
        a = {x.name: x for x in getattr(new, kind)}
        for o in getattr(old, kind):
            if o.name in a:
                now = {x.uid: x for x in a[o.name].mem}
                names = {x.name for x in a[o.name].mem}
                olds = {x.name for x in o.mem}
                for x in o.mem:
                    y = now.get(x.uid)
                    if y and y.name != x.name and y.full == x.full and x.name not in names and y.name not in olds:
                        out.append((o.name, x.name, y.name))
    a, b = {x.uid: x.name for x in new.types}, {x.uid: x.name for x in old.types}
    out += [(None, b[u], a[u]) for u in b if u in a and a[u] != b[u]]
    return out


def ident(n):
    return n.replace("::", "_")


def leaves(mem, comps, path=""):
    """(path, type) of all plain values of members"""
    out = []
    for m in mem:
        if m.arr:
            et, n = m.arr
            for i in {0, n - 1}:
                p = f"{path}{m.name}[{i}]"
                out += [(p, G.canon(et))] if G.is_builtin(et) else leaves(comps[et].mem, comps, p + ".")
        elif m.builtin:
            out.append((path + m.name, m.full))
        else:
            out += leaves(comps[m.type].mem, comps, f"{path}{m.name}.")
    return out


class EvoProbe:
    def __init__(self, new, olds, renames, r):
        self.new, self.olds, self.renames, self.r = new, olds, renames, r
        self.comps = {c.name: c for c in new.everything("comps")}
        self.o = []

    def mirror(self, old):
        """the old layout, written from the old definition"""
        ns = f"mirror{old.schema_version}"
        comps = {c.name: c for c in old.everything("comps")}
        done, text = set(), []

        def t(x):
            if x.arr:
                et = x.arr[0]
                return f"std::array<{G.canon(et) if G.is_builtin(et) else ident(et)}, {x.arr[1]}>"
            return x.full if x.builtin else ident(x.type)

        def put(h, name):
            text.append(f"struct {name} {{ {' '.join(t(x) + ' ' + x.name + ';' for x in h.mem)} {' '.join(f'unsigned int {x.name}_begin; unsigned int {x.name}_end;' for x in getattr(h, 'vec', []) + getattr(h, 'many', []))} }};")

        def comp(c):
            if c.name in done:
                return
            done.add(c.name)
            for x in c.mem:
                n = x.arr[0] if x.arr else x.type
                if n in comps:
                    comp(comps[n])
            put(c, ident(c.name))
        for c in comps.values():
            comp(c)
        for d in old.types:
            put(d, ident(d.name) + "Data")
        self.o.append(f"namespace {ns} {{\n" + "\n".join(text) + "\n}")
        return ns, comps

    def layout(self, old, h, ns, comps):
        data = isinstance(h, G.Type)
        p = h.name.split("::")
        real = "::" + "::".join(p[:-1] + [f"v{old.schema_version}", p[-1]]) + ("Data" if data else "")
        mir = f"{ns}::{ident(h.name)}" + ("Data" if data else "")
        what = f"{h.name} of version {old.schema_version}"
        o = self.o
        o.append("{")
        o.append(f'  static {real} a{{}}; static {mir} b{{}}; CHECK(sizeof(a) == sizeof(b), "old:size", "{what}");')
        o.append(f'  CHECK(std::is_standard_layout_v<{real}> && std::is_trivially_copyable_v<{real}>, "old:not-plain", "{what}");')
        ls = leaves(h.mem, comps) + [(f"{x.name}_{e}", "unsigned int") for x in getattr(h, "vec", []) + getattr(h, "many", []) for e in ("begin", "end")]
        for path, t in ls:
            o.append(f'  CHECK(probe::off(a, a.{path}) == probe::off(b, b.{path}) && std::is_same_v<std::remove_cvref_t<decltype((a.{path}))>, {t}>, "old:layout", "{what}: {path}");')
        o.append("}")
        if data:
            o.append(f'CHECK(!std::is_same_v<{real}, ::{h.name}Data>, "old:is-current", "{what}");')

    def rules(self, rules):
        """runs the code of the conversion rules the way the reading of ROOT does"""
        o = self.o
        for x in rules:
            src, tgt = x["sourceClass"], x["targetClass"]
            typ, name = x["source"].rsplit(" ", 1)
            comp = typ.removeprefix("::")
            if comp in self.comps:
                same = " && ".join(f"onfile.{name}.{p} == {x['target']}.{p}" for p, _ in leaves(self.comps[comp].mem, self.comps)) or "true"
            elif typ.startswith("std::array"):
                et = typ[11:-1].rsplit(",", 1)[0].strip().removeprefix("::")
                same = f"probe::equal(onfile.{name}, {x['target']})" if et not in self.comps else "true"
            else:
                same = f"probe::equal(onfile.{name}, {x['target']})"
            o.append(f'{{ struct {{ {typ} {name}; }} onfile{{}}; {typ} {x["target"]}{{}}; probe::fill(onfile.{name}); {x["code"]} '
                     f'CHECK({same}, "rule:value", "{src} {x["source"]} -> {tgt} {x["target"]}"); '
                     f'CHECK(std::is_same_v<std::remove_cvref_t<decltype(std::declval<::{tgt}>().{x["target"]})>, {typ}>, "rule:target-type", "{tgt} {x["target"]}"); }}')

    def text(self, rules):
        new = self.new
        heads = set()
        o = self.o
        bodies = []
        for old in self.olds:
            ns, comps = self.mirror(old)
            bodies.append((old, ns, comps))
        o.append("int main() {")
        curc, curt = {c.name for c in new.comps}, {t.name for t in new.types}
        to = {f: t for v in self.renames.values() for k, f, t in v if k is None}
        for old, ns, comps in bodies:
            for c in old.comps:
                heads.add(f'#include "{new.package}/{c.name.split("::")[-1]}.h"')
                self.layout(old, c, ns, comps)
            for t in old.types:
                if t.name in curt or t.name in to:
                    heads.add(f'#include "{new.package}/{t.name.split("::")[-1]}Data.h"')
                    self.layout(old, t, ns, comps)
        sv = new.schema_version
        for h in new.comps + new.types:
            p = h.name.split("::")
            s = "Data" if isinstance(h, G.Type) else ""
            heads.add(f'#include "{new.package}/{p[-1]}{s}.h"')
            o.append(f'CHECK(std::is_same_v<::{"::".join(p[:-1] + [f"v{sv}", p[-1]])}{s}, ::{h.name}{s}>, "current:not-an-alias", "{h.name}");')
        # buffers for data of any version
        o.append("const auto& f = podio::CollectionBufferFactory::instance();")
        for t in new.types:
            heads.add(f'#include "{new.package}/{t.name.split("::")[-1]}Collection.h"')
            o.append(f'for (unsigned v = 1; v <= {sv}; ++v) for (bool s : {{false, true}}) probe::buffers<::{t.name}Collection>("{t.name}Collection", v, s);')
            o.append(f'CHECK(!f.createBuffers("{t.name}Collection", {sv + 1}, false).has_value() && !f.createBuffers("{t.name}Collection", 0, false).has_value(), "buffers:of-unknown-version", "{t.name}");')
        for old in self.olds:
            here = {f: t for k, f, t in self.renames[old.schema_version] if k is None}
            for t in old.types:
                if t.name in here and t.name not in curt:
                    o.append(f'for (bool s : {{false, true}}) probe::buffers<::{here[t.name]}Collection>("{t.name}Collection", {old.schema_version}, s);')
        self.rules(rules)
        o.append('std::cout << "CHECKS " << probe::checks << " BADS " << probe::bad << std::endl; }')
        return PRELUDE + "\n".join(sorted(heads)) + "\n" + "\n".join(o) + "\n"


PRELUDE = r'''
#include <array>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "podio/CollectionBase.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
namespace probe {
unsigned long checks = 0, bad = 0;
unsigned char seq = 1;
void report(bool ok, const char* key, const std::string& d) {
  ++checks;
  if (!ok && ++bad < 20) std::cout << "BAD " << key << " " << d << std::endl;
}
#define CHECK(...) probe::report(__VA_ARGS__)
template <class A, class B> long off(const A& a, const B& b) { return reinterpret_cast<const char*>(&b) - reinterpret_cast<const char*>(&a); }
// bytes that are valid for bool too
template <class T> void fill(T& x) { auto* p = reinterpret_cast<unsigned char*>(&x); for (size_t i = 0; i < sizeof(T); ++i) p[i] = (seq = seq % 251 + 1) & 1; }
template <class A, class B> bool equal(const A& a, const B& b) { return sizeof(a) == sizeof(b) && std::memcmp(&a, &b, sizeof(a)) == 0; }
template <class C> void buffers(const std::string& name, unsigned v, bool subset) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(name, v, subset);
  const auto what = name + " version " + std::to_string(v);
  CHECK(b.has_value(), "buffers:none-for-old-version", what);
  if (!b) return;
  CHECK(std::string(b->type) == std::string(C::typeName), "buffers:type", what + " got " + std::string(b->type));
  auto e = podio::SchemaEvolution::instance().evolveBuffers(std::move(*b), v, std::string(C::typeName));
  auto coll = e.createCollection(std::move(e), subset);
  CHECK(dynamic_cast<C*>(coll.get()) != nullptr, "buffers:collection-type", what);
  CHECK(coll && coll->isSubsetCollection() == subset && coll->size() == 0, "buffers:kind", what);
}
}
'''


def make(seed):
    """(current, old versions)"""
    r = random.Random(f"c27/{seed}")
    used = set()
    up = G.Gen(f"c27u{seed}", f"up{seed % 97}", size=0.6, used=used, texts=False).model() if r.random() < 0.15 else None
    if up:
        up.options["includeSubfolder"] = True
    g = G.Gen(f"c27/{seed}", f"pk{seed % 97}", size=0.7, used=used, upstream=up)
    cur = g.model()
    cur.schema_version = 1
    hist = [cur]
    for _ in range(r.choice([1, 1, 2, 3])):
        nxt = copy.deepcopy(hist[-1])
        nxt.upstream = up
        e = Edit(nxt, g, r, kinds=KINDS + (HARD if r.random() < 0.1 else []))
        for _ in range(r.choice([1, 2, 4, 8])):
            e.one()
        nxt.schema_version = hist[-1].schema_version + r.choice([1, 1, 1, 4])
        hist.append(nxt)
    return r, hist[-1], hist[:-1]


def read_xml(path):
    """selected classes and conversion rules; what ROOT reads is only nearly XML"""
    txt = open(path, encoding="utf-8").read()
    sel = txt[txt.index("<selection>"):txt.index("</selection>")]
    classes = re.findall(r'<class name="([^"]*)"', sel)
    rules = []
    for a, code in re.findall(r"<ioread ([^\n]*)>\s*<!\[CDATA\[(.*?)\]\]>\s*</ioread>", txt, re.S):
        d = dict(re.findall(r'(\w+)="([^"]*)"', a))
        d["code"] = code.strip()
        rules.append(d)
    return classes, rules


def case(base_dir, seed, keep=False):
    r, new, olds = make(seed)
    res = dict(seed=seed, viol=[], checks=0, kind="", summary=f"{new.summary()}, versions {[o.schema_version for o in olds]} -> {new.schema_version}")
    d = os.path.join(base_dir, f"e{seed}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def bad(key, detail):
        res["viol"].append((key, f"model {seed} ({res['summary']}): {detail}", ["evolution", str(seed)]))
    # what has to come of it
    verdict, declared, allr = "ok", [], {}
    for old in olds:
        ch = diff(new, old)
        ren = declared_renames(new, old)
        left, renamed, errors, neutral, warn, comp_warn, sig = judge_truth(new, old, ch, ren)
        dec = {(f, t) for k, f, t in ren if k is None}
        amb = [x for x in sig.values() if x["old"] and x["new"] and not (len(x["old"]) == len(x["new"]) == 1 and (x["old"][0], x["new"][0]) in dec)]
        if neutral or amb:
            verdict = "unclear"
        elif (errors or warn or comp_warn) and verdict == "ok":
            verdict = "refused"
        sigd = {(x["old"][0], x["new"][0]) for x in sig.values() if len(x["old"]) == len(x["new"]) == 1}
        allr[old.schema_version] = [(k, f, t) for _, k, (f, t) in renamed] + [(None, f, t) for f, t in dec & sigd]
        declared += [x for x in ren if x not in declared]
    res["kind"] = verdict
    if verdict == "unclear":
        shutil.rmtree(d, ignore_errors=True)
        return res
    # a class may not be in two renamings at once: which one is meant would be open
    extra = []
    if new.upstream:
        open(f"{d}/up.yaml", "w").write(new.upstream.yaml(r))
        p = B.run_generator(f"{d}/up.yaml", new.upstream.package, f"{d}/{new.upstream.package}")
        if p.returncode:
            bad("generator:fails-on-valid-model", p.stdout[-800:] + p.stderr[-1500:])
            return res
        extra = ["--upstream-edm", f"{new.upstream.package}:{d}/up.yaml"]
    open(f"{d}/new.yaml", "w").write(new.yaml(r))
    p = B.run_generator(f"{d}/new.yaml", new.package, f"{d}/plain", extra=extra)
    if p.returncode:
        res["kind"] = "not valid"  # an edit made it so
        shutil.rmtree(d, ignore_errors=True)
        return res
    order = list(olds)
    r.shuffle(order)
    for o in order:
        open(f"{d}/v{o.schema_version}.yaml", "w").write(o.yaml(r))
    extra = extra + ["--old-descriptions"] + [f"{d}/v{o.schema_version}.yaml" for o in order]
    if not declared:
        extra += ["-q"]  # ends the list of files
    else:
        open(f"{d}/evo.yaml", "w").write(G.dump(r, migrations(r, declared, [])))
        extra += ["--evolution_file", f"{d}/evo.yaml"]
    p = B.run_generator(f"{d}/new.yaml", new.package, f"{d}/{new.package}", extra=extra)
    if verdict == "refused":
        if p.returncode == 0:
            bad("generator:accepts-impossible-evolution", p.stdout[-1500:])
        res["checks"] = 1
        shutil.rmtree(d, ignore_errors=True)
        return res
    if p.returncode:
        bad("generator:refuses-possible-evolution", f"renames {declared}: " + p.stdout[-1500:] + p.stderr[-1500:])
        return res
    # what is said to ROOT
    gen = f"{d}/{new.package}"
    classes, rules = read_xml(f"{gen}/src/selection.xml")
    want = set()
    curt = {t.name for t in new.types}
    for o in olds + [new]:
        to = {f: t for k, f, t in allr.get(o.schema_version, []) if k is None}
        for h in o.comps + [t for t in o.types if t.name in curt or t.name in to]:
            q = h.name.split("::")
            n = "::".join(q[:-1] + [f"v{o.schema_version}", q[-1]]) + ("Data" if isinstance(h, G.Type) else "")
            want |= {n, f"std::vector<{n}>"}
    for n in sorted(want - set(classes)):
        bad("selection:class-missing", n)
    vs = {c for c in classes if re.search(r"(^|::|<)v\d+::", c)}
    renamed_names = {f for x in allr.values() for k, f, t in x if k is None}
    for n in sorted(vs - want):
        if not any(n.replace("std::vector<", "").rstrip(">").split("::")[-1] == f.split("::")[-1] + "Data" for f in renamed_names):
            bad("selection:class-in-excess", n)
    wr = set()
    for o in olds:
        oc = {h.name: h for h in o.comps + o.types}
        for k, f, t in allr[o.schema_version]:
            if k is not None:
                s = "Data" if isinstance(oc[k], G.Type) else ""
                typ = [x.full for x in oc[k].mem if x.name == f][0]
                wr.add((k + s, k + s, f"[{o.schema_version}]", f"{typ} {f}", t))
            else:
                wr |= {(f + "Data", t + "Data", f"[{o.schema_version}]", f"{x.full} {x.name}", x.name) for x in oc[f].mem}
    got = [(x["sourceClass"], x["targetClass"], x["version"], x["source"], x["target"]) for x in rules]
    norm = lambda s: {tuple(re.sub(r"(?<![\w>])::|\s*,\s*", lambda m: "," if "," in m[0] else "", y) for y in x) for x in s}  # noqa: E731
    if norm(got) != norm(wr):
        bad("rules:not-the-declared-renamings", f"in excess {sorted(norm(got) - norm(wr))} missing {sorted(norm(wr) - norm(got))}")
    if len(got) != len(set(got)):
        bad("rules:twice", str(got))
    res["rules"] = len(rules)
    # compile and run
    pr = EvoProbe(new, olds, allr, r)
    open(f"{d}/probe.cc", "w").write(pr.text(rules if norm(got) == norm(wr) else []))
    mods = [(new.package, gen)] + ([(new.upstream.package, f"{d}/{new.upstream.package}")] if new.upstream else [])
    incs = [f"-I{p}" for _, p in mods] + [f"-I{p}/{n}" for n, p in mods]
    base = ["clang++", "-std=c++20", "-w", f"-I{B.BUILD}/asan/inc", f"-I{B.REPO}/include", *B.FLAVOURS["asan"]]
    core = os.path.join(B.BUILD, "asan", "o")
    objs = [os.path.join(core, f) for f in sorted(os.listdir(core)) if f.startswith("core_") and f.endswith(".o")]
    from .pychecks import first_error
    for n, p in mods:
        src = [f for f in sorted(os.listdir(f"{p}/src")) if f.endswith(".cc")]
        r.shuffle(src)
        open(f"{d}/{n}.cc", "w").write("".join(f'#include "{p}/src/{f}"\n' for f in src))
        q = subprocess.run(base + incs + ["-c", f"{d}/{n}.cc", "-o", f"{d}/{n}.o"], capture_output=True, text=True, errors="replace")
        if q.returncode:
            k, e = first_error(q.stderr, d)
            bad("generated-code-does-not-compile:" + k, e)
            return res
    q = subprocess.run(base + incs + ["-c", f"{d}/probe.cc", "-o", f"{d}/probe.o"], capture_output=True, text=True, errors="replace")
    if q.returncode:
        k, e = first_error(q.stderr, d)
        bad("old:not-as-declared:" + k, e)
        return res
    q = subprocess.run(base + [f"{d}/{n}.o" for n, _ in mods] + [f"{d}/probe.o", *objs, "-o", f"{d}/probe", "-pthread"], capture_output=True, text=True, errors="replace")
    if q.returncode:
        bad("generated-code-does-not-link", q.stderr[-1500:])
        return res
    try:
        q = subprocess.run([f"{d}/probe"], capture_output=True, text=True, errors="replace", timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=1"))
    except subprocess.TimeoutExpired:
        bad("hang", "the probe did not finish")
        return res
    for line in q.stdout.split("\n"):
        if line.startswith("BAD "):
            bad(line.split(" ")[1], line)
        elif line.startswith("CHECKS "):
            res["checks"] = int(line.split()[1])
    if q.returncode or not res["checks"]:
        bad("crash:probe", q.stderr[-2500:])
    if not keep and not res["viol"]:
        shutil.rmtree(d, ignore_errors=True)
    return res
