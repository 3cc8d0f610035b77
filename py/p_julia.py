"""C32: generated Julia modules, loaded and used with a stand-in for Julia, against the definition"""
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, REPO, Mon  # noqa: E402
import jl  # noqa: E402

JL = {"int": "Int32", "float": "Float32", "double": "Float64", "bool": "Bool", "long": "Int64", "unsigned int": "UInt32", "unsigned": "UInt32", "unsigned long": "UInt64", "char": "Char", "short": "Int16",
      "long long": "Int64", "unsigned long long": "UInt64", "int8_t": "Int8", "int16_t": "Int16", "int32_t": "Int32", "int64_t": "Int64", "uint8_t": "UInt8", "uint16_t": "UInt16", "uint32_t": "UInt32",
      "uint64_t": "UInt64"}


def bare(t):
    return t.split("::")[-1]


def run(mon, y, out, pkg, extra):
    env = dict(os.environ, PYTHONHASHSEED=str(mon.r.randrange(10000)), TMPDIR=mon.tmp)
    p = subprocess.run([sys.executable, "-B", f"{REPO}/python/podio_class_generator.py", "-q", "-l", "julia", *extra, y, out, pkg], capture_output=True, text=True, errors="backslashreplace", env=env, timeout=200)
    mon.stat("generator_runs")
    return p


class Case:
    def __init__(self, mon, m):
        self.mon, self.m = mon, m
        self.ups = [m.upstream] if m.upstream else []
        self.mods = [m] + self.ups
        ifaces = {i.name for x in self.mods for i in x.ifaces}
        # there are no interfaces in Julia, nor are there datatypes that need them
        gone = set(ifaces)
        while True:
            n = {t.name for x in self.mods for t in x.types if any(q.type in gone for q in t.one + t.many)} - gone
            if not n:
                break
            gone |= n
        self.gone = gone

    def module(self, x):
        return x.package.capitalize()

    def of(self, name):
        for x in self.mods:
            if any(y.name == name for y in x.comps + x.types):
                return x

    def jtype(self, j, t):
        """the type of a member of type t"""
        if t in JL or t.startswith("std::") and t[5:] in JL:
            return JL[t[5:] if t.startswith("std::") else t]
        return j.main.names[self.module(self.of(t))].names[bare(t) + "Struct"]

    def member(self, j, x):
        return ("MVector", int(x.arr[1]), self.jtype(j, x.arr[0])) if x.arr else self.jtype(j, x.type)

    def check_module(self, j, x):
        mon = self.mon
        mod = j.main.names.get(self.module(x))
        if not mon.check(isinstance(mod, jl.Module), "julia:module", lambda: f"{self.module(x)} is not there: {sorted(j.main.names)}"):
            return
        types = [t for t in x.types if t.name not in self.gone]
        want = sorted([bare(c.name) for c in x.comps] + [bare(t.name) for t in types] + [bare(t.name) + "Collection" for t in types])
        mon.check(sorted(mod.exports) == want, "julia:exports", lambda: f"{x.summary()}: in excess {sorted(set(mod.exports) - set(want))} missing {sorted(set(want) - set(mod.exports))}")
        for n in want:
            mon.check(n in mod.names, "julia:exported-undefined", lambda: f"{n} of {x.summary()}")
        for c in x.comps + types:
            self.check_class(j, x, mod, c)

    def check_class(self, j, x, mod, c):
        mon = self.mon
        s, f = mod.names.get(bare(c.name) + "Struct"), mod.names.get(bare(c.name))
        if not mon.check(isinstance(s, jl.Struct) and isinstance(f, jl.Func) and s.mutable, "julia:class-missing", lambda: f"{c.name}: {s} {f}"):
            return
        mon.stat("classes")
        o = j.call(f)
        dt = isinstance(c, G.Type)
        one, many, vec = (c.one, c.many, c.vec) if dt else ([], [], [])
        names = [m.name for m in c.mem + many + one + vec]
        mon.check(o.type[1] is s and sorted(o.fields) == sorted(names), "julia:fields", lambda: f"{c.name}: {sorted(o.fields)} declared {sorted(names)}")
        order = [n for n, _ in s.fields if n in {m.name for m in c.mem}]
        mon.check(order == [m.name for m in c.mem], "julia:member-order", lambda: f"{c.name}: {order} declared {[m.name for m in c.mem]}")
        aorder = [a[0] for a in f.args if a[0] in {m.name for m in c.mem}]
        mon.check(aorder == order and sorted(a[0] for a in f.args) == sorted(names), "julia:arguments", lambda: f"{c.name}: {[a[0] for a in f.args]}")
        b = dict(zip(s.params, o.type[2]))
        ft = {n: jl.sub(t, b) for n, t in s.fields}
        for m in c.mem:
            mon.eq(jl.show(ft.get(m.name)), jl.show(self.member(j, m)), "julia:member-type", f"{c.name}.{m.name} of type {m.full}")
            mon.check(m.name in o.fields and (jl.fits(o.fields[m.name].type, self.member(j, m))), "julia:default", lambda: f"{c.name}.{m.name} {jl.show(o.fields[m.name].type)}")
            mon.stat("members")
        for m in vec:
            mon.eq(jl.show(ft.get(m.name)), jl.show(("Vector", self.member(j, m))), "julia:vector-type", f"{c.name}.{m.name} of type {m.full}")
            mon.stat("members")
        # each argument ends up in the field of its name
        vals = [jl.Val(v.type, v.fields) for v in (o.fields[a[0]] for a in f.args)]
        for a, v in zip(f.args, vals):
            v.fields = {"tag": a[0]} if not (isinstance(v.type, tuple) and v.type[0] == "inst") else v.fields
        p = j.call(f, vals)
        for a, v in zip(f.args, vals):
            mon.check(p.fields[a[0]].fields is v.fields, "julia:argument-in-other-field", lambda: f"{c.name}.{a[0]}")
        # relations take objects of their type and only those
        for r, kind in [(r, "one") for r in one] + [(r, "many") for r in many]:
            t = self.of(r.type)
            tm = j.main.names[self.module(t)]
            y = j.call(tm.names[bare(r.type)])
            e = ft[r.name][1] if kind == "many" and isinstance(ft[r.name], tuple) and ft[r.name][0] == "Vector" else ft[r.name]
            mon.check((kind == "many") == (isinstance(ft[r.name], tuple) and ft[r.name][0] == "Vector"), f"julia:{kind}-relation-type", lambda: f"{c.name}.{r.name} {jl.show(ft[r.name])}")
            mon.check(jl.fits(y.type, e), f"julia:{kind}-relation-refuses", lambda: f"{c.name}.{r.name} to {r.type}: {jl.show(e)} given {jl.show(y.type)}")
            if kind == "one":
                mon.check(jl.fits("Nothing", e) and o.fields[r.name].type == "Nothing", "julia:one-relation-empty", lambda: f"{c.name}.{r.name} {jl.show(e)}")
            other = [q for q in self.m.types if q.name not in self.gone and q.name != r.type]
            if other:
                q = self.mon.r.choice(other)
                z = j.call(j.main.names[self.module(self.m)].names[bare(q.name)])
                mon.check(not jl.fits(z.type, e), f"julia:{kind}-relation-takes-anything", lambda: f"{c.name}.{r.name} to {r.type} takes {q.name}")
            mon.stat("relations")
        if dt:
            a = mod.names.get(bare(c.name) + "Collection")
            ok = isinstance(a, tuple) and a[0] == "alias" and isinstance(a[1], tuple) and a[1][0] == "Vector"
            mon.check(ok and jl.fits(o.type, a[1][1]), "julia:collection-type", lambda: f"{c.name}: {a and jl.show(a[1])} of {jl.show(o.type)}")


def case(mon):
    mon.r = r = mon.rng()
    d = f"{mon.tmp}/case"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pkg = f"pk{mon.idx % 7}"
    m = G.random_model(f"c32/{mon.seed}/{mon.idx}", pkg, upstream_chance=0.3, size=r.choice([0.5, 1, 1, 2, 3]))
    mon.what = m.summary()
    mon.sample(m.summary())
    c = Case(mon, m)
    where = f"{d}/{r.choice(['out', 'deep/er'])}"
    extra = []
    if m.upstream:
        y = f"{d}/up.yaml"
        open(y, "w").write(m.upstream.yaml(r))
        m.upstream.options["includeSubfolder"] = True
        open(y, "w").write(m.upstream.yaml(r))
        up = r.choice([where, f"{d}/elsewhere"])
        p = run(mon, y, up, m.upstream.package, [])
        if not mon.check(p.returncode == 0, "julia:generator-fails", lambda: p.stdout[-800:] + p.stderr[-1500:]):
            return
        extra = ["--upstream-edm", f"{os.path.relpath(f'{up}/{m.upstream.package}', f'{where}/{pkg}')}:{y}"]
        mon.stat("with_upstream")
    open(f"{d}/m.yaml", "w").write(m.yaml(r))
    p = run(mon, f"{d}/m.yaml", where, pkg, extra)
    if not mon.check(p.returncode == 0, "julia:generator-fails", lambda: p.stdout[-800:] + p.stderr[-1500:]):
        return
    mon.stat("histories")
    mon.distinct("nontrivial", m.summary())
    j = jl.Julia()
    try:
        j.load(f"{where}/{pkg}/{pkg.capitalize()}.jl")
        for x in c.mods:
            c.check_module(j, x)
    except jl.JlError as e:
        mon.check(False, f"julia:{e.kind}", lambda: f"{e} of {m.summary()}")
    for k, v in j.stats.items():
        mon.stat("julia_" + k, v)


if __name__ == "__main__":
    Mon().run(case)
