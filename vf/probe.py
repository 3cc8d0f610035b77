"""Writes a C++ program that holds the code generated from a random datamodel (vf.genmodel)
against the definition: types, names, layout, defaults, setters, relations, interfaces, links, registry."""
from . import genmodel as G


def cap(s):
    return s[:1].upper() + s[1:]


def cpp(t):
    return t if G.is_builtin(t) or t.startswith("std::") else "::" + t


def ctype(m):
    if m.arr:
        return f"std::array<{cpp(G.canon(m.arr[0]))}, {m.arr[1]}>"
    return cpp(m.full)


def bare(t):
    return t.split("::")[-1]


def mut(t):
    p = t.split("::")
    return "::" + "::".join(p[:-1] + ["Mutable" + p[-1]])


PRELUDE = r'''
#include <array>
#include <bit>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "podio/DatamodelRegistry.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
#include "podio/Frame.h"

namespace probe {
inline unsigned long checks = 0, bad = 0, S = 1;
inline void report(bool ok, const char* key, const std::string& detail) {
  ++checks;
  if (!ok && ++bad < 20) {
    std::cout << "BAD " << key << " " << detail << std::endl;
  }
}
#define CHECK(...) probe::report(__VA_ARGS__)

template<class T> struct Op;
template<class T> requires std::is_arithmetic_v<T> struct Op<T> {
  static void fill(T& x) {
    S = S * 6364136223846793005ull + 1442695040888963407ull;
    if constexpr (std::is_same_v<T, bool>) { x = (S >> 40) & 1; }
    else if constexpr (std::is_floating_point_v<T>) { x = T(int(S >> 40)) / 8; }
    else { x = T(S >> 24); }
  }
  static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
};
template<class T, size_t N> struct Op<std::array<T, N>> {
  static void fill(std::array<T, N>& x) { for (auto& e : x) { Op<T>::fill(e); } }
  static bool same(const std::array<T, N>& a, const std::array<T, N>& b) {
    for (size_t i = 0; i < N; ++i) { if (!Op<T>::same(a[i], b[i])) { return false; } }
    return true;
  }
};
template<class T> void fill(T& x) { Op<T>::fill(x); }
template<class T> bool same(const T& a, const T& b) { return Op<T>::same(a, b); }
template<class T> T make() { T x{}; fill(x); return x; }
}
'''


class Probe:
    def __init__(self, m, r):
        self.m, self.r = m, r
        self.o = []

    def inc(self, mod, f):
        return f'#include "{mod.package + "/" if True else ""}{f}"'

    def mods(self):
        r, m = [], self.m
        while m:
            r.append(m)
            m = m.upstream
        return r[::-1]

    def model_of(self, kind, name):
        for m in self.mods():
            if any(x.name == name for x in getattr(m, kind)):
                return m

    def comps_in_order(self):
        allc = {c.name: c for m in self.mods() for c in m.comps}
        done = []

        def visit(c):
            if c in done:
                return
            for x in c.mem:
                t = x.arr[0] if x.arr else x.type
                if t in allc:
                    visit(allc[t])
            done.append(c)
        for c in allc.values():
            visit(c)
        return done

    # -- pieces ---------------------------------------------------------------
    def layout(self, cls, ident, mem, tail):
        """plain data of exactly the declared members; tail: names of index pairs"""
        o = self.o
        o.append(f"struct Ref_{ident} {{")
        for x in mem:
            o.append(f"  {ctype(x)} {x.name}{{{x.default or ''}}};")
        for t in tail:
            o.append(f"  unsigned int {t}_begin{{}}; unsigned int {t}_end{{}};")
        o.append("};")
        o.append(f"static_assert(std::is_standard_layout_v<{cls}> && std::is_trivially_copyable_v<{cls}> && std::is_aggregate_v<{cls}>);")
        n = len(mem) + 2 * len(tail)
        if n:
            o.append(f"static_assert(sizeof({cls}) == sizeof(Ref_{ident}) && alignof({cls}) == alignof(Ref_{ident}));")
            for x in mem:
                o.append(f"static_assert(std::is_same_v<decltype({cls}::{x.name}), {ctype(x)}> && offsetof({cls}, {x.name}) == offsetof(Ref_{ident}, {x.name}));")
            for t in tail:
                for p in ("begin", "end"):
                    o.append(f"static_assert(std::is_same_v<decltype({cls}::{t}_{p}), unsigned int>);")
            # exactly that many members
            o.append(f"inline void count_{ident}({cls}& v) {{ auto& [{', '.join(f'm{i}' for i in range(n))}] = v; (void)m0; }}")
        else:
            o.append(f"static_assert(std::is_empty_v<{cls}>);")

    def component(self, c):
        o = self.o
        ident = c.name.replace("::", "_")
        o.append(f"namespace probe {{ template<> struct Op<::{c.name}> {{")
        o.append(f"  static void fill(::{c.name}& v) {{ (void)v; " + " ".join(f"probe::fill(v.{x.name});" for x in c.mem) + " }")
        o.append(f"  static bool same(const ::{c.name}& a, const ::{c.name}& b) {{ (void)a; (void)b; return true" + "".join(f" && probe::same(a.{x.name}, b.{x.name})" for x in c.mem) + "; }")
        o.append("}; }")
        self.layout(f"::{c.name}", ident, c.mem, [])
        o.append(f"inline void test_comp_{ident}() {{ ::{c.name} v{{}}; (void)v;")
        for x in c.mem:
            o.append(f'  CHECK(probe::same(v.{x.name}, Ref_{ident}{{}}.{x.name}), "default:component", "{c.name}.{x.name}");')
        if c.extra is not None:
            o.append(f'  CHECK(v.{c.extra_fn}() == 5, "extra-code:component", "{c.name}");')
        o.append("  std::ostringstream s; s << v; }")

    def names(self, mod):
        gs = mod.opt("getSyntax")
        return (lambda n: "get" + cap(n) if gs else n), (lambda n: "set" + cap(n) if gs else n), (lambda n: "addTo" + cap(n) if gs else "add" + n)

    @staticmethod
    def absent(cls, expr):
        """expr over x of type cls does not compile"""
        return f"static_assert(!([]<class X>(X*) {{ return requires(X& x) {{ {expr}; }}; }})(static_cast<{cls}*>(nullptr)));"

    def target(self, t):
        """expression list: ways of making an object the relation may point to"""
        for m in self.mods():
            for x in m.types:
                if x.name == t:
                    return [t]
            for i in m.ifaces:
                if i.name == t:
                    return list(i.types)

    def datatype(self, t):
        o, m, r = self.o, self.m, self.r
        g, s, a = self.names(m)
        ident = t.name.replace("::", "_")
        C, MU = f"::{t.name}", mut(t.name)
        self.layout(f"::{t.name}Data", "D_" + ident, t.mem, [x.name for x in t.vec + t.many])
        o.append(f"static_assert(std::is_same_v<{C}::mutable_type, {MU}> && std::is_same_v<{C}::collection_type, {C}Collection> && std::is_same_v<{MU}::object_type, {C}> && std::is_same_v<{MU}::collection_type, {C}Collection>);")
        o.append(f"static_assert(std::is_same_v<{C}Collection::value_type, {C}> && std::is_same_v<{C}Collection::mutable_type, {MU}> && std::is_convertible_v<{MU}, {C}> && !std::is_constructible_v<{MU}, {C}>);")
        o.append(f'static_assert({C}::typeName == "{t.name}" && {C}Collection::typeName == "{t.name}Collection" && {C}Collection::valueTypeName == "{t.name}" && {C}Collection::dataTypeName == "{t.name}Data");')
        exposed = []  # (member, sub member)
        if m.opt("exposePODMembers"):
            for x in t.mem:
                if not x.builtin and not x.arr:
                    c = m.find("comps", x.type)
                    exposed += [(x, y) for y in c.mem]
        for x in t.mem:
            T = ctype(x)
            o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {C}&>().{g(x.name)}())>, {T}> && std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {MU}&>().{g(x.name)}())>, {T}>);")
            o.append(f"static_assert(std::is_same_v<decltype(std::declval<{MU}&>().{g(x.name)}()), {T}&>);")
            o.append(self.absent(C, f"x.{s(x.name)}(std::declval<{T}>())") if not x.arr else self.absent(C, f"x.{s(x.name)}(size_t{{}}, std::declval<{T}>()[0])"))
            # an object that is not mutable gives no way to change it
            o.append(f"static_assert(!std::is_lvalue_reference_v<decltype(std::declval<{C}&>().{g(x.name)}())> || std::is_const_v<std::remove_reference_t<decltype(std::declval<{C}&>().{g(x.name)}())>>);")
        for x, y in exposed:
            o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {C}&>().{g(y.name)}())>, {ctype(y)}>);")
            o.append(self.absent(C, f"x.{s(y.name)}(std::declval<{ctype(y)}>())"))
        if not m.opt("exposePODMembers"):
            for x in t.mem:
                if not x.builtin and not x.arr:
                    for y in m.find("comps", x.type).mem:
                        o.append(self.absent(C, f"x.{g(y.name)}()"))
        for x in t.one:
            o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {C}&>().{g(x.name)}())>, ::{x.type}> && std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {MU}&>().{g(x.name)}())>, ::{x.type}>);")
            o.append(self.absent(C, f"x.{s(x.name)}(std::declval<::{x.type}>())"))
        for x in t.vec + t.many:
            T = ctype(x) if x in t.vec else "::" + x.type
            for k in (C, MU):
                o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {k}&>().{g(x.name)}(size_t{{}}))>, {T}> && std::is_same_v<decltype(std::declval<const {k}&>().{g(x.name)}()), podio::RelationRange<{T}>>);")
                o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(*std::declval<const {k}&>().{x.name}_begin())>, {T}>);")
            o.append(self.absent(C, f"x.{a(x.name)}(std::declval<{T}>())"))
        # -- runtime
        o.append(f"inline void test_type_{ident}() {{")
        o.append(f"  {{ {MU} d; {C} i; {C}Data raw{{}}; (void)raw;")
        for x in t.mem:
            for k, e in (("mutable", f"std::as_const(d).{g(x.name)}()"), ("object", f"i.{g(x.name)}()"), ("data", f"raw.{x.name}")):
                o.append(f'    CHECK(probe::same<{ctype(x)}>({e}, Ref_D_{ident}{{}}.{x.name}), "default:{k}", "{t.name}.{x.name}");')
        for x in t.vec + t.many:
            o.append(f'    CHECK(d.{x.name}_size() == 0 && i.{x.name}_size() == 0 && raw.{x.name}_begin == 0 && raw.{x.name}_end == 0 && d.{x.name}_begin() == d.{x.name}_end() && d.{g(x.name)}().empty(), "default:empty-range", "{t.name}.{x.name}");')
        for x in t.one:
            o.append(f'    CHECK(!d.{g(x.name)}().isAvailable() && !i.{g(x.name)}().isAvailable(), "default:unset-relation", "{t.name}.{x.name}");')
        o.append("  }")
        o.append(f"  {{ {MU} o; const {C} c = o; CHECK(o == c && c == o, \"identity\", \"{t.name}\");")
        for k, x in enumerate(t.mem):
            o.append(f"    auto v{k} = probe::make<{ctype(x)}>();")
        order = list(range(len(t.mem)))
        r.shuffle(order)
        for k in order:
            o.append(f"    o.{s(t.mem[k].name)}(v{k});")

        def allsame(what):
            for k, x in enumerate(t.mem):
                o.append(f'    CHECK(probe::same<{ctype(x)}>(c.{g(x.name)}(), v{k}) && probe::same<{ctype(x)}>(std::as_const(o).{g(x.name)}(), v{k}), "value:{what}", "{t.name}.{x.name}");')
                if x.arr:
                    o.append(f'    for (size_t n = 0; n < {x.arr[1]}; ++n) {{ CHECK(probe::same<{cpp(G.canon(x.arr[0]))}>(c.{g(x.name)}(n), v{k}[n]), "value:{what}-array-entry", "{t.name}.{x.name}"); }}')
            for x, y in exposed:
                k = t.mem.index(x)
                o.append(f'    CHECK(probe::same<{ctype(y)}>(c.{g(y.name)}(), v{k}.{y.name}) && probe::same<{ctype(y)}>(std::as_const(o).{g(y.name)}(), v{k}.{y.name}), "value:{what}-exposed", "{t.name}.{x.name}.{y.name}");')
        allsame("set")
        changed = False
        for k in order:
            x = t.mem[k]
            if x.arr:
                n = r.randrange(x.arr[1])
                o.append(f"    {{ auto e = probe::make<{cpp(G.canon(x.arr[0]))}>(); v{k}[{n}] = e; o.{s(x.name)}({n}, e); }}")
                changed = True
            elif r.random() < 0.5:
                o.append(f"    v{k} = probe::make<{ctype(x)}>(); o.{g(x.name)}() = v{k};")
                changed = True
        for x, y in exposed:
            k = t.mem.index(x)
            o.append(f"    {{ auto e = probe::make<{ctype(y)}>(); v{k}.{y.name} = e; o.{s(y.name)}(e); }}")
            changed = True
        if changed:
            allsame("changed")
        if t.mem:
            o.append(f"    {{ {MU} n({', '.join(f'v{k}' for k in range(len(t.mem)))}); {C} in({', '.join(f'v{k}' for k in range(len(t.mem)))}); (void)in;")
            for k, x in enumerate(t.mem):
                o.append(f'      CHECK(probe::same<{ctype(x)}>(std::as_const(n).{g(x.name)}(), v{k}) && probe::same<{ctype(x)}>(in.{g(x.name)}(), v{k}), "value:constructed", "{t.name}.{x.name}");')
            o.append(f"      {C}Collection coll; auto e = coll.create({', '.join(f'v{k}' for k in range(len(t.mem)))});")
            for k, x in enumerate(t.mem):
                o.append(f'      CHECK(probe::same<{ctype(x)}>(std::as_const(e).{g(x.name)}(), v{k}), "value:created", "{t.name}.{x.name}");')
            o.append("    }")
        for x in t.vec:
            n = r.randint(1, 4)
            o.append(f"    {{ std::vector<{ctype(x)}> w; for (int k = 0; k < {n}; ++k) {{ w.push_back(probe::make<{ctype(x)}>()); o.{a(x.name)}(w.back()); }}")
            o.append(f'      CHECK(o.{x.name}_size() == {n} && c.{x.name}_size() == {n} && c.{g(x.name)}().size() == {n}, "vector:size", "{t.name}.{x.name}");')
            o.append(f'      size_t k = 0; for (const auto& e : c.{g(x.name)}()) {{ CHECK(probe::same(e, w.at(k)) && probe::same<{ctype(x)}>(c.{g(x.name)}(k), e) && probe::same<{ctype(x)}>(*(c.{x.name}_begin() + k), e), "vector:value", "{t.name}.{x.name}"); ++k; }} }}')
        for x in t.one:
            for y in self.target(x.type):
                o.append(f'    {{ {mut(y)} y; o.{s(x.name)}(y); CHECK(c.{g(x.name)}() == ::{x.type}(y) && o.{g(x.name)}() == ::{x.type}(y), "relation:one", "{t.name}.{x.name}"); }}')
        for x in t.many:
            ys = self.target(x.type)
            o.append(f"    {{ std::vector<::{x.type}> w;")
            for k in range(r.randint(1, 3)):
                y = r.choice(ys)
                o.append(f"      {{ {mut(y)} y; w.push_back(::{x.type}(y)); o.{a(x.name)}(w.back()); }}")
            o.append(f'      CHECK(o.{x.name}_size() == w.size() && c.{g(x.name)}().size() == w.size(), "relation:many-size", "{t.name}.{x.name}");')
            o.append(f'      for (size_t k = 0; k < w.size(); ++k) {{ CHECK(c.{g(x.name)}(k) == w[k] && o.{g(x.name)}()[k] == w[k] && *(c.{x.name}_begin() + k) == w[k], "relation:many", "{t.name}.{x.name}"); }} }}')
        # relations do not disturb each other or the members
        allsame("after-relations")
        if t.extra is not None:
            o.append(f'    CHECK(o.{t.extra_fn}() == 7 && c.{t.extra_fn}() == 7, "extra-code", "{t.name}");')
        if t.mextra is not None:
            o.append(f'    CHECK(o.{t.mextra_fn}() == 9, "extra-code:mutable", "{t.name}");')
        o.append("    std::ostringstream out; out << c << o.clone() << o.clone(false);")
        o.append("  }")
        if t.mextra is not None:
            o.insert(len(o) - 1, "")
        # collection and what it registers
        o.append(f"  {{ {C}Collection coll; coll.create(); coll.create(); coll.setID(7); coll.prepareForWrite(); auto b = coll.getBuffers(); (void)b;")
        o.append(f'    CHECK(coll.getSchemaVersion() == {m.schema_version}, "schema-version:collection", "{t.name}");')
        o.append(f'    auto rb = podio::CollectionBufferFactory::instance().createBuffers("{t.name}Collection", {m.schema_version}, false); CHECK(rb.has_value(), "factory:buffers", "{t.name}");')
        o.append(f'    if (rb) {{ CHECK(rb->references->size() == {len(t.one) + len(t.many)} && rb->vectorMembers->size() == {len(t.vec)} && rb->type == "{t.name}Collection" && rb->schemaVersion == {m.schema_version}, "factory:shape", "{t.name}");')
        for k, x in enumerate(t.vec):
            o.append(f'      CHECK((*rb->vectorMembers)[{k}].first == "{x.full}", "factory:vector-member-type", "{t.name}.{x.name} " + (*rb->vectorMembers)[{k}].first);')
        o.append("      rb->deleteBuffers(*rb); }")
        o.append(f'    const auto rel = podio::DatamodelRegistry::instance().getRelationNames("{t.name}Collection");')
        want = "{" + ", ".join(f'"{x.name}"' for x in t.many + t.one) + "}"
        wantv = "{" + ", ".join(f'"{x.name}"' for x in t.vec) + "}"
        o.append(f'    CHECK((std::vector<std::string>(rel.relations.begin(), rel.relations.end()) == std::vector<std::string>{want}) && (std::vector<std::string>(rel.vectorMembers.begin(), rel.vectorMembers.end()) == std::vector<std::string>{wantv}), "registry:relation-names", "{t.name}");')
        o.append(f'    CHECK(podio::DatamodelRegistry::instance().getDatamodelName(coll.getDatamodelRegistryIndex()) == "{m.package}", "registry:model-of-collection", "{t.name}");')
        o.append("  }")
        o.append("}")
        if t.mextra is not None:
            o.append(self.absent(C, f"x.{t.mextra_fn}()"))

    def interface(self, i):
        o, m, r = self.o, self.m, self.r
        g, s, a = self.names(m)
        ident = i.name.replace("::", "_")
        I = f"::{i.name}"
        o.append(f"static_assert(std::is_same_v<{I}::interfaced_types, std::tuple<{', '.join('::' + x for x in i.types)}>> && {I}::typeName == \"{i.name}\");")
        for x in i.types:
            o.append(f"static_assert(std::is_convertible_v<::{x}, {I}> && std::is_convertible_v<{mut(x)}, {I}>);")
        others = [x for mm in self.mods() for x in mm.types if x.name not in i.types]
        for x in others[:6]:
            o.append(f"static_assert(!std::is_constructible_v<{I}, ::{x.name}> && !std::is_constructible_v<{I}, {mut(x.name)}>);")
        for x in i.mem:
            o.append(f"static_assert(std::is_same_v<std::remove_cvref_t<decltype(std::declval<const {I}&>().{g(x.name)}())>, {ctype(x)}>);")
        o.append(f"inline void test_iface_{ident}() {{ CHECK(!{I}::makeEmpty().isAvailable(), \"interface:empty\", \"{i.name}\");")
        for x in i.types:
            o.append(f"  {{ {mut(x)} h; (void)h;")
            for y in i.mem:
                o.append(f"    h.{s(y.name)}(probe::make<{ctype(y)}>());")
            o.append(f'    const {I} f = h; CHECK(f.isA<::{x}>() && f.as<::{x}>() == h && f.isAvailable() && f.id() == h.id(), "interface:holds", "{i.name} {x}");')
            for y in i.mem:
                o.append(f'    CHECK(probe::same<{ctype(y)}>(f.{g(y.name)}(), std::as_const(h).{g(y.name)}()), "interface:member", "{i.name}.{y.name} {x}");')
                if y.arr:
                    o.append(f'    CHECK(probe::same<{cpp(G.canon(y.arr[0]))}>(f.{g(y.name)}({y.arr[1] - 1}), std::as_const(h).{g(y.name)}()[{y.arr[1] - 1}]), "interface:array-entry", "{i.name}.{y.name} {x}");')
            for y in i.types:
                if y != x:
                    o.append(f'    CHECK(!f.isA<::{y}>(), "interface:is-another", "{i.name} {x} {y}");')
            o.append("    std::ostringstream out; out << f; }")
        o.append("}")

    def link(self, l):
        o = self.o
        L = f"::{l.name}"
        ident = l.name.replace("::", "_")
        o.append(f"static_assert(std::is_same_v<{L}, podio::Link<::{l.frm}, ::{l.to}>> && std::is_same_v<{mut(l.name)}, podio::MutableLink<::{l.frm}, ::{l.to}>> && std::is_same_v<{L}Collection, podio::LinkCollection<::{l.frm}, ::{l.to}>>);")
        o.append(f"inline void test_link_{ident}() {{ {L}Collection c;")
        for x in self.target(l.frm):
            y = self.r.choice(self.target(l.to))
            o.append(f'  {{ {mut(x)} f; {mut(y)} t; auto k = c.create(); k.setFrom(f); k.setTo(t); k.setWeight(2.5f); CHECK(k.getFrom() == ::{l.frm}(f) && k.getTo() == ::{l.to}(t) && k.getWeight() == 2.5f, "link:ends", "{l.name}"); }}')
        o.append(f'  auto b = podio::CollectionBufferFactory::instance().createBuffers(std::string({L}Collection::typeName), 1, false); CHECK(b.has_value(), "link:registered", "{l.name}"); if (b) {{ b->deleteBuffers(*b); }}')
        o.append("}")

    def text(self):
        m, o = self.m, self.o
        heads = []
        for mod in self.mods():
            heads.append(f'#include "{mod.package}/{mod.package}.h"')
            heads += [f'#include "{mod.package}/{bare(c.name)}.h"' for c in mod.comps]
            if mod is m:
                heads += [f'#include "{mod.package}/{bare(x.name)}.h"' for x in mod.ifaces] + [f'#include "{mod.package}/{bare(x.name)}Collection.h"' for x in mod.types + mod.links]
                self.r.shuffle(heads)
        for c in self.comps_in_order():
            self.component(c) if c in m.comps else self.comp_op_only(c)
        for t in m.types:
            self.datatype(t)
        for i in m.ifaces:
            self.interface(i)
        for l in m.links:
            self.link(l)
        o.append("int main() {")
        for c in m.comps:
            o.append(f"  test_comp_{c.name.replace('::', '_')}();")
        for t in m.types:
            o.append(f"  test_type_{t.name.replace('::', '_')}();")
        for i in m.ifaces:
            o.append(f"  test_iface_{i.name.replace('::', '_')}();")
        for l in m.links:
            o.append(f"  test_link_{l.name.replace('::', '_')}();")
        o.append(f'  const auto& reg = podio::DatamodelRegistry::instance(); const auto def = reg.getDatamodelDefinition("{m.package}");')
        o.append(f'  CHECK(def.size() > 2, "registry:definition", "{m.package}");')
        o.append('  std::cout << "JSON " << def << "\\nCHECKS " << probe::checks << " BADS " << probe::bad << std::endl;')
        o.append("}")
        return PRELUDE + "\n".join(heads) + "\n" + "\n".join(o) + "\n"

    def comp_op_only(self, c):
        n = len(self.o)
        self.component(c)
        # keep only the first part (the operations)
        keep = [x for x in self.o[n:n + 4]]
        self.o[n:] = keep


class IOProbe(Probe):
    """writes frames with collections of all types of a random datamodel with a backend, reads them and compares"""
    WRITE = {
        "ARROW": ("#include <arrow/api.h>\n#include \"podio/utilities/ArrowFrameConverter.h\"\n", r'''
static std::vector<podio::Frame> through(const std::vector<podio::Frame>& fs, const std::vector<std::string>& names, unsigned how) {
  std::vector<std::shared_ptr<arrow::Table>> ts;
  for (auto& f : fs) { ts.push_back(podio::convertFrameToTable(f, names)); }
  std::shared_ptr<arrow::Table> t = *arrow::ConcatenateTables(ts);
  if (how & 1) { t = *t->CombineChunks(); }
  int64_t skip = 0;
  if (how & 2) { t = t->Slice(1); skip = 1; }
  std::vector<podio::Frame> r;
  if (skip) { r.push_back(podio::convertTableToFrame(ts[0])); }
  for (int64_t i = 0; i < t->num_rows(); ++i) { r.push_back(podio::convertTableToFrame(t, int(i))); }
  return r;
}
'''),
        "ROOT": ("#include \"podio/ROOTReader.h\"\n#include \"podio/ROOTWriter.h\"\n#include \"podio/RNTupleReader.h\"\n#include \"podio/RNTupleWriter.h\"\n#include \"podio/LinkCollection.h\"\n#include \"rootstub.h\"\n", r'''
template <class W> static void put(const std::string& file, const std::vector<podio::Frame>& fs, size_t from, size_t to, const std::vector<std::string>& names) {
  W w(file);
  for (; from < to; ++from) { w.writeFrame(fs[from], "events", names); }
  w.finish();
}
template <class R> static std::vector<podio::Frame> get(const std::vector<std::string>& files, size_t n, bool back) {
  R rd; rd.openFiles(files);
  std::vector<podio::Frame> r(n);
  for (size_t i = 0; i < n; ++i) { size_t k = back ? n - 1 - i : i; r[k] = podio::Frame(back ? rd.readEntry("events", unsigned(k)) : rd.readNextEntry("events")); }
  return r;
}
static std::vector<podio::Frame> through(const std::vector<podio::Frame>& fs, const std::vector<std::string>& names, unsigned how) {
  fullDictionary();
  std::vector<std::string> files{"probe0.root"};
  const size_t cut = how & 2 ? 1 : fs.size();
  if (how & 2) { files.push_back("probe1.root"); }
  for (size_t i = 0; i < files.size(); ++i) {
    const size_t a = i ? cut : 0, z = i ? fs.size() : cut;
    if (how & 1) { put<podio::RNTupleWriter>(files[i], fs, a, z, names); } else { put<podio::ROOTWriter>(files[i], fs, a, z, names); }
  }
  return how & 1 ? get<podio::RNTupleReader>(files, fs.size(), how & 2) : get<podio::ROOTReader>(files, fs.size(), how & 2);
}
'''),
        "SIO": ("#include \"podio/SIOReader.h\"\n#include \"podio/SIOWriter.h\"\n", r'''
static std::vector<podio::Frame> through(const std::vector<podio::Frame>& fs, const std::vector<std::string>& names, unsigned) {
  { podio::SIOWriter w("probe.sio"); for (auto& f : fs) { w.writeFrame(f, "events", names); } w.finish(); }
  podio::SIOReader rd; rd.openFile("probe.sio");
  std::vector<podio::Frame> r;
  for (size_t i = 0; i < fs.size(); ++i) { r.emplace_back(rd.readNextEntry("events")); }
  return r;
}
'''),
    }

    def io_text(self, backend, dictionary=()):
        r, o = self.r, self.o
        incs, through = self.WRITE[backend]
        heads = [incs]
        for mod in self.mods():
            heads += [f'#include "{mod.package}/{bare(x.name)}Collection.h"' for x in mod.types + mod.links]
            heads += [f'#include "{mod.package}/{bare(c.name)}.h"' for c in mod.comps]
        for c in self.comps_in_order():
            self.comp_op_only(c)
        if backend == "ROOT":
            o.append("static void fullDictionary() {")
            o += [f'  rootstub::types()[rootstub::normal("std::vector<{n}>")] = rootstub::typeOf<std::vector<::{n}>>();' for n in dictionary + ["podio::ObjectID", "podio::LinkData"]]
            o.append("}")
        o.append(through)
        o.append("static unsigned pick(unsigned n) { return unsigned(probe::make<uint32_t>() % n); }")
        o.append("#define OID(a, b) ((a).isAvailable() == (b).isAvailable() && (!(a).isAvailable() || (a).getObjectID() == (b).getObjectID()))")
        fill, rel, put, cmp_, names = [], [], [], [], []
        of = {t.name: mod for mod in self.mods() for t in mod.types}
        colls = {}
        for mod in self.mods():
            for x in mod.types + mod.links:
                # the name of a collection need not be the one of its type
                colls[x.name] = (f"c_{len(colls)}", f"{r.choice(['', 'a ', 'z_', 'Coll'])}{x.name.split('::')[-1]}{len(colls)}")
        for mod in self.mods():
            g, s, a = self.names(mod)
            for t in mod.types:
                v, n = colls[t.name]
                C = f"::{t.name}"
                fill.append(f"  {C}Collection {v}; for (unsigned k = pick(5); k > 0; --k) {{ auto o = {v}.create(); (void)o;")
                fill += [f"    o.{s(x.name)}(probe::make<{ctype(x)}>());" for x in t.mem]
                fill += [f"    for (unsigned q = pick(4); q > 0; --q) {{ o.{a(x.name)}(probe::make<{ctype(x)}>()); }}" for x in t.vec]
                fill.append("  }")
                rel.append(f"  for (auto o : {v}) {{ (void)o;")
                for x in t.one + t.many:
                    ys = [y for y in self.target(x.type) if y in colls]
                    y = colls[r.choice(ys)][0]
                    if x in t.one:
                        rel.append(f"    if ({y}.size() && pick(4)) {{ o.{s(x.name)}({y}[pick({y}.size())]); }}")
                    else:
                        rel.append(f"    for (unsigned q = pick(4); q > 0 && {y}.size(); --q) {{ o.{a(x.name)}({y}[pick({y}.size())]); }}")
                rel.append("  }")
                put.append(f'  f.put(std::move({v}), "{n}");')
                names.append(n)
                cmp_.append(f'  {{ const auto& p = f.get<{C}Collection>("{n}"); const auto& q = h.get<{C}Collection>("{n}");')
                cmp_.append(f'    CHECK(p.isValid() && q.isValid() && p.getID() == q.getID(), "io:collection", "{t.name}");')
                cmp_.append(f'    CHECK(p.size() == q.size(), "io:size", "{t.name}"); if (p.size() == q.size()) {{ for (size_t k = 0; k < p.size(); ++k) {{ const auto x = p[k]; const auto y = q[k]; (void)x; (void)y;')
                for x in t.mem:
                    cmp_.append(f'      CHECK(probe::same<{ctype(x)}>(x.{g(x.name)}(), y.{g(x.name)}()), "io:member", "{t.name}.{x.name}");')
                for x in t.vec:
                    cmp_.append(f'      CHECK(x.{x.name}_size() == y.{x.name}_size(), "io:vector-size", "{t.name}.{x.name}"); if (x.{x.name}_size() == y.{x.name}_size()) {{ for (size_t j = 0; j < x.{x.name}_size(); ++j) {{ CHECK(probe::same<{ctype(x)}>(x.{g(x.name)}(j), y.{g(x.name)}(j)), "io:vector", "{t.name}.{x.name}"); }} }}')
                for x in t.one:
                    cmp_.append(f'      CHECK(OID(x.{g(x.name)}(), y.{g(x.name)}()), "io:one-relation", "{t.name}.{x.name}");')
                for x in t.many:
                    cmp_.append(f'      CHECK(x.{x.name}_size() == y.{x.name}_size(), "io:many-size", "{t.name}.{x.name}"); if (x.{x.name}_size() == y.{x.name}_size()) {{ for (size_t j = 0; j < x.{x.name}_size(); ++j) {{ CHECK(OID(x.{g(x.name)}(j), y.{g(x.name)}(j)), "io:many-relation", "{t.name}.{x.name}"); }} }}')
                cmp_.append("    } } }")
            for l in mod.links:
                v, n = colls[l.name]
                C = f"::{l.name}"
                A, Z = (colls[r.choice(self.target(x))][0] for x in (l.frm, l.to))
                fill.append(f"  {C}Collection {v};")
                rel.append(f"  for (unsigned k = pick(5); k > 0; --k) {{ auto o = {v}.create(); o.setWeight(probe::make<float>()); if ({A}.size()) {{ o.setFrom({A}[pick({A}.size())]); }} if ({Z}.size()) {{ o.setTo({Z}[pick({Z}.size())]); }} }}")
                put.append(f'  f.put(std::move({v}), "{n}");')
                names.append(n)
                cmp_.append(f'  {{ const auto& p = f.get<{C}Collection>("{n}"); const auto& q = h.get<{C}Collection>("{n}"); CHECK(p.size() == q.size() && p.getID() == q.getID(), "io:links", "{l.name}");')
                cmp_.append(f'    for (size_t k = 0; k < p.size() && k < q.size(); ++k) {{ CHECK(p[k].getWeight() == q[k].getWeight() && OID(p[k].getFrom(), q[k].getFrom()) && OID(p[k].getTo(), q[k].getTo()), "io:link", "{l.name}"); }} }}')
        r.shuffle(put)
        r.shuffle(names)
        o += ["static podio::Frame make() { podio::Frame f;", *fill, *rel, *put, "  return f; }"]
        o += ["static void compare(const podio::Frame& f, const podio::Frame& h) {", *cmp_, "}"]
        o.append("int main() {")
        o.append(f"  for (unsigned how = 0; how < 4; ++how) {{ probe::S = {r.getrandbits(40)} + how; std::vector<podio::Frame> fs; for (int i = 0; i < 3; ++i) {{ fs.push_back(make()); }}")
        o.append("    auto gs = through(fs, {" + ", ".join(f'"{n}"' for n in names) + "}, how); CHECK(gs.size() == fs.size(), \"io:frames\", \"\"); for (size_t i = 0; i < gs.size(); ++i) { compare(fs[i], gs[i]); } }")
        o.append('  std::cout << "CHECKS " << probe::checks << " BADS " << probe::bad << std::endl;')
        o.append("}")
        return PRELUDE + "\n".join(heads) + "\n" + "\n".join(o) + "\n"
