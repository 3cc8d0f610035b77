"""Independent reader for the datamodels under /verif/models and generator of the
C++ adapter code (per type traits) used by the monitors. Nothing from
/repo/python is used here: this is the reference view of the datamodel."""
import re
import yaml

BUILTIN = {"int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short",
           "bool", "long long", "unsigned long long"}
FIXED = {"int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"}


def norm_type(t):
    t = " ".join(t.split())
    if t in FIXED:
        return "std::" + t
    m = re.fullmatch(r"std::array<\s*(.+?)\s*,\s*(\d+)\s*>", t)
    if m:
        return f"std::array<{norm_type(m[1])}, {m[2]}>"
    return t


class Member:
    def __init__(self, s, has_desc=True):
        s = s.strip()
        desc = ""
        if "//" in s:
            s, desc = s.split("//", 1)
            s, desc = s.strip(), desc.strip()
        self.desc = desc
        self.unit = None
        m = re.search(r"\[([^\]]*)\]\s*$", s)
        if m:
            self.unit = m[1]
            s = s[:m.start()].strip()
        self.default = None
        m = re.search(r"\{([^}]*)\}\s*$", s)
        if m:
            self.default = m[1]
            s = s[:m.start()].strip()
        m = re.fullmatch(r"(.+?)\s*([A-Za-z_]\w*)", s)
        t, n = s.rsplit(None, 1)
        self.type, self.name = norm_type(t), n

    @property
    def array(self):
        m = re.fullmatch(r"std::array<(.+), (\d+)>", self.type)
        return (m[1], int(m[2])) if m else None

    @property
    def builtin(self):
        return self.type in BUILTIN or (self.type.startswith("std::") and self.type[5:] in FIXED)


def cpp_scope(t):
    """fully qualified name of a datamodel type"""
    return t if t.startswith("std::") or t in BUILTIN else "::" + t


def cpp_type(t):
    m = re.fullmatch(r"std::array<(.+), (\d+)>", t)
    if m:
        return f"std::array<{cpp_type(m[1])}, {m[2]}>"
    return cpp_scope(t)


class Model:
    def __init__(self, path, package, upstream=None):
        self.path, self.package, self.upstream = path, package, upstream
        d = yaml.safe_load(open(path))
        self.raw = d
        opt = d.get("options", {})
        self.get_syntax = bool(opt.get("getSyntax", False))
        self.expose_pod = bool(opt.get("exposePODMembers", False))
        self.include_sub = bool(opt.get("includeSubfolder", False))
        self.schema_version = d["schema_version"]
        self.components = {n: [Member(m) for m in c["Members"]] for n, c in (d.get("components") or {}).items()}
        self.datatypes = {}
        for n, c in (d.get("datatypes") or {}).items():
            self.datatypes[n] = dict(
                mem=[Member(m) for m in c.get("Members", []) or []],
                vec=[Member(m) for m in c.get("VectorMembers", []) or []],
                one=[Member(m) for m in c.get("OneToOneRelations", []) or []],
                many=[Member(m) for m in c.get("OneToManyRelations", []) or []])
        self.interfaces = {n: dict(types=c["Types"], mem=[Member(m) for m in c.get("Members", []) or []])
                           for n, c in (d.get("interfaces") or {}).items()}
        self.links = {n: (c["From"], c["To"]) for n, c in (d.get("links") or {}).items()}

    # lookups through upstream
    def iface(self, n):
        if n in self.interfaces:
            return self.interfaces[n]
        return self.upstream.iface(n) if self.upstream else None

    def comp(self, n):
        if n in self.components:
            return self.components[n]
        return self.upstream.comp(n) if self.upstream else None

    def all_types(self):
        return list(self.datatypes) + list(self.links)


def bare(t):
    return t.split("::")[-1]


def nspace(t):
    return t.rsplit("::", 1)[0] + "::" if "::" in t else ""


def mut(t):
    return "::" + nspace(t) + "Mutable" + bare(t)


def cap(n):
    return n[0].upper() + n[1:]


class Adapter:
    def __init__(self, models):
        self.models = models
        self.types = []  # (full name, model, kind)
        for m in models:
            for t in m.datatypes:
                self.types.append((t, m, "data"))
            for t in m.links:
                self.types.append((t, m, "link"))
        self.index = {t: i for i, (t, _, _) in enumerate(self.types)}

    def headers(self, model):
        return [f'#include "{model.package}/{model.package}.h"']

    def common_header(self):
        o = ["#pragma once", '#include "vf_ops.h"']
        for m in self.models:
            for c in m.components:
                o.append(f'#include "{m.package}/{bare(c)}.h"')
        o.append("namespace vf {")
        for m in self.models:
            for c, mems in m.components.items():
                o.append(f"template<> struct Comp<::{c}> {{ static constexpr bool is = true; static constexpr int n = {len(mems)};")
                o.append("  template<class V, class F> static void each(V& v, F&& f) {")
                for x in mems:
                    o.append(f'    f("{x.name}", v.{x.name});')
                o.append("  } };")
                # the component must have exactly the declared members with declared types
                for x in mems:
                    o.append(f"static_assert(std::is_same_v<decltype(::{c}::{x.name}), {cpp_type(x.type)}>);")
        o.append(f"constexpr int NTYPES = {len(self.types)};")
        o.append("}")
        return "\n".join(o) + "\n"

    def interface_tr(self, t, m):
        d = m.iface(t)
        types = d["types"]
        o = [f'template<> struct Tgt<::{t}> {{ static constexpr bool isInterface = true; static constexpr const char* name = "{t}";']
        o.append(f"  static std::vector<int> types() {{ return {{{', '.join(str(self.index[x]) for x in types)}}}; }}")
        o.append("  template<class F> static void dispatch(const ::%s& h, F&& f) {" % t)
        for x in types:
            o.append(f"    if (h.isA<::{x}>()) {{ f(h.as<::{x}>(), {self.index[x]}); return; }}")
        o.append('    vf::internalError("interface handle of %s holds none of its types"); }' % t)
        o.append(f"  static ::{t} make(const HandleBase& h) {{ switch (h.type) {{")
        for x in types:
            o.append(f"    case {self.index[x]}: if (h.mut) return ::{t}(as<{mut(x)}>(h)); else return ::{t}(as<::{x}>(h));")
        o.append('    } throw std::logic_error("harness: bad interface target"); }')
        o.append(f"  static bool isA(const ::{t}& h, int type) {{ switch (type) {{")
        for x in types:
            o.append(f"    case {self.index[x]}: return h.isA<::{x}>();")
        o.append("    } return false; }")
        o.append(f"  static HP asType(const ::{t}& h, int type) {{ switch (type) {{")
        for x in types:
            o.append(f"    case {self.index[x]}: return wrap<::{x}>(h.as<::{x}>(), type, false);")
        o.append('    } throw std::logic_error("harness: bad interface type"); }')
        o.append(f"  static int eqHandle(const ::{t}& i, const HandleBase& h) {{ switch (h.type) {{")
        for x in types:
            o.append(f"    case {self.index[x]}: return h.mut ? (i == as<{mut(x)}>(h)) + 2 * (as<{mut(x)}>(h) == i) + 4 * !(i != as<{mut(x)}>(h)) : (i == as<::{x}>(h)) + 2 * (as<::{x}>(h) == i) + 4 * !(i != as<::{x}>(h));")
        o.append("    } return -1; }")
        o.append(f"  template<class F> static void mems(const ::{t}& h, F&& f) {{ (void)h; (void)f;")
        for i, x in enumerate(d["mem"]):
            g = self.iface_model(t).get_syntax
            o.append(f'    f({i}, "{x.name}", h.{"get" + cap(x.name) if g else x.name}());')
        o.append("  }")
        o.append(f"  static constexpr int nMem = {len(d['mem'])};")
        o.append("};")
        return o

    def iface_model(self, t):
        for m in self.models:
            if t in m.interfaces:
                return m
        raise KeyError(t)

    def tgt_header(self):
        """relation target traits for all types and interfaces"""
        o = ["#pragma once", '#include "adapter_common.h"']
        for m in self.models:
            for t in m.datatypes:
                o.append(f'#include "{m.package}/{bare(t)}Collection.h"')
            for t in m.interfaces:
                o.append(f'#include "{m.package}/{bare(t)}.h"')
            for t in m.links:
                o.append(f'#include "{m.package}/{bare(t)}Collection.h"')
        o.append("namespace vf {")
        for t, m, kind in self.types:
            o.append(f"template<> struct TypeIdx<::{t}> {{ static constexpr int v = {self.index[t]}; }};")
        for m in self.models:
            for t in m.datatypes:
                i = self.index[t]
                o.append(f'template<> struct Tgt<::{t}> {{ static constexpr bool isInterface = false; static constexpr const char* name = "{t}";')
                o.append(f"  static std::vector<int> types() {{ return {{{i}}}; }}")
                o.append(f"  template<class F> static void dispatch(const ::{t}& h, F&& f) {{ f(h, {i}); }}")
                o.append(f"  static ::{t} make(const HandleBase& h) {{ if (h.type != {i}) throw std::logic_error(\"harness: bad target\"); if (h.mut) return as<{mut(t)}>(h); return as<::{t}>(h); }}")
                o.append("};")
        for m in self.models:
            for t in m.interfaces:
                o += self.interface_tr(t, m)
        o.append("}")
        return "\n".join(o) + "\n"

    def dt_tr(self, t, m):
        d = m.datatypes[t]
        gs = m.get_syntax

        def getter(n):
            return "get" + cap(n) if gs else n

        def setter(n):
            return "set" + cap(n) if gs else n

        def adder(n):
            return "addTo" + cap(n) if gs else "add" + n

        mem, vec, one, many = d["mem"], d["vec"], d["one"], d["many"]
        o = [f"template<> struct Tr<::{t}> {{"]
        o.append(f"  using C = ::{t}; using M = {mut(t)}; using Coll = ::{t}Collection; using Data = ::{t}Data;")
        o.append(f'  static constexpr const char* name = "{t}"; static constexpr const char* collName = "{t}Collection"; static constexpr const char* dataName = "{t}Data"; static constexpr const char* package = "{m.package}"; static constexpr unsigned schemaVersion = {m.schema_version};')
        o.append(f"  static constexpr int nMem = {len(mem)}, nVec = {len(vec)}, nOne = {len(one)}, nMany = {len(many)}; static constexpr bool isLink = false; static constexpr bool hasArgs = {'true' if mem else 'false'};")
        for k, l in (("mem", mem), ("vec", vec), ("one", one), ("many", many)):
            o.append(f"  static const char* {k}Name(int i) {{ static const char* n[] = {{{', '.join(chr(34) + x.name + chr(34) for x in l) or 'nullptr'}}}; return n[i]; }}")
        # defaults
        o.append("  template<class F> static void defaults(F&& f) { (void)f;")
        for i, x in enumerate(mem):
            o.append(f"    {{ {cpp_type(x.type)} v{{{x.default or ''}}}; f({i}, v); }}")
        o.append("  }")
        o.append("  template<class H, class F> static void mem(const H& h, int i, F&& f) { (void)h; (void)f; switch (i) {")
        for i, x in enumerate(mem):
            o.append(f"    case {i}: {{ static_assert(std::is_same_v<std::remove_cvref_t<decltype(h.{getter(x.name)}())>, {cpp_type(x.type)}>); f(h.{getter(x.name)}()); break; }}")
        o.append("  } }")
        # data struct
        o.append("  template<class F> static void dataMem(const Data& d, F&& f) { (void)d; (void)f;")
        for i, x in enumerate(mem):
            o.append(f"    static_assert(std::is_same_v<decltype(d.{x.name}), {cpp_type(x.type)}>); f({i}, d.{x.name});")
        o.append("  }")
        # set whole
        o.append("  static void set(M& h, int i, Rng& r, int how, std::string& out) { (void)h; (void)r; (void)how; (void)out; switch (i) {")
        for i, x in enumerate(mem):
            o.append(f"    case {i}: {{ {cpp_type(x.type)} v{{}}; gen(r, v); canon(out, v); if (how == 0) h.{setter(x.name)}(v); else h.{getter(x.name)}() = v; break; }}")
        o.append("  } }")
        # partial sets: arrays elementwise, sub members of components
        o.append("  static int nSub(int i) { switch (i) {")
        subs = {}
        for i, x in enumerate(mem):
            s = []
            ty = cpp_type(x.type)
            if x.array:
                et = cpp_type(x.array[0])
                s.append(f"auto v = h.{getter(x.name)}(); size_t k = r.below({x.array[1]}); {et} e{{}}; gen(r, e); v[k] = e; h.{setter(x.name)}(k, e); canon(out, v); expectThrow<std::out_of_range>(\"{t}.{x.name}(size, value)\", [&] {{ h.{setter(x.name)}({x.array[1]} + k % 3, e); }});")
                s.append(f"auto v = h.{getter(x.name)}(); size_t k = r.below({x.array[1]}); {et} e{{}}; gen(r, e); v[k] = e; h.{getter(x.name)}()[k] = e; canon(out, v);")
            elif not x.builtin:
                comp = m.comp(x.type)
                for sm in comp:
                    st = cpp_type(sm.type)
                    s.append(f"auto v = std::as_const(h).{getter(x.name)}(); {st} e{{}}; gen(r, e); v.{sm.name} = e; h.{getter(x.name)}().{sm.name} = e; canon(out, v);")
                    if m.expose_pod and x.type in m.components:
                        s.append(f"auto v = std::as_const(h).{getter(x.name)}(); {st} e{{}}; gen(r, e); v.{sm.name} = e; h.{setter(sm.name)}(e); canon(out, v);")
                        if not sm.builtin:
                            s.append(f"auto v = std::as_const(h).{getter(x.name)}(); {st} e{{}}; gen(r, e); v.{sm.name} = e; h.{getter(sm.name)}() = e; canon(out, v);")
            subs[i] = s
            o.append(f"    case {i}: return {len(s)};")
        o.append("  } return 0; }")
        o.append("  static void setSub(M& h, int i, int s, Rng& r, std::string& out) { (void)h; (void)r; (void)out; switch (i * 100 + s) {")
        for i, s in subs.items():
            for k, code in enumerate(s):
                o.append(f"    case {i * 100 + k}: {{ {code} break; }}")
        o.append("  } }")
        # sub reads: every alternative way of reading parts must agree with the whole member
        o.append("  template<class H> static void checkSub(const H& h, int i) { (void)h; switch (i) {")
        for i, x in enumerate(mem):
            s = []
            if x.array:
                s.append(f"const auto v = h.{getter(x.name)}(); for (size_t k = 0; k < {x.array[1]}; ++k) subEq(\"{t}.{x.name}[k]\", h.{getter(x.name)}(k), v[k]); expectThrow<std::out_of_range>(\"{t}.{x.name}(size)\", [&] {{ (void)h.{getter(x.name)}({x.array[1]}); }});")
            elif not x.builtin and m.expose_pod and x.type in m.components:
                for sm in m.components[x.type]:
                    s.append(f"subEq(\"{t}.{sm.name}\", h.{getter(sm.name)}(), h.{getter(x.name)}().{sm.name});")
            if s:
                o.append(f"    case {i}: {{ {' '.join(s)} break; }}")
        o.append("  } }")
        # vec members
        o.append("  template<class H, class F> static void vec(const H& h, int v, F&& f) { (void)h; (void)f; switch (v) {")
        for i, x in enumerate(vec):
            g = getter(x.name)
            o.append(f"    case {i}: f([&] {{ return h.{x.name}_size(); }}, [&](size_t k) {{ return h.{g}(k); }}, [&] {{ return h.{x.name}_begin(); }}, [&] {{ return h.{x.name}_end(); }}, [&] {{ return h.{g}(); }}); break;")
        o.append("  } }")
        o.append("  static void vecAdd(M& h, int v, Rng& r, std::string& out) { (void)h; (void)r; (void)out; switch (v) {")
        for i, x in enumerate(vec):
            o.append(f"    case {i}: {{ {cpp_type(x.type)} e{{}}; gen(r, e); canon(out, e); h.{adder(x.name)}(e); break; }}")
        o.append("  } }")
        # one
        o.append("  template<class H, class F> static void one(const H& h, int i, F&& f) { (void)h; (void)f; switch (i) {")
        for i, x in enumerate(one):
            o.append(f"    case {i}: f(h.{getter(x.name)}()); break;")
        o.append("  } }")
        o.append("  static void oneSet(M& h, int i, const HandleBase* v) { (void)h; (void)v; switch (i) {")
        for i, x in enumerate(one):
            o.append(f"    case {i}: if (v) h.{setter(x.name)}(Tgt<::{x.type}>::make(*v)); else h.{setter(x.name)}(::{x.type}::makeEmpty()); break;")
        o.append("  } }")
        o.append("  static std::vector<int> oneTypes(int i) { switch (i) {")
        for i, x in enumerate(one):
            o.append(f"    case {i}: return Tgt<::{x.type}>::types();")
        o.append("  } return {}; }")
        o.append("  static bool oneIface(int i) { switch (i) {")
        for i, x in enumerate(one):
            o.append(f"    case {i}: return Tgt<::{x.type}>::isInterface;")
        o.append("  } return false; }")
        # many
        o.append("  template<class H, class F> static void many(const H& h, int i, F&& f) { (void)h; (void)f; switch (i) {")
        for i, x in enumerate(many):
            g = getter(x.name)
            o.append(f"    case {i}: f([&] {{ return h.{x.name}_size(); }}, [&](size_t k) {{ return h.{g}(k); }}, [&] {{ return h.{x.name}_begin(); }}, [&] {{ return h.{x.name}_end(); }}, [&] {{ return h.{g}(); }}); break;")
        o.append("  } }")
        o.append("  static void manyAdd(M& h, int i, const HandleBase& v) { (void)h; (void)v; switch (i) {")
        for i, x in enumerate(many):
            o.append(f"    case {i}: h.{adder(x.name)}(Tgt<::{x.type}>::make(v)); break;")
        o.append("  } }")
        o.append("  static std::vector<int> manyTypes(int i) { switch (i) {")
        for i, x in enumerate(many):
            o.append(f"    case {i}: return Tgt<::{x.type}>::types();")
        o.append("  } return {}; }")
        o.append("  static bool manyIface(int i) { switch (i) {")
        for i, x in enumerate(many):
            o.append(f"    case {i}: return Tgt<::{x.type}>::isInterface;")
        o.append("  } return false; }")
        # ctor with args
        if mem:
            args = ", ".join(f"a{i}" for i in range(len(mem)))
            decl = " ".join(f"{cpp_type(x.type)} a{i}{{}}; gen(r, a{i}); {{ std::string s; canon(s, a{i}); out.push_back(s); }}" for i, x in enumerate(mem))
            o.append(f"  template<class F> static void withArgs(Rng& r, std::vector<std::string>& out, F&& f) {{ {decl} f({args}); }}")
            o.append(f"  static M ctor(Rng& r, std::vector<std::string>& out) {{ {decl} return M({args}); }}")
        # vectorised columns
        o.append("  template<class F> static void column(const Coll& c, int i, size_t n, F&& f) { (void)c; (void)n; (void)f; switch (i) {")
        for i, x in enumerate(mem):
            o.append(f"    case {i}: f(c.{x.name}(n)); break;")
        o.append("  } }")
        o.append("  template<class F> static void columnAll(const Coll& c, int i, F&& f) { (void)c; (void)f; switch (i) {")
        for i, x in enumerate(mem):
            o.append(f"    case {i}: f(c.{x.name}()); break;")
        o.append("  } }")
        # vector member buffers
        o.append("  template<class F> static void vecType(int i, F&& f) { (void)f; switch (i) {")
        for i, x in enumerate(vec):
            o.append(f"    case {i}: f(static_cast<{cpp_type(x.type)}*>(nullptr)); break;")
        o.append("  } }")
        o.append("  static const char* vecTypeName(int i) { static const char* n[] = {%s}; return n[i]; }" % (", ".join(f'"{x.type}"' for x in vec) or "nullptr"))
        o.append("};")
        return "\n".join(o) + "\n"

    def link_tr(self, t, m):
        f, to = m.links[t]
        o = [f"template<> struct Tr<::{t}> : LinkTr<::{f}, ::{to}> {{ using C = ::{t}; using M = {mut(t)}; using Coll = ::{t}Collection;"]
        o.append(f"  static_assert(std::is_same_v<C, podio::Link<::{f}, ::{to}>>);")
        o.append(f'  static constexpr const char* name = "{t}"; static inline const std::string collNameS = "podio::LinkCollection<{f},{to}>"; static inline const char* collName = collNameS.c_str(); static constexpr const char* dataName = "podio::LinkData"; static constexpr const char* package = ""; static constexpr unsigned schemaVersion = 1;')
        o.append("};")
        return "\n".join(o) + "\n"

    def type_cc(self, t):
        for name, m, kind in self.types:
            if name == t:
                break
        body = self.dt_tr(t, m) if kind == "data" else self.link_tr(t, m)
        ident = t.replace("::", "_")
        return f'#include "adapter_tgt.h"\n#include "vf_ops_impl.h"\nnamespace vf {{\n{body}\nTypeOps* ops_{ident}() {{ static OpsImpl<::{t}> o({self.index[t]}); return &o; }}\n}}\n'

    def registry_cc(self):
        o = ['#include "vf_ops.h"', "namespace vf {"]
        for t, _, _ in self.types:
            o.append(f"TypeOps* ops_{t.replace('::', '_')}();")
        o.append("const std::vector<TypeOps*>& allTypes() { static const std::vector<TypeOps*> v{" +
                 ", ".join(f"ops_{t.replace('::', '_')}()" for t, _, _ in self.types) + "}; return v; }")
        o.append("}")
        return "\n".join(o) + "\n"

    def root_dictionary(self):
        """what the dictionaries of ROOT have of the datamodels"""
        o = ['#pragma once', '#include "adapter_tgt.h"', '#include "rootstub.h"', "namespace vf {", "inline void rootDictionary() {",
             '  rootstub::dictionary<podio::LinkData>("podio::LinkData");', '  rootstub::dictionary<podio::ObjectID>("podio::ObjectID");']
        for m in self.models:
            for c in m.components:
                o.append(f'  rootstub::dictionary<::{c}>("{c}");')
        for t, m, kind in self.types:
            if kind == "data":
                o.append(f'  rootstub::dictionary<::{t}Data>("{t}Data");')
            o.append(f'  rootstub::TClass_<::{t}Collection>(std::string(::{t}Collection::typeName));')
        o.append("} }")
        return "\n".join(o) + "\n"

    def write(self, outdir, chunks=6):
        import os
        os.makedirs(outdir, exist_ok=True)

        def w(n, s):
            p = os.path.join(outdir, n)
            if not os.path.exists(p) or open(p).read() != s:
                open(p, "w").write(s)
            return p
        w("adapter_common.h", self.common_header())
        w("adapter_tgt.h", self.tgt_header())
        w("vf_rootdict.h", self.root_dictionary())
        files = []
        cost = {}
        for t, m, kind in self.types:
            files.append(w(f"ops_{t.replace('::', '_')}.cc", self.type_cc(t)))
        files.append(w("ops_registry.cc", self.registry_cc()))
        return files
