"""C20: reading datamodel definitions"""
import copy
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, REPO, Mon  # noqa: E402
from podio_gen.generator_utils import DefinitionError  # noqa: E402
from podio_gen.podio_config_reader import PodioConfigReader  # noqa: E402
from readcmp import CATS, compare  # noqa: E402

# ---- breaking a valid definition in exactly one way ----------------------------
def bad_member(r):
    t = r.choice(["int", "float", "std::int32_t", "std::array<int, 3>"])
    return r.choice([f"{t} badMember", f"{t} 1bad // x", f"{t} bad-name // x", f"{t} // no name", f"{t} bad{{}} // x", f"{t} bad{{1 // x", f"{t} bad [mm // x", f"{t} two names // x", f"{t} bad / x",
                     "unsigned long int bad // x", "int* bad // x", "const int bad // x", "std::array<int, N> bad // x", "std::array<int> bad // x", "std::vector<int> bad // x", "a::b::C bad // x",
                     "_T bad // x", f"{t} bad; // x", "std::array<std::array<int, 2>, 2> bad // x"])


FORBID = ["int8_t", "uint8_t", "std::int8_t", "int_fast32_t", "std::uint_least16_t", "std::array<uint8_t, 4>", "std::array<std::int_fast8_t, 2>"]
UNKNOWN = ["NoSuchType", "nope::NoSuchType", "std::string", "void", "size_t", "std::array<NoSuchType, 2>", "Int", "std::float"]
TYPOS = ["Member", "members", "vectorMembers", "VectorMember", "OneToOneRelation", "OneToMany", "Relations", "Desc", "description", "author", "Authors", "extraCode", "Extracode", "ConstExtraCode", "TransientMembers",
         "Typedefs", "Namespace", "From ", "type"]


def break_it(r, m, d):
    """one change of the data that makes the definition invalid; returns what it is or None"""
    def pick(k):
        return r.choice(list(d.get(k) or {"": None}))
    c, t, i, l = (pick(k) for k in ("components", "datatypes", "interfaces", "links"))
    comp = (d.get("components") or {}).get(c)
    typ = (d.get("datatypes") or {}).get(t)
    ifc = (d.get("interfaces") or {}).get(i)
    lnk = (d.get("links") or {}).get(l)
    if any(x is None and y for x, y in ((comp, c), (typ, t), (ifc, i), (lnk, l))):
        return None

    def ins(holder, k, s):
        # a member line at a random place
        x = list(holder.get(k) or [])
        x.insert(r.randint(0, len(x)), s)
        holder[k] = x
    allc = [x.name for x in m.everything("comps")]
    allt = [x.name for x in m.everything("types")]
    alli = [x.name for x in m.everything("ifaces")]
    alll = [x.name for x in m.links]
    ops = []

    def op(cond):
        def deco(f):
            if cond:
                ops.append(f)
            return f
        return deco
    cat = r.choice(CATS)

    @op(typ is not None)
    def member_syntax():
        ins(typ, cat, bad_member(r))
        return f"malformed {cat} entry"

    @op(comp is not None)
    def comp_member_syntax():
        b = bad_member(r)
        if b.endswith("badMember"):
            b = "int // no name"
        ins(comp, "Members", b)
        return "malformed component member"

    @op(ifc is not None)
    def iface_member_syntax():
        ins(ifc, "Members", bad_member(r))
        return "malformed interface member"

    @op(typ is not None)
    def unknown_member():
        k = r.choice(("Members", "VectorMembers"))
        ins(typ, k, r.choice(UNKNOWN) + " unknownT // x")
        return f"unknown type in {k}"

    @op(comp is not None)
    def unknown_comp_member():
        ins(comp, "Members", r.choice(UNKNOWN) + " unknownT")
        return "unknown type in component"

    @op(ifc is not None)
    def unknown_iface_member():
        ins(ifc, "Members", r.choice(UNKNOWN) + " unknownT // x")
        return "unknown type in interface member"

    @op(typ is not None)
    def forbidden():
        h, k = r.choice([(typ, "Members"), (typ, "VectorMembers")] + ([(comp, "Members")] if comp else []) + ([(ifc, "Members")] if ifc else []))
        ins(h, k, r.choice(FORBID) + " forbiddenT // x")
        return f"forbidden fixed width type in {k}"

    @op(typ is not None)
    def datatype_as_member():
        k = r.choice(("Members", "VectorMembers"))
        ins(typ, k, r.choice(allt + alli + alll) + " wrongKind // x")
        return f"datatype, interface or link in {k}"

    @op(comp is not None)
    def datatype_in_component():
        ins(comp, "Members", r.choice(allt + alli + alll) + " wrongKind")
        return "datatype, interface or link in component"

    @op(typ is not None)
    def array_of_datatype():
        h = r.choice([typ] + ([comp] if comp else []))
        ins(h, "Members", f"std::array<{r.choice(allt + alli)}, 3> wrongArr // x")
        return "array of a datatype or interface"

    @op(typ is not None)
    def bad_relation():
        k = r.choice(CATS[2:])
        ins(typ, k, r.choice(allc + alll + ["int", "float", "NoSuchType", "nope::NoSuchType", "std::int32_t"]) + " wrongRel // x")
        return f"{k} to something that is no datatype or interface"

    @op(typ is not None)
    def vector_of_array():
        ins(typ, "VectorMembers", "std::array<int, 2> wrongVec // x")
        return "vector member of arrays"

    @op(typ is not None)
    def dup_member():
        tm = next(x for x in m.types if x.name == t)
        names = [x.name for x in tm.all_members()]
        if not names:
            return None
        n = r.choice(names)
        k = r.choice(CATS)
        ty = "float" if k in CATS[:2] else r.choice(allt)
        ins(typ, k, f"{ty} {n} // again")
        return f"duplicate name in {k}"

    @op(comp is not None)
    def dup_comp_member():
        cm = next(x for x in m.comps if x.name == c)
        ins(comp, "Members", f"int {r.choice(cm.mem).name}")
        return "duplicate name in component"

    @op(ifc is not None and ifc["Members"])
    def dup_iface_member():
        im = next(x for x in m.ifaces if x.name == i)
        ins(ifc, "Members", f"int {r.choice(im.mem).name} // again")
        return "duplicate name in interface"

    @op(typ is not None and m.opt("exposePODMembers") and allc)
    def exposed_clash():
        cc = r.choice(m.everything("comps"))
        n = r.choice(cc.mem).name
        tm = next(x for x in m.types if x.name == t)
        if not any(x.type == cc.name and not x.arr for x in tm.mem):
            ins(typ, "Members", f"{cc.name} exposingMember // x")
        k = r.choice(CATS)
        ins(typ, k, f"{'float' if k in CATS[:2] else r.choice(allt)} {n} // clash")
        return f"name in {k} clashes with exposed member of a component"

    @op(typ is not None and m.opt("exposePODMembers") and allc)
    def exposed_twice():
        cc = r.choice(m.everything("comps"))
        ins(typ, "Members", f"{cc.name} exposeOne // x")
        ins(typ, "Members", f"{cc.name} exposeTwo // x")
        return "component exposed twice"

    @op(typ is not None)
    def missing():
        k = r.choice(("Description", "Author"))
        del typ[k]
        return f"datatype without {k}"

    @op(comp is not None)
    def comp_missing():
        del comp["Members"]
        return "component without Members"

    @op(ifc is not None)
    def iface_missing():
        k = r.choice(("Description", "Author", "Members", "Types"))
        del ifc[k]
        return f"interface without {k}"

    @op(lnk is not None)
    def link_missing():
        k = r.choice(("Description", "Author", "From", "To"))
        del lnk[k]
        return f"link without {k}"

    def typo(h, what, also):
        k = r.choice(TYPOS + also)
        if r.random() < 0.5 and len(h) > 1:  # a category is renamed
            old = r.choice(list(h))
            new = r.choice([old.lower(), old + "s", old[:-1], old + " "])
            if new not in h and new != old:
                h[new] = h.pop(old)
                return f"{what} with category {new!r} instead of {old!r}"
        h[k] = ["int typo // x"]
        return f"{what} with category {k!r}"

    @op(typ is not None)
    def typo_type():
        return typo(typ, "datatype", ["Types", "From", "To"])

    @op(comp is not None)
    def typo_comp():
        return typo(comp, "component", list(CATS[1:]) + ["MutableExtraCode", "Types", "From"])

    @op(ifc is not None)
    def typo_iface():
        return typo(ifc, "interface", list(CATS[1:]) + ["ExtraCode", "MutableExtraCode"])

    @op(lnk is not None)
    def typo_link():
        return typo(lnk, "link", list(CATS) + ["ExtraCode", "Types"])

    @op(typ is not None)
    def bad_extra():
        k = r.choice(("ExtraCode", "MutableExtraCode"))
        x = dict(typ.get(k) or {})
        b = r.choice(["declarations", "const_declaration", "Declaration", "include", "code", "implementationfile"])
        x[b] = "int f();"
        typ[k] = x
        return f"{k} with {b!r}"

    @op(comp is not None)
    def bad_comp_extra():
        x = dict(comp.get("ExtraCode") or {})
        b = r.choice(["implementation", "implementationFile", "declarations", "Includes"])
        x[b] = "int f();"
        comp["ExtraCode"] = x
        return f"component ExtraCode with {b!r}"

    @op(ifc is not None)
    def iface_type():
        x = list(ifc["Types"])
        x.insert(r.randint(0, len(x)), r.choice(["NoSuchType", "int", "nope::T", "std::int32_t"] + allc + alli + alll))
        ifc["Types"] = x
        return "interface of something that is no datatype"

    @op(lnk is not None)
    def link_end():
        lnk[r.choice(("From", "To"))] = r.choice(["NoSuchType", "int", "nope::T"] + allc + alll)
        return "link end that is no datatype or interface"

    kinds = [k for k in ("components", "datatypes", "interfaces", "links") if d.get(k)]

    @op(len(kinds) >= 1)
    def redefine():
        k = r.choice(kinds)
        n = r.choice(list(d[k]))
        o = r.choice([x for x in ("components", "datatypes", "interfaces", "links") if x != k])
        new = dict(components={"Members": ["int redefined"]}, datatypes={"Description": "d", "Author": "a", "Members": ["int redefined // x"]},
                   interfaces={"Description": "d", "Author": "a", "Members": [], "Types": [r.choice(allt)]}, links={"Description": "d", "Author": "a", "From": r.choice(allt), "To": r.choice(allt)})[o]
        x = dict(d.get(o) or {})
        x[n] = new
        d[o] = x
        return f"{n} in {k} and {o}"

    @op(True)
    def no_version():
        del d["schema_version"]
        return "no schema version"

    @op(True)
    def bad_version():
        d["schema_version"] = r.choice([0, -1, -17, "abc", "", None, [1], {"a": 1}, "1.x"])
        return f"schema version {d['schema_version']!r}"

    @op(len(kinds) >= 1)
    def nested_ns():
        k = r.choice(kinds)
        n = r.choice(["a::b::C", "x::y::z::W"])
        x = dict(d[k])
        x[n] = copy.deepcopy(r.choice(list(x.values())))
        d[k] = x
        return f"nested namespace in {k}"

    r.shuffle(ops)
    # each kind of defect is as likely as any other
    return ops[0]()


def uses_upstream(m):
    up = {x.name for k in ("comps", "types", "ifaces") for x in m.upstream.everything(k)}
    used = set()
    for c in m.comps:
        used |= {x.arr[0] if x.arr else x.type for x in c.mem}
    for t in m.types:
        used |= {x.arr[0] if x.arr else x.type for x in t.all_members()}
    for i in m.ifaces:
        used |= set(i.types) | {x.arr[0] if x.arr else x.type for x in i.mem}
    for x in m.links:
        used |= {x.frm, x.to}
    return bool(used & up)


def cli(mon, yaml, pkg, up, want_ok, why):
    out = os.path.join(mon.tmp, "out%d" % mon.idx)
    a = [sys.executable, "-B", f"{REPO}/python/podio_class_generator.py", "-q", yaml, out, pkg, "ROOT"] + (["--upstream-edm", up] if up else [])
    p = subprocess.run(a, capture_output=True, text=True, errors="backslashreplace", timeout=120, env=dict(os.environ, TMPDIR=mon.tmp))
    files = [os.path.join(a, f) for a, _, fs in os.walk(out) for f in fs]
    mon.stat("command_line_runs")
    if not want_ok:
        mon.check(p.returncode != 0, "command-line:invalid-accepted", lambda: f"{why}: exit {p.returncode} {p.stdout} {p.stderr}")
        mon.check(not files, "command-line:files-written-for-invalid-definition", lambda: f"{why}: {files[:5]}")
        mon.check("Traceback" not in p.stderr, "command-line:crash-instead-of-definition-error", lambda: f"{why}: {p.stderr[-1500:]}")


def one(mon):
    r = mon.rng("read")
    mon.what = "valid definition"
    m = G.random_model(f"{mon.seed}/{mon.idx}", package=r.choice(["pkg", "edm", "dm_1"]), upstream_chance=0.35, compile_safe=False, size=r.choice([0.5, 1, 2]))
    mon.note(m.summary())
    mon.sample(m.summary())
    up, uparg = None, None

    def write(name, text):
        p = os.path.join(mon.tmp, name)
        open(p, "w", encoding="utf-8").write(text)
        return p
    if m.upstream:
        y = m.upstream.yaml(r)
        p = write("up.yaml", y)
        try:
            up = PodioConfigReader.read(p, m.upstream.package)
        except Exception as e:
            mon.note(y)
            mon.violation("valid-rejected:upstream", repr(e))
            return
        uparg = f"{m.upstream.package}:{p}"
        compare(mon, up, m.upstream, "upstream ")
    # extra code that comes from files
    d = m.dict(r)
    for t in m.types + m.comps:
        x = (d["datatypes"] if isinstance(t, G.Type) else d["components"])[t.name].get("ExtraCode")
        if x and r.random() < 0.4:
            for k in [k for k in ("declaration", "implementation") if k in x]:
                if r.random() < 0.6:
                    fn = f"{t.name.replace(':', '_')}.{k}.inc"
                    body = x.pop(k)
                    full = write(fn, body)
                    x[k + "File"] = r.choice([fn, full])
                    t.extra = dict(t.extra)
                    t.extra[k] = "\n" + body
                    if r.random() < 0.3:
                        x[k] = "// inline first"
                        t.extra[k] = "// inline first\n" + body
            mon.stat("extra_code_files")
    y = G.dump(r, d)
    p = write("model.yaml", y)
    try:
        dm = PodioConfigReader.read(p, m.package, up)
    except Exception as e:
        mon.note(y)
        mon.violation("valid-rejected", repr(e))
        return
    compare(mon, dm, m, "")
    if mon.case_viol:
        mon.note(y)
    if r.random() < 0.5:  # reading again, from the same and from other text, gives the same
        write("again.yaml", m.yaml(r) if not any("File" in k for t in m.types + m.comps for k in (d.get("datatypes", {}).get(t.name) or d.get("components", {}).get(t.name) or {}).get("ExtraCode", {}) or {}) else y)
        compare(mon, PodioConfigReader.read(os.path.join(mon.tmp, "again.yaml"), m.package, up), m, "again ")
    mon.stat("valid_definitions")
    mon.stat("definitions_read")
    mon.distinct("nontrivial", y)
    if m.upstream and uses_upstream(m):
        try:
            PodioConfigReader.read(p, m.package)
            mon.violation("invalid-accepted:types of an upstream datamodel that is not given", y)
        except DefinitionError:
            mon.stat("rejected")
        except Exception as e:
            mon.violation("invalid:wrong-exception:upstream-missing", repr(e))
    # one defect each
    for k in range(8):
        mon.what = "invalid definition"
        d2 = copy.deepcopy(m.dict(r))
        why = break_it(r, m, d2)
        if not why:
            continue
        y2 = G.dump(r, d2)
        p2 = write("bad.yaml", y2)
        mon.stat("invalid_definitions")
        mon.stat("definitions_read")
        mon.distinct("kinds_of_defect", " ".join(why.split()[:4]))
        mon.distinct("nontrivial", y2)
        try:
            PodioConfigReader.read(p2, m.package, up)
            mon.note(y2)
            mon.violation("invalid-accepted:" + " ".join(why.split()[:5]), why)
        except DefinitionError:
            mon.stat("rejected")
            mon.stat("checks")
        except Exception as e:
            mon.note(y2)
            mon.violation("invalid:wrong-exception:" + " ".join(why.split()[:5]), f"{why}: {e!r}")
        if k == 0 and mon.idx % 4 == 0:
            cli(mon, p2, m.package, uparg, False, why)


Mon().run(one)
