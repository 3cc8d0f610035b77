"""Compares what the definition reader made of a definition with what was declared."""
from vf import genmodel as G

CATS = ("Members", "VectorMembers", "OneToOneRelations", "OneToManyRelations")


def mem_seen(m):
    d = m.default_val
    return (m.full_type, m.name, d.strip() if isinstance(d, str) else d, m.unit, m.description.strip())


def mem_want(m):
    return (m.full, m.name, m.default.strip() if m.default is not None else None, m.unit, (m.desc or "").strip())


def compare(mon, dm, m, where):
    ok = mon.eq(type(dm.schema_version), int, "schema-version-type", where)
    mon.eq(dm.schema_version, m.schema_version, "schema-version", where)
    for k in ("getSyntax", "exposePODMembers"):
        mon.eq(bool(dm.options[k]), m.opt(k), "option:" + k, where)
    mon.eq(dm.options["includeSubfolder"], m.package + "/" if m.opt("includeSubfolder") else "", "option:includeSubfolder", where)
    for k, l in (("components", m.comps), ("datatypes", m.types), ("interfaces", m.ifaces), ("links", m.links)):
        if not mon.eq(sorted(getattr(dm, k)), sorted(x.name for x in l), "declared-" + k, where):
            ok = False
    if not ok:
        return

    def members(got, want, what):
        mon.check([mem_seen(x) for x in got] == [mem_want(x) for x in want], "members:" + what.split()[0], lambda: f"{where} {what}: {[mem_seen(x) for x in got]} expected {[mem_want(x) for x in want]}")
        for g, w in zip(got, want):
            bt = G.is_builtin(w.type)
            mon.check(bool(g.is_builtin) == (bt and not w.arr) and bool(g.is_array) == (w.arr is not None) and (not w.arr or (g.array_type == G.canon(w.arr[0]) and int(g.array_size) == w.arr[1]
                      and bool(g.is_builtin_array) == G.is_builtin(w.arr[0]))), "members:kind", lambda: f"{where} {what} {w.full} {w.name}")

    def extra(got, want, what):
        mon.check((got or {}) == (want or {}), "extra-code", lambda: f"{where} {what}: {got!r} expected {want!r}")

    for c in m.comps:
        g = dm.components[c.name]
        members(g["Members"], c.mem, "component " + c.name)
        mon.eq(g.get("Description"), c.desc, "description", where + c.name)
        mon.eq(g.get("Author"), c.author, "author", where + c.name)
        extra(g.get("ExtraCode"), c.extra, c.name)
    for t in m.types:
        g = dm.datatypes[t.name]
        for k, l in zip(CATS, (t.mem, t.vec, t.one, t.many)):
            members(g.get(k, []), l, f"{k} {t.name}")
        mon.eq(g.get("Description"), t.desc, "description", where + t.name)
        mon.eq(g.get("Author"), t.author, "author", where + t.name)
        extra(g.get("ExtraCode"), t.extra, t.name)
        extra(g.get("MutableExtraCode"), t.mextra, t.name + " mutable")
    for i in m.ifaces:
        g = dm.interfaces[i.name]
        members(g["Members"], i.mem, "interface " + i.name)
        mon.eq([x.full_type for x in g["Types"]], i.types, "interface-types", where + i.name)
        mon.eq(g.get("Description"), i.desc, "description", where + i.name)
        mon.eq(g.get("Author"), i.author, "author", where + i.name)
    for x in m.links:
        g = dm.links[x.name]
        mon.eq((g["From"].full_type, g["To"].full_type), (x.frm, x.to), "link-ends", where + x.name)
        mon.eq(g.get("Description"), x.desc, "description", where + x.name)
        mon.eq(g.get("Author"), x.author, "author", where + x.name)
