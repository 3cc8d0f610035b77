"""C22: member definition strings"""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vfpy import G, Mon  # noqa: E402
from podio_gen.generator_utils import DataModelJSONEncoder, DefinitionError  # noqa: E402
from podio_gen.podio_config_reader import MemberParser  # noqa: E402

CUSTOM = ["Hit", "ns::Hit", "edm4hep::Vector3f", "integer", "intThing", "floatLike", "unsignedX", "longName", "boolean", "shortcut", "doubleVec", "charlie", "X", "a", "With_Under", "T2", "stdx::Y",
          "std::string", "long_type", "int32", "arrayLike", "std::pairlike"]
FORBIDDEN = ["int8_t", "uint8_t", "int_fast16_t", "uint_fast64_t", "int_least8_t", "uint_least32_t"]
NAMES = G.WORDS + ["longname", "int_x", "float2", "unsignedThing", "_x", "__y", "std", "array", "e1", "T", "x_", "name12345", "camelCaseName", "ALLCAPS", "charge", "boolFlag", "get", "i"]
DEFAULTS = ["1", "-1", "0", "3.14f", "1, 2, 3", "'a'", "'x'", "true", "std::numeric_limits<int>::max()", "{1}, {2}", "1 + 2", "0xff", "foo(1, 2)", "\"text\"", "-1.e-10", "42ul", "a ? b : c", "sizeof(int[2])",
            "1 /* one */", "static_cast<int>(3.5)", "{{1, 2}, {3, 4}}", " 7 ", "a[1]", "'{'"]
UNITS = G.UNITS + ["m", "mm^2", "GeV/c^2", "a // b", "{x}", "s", "1/2", "µm", "a  b", "kg*m"]
DESCS = G.TEXTS + ["", "//", "/// doxygen", "[mm] in text", "{default} in text", "a [b] // c", "} // x", "it's", "x" * 200, "int y // another", "back\\slash inside", "ends with bracket ]", "{3} [mm] // looks like more",
                   "\u00e9\u4e2d", "trailing colon:", "#", "  inner   spaces  kept  ", "<T, 3>"]


def sp(r, lo=0):
    return " " * r.choice([lo, lo, lo, max(lo, 1), lo + 1, 3, 8])


def spaceless(s):
    return re.sub(r"\s+", "", s)


def observed(m):
    return dict(type=m.full_type, name=m.name, default=m.default_val.strip() if isinstance(m.default_val, str) else m.default_val, unit=m.unit, desc=m.description.strip(), array=bool(m.is_array),
                builtin=bool(m.is_builtin), builtin_array=bool(m.is_builtin_array), array_type=m.array_type if m.is_array else None, array_size=str(m.array_size) if m.is_array else None,
                ns=(m.namespace or "") if not m.is_array else None, bare=m.bare_type if not m.is_array else None)


def definition(r):
    """(text parts, expectation)"""
    arr = r.random() < 0.35
    base = r.choice([r.choice(G.BUILTINS), r.choice(G.FIXED), "std::" + r.choice(G.FIXED), r.choice(CUSTOM)])
    canon = "std::" + base if base in G.FIXED else base
    name = r.choice(NAMES)
    if name in G.KEYWORDS:
        name += "_k"
    if arr:
        n = str(r.choice([1, 2, 3, 9, 10, 42, 100, 1000000]))
        head = f"{sp(r)}std::array{sp(r)}<{sp(r)}{base}{sp(r)},{sp(r)}{n}{sp(r)}>{sp(r)}"
        full = f"std::array<{canon}, {n}>"
    else:
        head = sp(r) + base + sp(r, 1)
        full = canon
    dv = r.choice(DEFAULTS) if r.random() < 0.45 else None
    unit = r.choice(UNITS) if r.random() < 0.4 else None
    desc = r.choice(DESCS) if r.random() < 0.8 else None
    if desc is not None and r.random() < 0.2:
        desc += " " + r.choice(DESCS)
    if dv is not None and ("//" in dv or "[" in dv) and r.random() < 0.5:
        dv = "5"
    t = head + name + sp(r)
    if dv is not None:
        t += "{" + dv + "}" + sp(r)
    if unit is not None:
        t += "[" + sp(r) + unit + sp(r) + "]" + sp(r)
    if desc is not None:
        t += "//" + sp(r) + desc + sp(r)
    bt = canon in G.BUILTINS or (canon.startswith("std::") and canon[5:] in G.FIXED)
    nsb = canon.split("::") if "::" in canon and not canon.startswith("std::") else ["", canon]
    want = dict(type=full, name=name, default=dv.strip() if dv is not None else None, unit=unit, desc=(desc or "").strip(), array=arr, builtin=bt and not arr, builtin_array=bt and arr, array_type=canon if arr else None,
                array_size=n if arr else None, ns=nsb[0] if not arr else None, bare=nsb[1] if not arr else None)
    return t, want, desc is not None


def ambiguous(t, want):
    """a default followed by text that could also end it earlier or later is not generated"""
    return want["default"] is not None and re.search(r"\}\s*(\[[^\[\]]*\]\s*)?(//|$)", want["default"])


def malformed(r):
    """strings that break the documented form in one known way"""
    t = r.choice(G.BUILTINS + G.FIXED + CUSTOM)
    n = r.choice(["alpha", "x", "someName"])
    d = r.choice(["desc", "a longer text", "[mm]", ""])
    arr = f"std::array<{t}, 4>"
    ty = r.choice([t, arr])
    return r.choice([
        ("no name", f"{arr if ' ' in t else ty} // {d}"),  # 'unsigned long // x' also reads as a member called long
        ("name starts with a digit", f"{ty} 1{n} // {d}"),
        ("name with illegal character", f"{ty} {n}{r.choice(list('-.$@!*&%+=;,()'))}b // {d}"),
        ("name with illegal end", f"{ty} {n}{r.choice(list('-.$@!*&%+=;,()'))} // {d}"),
        ("type starts with underscore", f"_{t} {n} // {d}"),
        ("type starts with a digit", f"3{t} {n} // {d}"),
        ("type with illegal character", f"{t.split(' ')[0]}{r.choice(list('-.$@!*&%+=;()<>'))} {n} // {d}"),
        ("template type", f"std::{r.choice(['vector', 'pair', 'list', 'optional'])}<{t}> {n} // {d}"),
        ("two names", f"{ty} {n} other // {d}"),
        ("empty default", f"{ty} {n}{{}} // {d}"),
        ("unclosed default", f"{ty} {n}{{1 // {d.replace('}', '')}"),
        ("unopened default", f"{ty} {n}1}} // {d}"),
        ("default in parentheses", f"{ty} {n}(1) // {d}"),
        ("default with equals", f"{ty} {n} = 1 // {d}"),
        ("text after default", f"{ty} {n}{{1}} foo // x"),
        ("text after unit", f"{ty} {n} [mm] foo // x"),
        ("unclosed unit", f"{ty} {n} [mm // x"),
        ("unopened unit", f"{ty} {n} mm] // x"),
        ("empty unit", f"{ty} {n} [{' ' * r.randrange(3)}] // x"),
        ("two units", f"{ty} {n} [mm] [cm] // x"),
        ("unit before default", f"{ty} {n} [mm] {{3}} // x"),
        ("unit before name", f"{ty} [mm] {n} // x"),
        ("single slash", f"{ty} {n} / x"),
        ("hash comment", f"{ty} {n} # x"),
        ("C comment", f"{ty} {n} /* x */"),
        ("semicolon", f"{ty} {n}; // x"),
        ("array size is a name", f"std::array<{t}, N> {n} // x"),
        ("negative array size", f"std::array<{t}, -4> {n} // x"),
        ("no array size", f"std::array<{t}> {n} // x"),
        ("empty array size", f"std::array<{t}, > {n} // x"),
        ("no array type", f"std::array<, 4> {n} // x"),
        ("unclosed array", f"std::array<{t}, 4 {n} // x"),
        ("array of array", f"std::array<std::array<{t}, 2>, 4> {n} // x"),
        ("array without std", f"array<{t}, 4> {n} // x"),
        ("C array", f"{t} {n}[4]extra // x"),
        ("pointer", f"{t}* {n} // x"),
        ("reference", f"{t} &{n} // x"),
        ("const", f"const {t} {n} // x"),
        ("forbidden fixed width", f"{r.choice(['', 'std::'])}{r.choice(FORBIDDEN)} {n} // x"),
        ("array of forbidden fixed width", f"std::array<{r.choice(['', 'std::'])}{r.choice(FORBIDDEN)}, 3> {n} // x"),
        ("nested namespace", f"a::b::C {n} // x"),
        ("array of nested namespace", f"std::array<a::b::C, 3> {n} // x"),
        ("nothing", " " * r.randrange(3)),
        ("only a comment", "// x"),
        ("only a type", arr if " " in t else ty),
        ("no space between type and name is one word", f"{t.replace(' ', '')}{n} // x"),
    ])


def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(5)
        i = r.randrange(len(t) + 1)
        if k == 0 and t:
            del t[min(i, len(t) - 1)]
        elif k == 1:
            t.insert(i, r.choice(list("{}[]<>,:/ _-1aX;=*&()'\"#\t\n\\.")))
        elif k == 2 and t:
            j = r.randrange(len(t))
            i = min(i, len(t) - 1)
            t[i], t[j] = t[j], t[i]
        elif k == 3:
            a, b = sorted((r.randrange(len(t) + 1), r.randrange(len(t) + 1)))
            t[i:i] = t[a:min(b, a + 12)]
        elif t:
            a = r.randrange(len(t))
            del t[a:a + r.randrange(6)]
    return "".join(t)


def roundtrip(mon, p, m, key, text):
    for how, s in (("text", m._to_json()), ("json", json.loads(json.dumps(m, cls=DataModelJSONEncoder)))):
        try:
            m2 = p.parse(s, m.has_description if hasattr(m, "has_description") else False)
        except Exception as e:
            mon.violation(f"{key}:{how}:not-parsed-again", f"{text!r} written as {s!r}: {e!r}")
            continue
        a, b = observed(m), observed(m2)
        mon.check(a == b, f"{key}:{how}:differs", lambda: f"{text!r} written as {s!r}: {a} became {b}")
        mon.stat("roundtrips")


def case(mon):
    r = mon.rng("parse")
    p = MemberParser()
    for _ in range(40):
        t, want, has_desc = definition(r)
        if ambiguous(t, want):
            continue
        mon.what = "valid definition"
        for req in (True, False):
            if req and not has_desc:
                try:
                    m = p.parse(t, True)
                    mon.violation("missing-description-accepted", t)
                except DefinitionError:
                    mon.stat("rejected")
                except Exception as e:
                    mon.violation("missing-description:wrong-exception", f"{t!r}: {e!r}")
                continue
            try:
                m = p.parse(t, req)
            except Exception as e:
                mon.violation("valid-rejected", f"{t!r} (description required: {req}): {e!r}")
                continue
            got = observed(m)
            mon.stat("checks")
            for k in want:
                if got[k] != want[k]:
                    mon.violation("parsed:" + k, f"{t!r}: {k} is {got[k]!r}, stated {want[k]!r}")
            roundtrip(mon, p, m, "roundtrip", t)
        mon.stat("definitions")
        mon.distinct("nontrivial", spaceless(t))
    mon.sample(t)
    for _ in range(20):
        why, t = malformed(r)
        mon.what = "malformed definition"
        for req in (True, False):
            try:
                m = p.parse(t, req)
            except DefinitionError:
                mon.stat("rejected")
                mon.stat("checks")
                continue
            except Exception as e:
                mon.violation("malformed:wrong-exception:" + why, f"{t!r}: {e!r}")
                continue
            mon.violation("malformed-accepted:" + why, f"{t!r} (description required: {req}) parsed as {observed(m)}")
        mon.distinct("malformed_kinds", why)
    mon.what = "mutated definition"
    for _ in range(60):
        t, want, _ = definition(r)
        t = mutate(r, t)
        req = r.random() < 0.5
        try:
            m = p.parse(t, req)
        except DefinitionError:
            mon.stat("mutants_rejected")
            mon.stat("checks")
            continue
        except Exception as e:
            mon.violation("mutant:wrong-exception", f"{t!r}: {e!r}")
            continue
        mon.stat("mutants_accepted")
        o = observed(m)
        # nothing of the text is dropped or altered
        s = spaceless(o["type"] + o["name"] + ("{" + m.default_val + "}" if m.default_val is not None else "") + ("[" + o["unit"] + "]" if o["unit"] is not None else "") + ("//" + o["desc"]))
        src = spaceless(t)
        if not o["desc"] and not src.endswith("//"):
            s = s[:-2]
        fw = re.compile(r"(?:std::)?(u?int(?:16|32|64)_t)")
        a, b = fw.sub(r"\1", s), fw.sub(r"\1", src)
        mon.check(a == b, "mutant:text-dropped-or-altered", lambda: f"{t!r} parsed as {o}")
        mon.check(re.fullmatch(r"[A-Za-z_]\w*", o["name"]) is not None, "mutant:name", lambda: f"{t!r}: {o['name']!r}")
        mon.check(not o["array"] or o["array_size"].isdigit(), "mutant:array-size", lambda: f"{t!r}: {o}")
        mon.check(o["unit"] is None or ("[" not in o["unit"] and "]" not in o["unit"] and "\n" not in o["unit"] and o["unit"].strip(" ")), "mutant:unit", lambda: f"{t!r}: {o}")
        mon.check(not re.match(r"(std::)?u?int(_(fast|least)\d+|8)_t$", o["type"]), "mutant:forbidden-type", lambda: f"{t!r}: {o}")
        roundtrip(mon, p, m, "mutant-roundtrip", t)


Mon().run(case)
