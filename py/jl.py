"""Loads and runs the part of Julia that generated modules are made of: names are looked up when Julia does (struct fields when
the struct is defined, signatures when the function is, bodies and default values when it is called), types are checked as
Julia does. There is no Julia here; this stands in for it."""
import os
import re

TOKEN = re.compile(r'[ \t\r]+|#[^\n]*|(?P<nl>\n)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>\d+)|(?P<id>@?[^\W\d]\w*!?)|(?P<op>::|<:|\.\.|[{}()\[\],;=.:])|(?P<bad>.)')
INTS = {f"{u}Int{n}" for u in ("", "U") for n in (8, 16, 32, 64)}
FLOATS = {"Float16", "Float32", "Float64"}
ABSTRACT = {"Integer": INTS | {"Bool"}, "Real": INTS | FLOATS | {"Bool"}, "AbstractFloat": FLOATS}
BASE = INTS | FLOATS | {"Bool", "Char", "String", "Nothing", "Any"} | set(ABSTRACT)
RESERVED = {"baremodule", "begin", "break", "catch", "const", "continue", "do", "else", "elseif", "end", "export", "false", "finally", "for", "function", "global", "if", "import", "let", "local", "macro",
            "module", "quote", "return", "struct", "true", "try", "using", "while"}


class JlError(Exception):
    def __init__(self, kind, text):
        super().__init__(f"{kind}: {text}")
        self.kind = kind


class Struct:
    def __init__(self, mod, name):
        self.mod, self.name, self.params, self.fields = mod, name, [], []

    def __repr__(self):
        return f"{self.mod.name}.{self.name}"


class Func:
    pass


class Module:
    def __init__(self, name, parent):
        self.name, self.parent, self.names, self.exports, self.bare = name, parent, {}, [], set()


class Val:
    """a value, known by its type only; objects have fields"""

    def __init__(self, type, fields=None):
        self.type, self.fields = type, fields


# types: a name, a Struct (with its parameters left open), ("inst", Struct, params), ("Vector", t), ("MVector", n, t), ("Union", ...), ("var", name)
def show(t):
    if isinstance(t, tuple):
        return t[1] if t[0] == "var" else f"{t[0] if t[0] != 'inst' else t[1]}{{{', '.join(show(x) for x in (t[2] if t[0] == 'inst' else t[1:]))}}}"
    return str(t)


def sub(t, s):
    """type t with the variables bound"""
    if isinstance(t, tuple):
        if t[0] == "var":
            return s.get(t[1], t)
        if t[0] == "inst":
            return ("inst", t[1], tuple(sub(x, s) for x in t[2]))
        return (t[0],) + tuple(sub(x, s) for x in t[1:])
    return t


def fits(have, want):
    """a value of type have is a want"""
    if want == "Any" or have == want:
        return True
    if isinstance(want, tuple) and want[0] == "Union":
        return any(fits(have, x) for x in want[1:])
    if isinstance(want, Struct):
        return isinstance(have, tuple) and have[0] == "inst" and have[1] is want
    if isinstance(want, str) and want in ABSTRACT:
        return isinstance(have, str) and have in ABSTRACT[want]
    return False


class Tokens:
    def __init__(self, path):
        self.path, self.i, self.t = path, 0, []
        line = 1
        for m in TOKEN.finditer(open(path, encoding="utf-8").read()):
            k = m.lastgroup
            if k == "bad":
                raise JlError("syntax", f"{path}:{line}: {m[0]!r}")
            if k:
                self.t.append((k, m[0], line))
            if k == "nl":
                line += 1
        self.t.append(("end", "", line))
        self.depth = 0

    def skip(self, semi=False):
        while self.t[self.i][0] == "nl" or semi and self.t[self.i][1] == ";":
            self.i += 1

    def peek(self, nl=False):
        if not nl:
            self.skip()
        return self.t[self.i]

    def next(self, nl=False):
        t = self.peek(nl)
        self.i += 1
        return t

    def fail(self, what):
        t = self.t[min(self.i, len(self.t) - 1)]
        raise JlError("syntax", f"{os.path.basename(self.path)}:{t[2]}: {what} at {t[1]!r}")

    def take(self, s, nl=False):
        if self.peek(nl)[1] != s:
            self.fail(f"{s!r} missing")
        self.i += 1

    def has(self, s, nl=False):
        if self.peek(nl)[1] == s and self.peek(nl)[0] != "str":
            self.i += 1
            return True
        return False

    def name(self):
        k, s, _ = self.next()
        if k != "id" or s in RESERVED:
            self.i -= 1
            self.fail("a name is missing")
        return s


# expressions: ("name", [parts]), ("num", n), ("curly", e, [e]), ("call", e, [e]), ("list", [e])
def expr(k):
    t = k.next()
    if t[0] == "num":
        return ("num", int(t[1]))
    if t[1] == "[":
        l = []
        while not k.has("]"):
            l.append(expr(k))
            if not k.has(","):
                k.take("]")
                break
        return ("list", l)
    if t[0] != "id" or t[1] in RESERVED:
        k.i -= 1
        k.fail("an expression is missing")
    e = ("name", [t[1]])
    while True:
        n = k.peek(True)[1]
        if n == "." and k.peek(True)[0] == "op":
            k.i += 1
            e[1].append(k.name())
        elif n == "{":
            k.i += 1
            e = ("curly", e, several(k, "}"))
        elif n == "(":
            k.i += 1
            e = ("call", e, several(k, ")"))
        else:
            return e


def several(k, close):
    l = []
    while not k.has(close):
        l.append(expr(k))
        if not k.has(","):
            k.take(close)
            break
    return l


class Julia:
    def __init__(self):
        self.main = Module("Main", None)
        self.stats = dict(structs=0, functions=0, lookups=0, calls=0)
        self.files = []

    def load(self, path):
        self.include(path, self.main)

    def include(self, path, mod):
        path = os.path.normpath(path)
        if not os.path.isfile(path):
            raise JlError("file-missing", path)
        if path in self.files and not os.path.basename(path).endswith("Struct.jl"):
            raise JlError("loaded-twice", path)
        self.files.append(path)
        k = Tokens(path)
        self.statements(k, mod, os.path.dirname(path), False)

    def define(self, mod, name, v):
        old = mod.names.get(name)
        if old is not None:
            raise JlError("defined-twice", f"{mod.name}.{name}")
        if name in BASE or name in ("Vector", "MVector", "Union"):
            raise JlError("defined-twice", f"{name} of Base in {mod.name}")
        mod.names[name] = v

    def statements(self, k, mod, d, inner):
        while True:
            k.skip(True)
            t = k.peek()
            if t[0] == "end":
                if inner:
                    k.fail("end is missing")
                return
            if t[1] == "end":
                if not inner:
                    k.fail("an end too much")
                k.i += 1
                return
            k.i += 1
            w = t[1]
            if w == "module":
                m = Module(k.name(), mod)
                self.define(mod, m.name, m)
                self.statements(k, m, d, True)
            elif w == "include":
                k.take("(", True)
                s = k.next()
                if s[0] != "str":
                    k.fail("a path is missing")
                k.take(")")
                self.include(os.path.join(d, s[1][1:-1]), mod)
            elif w == "export":
                mod.exports.append(k.name())
                while k.has(",", True):
                    mod.exports.append(k.name())
            elif w in ("import", "using"):
                self.use(k, mod, w)
            elif w == "try":
                while k.peek()[1] != "catch":
                    t = k.next()
                    if t[1] == "using":
                        self.use(k, mod, "using")
                    elif t[0] == "end":
                        k.fail("catch is missing")
                while k.next()[1] != "end":
                    if k.peek()[0] == "end":
                        k.fail("end is missing")
            elif w in ("mutable", "struct"):
                if w == "mutable":
                    k.take("struct", True)
                self.struct(k, mod, w == "mutable")
            elif w == "function":
                self.function(k, mod)
            elif t[0] == "id" and w not in RESERVED and k.peek(True)[1] == "=":
                k.i += 1
                self.define(mod, w, ("alias", self.type(mod, expr(k), {})))
            else:
                k.i -= 1
                k.fail("not understood")
            if k.peek(True)[0] not in ("nl", "end") and k.peek(True)[1] not in (";", "end"):
                k.fail("a line should end")

    def use(self, k, mod, w):
        n = 0
        while k.peek(True)[1] in (".", ".."):
            n += len(k.next()[1])
        name = k.name()
        if n == 0:
            if name != "StaticArrays":
                raise JlError("undefined", f"package {name}")
            mod.bare.add("StaticArrays")
            return
        m = mod
        for _ in range(n - 1):
            m = m.parent
        if m is None or not isinstance(m.names.get(name), Module):
            raise JlError("undefined", f"module {'.' * n}{name} in {mod.name}")
        self.define(mod, name, m.names[name])

    def struct(self, k, mod, mutable):
        s = Struct(mod, k.name())
        if k.has("{", True):
            while not k.has("}"):
                s.params.append(k.name())
                if not k.has(","):
                    k.take("}")
                    break
        if len(set(s.params)) != len(s.params):
            raise JlError("defined-twice", f"parameters of {s.name}: {s.params}")
        s.mutable = mutable
        scope = {p: ("var", p) for p in s.params}
        scope[s.name] = s
        while not k.has("end"):
            k.skip(True)
            if k.has("end"):
                break
            n = k.name()
            k.take("::", True)
            s.fields.append((n, self.type(mod, expr(k), scope)))
            if k.peek(True)[0] != "nl" and k.peek(True)[1] not in (";", "end"):
                k.fail("a field should end")
        if len({f for f, _ in s.fields}) != len(s.fields):
            raise JlError("defined-twice", f"fields of {s.name}: {[f for f, _ in s.fields]}")
        self.define(mod, s.name, s)
        self.stats["structs"] += 1

    def function(self, k, mod):
        f = Func()
        f.mod, f.name, f.args, f.where = mod, k.name(), [], {}
        k.take("(", True)
        args = []
        while not k.has(")"):
            n = k.name()
            t = d = None
            if k.has("::"):
                t = expr(k)
            if k.has("="):
                d = expr(k)
            args.append((n, t, d))
            if not k.has(","):
                k.take(")")
                break
        if k.has("where"):
            k.take("{", True)
            while not k.has("}"):
                n = k.name()
                f.where[n] = "Any"
                if k.has("<:"):
                    f.where[n] = self.type(mod, expr(k), {})
                if not k.has(","):
                    k.take("}")
                    break
        scope = {p: ("var", p) for p in f.where}
        for n, t, d in args:
            f.args.append((n, self.type(mod, t, scope) if t else "Any", d))
        if len({a[0] for a in args}) != len(args):
            raise JlError("defined-twice", f"arguments of {f.name}: {[a[0] for a in args]}")
        if any(a[2] is not None and b[2] is None for a, b in zip(args, args[1:])):
            raise JlError("syntax", f"argument without default after one with in {f.name}")
        k.take("return")
        f.body = expr(k)
        k.take("end")
        self.define(mod, f.name, f)
        self.stats["functions"] += 1

    # -- meaning
    def look(self, mod, parts, scope):
        self.stats["lookups"] += 1
        n = parts[0]
        if n in scope:
            v = scope[n]
        elif n in mod.names:
            v = mod.names[n]
        elif n in BASE or n in ("Vector", "Union", "convert"):
            v = n
        elif n == "MVector" and "StaticArrays" in mod.bare:
            v = n
        elif n == "undef" or n == "nothing":
            v = n
        else:
            raise JlError("undefined", f"{n} in {mod.name}")
        for p in parts[1:]:
            if not isinstance(v, Module) or p not in v.names:
                raise JlError("undefined", f"{'.'.join(parts)} in {mod.name}")
            v = v.names[p]
        return v

    def type(self, mod, e, scope):
        if e[0] == "name":
            v = self.look(mod, e[1], scope)
            if isinstance(v, tuple) and v[0] == "alias":
                return v[1]
            if isinstance(v, (Struct, tuple)) or v in BASE:
                return v
            raise JlError("type", f"{'.'.join(e[1])} is not a type")
        if e[0] == "curly":
            v = self.look(mod, e[1][1], scope) if e[1][0] == "name" else None
            if v == "MVector":
                if len(e[2]) != 2 or e[2][0][0] != "num":
                    raise JlError("type", "MVector needs a length and a type")
                return ("MVector", e[2][0][1], self.type(mod, e[2][1], scope))
            ps = tuple(self.type(mod, x, scope) for x in e[2])
            if v == "Vector":
                if len(ps) != 1:
                    raise JlError("type", f"Vector of {len(ps)} types")
                return ("Vector", *ps)
            if v == "Union":
                return ("Union", *ps)
            if isinstance(v, Struct):
                if len(ps) != len(v.params):
                    raise JlError("type", f"{v.name} has {len(v.params)} parameters, not {len(ps)}")
                return ("inst", v, ps)
        raise JlError("type", f"not a type: {e}")

    def call(self, f, given=()):
        """runs a generated constructor with the given values for the first arguments"""
        self.stats["calls"] += 1
        scope, bound = {}, {}
        if len(given) > len(f.args):
            raise JlError("call", f"{f.name} has {len(f.args)} arguments")
        for i, (n, t, d) in enumerate(f.args):
            v = given[i] if i < len(given) else self.value(f.mod, d, dict(scope)) if d is not None else None
            if v is None:
                raise JlError("call", f"{f.name}: no value for {n}")
            want = t
            if isinstance(t, tuple) and t[0] == "Vector" and isinstance(t[1], tuple) and t[1][0] == "var" and isinstance(v.type, tuple) and v.type[0] == "Vector":
                if not fits(v.type[1], f.where[t[1][1]]):
                    raise JlError("call", f"{f.name}: {n} is {show(v.type)}, elements should be {show(f.where[t[1][1]])}")
                bound[t[1][1]] = v.type[1]
                want = sub(t, bound)
            if not fits(v.type, want):
                raise JlError("call", f"{f.name}: {n} is {show(v.type)}, should be {show(want)}")
            scope[n] = v
        for w in f.where:
            if w not in bound:
                raise JlError("call", f"{f.name}: {w} unknown")
        return self.value(f.mod, f.body, scope)

    def value(self, mod, e, scope):
        if e[0] == "name":
            if len(e[1]) == 1 and isinstance(scope.get(e[1][0]), Val):
                return scope[e[1][0]]
            if e[1] == ["nothing"]:
                return Val("Nothing")
            raise JlError("undefined", f"no value {'.'.join(e[1])} in {mod.name}")
        if e[0] == "num":
            return Val("Int64")
        if e[0] != "call":
            raise JlError("syntax", f"{e}")
        f, args = e[1], e[2]
        if f[0] == "name":
            v = self.look(mod, f[1], {k: x for k, x in scope.items() if not isinstance(x, Val)})
            if isinstance(v, Func):
                return self.call(v, [self.value(mod, a, scope) for a in args])
            if v == "convert":
                t = self.type(mod, args[0], {})
                x = self.value(mod, args[1], scope)
                if not (isinstance(t, tuple) and t[0] == "Vector" and isinstance(x.type, tuple) and x.type[0] == "Vector"):
                    raise JlError("call", f"convert({show(t)}, {show(x.type)})")
                return Val(t, x.fields)
        t = self.type(mod, f, {})
        if isinstance(t, str):
            x = [self.value(mod, a, scope) for a in args]
            if len(x) != 1 or not (isinstance(x[0].type, str) and (x[0].type in ABSTRACT["Real"] or x[0].type == t)):
                raise JlError("call", f"{t}({', '.join(show(y.type) for y in x)})")
            return Val(t, x[0].fields)
        if isinstance(t, tuple) and t[0] == "MVector":
            if [a for a in args if a != ("name", ["undef"])] or len(args) != 1:
                raise JlError("call", f"{show(t)} of {args}")
            return Val(t)
        if isinstance(t, tuple) and t[0] == "Vector":
            if args not in ([], [("list", [])]):
                raise JlError("call", f"{show(t)} of {args}")
            return Val(t)
        s, ps = (t, None) if isinstance(t, Struct) else t[1:] if t[0] == "inst" else (None, None)
        if s is None:
            raise JlError("call", f"{show(t)} is not called")
        if ps is None:
            if s.params:
                raise JlError("call", f"{s.name} without its parameters {s.params}")
            ps = ()
        x = [self.value(mod, a, scope) for a in args]
        if len(x) != len(s.fields):
            raise JlError("call", f"{s.name} has {len(s.fields)} fields, {len(x)} values given")
        b = dict(zip(s.params, ps))
        for (n, ft), v in zip(s.fields, x):
            if not fits(v.type, sub(ft, b)):
                raise JlError("call", f"{s.name}.{n} is {show(sub(ft, b))}, not {show(v.type)}")
        return Val(("inst", s, ps), dict(zip([n for n, _ in s.fields], x)))
