"""Random datamodel definitions. A definition is made of structured objects (the
truth a monitor judges against) and written as YAML in a random form."""
import random
import yaml

BUILTINS = ["int", "long", "float", "double", "unsigned int", "unsigned", "unsigned long", "char", "short", "bool", "long long", "unsigned long long"]
FIXED = ["int16_t", "int32_t", "int64_t", "uint16_t", "uint32_t", "uint64_t"]
WORDS = ["alpha", "beta", "gamma", "delta", "pos", "mom", "energy", "time", "cov", "mass", "charge", "cell", "layer", "phi", "theta", "omega", "chi", "flag", "weight", "trackState",
         "nHits", "momentumAtVertex", "a_b", "_lead", "trail_", "X", "yZ", "q2", "iD0", "MCParticle", "x_begin", "vertexSize"]
CLASSWORDS = ["Hit", "Track", "Cluster", "Particle", "Vertex", "Info", "Event", "Jet", "Calo", "Raw", "Sim", "Rec", "Cov", "Vec3", "State", "Pid", "a_lower", "lower", "UPPER", "With_Under"]
TEXTS = ["energy", "a longer description with, punctuation; and (brackets)", "unit-less", "see http://example.org/x?y=1", "x // y", "100% {sure} [maybe]", "quotes \"double\" and 'single'", "tab\tinside",
         "unicode é ∆", "ends with dot.", "# not a YAML comment", "colon: inside", "1", "-", "<tag> & more", "{name}", "{{ jinja }}", "%d %s", "R\"(raw)\"", "ends with a backslash \\", "*/ int z; /*", "two \\\\"]
UNITS = ["mm", "GeV", "m/s^2", "mm^{2}", "1/GeV", "%", "GeV c^-1", "a b", "°"]


class M:
    """a member, vector member or relation"""
    last = 0

    def __init__(self, type, name, default=None, unit=None, desc=None):
        M.last += 1
        self.uid = M.last  # kept when renamed
        self.type, self.name, self.default, self.unit, self.desc = type, name, default, unit, desc
        self.arr = None  # (element type, size)

    @classmethod
    def array(cls, et, n, *a, **k):
        m = cls(f"std::array<{et}, {n}>", *a, **k)
        m.arr = (et, n)
        return m

    def copy(self):
        m = M(self.type, self.name, self.default, self.unit, self.desc)
        m.arr, m.uid = self.arr, self.uid
        return m

    @property
    def builtin(self):
        return is_builtin(self.type)

    @property
    def full(self):
        """the type as podio spells it: fixed width types with std::"""
        if self.arr:
            return f"std::array<{canon(self.arr[0])}, {self.arr[1]}>"
        return canon(self.type)

    def key(self):
        return (self.full, self.name, self.default, self.unit, self.desc)

    def text(self, r, need_desc=True):
        def sp(lo=0):
            return " " * r.choice([lo, lo, lo, lo, max(lo, 1), 2, 5])
        if self.arr:
            et, n = self.arr
            et = spell(r, et)
            t = f"{sp()}std::array{sp()}<{sp()}{et}{sp()},{sp()}{n}{sp()}>{r.choice(['', ' ', ' ', '   '])}"
        else:
            t = sp() + spell(r, self.type) + sp(1)
        t += self.name + sp()
        if self.default is not None:
            t += "{" + self.default + "}" + sp()
        if self.unit is not None:
            t += "[" + sp() + self.unit + sp() + "]" + sp()
        if self.desc is not None:
            t += "//" + sp() + self.desc + sp()
        return t if r.random() < 0.3 else t.strip(" ")


def is_builtin(t):
    return t in BUILTINS or t in FIXED or (t.startswith("std::") and t[5:] in FIXED)


def canon(t):
    return "std::" + t if t in FIXED else t


def spell(r, t):
    """the same type as it may be spelled"""
    if t in FIXED and r.random() < 0.5:
        return "std::" + t
    return t


class Comp:
    def __init__(self, name):
        self.name, self.mem, self.desc, self.author, self.extra = name, [], None, None, None


class Type:
    def __init__(self, name):
        M.last += 1
        self.uid = M.last
        self.name, self.desc, self.author = name, "", ""
        self.mem, self.vec, self.one, self.many = [], [], [], []
        self.extra = self.mextra = None

    def all_members(self):
        return self.mem + self.vec + self.one + self.many


class Iface:
    def __init__(self, name):
        self.name, self.types, self.mem, self.desc, self.author = name, [], [], "", ""


class Link:
    def __init__(self, name, frm, to):
        self.name, self.frm, self.to, self.desc, self.author = name, frm, to, "", ""


class Model:
    def __init__(self, package):
        self.package = package
        self.options = {}  # explicitly given ones
        self.schema_version = 1
        self.comps, self.types, self.ifaces, self.links = [], [], [], []
        self.upstream = None

    DEFAULTS = dict(getSyntax=False, exposePODMembers=True, includeSubfolder=False)

    def opt(self, k):
        return self.options.get(k, self.DEFAULTS[k])

    def find(self, kind, name, up=True):
        for x in getattr(self, kind):
            if x.name == name:
                return x
        return self.upstream.find(kind, name) if up and self.upstream else None

    def everything(self, kind):
        return getattr(self, kind) + (self.upstream.everything(kind) if self.upstream else [])

    # -- YAML -----------------------------------------------------------------
    def dict(self, r, shuffle=True):
        """the definition as python data, in random order where order has no meaning"""
        d = {"schema_version": self.schema_version}
        if self.options or r.random() < 0.3:
            d["options"] = dict(self.options)
        comps = {}
        for c in self.comps:
            x = {"Members": [m.text(r) for m in c.mem]}
            if c.desc is not None:
                x["Description"] = c.desc
            if c.author is not None:
                x["Author"] = c.author
            if c.extra is not None:
                x["ExtraCode"] = dict(c.extra)
            comps[c.name] = shuf(r, x) if shuffle else x
        types = {}
        for t in self.types:
            x = {"Description": t.desc, "Author": t.author}
            for k, l in (("Members", t.mem), ("VectorMembers", t.vec), ("OneToOneRelations", t.one), ("OneToManyRelations", t.many)):
                if l or r.random() < 0.1:
                    x[k] = [m.text(r) for m in l]
            if t.extra is not None:
                x["ExtraCode"] = dict(t.extra)
            if t.mextra is not None:
                x["MutableExtraCode"] = dict(t.mextra)
            types[t.name] = shuf(r, x) if shuffle else x
        ifaces = {}
        for i in self.ifaces:
            ifaces[i.name] = {"Description": i.desc, "Author": i.author, "Types": list(i.types), "Members": [m.text(r) for m in i.mem]}
        links = {}
        for l in self.links:
            links[l.name] = {"Description": l.desc, "Author": l.author, "From": l.frm, "To": l.to}
        for k, v in (("components", comps), ("datatypes", types), ("interfaces", ifaces), ("links", links)):
            if v or r.random() < 0.15:
                d[k] = v
        return shuf(r, d) if shuffle else d

    def yaml(self, r, shuffle=True):
        return dump(r, self.dict(r, shuffle))

    def summary(self):
        return (f"{self.package}: options {self.options}, {len(self.comps)} components, {len(self.types)} datatypes ({sum(len(t.all_members()) for t in self.types)} members), "
                f"{len(self.ifaces)} interfaces, {len(self.links)} links" + (f", upstream {self.upstream.package}" if self.upstream else ""))


def shuf(r, d):
    k = list(d)
    r.shuffle(k)
    return {x: d[x] for x in k}


def dump(r, d):
    return yaml.safe_dump(d, sort_keys=False, default_flow_style=r.choice([None, False, False, True]), width=r.choice([40, 80, 10000]), indent=r.choice([2, 4]), allow_unicode=r.random() < 0.8,
                          default_style=r.choice([None, None, None, '"']) if r.random() < 0.3 else None)


KEYWORDS = set("""alignas alignof and asm auto bool break case catch char class concept const constexpr continue default delete do double else enum explicit export extern false float for friend
goto if inline int long mutable namespace new noexcept not nullptr operator or private protected public register requires return short signed sizeof static struct switch template this throw true try
typedef typeid typename union unsigned using virtual void volatile while xor""".split())


class Gen:
    """random valid datamodels"""

    def __init__(self, seed, package="pkg", size=1.0, upstream=None, texts=True, multiline=True, defaults=True, extra=True, compile_safe=True, ifaces=True, used=None):
        self.r = random.Random(seed)
        self.size, self.texts, self.with_defaults, self.with_extra, self.compile_safe, self.with_ifaces = size, texts, defaults, extra, compile_safe, ifaces
        self.package = package
        self.n = 0
        self.used = used if used is not None else set()
        self.upstream = upstream

    def uname(self, words):
        while True:
            self.n += 1
            w = self.r.choice(words)
            n = f"{w}{self.n}" if self.r.random() < 0.8 else w
            if n.lower() in self.used or n in KEYWORDS:
                continue
            self.used.add(n.lower())
            return n

    def cname(self):
        n = self.uname(CLASSWORDS)
        return n if self.r.random() < 0.5 else self.r.choice(["ns", "edm", "Other_ns", "n2"]) + "::" + n

    def text(self, multi=False):
        r = self.r
        if not self.texts:
            return "d"
        if r.random() < 0.05:
            return ""
        t = " ".join(r.choice(TEXTS) for _ in range(r.choice([1, 1, 2])))
        return t

    def scalar_default(self, t):
        r = self.r
        t = canon(t)
        if t == "bool":
            return r.choice(["true", "false"])
        if t == "char":
            return r.choice(["'a'", "65", "'}'" if False else "'z'"])
        if t == "float":
            return r.choice(["1.5f", "-2.25f", "3", "1e10f", "-0.0f", "0.1f"])
        if t == "double":
            return r.choice(["1.5", "-2.25", "3", "1e300", "-0.0", "0.1", "1./3."])
        hi = {"short": 32767, "std::int16_t": 32767, "std::uint16_t": 65535, "int": 2**31 - 1, "std::int32_t": 2**31 - 1, "unsigned": 2**32 - 1, "unsigned int": 2**32 - 1, "std::uint32_t": 2**32 - 1}.get(t, 2**62)
        uns = t.startswith("unsigned") or t.startswith("std::u")
        v = r.choice([1, 42, hi, r.randrange(hi)])
        if not uns and r.random() < 0.4:
            v = -v
        return r.choice([str(v), f"{v}", " %d " % v if r.random() < 0.2 else str(v), "1 + 2", hex(v) if v >= 0 else str(v)])

    def members(self, mod, n, comps, need_desc, arrays=True, expose_used=None, defaults=None):
        """n random members"""
        r = self.r
        out = []
        for _ in range(n):
            kind = r.random()
            desc = self.text() if need_desc or r.random() < 0.6 else None
            unit = r.choice(UNITS) if r.random() < 0.2 else None
            name = self.uname(WORDS)
            usable = [c for c in comps if not (expose_used is not None and any(m.name in expose_used for m in c.mem))]
            if kind < 0.25 and usable:
                c = r.choice(usable)
                if expose_used is not None:
                    expose_used.update(m.name for m in c.mem)
                m = M(c.name, name, None, unit, desc)
                if self.defaults_on(defaults) and r.random() < 0.2 and c.extra is None and c.mem and all(x.builtin for x in c.mem):
                    m.default = ", ".join(self.scalar_default(x.type) for x in c.mem)
            elif kind < 0.45 and arrays:
                et = r.choice(BUILTINS + FIXED) if r.random() < 0.6 or not comps else r.choice(comps).name
                k = r.choice([1, 2, 3, 4, 9, 21])
                m = M.array(et, k, name, None, unit, desc)
                if self.defaults_on(defaults) and r.random() < 0.3 and is_builtin(et):
                    m.default = ", ".join(self.scalar_default(et) for _ in range(r.randrange(1, min(k, 4) + 1)))
            else:
                t = r.choice(BUILTINS + FIXED)
                m = M(t, name, None, unit, desc)
                if self.defaults_on(defaults) and r.random() < 0.4:
                    m.default = self.scalar_default(t)
            out.append(m)
        return out

    def defaults_on(self, d):
        return self.with_defaults if d is None else d

    def cyc(self, mod):
        """is an interface in a cycle of relations (its header would include itself, see DESIGN: known finding)"""
        edges = {}
        m = mod
        while m:
            for t in m.types:
                edges.setdefault(t.name, set()).update(x.type for x in t.one + t.many)
            for i in m.ifaces:
                edges.setdefault(i.name, set()).update(i.types)
            m = m.upstream
        names = [i.name for i in mod.everything("ifaces")]
        for i in names:
            seen, todo = set(), list(edges.get(i, ()))
            while todo:
                x = todo.pop()
                if x == i:
                    return True
                if x not in seen:
                    seen.add(x)
                    todo += edges.get(x, ())
        return False

    def model(self):
        r = self.r
        m = Model(self.package)
        m.upstream = self.upstream
        for k in ("getSyntax", "exposePODMembers", "includeSubfolder"):
            if r.random() < 0.75:
                m.options[k] = r.random() < 0.5
        if self.upstream:
            m.options["getSyntax"] = self.upstream.opt("getSyntax")
        m.schema_version = r.choice([1, 1, 2, 3, 17, 100])
        sz = lambda a, b: max(a, int(r.randint(a, b) * self.size))
        for _ in range(sz(0, 4)):
            c = Comp(self.cname())
            pool = m.comps + (self.upstream.comps if self.upstream else [])
            c.mem = self.members(m, r.randint(1, 4), pool, need_desc=False)
            if r.random() < 0.3:
                c.desc = self.text()
            if r.random() < 0.2:
                c.author = self.text()
            if self.with_extra and r.random() < 0.25:
                k = self.uname(["extra"])
                bare = c.name.split("::")[-1]
                c.extra = {"declaration": r.choice([f"int {k}() const {{ return 5; }}", f"\nint {k}() const {{\n  return 5;\n}}\n"])}
                c.extra_fn = k
                if r.random() < 0.5:
                    c.extra["includes"] = r.choice(["#include <string>", "#include <cmath>\n#include <vector>\n"])
            m.comps.append(c)
        r.shuffle(m.comps)
        allc = m.everything("comps")
        names = [self.cname() for _ in range(sz(1, 5))]
        for n in names:
            t = Type(n)
            t.desc, t.author = self.text(), self.text()
            used = set() if m.opt("exposePODMembers") else None
            t.mem = self.members(m, r.choice([0, 1, 1, 2, 3, 5]), allc, True, expose_used=used)
            for _ in range(r.choice([0, 0, 1, 2])):
                et = r.choice(BUILTINS + FIXED) if r.random() < 0.6 or not allc else r.choice(allc).name
                if et == "bool":
                    et = "int"  # std::vector<bool> has no pointers to its elements
                t.vec.append(M(et, self.uname(WORDS), desc=self.text()))
            m.types.append(t)
        # interfaces: a common member is added to some of the types
        up_ok = [t for t in (self.upstream.everything("types") if self.upstream else [])]
        if self.with_ifaces:
            for _ in range(r.choice([0, 0, 1, 2])):
                i = Iface(self.cname())
                i.desc, i.author = self.text(), self.text()
                own = r.sample(m.types, r.randint(1, min(3, len(m.types))))
                i.types = [t.name for t in own]
                for _ in range(r.randint(0, 2)):
                    used = None
                    x = self.members(m, 1, [c for c in allc if not m.opt("exposePODMembers")], True, defaults=False)[0]
                    for t in own:
                        y = x.copy()
                        t.mem.insert(r.randint(0, len(t.mem)), y)
                    x = x.copy()
                    i.mem.append(x)
                if not i.mem and up_ok and r.random() < 0.4:
                    i.types.append(r.choice(up_ok).name)
                r.shuffle(i.types)
                m.ifaces.append(i)
        targets = [t.name for t in m.everything("types")] + [i.name for i in m.everything("ifaces")]
        for t in m.types:
            for kind, p in (("one", [0, 0, 1, 2]), ("many", [0, 0, 1, 2])):
                for _ in range(r.choice(p)):
                    l = getattr(t, kind)
                    l.append(M(r.choice(targets), self.uname(WORDS), desc=self.text()))
                    if self.compile_safe and self.cyc(m):
                        l.pop()
            if self.with_extra and r.random() < 0.3:
                k = self.uname(["extra"])
                t.extra_fn = k
                if r.random() < 0.5:
                    t.extra = {"declaration": f"int {k}() const {{ return 7; }}"}
                else:
                    t.extra = {"declaration": f"int {k}() const;", "implementation": f"int {{name}}::{k}() const {{ return 7; }}"}
                if r.random() < 0.4:
                    t.extra["includes"] = r.choice(["#include <string>", "#include <cmath>\n#include <vector>\n"])
            if self.with_extra and r.random() < 0.2:
                k = self.uname(["mextra"])
                t.mextra_fn = k
                t.mextra = {"declaration": f"int {k}() {{ return 9; }}"}
        pairs = set()
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            p = (r.choice(targets), r.choice(targets))
            if p in pairs:
                continue
            pairs.add(p)
            l = Link(self.cname(), *p)
            l.desc, l.author = self.text(), self.text()
            m.links.append(l)
        if self.compile_safe and self.upstream:
            self_pairs = {(l.frm, l.to) for l in self.upstream.links}
            m.links = [l for l in m.links if (l.frm, l.to) not in self_pairs]
        return m


def random_model(seed, package="pkg", upstream_chance=0.0, **kw):
    r = random.Random(f"up{seed}")
    used = set()
    up = None
    if r.random() < upstream_chance:
        up = Gen(f"{seed}u", "up" + package, used=used, **kw).model()
        up.options["includeSubfolder"] = True if r.random() < 0.8 else up.options.get("includeSubfolder", False)
    return Gen(seed, package, upstream=up, used=used, **kw).model()
