"""Edits of datamodels and the differences they make."""
import collections

from . import genmodel as G

M = G.M


# ---- the truth: differences of two models by name ------------------------------
CAT = {"mem": ("AddedMember", "DroppedMember"), "vec": ("AddedVectorMember", "DroppedVectorMember"), "one": ("AddedSingleRelation", "DroppedSingleRelation"), "many": ("AddedMultiRelation", "DroppedMultiRelation")}


def diff(new, old):
    out = []
    for kind, word in (("comps", "Component"), ("types", "Datatype")):
        a, b = {x.name: x for x in getattr(new, kind)}, {x.name: x for x in getattr(old, kind)}
        out += [("Added" + word, n, None) for n in a if n not in b] + [("Dropped" + word, n, None) for n in b if n not in a]
        for n in a:
            if n not in b:
                continue
            for cat in ("mem",) if kind == "comps" else tuple(CAT):
                x, y = {m.name: m for m in getattr(a[n], cat)}, {m.name: m for m in getattr(b[n], cat)}
                add, drop = CAT[cat]
                out += [(add, n, k) for k in x if k not in y] + [(drop, n, k) for k in y if k not in x]
                out += [("ChangedMemberType", n, (k, y[k].full, x[k].full)) for k in x if k in y and x[k].full != y[k].full]
    return out


# ---- editing a model -----------------------------------------------------------
class Edit:
    def __init__(self, m, g, r, kinds=None):
        self.m, self.g, self.r, self.kinds = m, g, r, kinds
        self.renames = []  # (class, from, to), of members of equal type
        self.log = []

    def holders(self):
        return [c for c in self.m.comps] + [t for t in self.m.types]

    def comp_refs(self):
        refs = set()
        for h in self.holders():
            for x in h.mem + getattr(h, "vec", []):
                refs.add(x.arr[0] if x.arr else x.type)
        return refs

    def type_refs(self):
        refs = set()
        for t in self.m.types:
            refs |= {x.type for x in t.one + t.many}
        for i in self.m.ifaces:
            refs |= set(i.types)
        for x in self.m.links:
            refs |= {x.frm, x.to}
        return refs

    def iface_bound(self):
        """(datatype, member) an interface needs"""
        return {(t, x.name) for i in self.m.ifaces for t in i.types for x in i.mem}

    def free(self, h):
        b = self.iface_bound()
        return [x for x in h.mem if (h.name, x.name) not in b]

    def new_member(self, like=None):
        g = self.g
        c = self.m.comps if not self.m.opt("exposePODMembers") or self.r.random() < 0.3 else []
        x = g.members(self.m, 1, c, True, defaults=False)[0]
        if like is not None:
            x.type, x.arr = like.type, like.arr
        return x

    def usable(self, h):
        """components a member of h may be of: none defined by h"""
        return []

    def drop_defaults(self, comp):
        for h in self.holders():
            for x in h.mem:
                if comp in (x.type, x.arr and x.arr[0]):
                    x.default = None

    def one(self):
        r, m = self.r, self.m
        h = r.choice(self.holders())
        t = r.choice(m.types)
        iscomp = isinstance(h, G.Comp)
        k = r.choice(self.kinds or ["rename_mem", "rename_mem", "rename_mem", "rename_type", "add_mem", "drop_mem", "rename_mem", "type_mem", "rename_and_type", "add_vec", "drop_vec", "type_vec", "add_one", "drop_one", "add_many", "drop_many", "retarget", "move_rel", "add_comp", "drop_comp",
                      "rename_comp", "add_type", "drop_type", "rename_type", "noise", "reorder", "comp_type", "array", "swap_category", "same_name_other_class"])

        def builtin_member():
            x = M(r.choice(G.BUILTINS + G.FIXED), self.g.uname(G.WORDS), desc=self.g.text())
            return x
        if k == "add_mem":
            x = builtin_member() if iscomp else self.new_member()
            h.mem.insert(r.randint(0, len(h.mem)), x)
        elif k == "drop_mem":
            f = self.free(h) if not iscomp else h.mem
            if not f or (iscomp and len(h.mem) < 2):
                return
            h.mem.remove(r.choice(f))
        elif k in ("rename_mem", "rename_and_type"):
            f = self.free(h) if not iscomp else h.mem
            if not f:
                return
            x = r.choice(f)
            y = x.copy()
            y.name = self.g.uname(G.WORDS)
            if k == "rename_and_type":
                if not x.builtin:
                    return
                y.type, y.default = r.choice([z for z in G.BUILTINS + G.FIXED if G.canon(z) != G.canon(x.type)]), None
            p = h.mem.index(x)
            h.mem[p] = y
            if r.random() < 0.3:
                h.mem.remove(y)
                h.mem.insert(r.randint(0, len(h.mem)), y)
            self.renames.append((h.name, x.name, y.name))
        elif k == "type_mem":
            f = [x for x in (self.free(h) if not iscomp else h.mem) if x.builtin]
            if not f:
                return
            x = r.choice(f)
            if iscomp:
                self.drop_defaults(h.name)
            x.type, x.default = r.choice([z for z in G.BUILTINS + G.FIXED if G.canon(z) != G.canon(x.type)]), None
        elif k == "comp_type":
            f = [x for x in (self.free(h) if not iscomp else []) if not x.arr]
            if not f or not m.comps:
                return
            x = r.choice(f)
            x.type, x.default = (r.choice(m.comps).name if x.builtin or r.random() < 0.5 else r.choice(G.BUILTINS)), None
        elif k == "array":
            f = self.free(h) if not iscomp else h.mem
            f = [x for x in f if x.builtin or x.arr]
            if not f:
                return
            x = r.choice(f)
            x.default = None
            if x.arr and r.random() < 0.5:
                et, n = x.arr
                if r.random() < 0.5 and G.is_builtin(et):
                    x.arr = None
                    x.type = et
                else:
                    x.arr = (et, n + 1)
            elif not x.arr:
                x.arr = (x.type, r.choice([1, 2, 5]))
            if x.arr:
                x.type = f"std::array<{x.arr[0]}, {x.arr[1]}>"
        elif k == "add_vec":
            t.vec.insert(r.randint(0, len(t.vec)), M(r.choice(["int", "float", "double"] + [c.name for c in m.comps]), self.g.uname(G.WORDS), desc="x"))
        elif k == "drop_vec":
            if not t.vec:
                return
            t.vec.remove(r.choice(t.vec))
        elif k == "type_vec":
            if not t.vec:
                return
            r.choice(t.vec).type = r.choice(["int", "float", "double", "uint32_t"] + [c.name for c in m.comps])
        elif k in ("add_one", "add_many"):
            l = getattr(t, k[4:])
            l.insert(r.randint(0, len(l)), M(r.choice(m.types).name, self.g.uname(G.WORDS), desc="x"))
        elif k in ("drop_one", "drop_many"):
            l = getattr(t, k[5:])
            if not l:
                return
            l.remove(r.choice(l))
        elif k == "retarget":
            l = t.one + t.many
            if not l:
                return
            r.choice(l).type = r.choice(m.types).name
        elif k == "move_rel":
            if not t.one:
                return
            x = r.choice(t.one)
            t.one.remove(x)
            t.many.append(x)
        elif k == "swap_category":
            if not t.vec:
                return
            x = r.choice(t.vec)
            t.vec.remove(x)
            t.mem.append(M(x.type, x.name, desc="x"))
        elif k == "add_comp":
            c = G.Comp(self.g.cname())
            c.mem = [builtin_member() for _ in range(r.randint(1, 3))]
            if r.random() < 0.4 and m.comps:
                c.mem = [x.copy() for x in r.choice(m.comps).mem]
            m.comps.insert(r.randint(0, len(m.comps)), c)
        elif k == "drop_comp":
            refs = self.comp_refs()
            f = [c for c in m.comps if c.name not in refs]
            if not f:
                return
            m.comps.remove(r.choice(f))
        elif k == "rename_comp":
            if not m.comps:
                return
            c = r.choice(m.comps)
            n = self.g.cname()
            for h in self.holders():
                for x in h.mem + getattr(h, "vec", []):
                    if x.arr and x.arr[0] == c.name:
                        x.arr = (n, x.arr[1])
                        x.type = f"std::array<{n}, {x.arr[1]}>"
                    elif x.type == c.name:
                        x.type = n
            for i in m.ifaces:
                for x in i.mem:
                    if x.arr and x.arr[0] == c.name:
                        x.arr = (n, x.arr[1])
                    elif x.type == c.name:
                        x.type = n
            c.name = n
        elif k == "add_type":
            n = G.Type(self.g.cname())
            n.desc, n.author = "d", "a"
            if r.random() < 0.5:
                n.mem = [builtin_member() for _ in range(r.randint(0, 3))]
            else:
                s = r.choice(m.types)
                n.mem, n.vec, n.one, n.many = ([x.copy() for x in l] for l in (s.mem, s.vec, s.one, s.many))
            m.types.insert(r.randint(0, len(m.types)), n)
        elif k == "drop_type":
            refs = self.type_refs()
            f = [x for x in m.types if x.name not in refs]
            if not f or len(m.types) < 2:
                return
            m.types.remove(r.choice(f))
        elif k == "rename_type":
            n = self.g.cname()
            for x in m.types:
                for y in x.one + x.many:
                    if y.type == t.name:
                        y.type = n
            for i in m.ifaces:
                i.types = [n if x == t.name else x for x in i.types]
            for x in m.links:
                x.frm = n if x.frm == t.name else x.frm
                x.to = n if x.to == t.name else x.to
            self.renames.append((None, t.name, n))
            t.name = n
        elif k == "noise":
            t.desc, t.author = self.g.text(), self.g.text()
            for x in t.all_members():
                x.desc = self.g.text()
                x.unit = r.choice([None, "mm"]) if x in t.mem else None
            for x in h.mem:
                x.default = None if (h.name, x.name) in self.iface_bound() or r.random() < 0.5 else x.default
        elif k == "reorder":
            r.shuffle(h.mem)
            r.shuffle(t.vec)
            r.shuffle(t.one)
            r.shuffle(m.comps)
            r.shuffle(m.types)
        elif k == "same_name_other_class":
            # a member goes from one class to another: no rename
            o = r.choice(m.types)
            f = [x for x in self.free(t) if x.builtin]
            if o is t or not f:
                return
            x = r.choice(f)
            t.mem.remove(x)
            o.mem.append(x)
        self.log.append(k)


def judge_truth(new, old, changes, declared):
    """what the judgement has to be: (changes after judging, error subjects, neutral?, warnings)"""
    left = collections.Counter(changes)
    types = {}
    for mod, which in ((new, "new"), (old, "old")):
        for h in mod.comps + mod.types:
            for x in h.mem:
                types[which, h.name, x.name] = x.full
    renamed = []
    for kls, frm, to in declared:
        if kls is None:
            continue
        a, d = ("AddedMember", kls, to), ("DroppedMember", kls, frm)
        if left[a] and left[d] and types.get(("new", kls, to)) == types.get(("old", kls, frm)):
            left[a] -= 1
            left[d] -= 1
            renamed.append(("RenamedMember", kls, (frm, to)))
    warn = []
    for (k1, kls, to), n1 in left.items():
        for (k2, kls2, frm), n2 in left.items():
            if n1 and n2 and k1 == "AddedMember" and k2 == "DroppedMember" and kls == kls2 and types["new", kls, to] == types["old", kls, frm]:
                warn.append((kls, frm, to))
    errors, neutral = [], False
    comps = {c.name for c in old.comps}, {c.name for c in new.comps}
    for (k, kls, x), n in left.items():
        if not n:
            continue
        if k in sum((CAT[c] for c in ("vec", "one", "many")), ()):
            errors.append((kls, x))
        if k == "ChangedMemberType":
            a, b = x[1:]
            arr = [z.startswith("std::array<") for z in (a, b)]
            if arr[0] != arr[1] or a in comps[0] or b in comps[1]:
                errors.append((kls, x[0]))
            elif arr[0] or not (G.is_builtin(a) and G.is_builtin(b)):
                neutral = True  # another array or another kind of related object: not settled by the documentation
    # datatypes of the same members
    sig = {}
    for which, mod, word in (("new", new, "AddedDatatype"), ("old", old, "DroppedDatatype")):
        for t in mod.types:
            if left[word, t.name, None]:
                sig.setdefault(frozenset((x.name, x.full) for x in t.all_members()), {"new": [], "old": []})[which].append(t.name)
    comp_warn = []
    for d in old.comps:
        for a in new.comps:
            if left["DroppedComponent", d.name, None] and left["AddedComponent", a.name, None] and {x.name for x in d.mem} == {x.name for x in a.mem}:
                comp_warn.append((d.name, a.name))
    return left, renamed, errors, neutral, warn, comp_warn, sig


def migrations(r, declared, noise):
    d = {}
    for kls, frm, to in declared:
        a = r.randint(1, 5)
        x = {"from_version": a, "to_version": a + r.randint(1, 3), ("rename_member" if kls else "rename_datatype"): {"from": frm, "to": to}}
        d.setdefault(kls or frm, []).append(G.shuf(r, x))
    for k, v in noise:
        d.setdefault(k, []).append(v)
    return {"migrations": d}
