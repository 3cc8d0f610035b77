#include "vf_event.h"
#include "podio/CollectionBufferFactory.h"
#include "podio/UserDataCollection.h"
#include <algorithm>

namespace vf {
MObj newModel(int type) {
  MObj m;
  auto& t = T(type);
  m.type = type;
  m.mem = t.defaults();
  m.vec.resize(size_t(t.nVec()));
  m.one.resize(size_t(t.nOne()), nullptr);
  m.many.resize(size_t(t.nMany()));
  return m;
}

std::string MEvent::summary() const {
  std::string s;
  for (auto& c : colls) {
    s += c->name + "=" + (c->type >= 0 ? T(c->type).name() : c->ud->valueName()) + (c->subset ? "(subset)" : "") + "x" +
        std::to_string(c->type >= 0 ? c->elems.size() : c->udvals.size()) + " ";
  }
  s += "params i" + std::to_string(params.i.size()) + " f" + std::to_string(params.f.size()) + " d" +
      std::to_string(params.d.size()) + " s" + std::to_string(params.s.size());
  return s;
}

void randomMembers(Rng& r, MObj& m, const HandleBase& hc) {
  auto& t = T(m.type);
  auto& h = const_cast<HandleBase&>(hc);
  for (int i = 0; i < t.nMem(); ++i) {
    if (r.chance(0.15)) {
      continue; // keep what is there
    }
    std::string out;
    t.setMem(h, i, r, int(r.below(2)), out);
    m.mem[size_t(i)] = out;
    if (t.nSub(i) && r.chance(0.3)) {
      out.clear();
      t.setSub(h, i, int(r.below(uint64_t(t.nSub(i)))), r, out);
      m.mem[size_t(i)] = out;
    }
  }
}
void randomVecs(Rng& r, MObj& m, const HandleBase& hc, size_t maxN) {
  auto& t = T(m.type);
  auto& h = const_cast<HandleBase&>(hc);
  // interleave additions to the different vector members
  std::vector<int> left;
  for (int v = 0; v < t.nVec(); ++v) {
    size_t n = r.chance(0.3) ? 0 : r.below(maxN + 1);
    for (size_t i = 0; i < n; ++i) {
      left.push_back(v);
    }
  }
  for (size_t i = left.size(); i > 1; --i) {
    std::swap(left[i - 1], left[r.below(i)]);
  }
  for (int v : left) {
    std::string out;
    t.vecAdd(h, v, r, out);
    m.vec[size_t(v)].push_back(out);
  }
}

static std::string randName(Rng& r, size_t k) {
  static const char* base[] = {"hits", "Particles", "MCParticles", "c", "coll_with_underscores", "EventHeader", "a b c", "x/y", "tracks", "\xc3\xa4"};
  std::string n = base[r.below(10)];
  n += std::to_string(k);
  if (r.chance(0.1)) {
    n += std::string(r.below(60), 'z');
  }
  return n;
}

void genParams(Rng& r, MParams& p, int n) {
  for (int k = 0; k < n; ++k) {
    std::string key;
    if (r.chance(0.5)) {
      key = "key" + std::to_string(r.below(6));
    } else {
      gen(r, key);
      key += std::to_string(k);
    }
    auto vecOf = [&](auto& map) {
      using V = typename std::remove_cvref_t<decltype(map)>::mapped_type;
      V v(r.chance(0.2) ? 0 : r.chance(0.4) ? 1 : r.below(6));
      for (auto& x : v) {
        typename V::value_type y{};
        gen(r, y);
        x = y;
      }
      map[key] = v;
    };
    switch (r.below(4)) {
    case 0: vecOf(p.i); break;
    case 1: vecOf(p.f); break;
    case 2: vecOf(p.d); break;
    default: vecOf(p.s);
    }
  }
}
void putParams(const MParams& p, podio::Frame& f, Rng& r) {
  auto put = [&](const auto& map) {
    for (const auto& [k, v] : map) {
      if (v.size() == 1 && r.chance(0.5)) {
        f.putParameter(k, v[0]);
      } else {
        f.putParameter(k, v);
      }
    }
  };
  put(p.i);
  put(p.f);
  put(p.d);
  put(p.s);
}
void compareParams(const MParams& p, const podio::GenericParameters& gp, const std::string& ctx) {
  auto cmp = [&](const auto& map, const char* tn) {
    using V = typename std::remove_cvref_t<decltype(map)>::mapped_type;
    using E = typename V::value_type;
    auto keys = gp.getKeys<E>();
    std::sort(keys.begin(), keys.end());
    std::vector<std::string> want;
    for (const auto& [k, v] : map) {
      want.push_back(k);
    }
    checkEq(canonS(keys), canonS(want), std::string("params:keys:") + tn, ctx);
    for (const auto& [k, v] : map) {
      auto got = gp.template get<V>(k);
      if (check(got.has_value(), std::string("params:missing:") + tn, ctx + " key " + k)) {
        checkEq(canonS(*got), canonS(v), std::string("params:value:") + tn, ctx + " key " + k);
      }
    }
  };
  cmp(p.i, "int");
  cmp(p.f, "float");
  cmp(p.d, "double");
  cmp(p.s, "string");
}

void genEvent(Rng& r, const GenOpts& o, MEvent& ev, std::vector<std::unique_ptr<podio::CollectionBase>>& out) {
  std::vector<Column> full, sub, users; // of a given layout
  for (auto& c : o.layout) {
    (c.ud ? users : c.subset ? sub : full).push_back(c);
  }
  const bool fixed = !o.layout.empty();
  const int n = fixed ? int(full.size()) : int(r.range(o.minColls, o.maxColls));
  int huge = r.chance(o.hugeChance) ? 1 + int(r.below(3)) : 0; // a collection, a vector member or user data
  std::vector<int> types = o.onlyTypes;
  if (types.empty()) {
    for (auto* t : allTypes()) {
      types.push_back(t->index);
    }
  }
  // focus on few types in some events so that relations inside get dense
  if (r.chance(0.4)) {
    std::vector<int> few;
    for (int i = 0; i < 4; ++i) {
      few.push_back(r.pick(types));
    }
    types = few;
  }
  std::vector<std::vector<MObj*>> byType(allTypes().size());
  std::set<std::string> used;
  auto newName = [&] {
    std::string nm;
    do {
      nm = randName(r, r.below(50));
      if (r.chance(0.04)) { // starts or ends like something else in a file
        nm = r.chance(0.5) ? "frame_parameters_" + nm : nm + "_objIdx_";
      }
    } while (!used.insert(nm).second);
    return nm;
  };
  for (int k = 0; k < n; ++k) {
    const int type = fixed ? full[size_t(k)].type : r.pick(types);
    auto& t = T(type);
    auto c = t.newColl();
    auto mc = std::make_unique<MColl>();
    mc->name = fixed ? full[size_t(k)].name : newName();
    mc->type = type;
    size_t sz = r.chance(o.bigChance) ? r.below(o.bigSize) : r.chance(0.15) ? 0 : r.chance(0.3) ? r.below(3) : r.below(12);
    if (huge == 1) {
      sz = 1000 + r.below(2000);
      huge = 0;
    }
    for (size_t e = 0; e < sz; ++e) {
      auto m = std::make_unique<MObj>(newModel(type));
      m->uid = ev.objs.size();
      m->coll = mc.get();
      m->idx = int(e);
      const int how = int(r.below(4));
      if (how == 0 && t.hasArgs()) {
        m->mem.clear();
        m->h = t.createArgs(*c, r, m->mem);
      } else if (how == 1) {
        m->h = t.make();
        randomMembers(r, *m, *m->h);
        randomVecs(r, *m, *m->h, 3);
        t.push(*c, *m->h);
      } else if (how == 2 && t.hasArgs()) {
        m->mem.clear();
        m->h = t.makeArgs(r, m->mem);
        t.push(*c, *m->h);
      } else {
        m->h = t.create(*c);
      }
      if (!r.chance(0.1)) {
        randomMembers(r, *m, *m->h);
      }
      if (!r.chance(0.2)) {
        const bool hv = huge == 2 && t.nVec() > 0;
        randomVecs(r, *m, *m->h, hv ? 25000 : sz > 20 ? 3 : r.chance(0.05) ? 70 : 6);
        huge = hv ? 0 : huge;
      }
      byType[size_t(type)].push_back(m.get());
      mc->elems.push_back(m.get());
      ev.objs.push_back(std::move(m));
    }
    ev.colls.push_back(std::move(mc));
    out.push_back(std::move(c));
  }
  auto pickTarget = [&](const std::vector<int>& allowed) -> MObj* {
    std::vector<int> have;
    for (int a : allowed) {
      if (!byType[size_t(a)].empty()) {
        have.push_back(a);
      }
    }
    if (have.empty()) {
      return nullptr;
    }
    return r.pick(byType[size_t(r.pick(have))]);
  };
  auto handleFor = [&](MObj* m) -> HP { return r.chance(0.5) ? m->h : T(m->type).toConst(*m->h); };
  if (o.relations) {
    // visit in random order and interleave relation kinds
    std::vector<MObj*> order;
    for (auto& m : ev.objs) {
      order.push_back(m.get());
    }
    for (size_t i = order.size(); i > 1; --i) {
      std::swap(order[i - 1], order[r.below(i)]);
    }
    const double density = r.chance(0.2) ? 0.0 : r.chance(0.5) ? 0.5 : 0.9;
    for (auto* m : order) {
      auto& t = T(m->type);
      for (int i = 0; i < t.nOne(); ++i) {
        if (r.chance(density)) {
          if (auto* tg = pickTarget(t.oneTypes(i))) {
            t.setOne(*m->h, i, handleFor(tg).get());
            m->one[size_t(i)] = tg;
            if (r.chance(0.1)) { // overwrite, possibly with an unset one
              auto* t2 = r.chance(0.5) ? pickTarget(t.oneTypes(i)) : nullptr;
              t.setOne(*m->h, i, t2 ? handleFor(t2).get() : nullptr);
              m->one[size_t(i)] = t2;
            }
          }
        }
      }
      std::vector<int> adds;
      for (int i = 0; i < t.nMany(); ++i) {
        if (r.chance(density)) {
          size_t k = r.chance(0.02) ? r.below(120) : r.below(order.size() > 60 ? 3 : 6);
          for (size_t q = 0; q < k; ++q) {
            adds.push_back(i);
          }
        }
      }
      for (size_t i = adds.size(); i > 1; --i) {
        std::swap(adds[i - 1], adds[r.below(i)]);
      }
      for (int i : adds) {
        if (auto* tg = pickTarget(t.manyTypes(i))) {
          t.addMany(*m->h, i, *handleFor(tg));
          m->many[size_t(i)].push_back(tg);
        }
      }
    }
  }
  if (o.subsets) {
    const int ns = fixed ? int(sub.size()) : int(r.below(4));
    for (int k = 0; k < ns; ++k) {
      std::vector<int> have;
      for (int a : types) {
        if (!byType[size_t(a)].empty()) {
          have.push_back(a);
        }
      }
      const int type = fixed ? sub[size_t(k)].type : have.empty() || r.chance(0.1) ? r.pick(types) : r.pick(have);
      auto& t = T(type);
      auto& src = byType[size_t(type)];
      auto mc = std::make_unique<MColl>();
      mc->name = fixed ? sub[size_t(k)].name : newName();
      mc->type = type;
      mc->subset = true;
      std::vector<HP> hs;
      size_t cnt = src.empty() ? 0 : r.below(10);
      for (size_t i = 0; i < cnt; ++i) {
        auto* m = r.pick(src);
        mc->elems.push_back(m);
        hs.push_back(t.toConst(*m->h));
      }
      std::unique_ptr<podio::CollectionBase> c;
      if (r.chance(0.3)) {
        c = t.fromHandles(hs, true);
      } else {
        c = t.newColl();
        c->setSubsetCollection();
        for (size_t i = 0; i < hs.size(); ++i) {
          t.push(*c, r.chance(0.5) ? *hs[i] : *mc->elems[i]->h);
        }
      }
      const size_t pos = r.below(out.size() + 1);
      out.insert(out.begin() + long(pos), std::move(c));
      ev.colls.insert(ev.colls.begin() + long(pos), std::move(mc));
    }
  }
  if (o.userData) {
    const int nu = fixed ? int(users.size()) : huge == 3 ? 1 : int(r.below(3));
    for (int k = 0; k < nu; ++k) {
      auto mc = std::make_unique<MColl>();
      mc->name = fixed ? users[size_t(k)].name : newName();
      mc->ud = fixed ? users[size_t(k)].ud : allUD()[r.below(allUD().size())];
      auto c = mc->ud->make(r, huge == 3 ? 8000 + r.below(60000) : r.chance(0.1) ? 500 : r.below(12), mc->udvals);
      const size_t pos = r.below(out.size() + 1);
      out.insert(out.begin() + long(pos), std::move(c));
      ev.colls.insert(ev.colls.begin() + long(pos), std::move(mc));
    }
  }
  if (o.params) {
    genParams(r, ev.params, int(r.below(8)));
  }
  for (auto& c : ev.colls) {
    c->id = refCollID(c->name);
  }
}

void compareRef(const Ref& r, const MObj* want, const CmpCtx& c, const std::string& what) {
  if (!want) {
    check(!r.avail, "relation:unset-but-available:" + what, c.where + " shows " + idS(r.id));
    return;
  }
  if (!want->alive) {
    return;
  }
  if (!c.available(*want)) {
    check(!r.avail, "relation:missing-but-available:" + what, c.where + " shows " + idS(r.id));
    return;
  }
  if (!check(r.avail, "relation:lost:" + what, c.where)) {
    return;
  }
  if (!checkNum(r.type, want->type, "relation:wrong-type:" + what, c.where)) {
    return;
  }
  auto& t = T(want->type);
  if (c.idOf) {
    checkEq(idS(r.id), idS(c.idOf(*want)), "relation:wrong-target-id:" + what, c.where);
    checkEq(idS(t.id(*r.h)), idS(c.idOf(*want)), "relation:wrong-target-id2:" + what, c.where);
  }
  if (c.handleOf) {
    if (HP own = c.handleOf(*want)) {
      check(t.eq(*r.h, *own), "relation:not-the-same-object:" + what, c.where + " id " + idS(r.id));
    }
  }
  if (c.deepTargets) {
    for (int i = 0; i < t.nMem(); ++i) {
      checkEq(t.mem(*r.h, i), want->mem[size_t(i)], "relation:target-member:" + what, c.where);
    }
  }
}

void compareObject(const HandleBase& h, const MObj& m, const CmpCtx& c) {
  auto& t = T(m.type);
  const std::string tn = t.name() + ".";
  if (!check(t.available(h), "object:not-available:" + tn, c.where)) {
    return;
  }
  Rng fallback(m.uid + 1);
  Rng& r = c.r ? *c.r : fallback;
  for (int i = 0; i < t.nMem(); ++i) {
    checkEq(t.mem(h, i), m.mem[size_t(i)], "member:" + tn + t.memName(i), c.where);
    if (r.chance(0.3)) {
      t.checkSub(h, i);
    }
  }
  for (int v = 0; v < t.nVec(); ++v) {
    checkNum(int64_t(t.vecSize(h, v)), int64_t(m.vec[size_t(v)].size()), "vector-member-size:" + tn + t.vecName(v), c.where);
    const Access a = Access(r.below(5));
    auto got = t.vec(h, v, a);
    checkEq(canonS(got), canonS(m.vec[size_t(v)]), "vector-member:" + tn + t.vecName(v), c.where);
  }
  for (int i = 0; i < t.nOne(); ++i) {
    const MObj* w = m.one[size_t(i)];
    if (w && !w->alive) {
      continue;
    }
    compareRef(t.one(h, i), w, c, tn + t.oneName(i));
  }
  for (int i = 0; i < t.nMany(); ++i) {
    const auto& want = m.many[size_t(i)];
    if (!checkNum(int64_t(t.manySize(h, i)), int64_t(want.size()), "relation-count:" + tn + t.manyName(i), c.where)) {
      continue;
    }
    if (std::any_of(want.begin(), want.end(), [](const MObj* w) { return !w->alive; })) {
      continue;
    }
    auto got = t.many(h, i, Access(r.below(5)));
    if (!checkNum(int64_t(got.size()), int64_t(want.size()), "relation-sequence-length:" + tn + t.manyName(i), c.where)) {
      continue;
    }
    for (size_t k = 0; k < got.size(); ++k) {
      compareRef(got[k], want[k], c, tn + t.manyName(i));
    }
  }
}

void compareColl(const podio::CollectionBase& coll, const MColl& m, const CmpCtx& c0) {
  CmpCtx c = c0;
  const std::string where = c.where;
  Rng fallback(7);
  Rng& r = c.r ? *c.r : fallback;
  if (m.type < 0) {
    if (!check(m.ud->isColl(&coll), "collection:wrong-type:userdata", where + " is " + std::string(coll.getTypeName()))) {
      return;
    }
    checkNum(int64_t(coll.size()), int64_t(m.udvals.size()), "userdata:size", where);
    checkEq(canonS(m.ud->values(coll)), canonS(m.udvals), "userdata:values:" + m.ud->valueName(), where);
    return;
  }
  auto& t = T(m.type);
  if (!check(t.isColl(&coll), "collection:wrong-type", where + " is " + std::string(coll.getTypeName()) + " expected " + t.collName())) {
    return;
  }
  checkEq(std::string(coll.getTypeName()), t.collName(), "collection:type-name");
  checkEq(std::string(coll.getDataTypeName()), t.dataName(), "collection:data-type-name");
  checkNum(coll.isSubsetCollection(), m.subset, "collection:subset-flag:" + t.name(), where);
  check(coll.empty() == (coll.size() == 0), "collection:empty-vs-size:" + t.name(), where);
  check(coll.max_size() >= coll.size() && coll.max_size() >= (1u << 24) && (m.subset || coll.max_size() <= size_t(std::numeric_limits<int>::max())),
        "collection:max_size:" + t.name(), where + " " + std::to_string(coll.max_size()));
  if (!checkNum(int64_t(coll.size()), int64_t(m.elems.size()), "collection:size:" + t.name(), where)) {
    return;
  }
  auto hs = t.elements(coll, int(r.below(3)));
  if (!checkNum(int64_t(hs.size()), int64_t(m.elems.size()), "collection:iteration-length:" + t.name(), where)) {
    return;
  }
  for (size_t i = 0; i < m.elems.size(); ++i) {
    const MObj& want = *m.elems[i];
    if (!want.alive) {
      continue;
    }
    c.where = where + "[" + std::to_string(i) + "]";
    HP h = r.chance(0.5) ? hs[i] : t.at(coll, i, r.chance(0.5) ? Access::At : Access::Index);
    if (m.subset && !c.available(want)) {
      check(!t.available(*h), "subset:missing-but-available:" + t.name(), c.where);
      continue;
    }
    if (c.idOf) {
      checkEq(idS(t.id(*h)), idS(c.idOf(want)), std::string(m.subset ? "subset:" : "element:") + "id:" + t.name(), c.where);
      checkEq(idS(t.objectID(*h)), idS(c.idOf(want)), std::string(m.subset ? "subset:" : "element:") + "getObjectID:" + t.name(), c.where);
    }
    if (m.subset && c.handleOf) {
      if (HP own = c.handleOf(want)) {
        check(t.eq(*h, *own), "subset:not-the-same-object:" + t.name(), c.where);
      }
    }
    compareObject(*h, want, c);
  }
}

// ---- storage ---------------------------------------------------------------
StoredColl storeColl(podio::CollectionBase& c) {
  const std::string tn(c.getTypeName());
  for (auto* t : allTypes()) {
    if (t->isColl(&c)) {
      return t->store(c);
    }
  }
  if (auto* u = udByType(tn)) {
    return u->store(c);
  }
  internalError("cannot store collection of type " + tn);
}
StoredFrame writeFrame(const podio::Frame& f, const std::vector<std::string>& names) {
  StoredFrame s;
  for (auto& n : names) {
    auto* c = f.getCollectionForWrite(n);
    if (!check(c != nullptr, "write:collection-missing", n)) {
      continue;
    }
    auto sc = storeColl(*const_cast<podio::CollectionBase*>(c));
    sc.name = n;
    s.colls.push_back(std::move(sc));
  }
  auto t = f.getCollectionIDTableForWrite();
  s.ids = t.ids();
  s.names = t.names();
  s.params = std::make_shared<podio::GenericParameters>(f.getParameters());
  return s;
}
std::optional<podio::CollectionReadBuffers> makeBuffers(const StoredColl& s) {
  auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.subset);
  if (!check(b.has_value(), "buffers:none-for-known-type", s.type + " version " + std::to_string(s.version))) {
    return std::nullopt;
  }
  for (auto* t : allTypes()) {
    if (t->collName() == s.type) {
      auto e = t->checkEmptyBuffers(*b, s.subset);
      if (!check(e.empty(), "buffers:not-complete-and-empty:" + t->name(), e)) {
        return std::nullopt;
      }
      t->fill(*b, s);
      return b;
    }
  }
  if (auto* u = udByType(s.type)) {
    u->fill(*b, s);
    return b;
  }
  internalError("cannot fill buffers of type " + s.type);
}
MemFrameData::MemFrameData(const StoredFrame& s, const std::set<std::string>* keep) : table(s.ids, s.names) {
  for (auto& c : s.colls) {
    if (!keep || keep->count(c.name)) {
      colls.emplace(c.name, c);
    }
  }
  params = std::make_unique<podio::GenericParameters>(*s.params);
}
std::optional<podio::CollectionReadBuffers> MemFrameData::getCollectionBuffers(const std::string& name) {
  if (onRead) {
    onRead(name);
  }
  auto it = colls.find(name);
  if (it == colls.end()) {
    return std::nullopt;
  }
  auto b = makeBuffers(it->second);
  if (auto c = claim.find(name); b && c != claim.end()) {
    b->schemaVersion = c->second;
  }
  colls.erase(it);
  return b;
}
std::vector<std::string> MemFrameData::getAvailableCollections() const {
  std::vector<std::string> r;
  for (auto& [n, c] : colls) {
    r.push_back(n);
  }
  return r;
}
podio::Frame readFrame(const StoredFrame& s, const std::set<std::string>* keep) {
  return podio::Frame(std::make_unique<MemFrameData>(s, keep));
}
std::vector<std::string> shuffled(std::vector<std::string> v, Rng& r) {
  for (size_t i = v.size(); i > 1; --i) {
    std::swap(v[i - 1], v[r.below(i)]);
  }
  return v;
}

void compareFrame(const podio::Frame& f, const MEvent& ev, Rng& r, const std::string& where, const std::set<std::string>* keep, bool checkParams) {
  auto isKept = [&](const std::string& n) { return !keep || keep->count(n); };
  std::vector<std::string> want;
  for (auto& c : ev.colls) {
    if (isKept(c->name)) {
      want.push_back(c->name);
    }
  }
  auto namesCheck = [&](const char* when) {
    auto got = f.getAvailableCollections();
    std::sort(got.begin(), got.end());
    auto w = want;
    std::sort(w.begin(), w.end());
    checkEq(canonS(got), canonS(w), "frame:available-collections", where + " " + when);
  };
  namesCheck("before access");
  CmpCtx c;
  c.r = &r;
  c.available = [&](const MObj& m) { return isKept(m.coll->name); };
  c.idOf = [&](const MObj& m) { return podio::ObjectID{m.idx, m.coll->id}; };
  c.handleOf = [&](const MObj& m) -> HP {
    auto* coll = f.get(m.coll->name);
    auto& t = T(m.type);
    if (!coll || !t.isColl(coll) || size_t(m.idx) >= coll->size()) {
      return nullptr;
    }
    return t.at(*coll, size_t(m.idx), Access::Index);
  };
  std::vector<std::string> order;
  for (auto& m : ev.colls) {
    order.push_back(m->name);
  }
  order = shuffled(order, r);
  const bool allFirst = r.chance(0.3);
  if (allFirst) {
    for (auto& n : order) {
      f.get(n);
    }
    order = shuffled(order, r);
  }
  for (auto& n : order) {
    auto& m = *ev.find(n);
    c.where = where + " " + n;
    auto* coll = f.get(n);
    if (!isKept(n)) {
      check(coll == nullptr, "frame:missing-collection-returned", c.where);
      continue;
    }
    if (!check(coll != nullptr, "frame:collection-lost", c.where)) {
      continue;
    }
    checkNum(coll->getID(), m.id, "collection:id", c.where);
    check(coll->hasID(), "collection:hasID", c.where);
    auto nm = f.getName(*coll);
    checkEq(nm.value_or("<none>"), n, "frame:name-of-collection", c.where);
    compareColl(*coll, m, c);
    check(f.get(n) == coll, "frame:different-object-on-second-get", c.where);
  }
  if (r.chance(0.5)) {
    check(f.get("no such collection") == nullptr, "frame:unknown-name-returned", where);
  }
  namesCheck("after access");
  if (checkParams) {
    compareParams(ev.params, f.getParameters(), where);
  }
}

// ---- user data ---------------------------------------------------------------
namespace {
template <class V>
struct UD : UDOps {
  using Coll = podio::UserDataCollection<V>;
  const char* vn;
  explicit UD(const char* n) : vn(n) {}
  std::string typeName() const override { return std::string("podio::UserDataCollection<") + vn + ">"; }
  std::string valueName() const override { return vn; }
  std::unique_ptr<podio::CollectionBase> make(Rng& r, size_t n, std::vector<std::string>& vals) const override {
    auto c = std::make_unique<Coll>();
    std::vector<V> v;
    const bool viaVec = r.chance(0.3);
    for (size_t i = 0; i < n; ++i) {
      V x{};
      gen(r, x);
      vals.push_back(canonS(x));
      v.push_back(x);
      if (!viaVec) {
        c->push_back(x);
      }
    }
    if (viaVec) {
      c = std::make_unique<Coll>(std::move(v));
    }
    return c;
  }
  std::vector<std::string> values(const podio::CollectionBase& b) const override {
    std::vector<std::string> r;
    for (const auto& x : dynamic_cast<const Coll&>(b)) {
      r.push_back(canonS(x));
    }
    return r;
  }
  StoredColl store(podio::CollectionBase& b) const override {
    StoredColl s;
    auto buf = b.getBuffers();
    s.type = std::string(b.getTypeName());
    s.version = b.getSchemaVersion();
    s.subset = b.isSubsetCollection();
    s.id = b.getID();
    s.data = *buf.template dataAsVector<V>();
    check(!buf.references || buf.references->empty(), "userdata:references-in-buffers");
    check(!buf.vectorMembers || buf.vectorMembers->empty(), "userdata:vector-members-in-buffers");
    return s;
  }
  void fill(podio::CollectionReadBuffers& b, const StoredColl& s) const override {
    check(b.data && b.template dataAsVector<V>()->empty(), "buffers:userdata-not-empty");
    *b.template dataAsVector<V>() = std::any_cast<const std::vector<V>&>(s.data);
  }
  bool isColl(const podio::CollectionBase* c) const override { return dynamic_cast<const Coll*>(c); }
  const podio::CollectionBase* putTyped(podio::Frame& f, podio::CollectionBase& c, const std::string& n) const override {
    return &f.put(std::move(dynamic_cast<Coll&>(c)), n);
  }
  const podio::CollectionBase* getTyped(const podio::Frame& f, const std::string& n) const override { return &f.get<Coll>(n); }
};
} // namespace
const std::vector<UDOps*>& allUD() {
  static UD<float> f("float");
  static UD<double> d("double");
  static UD<int8_t> i8("int8_t");
  static UD<int16_t> i16("int16_t");
  static UD<int32_t> i32("int32_t");
  static UD<int64_t> i64("int64_t");
  static UD<uint8_t> u8("uint8_t");
  static UD<uint16_t> u16("uint16_t");
  static UD<uint32_t> u32("uint32_t");
  static UD<uint64_t> u64("uint64_t");
  static const std::vector<UDOps*> v{&f, &d, &i8, &i16, &i32, &i64, &u8, &u16, &u32, &u64};
  return v;
}
} // namespace vf
