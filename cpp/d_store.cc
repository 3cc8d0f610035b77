// C08: a Frame as a store of names: histories of puts (also of taken names),
// gets (also missing, wrong type), parameters and moves, against a model.
#include "vf_event.h"
#include "vf_leak.h"
using namespace vf;

namespace {
struct Entry {
  const MColl* m;
  bool inFile = false;                     // came with the input data
  bool seen = false;                       // has been handed out (or put)
  const podio::CollectionBase* ptr = nullptr;
  std::vector<HP> held;                    // element handles kept by the user
  uint32_t heldFirst = 0;
};
struct Store {
  Rng& r;
  podio::Frame f;
  std::map<std::string, Entry> e;
  std::set<std::string> dropped; // known to the ID table of the input, but not readable
  MParams params;
  std::string ctx;
  std::map<const MColl*, const podio::CollectionBase*> outside; // collections of B that are not in the Frame yet
  CmpCtx cmp(const std::string& where) {
    CmpCtx c;
    c.where = ctx + " " + where;
    c.r = &r;
    c.available = [this](const MObj& m) { return !dropped.count(m.coll->name); };
    c.idOf = [this](const MObj& m) {
      auto it = outside.find(m.coll);
      return podio::ObjectID{m.idx, it == outside.end() ? m.coll->id : it->second->getID()};
    };
    return c;
  }
  void checkNames() {
    auto got = f.getAvailableCollections();
    std::sort(got.begin(), got.end());
    std::vector<std::string> want;
    for (auto& [n, _] : e) {
      want.push_back(n);
    }
    checkEq(canonS(got), canonS(want), "store:available-collections", ctx);
  }
  void checkHeld(const std::string& n, Entry& en) {
    for (size_t i = 0; i < en.held.size(); ++i) {
      auto& t = typeOf(*en.held[i]);
      const size_t k = en.heldFirst + i;
      if (k < en.m->elems.size()) {
        check(t.eq(*en.held[i], *t.at(*en.ptr, k, Access::Index)), "store:element-identity-lost", ctx + " " + n);
        compareObject(*en.held[i], *en.m->elems[k], cmp("held handle of " + n));
      }
    }
  }
  void checkEntry(const std::string& n, Entry& en, int how) {
    const podio::CollectionBase* c = nullptr;
    if (how == 0) {
      c = f.get(n);
    } else {
      expectOk("store:typed-get", [&] { c = en.m->type >= 0 ? T(en.m->type).getTyped(f, n) : en.m->ud->getTyped(f, n); });
    }
    if (!check(c != nullptr, "store:collection-lost", ctx + " " + n)) {
      return;
    }
    if (en.ptr) {
      check(c == en.ptr, "store:another-object-returned", ctx + " " + n);
    }
    en.ptr = c;
    en.seen = true;
    checkNum(c->getID(), en.m->id, "store:id", ctx + " " + n);
    check(c->hasID() && c->isValid(), "store:not-valid", ctx + " " + n);
    checkEq(f.getName(*c).value_or("<none>"), n, "store:getName", ctx);
    checkEq(f.getName(c->getID()).value_or("<none>"), n, "store:getName-by-id", ctx);
    auto table = f.getCollectionIDTableForWrite();
    checkNum(table.collectionID(n).value_or(0), c->getID(), "store:table-id", ctx + " " + n);
    compareColl(*c, *en.m, cmp(n));
    checkHeld(n, en);
  }
  void checkAll() {
    checkNames();
    for (auto& n : shuffled(keys(), r)) {
      checkEntry(n, e.at(n), int(r.below(2)));
    }
    checkNames();
    compareParams(params, f.getParameters(), ctx);
  }
  std::vector<std::string> keys() const {
    std::vector<std::string> v;
    for (auto& [n, _] : e) {
      v.push_back(n);
    }
    return v;
  }
};
template <class V>
void paramCase(Rng& r, Store& s, PMap<V>& map, const char* tn) {
  const std::string key = "key" + std::to_string(r.below(5));
  switch (r.below(5)) {
  case 0: {
    V x{};
    gen(r, x);
    s.f.putParameter(key, x);
    map[key] = {x};
    break;
  }
  case 1: {
    std::vector<V> v(r.below(5));
    for (auto& x : v) {
      V y{};
      gen(r, y);
      x = y;
    }
    s.f.putParameter(key, v);
    map[key] = v;
    break;
  }
  case 2: {
    V x{}, y{};
    gen(r, x);
    gen(r, y);
    s.f.putParameter(key, {x, y});
    map[key] = {x, y};
    break;
  }
  case 3: {
    auto one = s.f.template getParameter<V>(key);
    auto it = map.find(key);
    if (it == map.end() || it->second.empty()) {
      check(!one.has_value(), std::string("store:missing-parameter-returned:") + tn, key);
    } else if (check(one.has_value(), std::string("store:parameter-lost:") + tn, key)) {
      checkEq(canonS(*one), canonS(it->second[0]), std::string("store:parameter:") + tn, key);
    }
    check(!s.f.template getParameter<V>("never set").has_value(), std::string("store:unknown-parameter-returned:") + tn);
    break;
  }
  default: {
    auto all = s.f.template getParameter<std::vector<V>>(key);
    auto it = map.find(key);
    if (check(all.has_value() == (it != map.end()), std::string("store:parameter-presence:") + tn, key) && all) {
      checkEq(canonS(*all), canonS(it->second), std::string("store:vector-parameter:") + tn, key);
    }
    auto ks = s.f.template getParameterKeys<V>();
    check(ks.size() == map.size(), std::string("store:parameter-keys:") + tn);
  }
  }
}
} // namespace

static void storeCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 31, idx));
  setCase(idx, "Frame as a store");
  uint64_t hist = 17;
  MEvent evA, evB;
  std::vector<std::unique_ptr<podio::CollectionBase>> ca, cb;
  GenOpts o;
  o.maxColls = 6;
  o.bigChance = 0.01;
  genEvent(r, o, evA, ca);
  genEvent(r, o, evB, cb);
  std::set<std::string> namesA;
  for (auto& c : evA.colls) {
    namesA.insert(c->name);
  }
  for (auto& c : evB.colls) {
    while (namesA.count(c->name)) {
      c->name += "'";
      c->id = refCollID(c->name);
    }
    namesA.insert(c->name);
  }
  Store s{r, {}, {}, {}, {}, "", {}};
  // what the Frame starts from
  const int start = int(r.below(3)); // empty, built here, from input data
  if (start) {
    podio::Frame f;
    putParams(evA.params, f, r);
    std::vector<std::string> all;
    for (size_t i = 0; i < ca.size(); ++i) {
      f.put(std::move(ca[i]), evA.colls[i]->name);
      all.push_back(evA.colls[i]->name);
    }
    for (auto& ob : evA.objs) {
      ob->h.reset();
    }
    std::set<std::string> keep(all.begin(), all.end());
    if (start == 2) {
      if (r.chance(0.3)) {
        keep.erase(r.pick(all));
      }
      auto st = writeFrame(f, shuffled(all, r));
      s.f = readFrame(st, &keep);
    } else {
      s.f = std::move(f);
    }
    for (auto& c : evA.colls) {
      if (keep.count(c->name)) {
        Entry en{c.get()};
        en.inFile = start == 2;
        en.seen = start == 1;
        s.e.emplace(c->name, en);
      } else {
        s.dropped.insert(c->name);
      }
    }
    s.params = evA.params;
  } else {
    for (auto& ob : evA.objs) {
      ob->h.reset();
    }
    ca.clear();
  }
  note(std::string("start ") + (start == 0 ? "empty" : start == 1 ? "built" : "from data"));
  // the collections of B go in one after the other: their relations among each
  // other resolve as soon as both are in
  std::vector<size_t> pending;
  for (size_t i = 0; i < cb.size(); ++i) {
    pending.push_back(i);
    s.outside[evB.colls[i].get()] = cb[i].get();
  }
  // before any is in: objects are shown by their handles; B's targets are
  // reachable through the handles all the time, so availability is as in memory
  const int nOps = int(r.range(8, 30));
  for (int k = 0; k < nOps && !caseFailed(); ++k) {
    const int op = int(r.below(11));
    hist = hist * 131 + uint64_t(op);
    s.ctx = "step " + std::to_string(k);
    switch (op) {
    case 0:
    case 1: // put a new collection
      if (!pending.empty()) {
        const size_t q = r.below(pending.size());
        const size_t i = pending[q];
        pending.erase(pending.begin() + long(q));
        auto& m = *evB.colls[i];
        s.outside.erase(&m);
        Entry en{&m};
        en.seen = true;
        if (m.type >= 0 && cb[i]->size() && r.chance(0.7)) {
          const size_t first = r.below(cb[i]->size());
          en.heldFirst = uint32_t(first);
          for (size_t z = first; z < cb[i]->size() && z < first + 3; ++z) {
            en.held.push_back(T(m.type).at(*cb[i], z, Access::Index));
          }
        }
        auto* raw = cb[i].get();
        const podio::CollectionBase* got = nullptr;
        note("put " + m.name);
        if (r.chance(0.5)) {
          expectOk("store:put", [&] { s.f.put(std::move(cb[i]), m.name); });
          got = raw;
        } else {
          expectOk("store:put-typed", [&] { got = m.type >= 0 ? T(m.type).putTyped(s.f, *cb[i], m.name) : m.ud->putTyped(s.f, *cb[i], m.name); });
          cb[i].reset();
        }
        en.ptr = got;
        s.e.emplace(m.name, en);
        if (got) {
          checkNum(got->getID(), m.id, "store:id-after-put", m.name);
        }
        stat("puts");
      }
      break;
    case 2:
    case 3: // a name that is taken
      if (!s.e.empty()) {
        auto n = r.pick(*std::make_unique<std::vector<std::string>>(s.keys()));
        auto& en = s.e.at(n);
        note("put taken " + n + (en.seen ? "" : " (unread)"));
        stat(en.seen ? "puts_of_stored_name" : "puts_of_unread_name");
        const int ty = r.chance(0.5) && en.m->type >= 0 ? en.m->type : int(r.below(allTypes().size()));
        auto c = T(ty).newColl();
        HP outside;
        if (r.chance(0.25)) { // a subset collection
          c->setSubsetCollection();
          if (!s.e.empty() && r.chance(0.5)) {
            auto other = s.e.at(r.pick(*std::make_unique<std::vector<std::string>>(s.keys())));
            if (other.m->type == ty && !other.held.empty()) {
              T(ty).push(*c, *other.held.front());
            }
          }
        } else {
          for (size_t z = r.below(4); z > 0; --z) {
            outside = T(ty).create(*c);
          }
        }
        if (r.chance(0.2)) {
          std::vector<std::string> vals;
          auto* u = r.pick(allUD());
          c = u->make(r, r.below(4), vals);
          if (r.chance(0.5)) {
            expectThrow<std::invalid_argument>("store:put-of-taken-name", [&] { s.f.put(std::move(c), n); });
          } else {
            expectThrow<std::invalid_argument>("store:typed-put-of-taken-name", [&] { u->putTyped(s.f, *c, n); });
          }
        } else if (r.chance(0.5)) {
          expectThrow<std::invalid_argument>("store:put-of-taken-name", [&] { s.f.put(std::move(c), n); });
        } else {
          expectThrow<std::invalid_argument>("store:typed-put-of-taken-name", [&] { T(ty).putTyped(s.f, *c, n); });
        }
        s.checkNames();
        if (r.chance(0.6)) {
          s.checkEntry(n, en, int(r.below(2)));
        }
      }
      break;
    case 4:
    case 5: // get
      if (!s.e.empty()) {
        auto ks = s.keys();
        auto n = r.pick(ks);
        note("get " + n);
        s.checkEntry(n, s.e.at(n), int(r.below(2)));
      }
      break;
    case 6: { // missing
      std::vector<std::string> cand{"no such name", "", " "};
      cand.insert(cand.end(), s.dropped.begin(), s.dropped.end());
      for (size_t i : pending) {
        cand.push_back(evB.colls[i]->name);
      }
      if (!s.e.empty()) {
        auto ks = s.keys();
        cand.push_back(r.pick(ks) + "x");
        auto t = r.pick(ks);
        cand.push_back(t.substr(0, t.size() - 1));
      }
      auto n = r.pick(cand);
      if (s.e.count(n)) {
        break;
      }
      note("get missing " + n);
      check(s.f.get(n) == nullptr, "store:missing-collection-returned", n);
      const int ty = int(r.below(allTypes().size()));
      expectThrow<std::runtime_error>("store:typed-get-of-missing", [&] { T(ty).getTyped(s.f, n); });
      check(s.f.getCollectionForWrite(n) == nullptr, "store:missing-collection-for-write", n);
      if (!s.dropped.count(n)) {
        check(!s.f.getName(refCollID(n)).has_value(), "store:name-of-unknown-id", n);
      }
      s.checkNames();
      break;
    }
    case 7: // wrong type
      if (!s.e.empty()) {
        auto ks = s.keys();
        auto n = r.pick(ks);
        auto& en = s.e.at(n);
        int ty;
        do {
          ty = int(r.below(allTypes().size()));
        } while (ty == en.m->type);
        note("wrong type " + n);
        expectThrow<std::runtime_error>("store:wrong-typed-get", [&] { T(ty).getTyped(s.f, n); });
        auto* u = r.pick(allUD());
        if (u != en.m->ud) {
          expectThrow<std::runtime_error>("store:wrong-typed-get-userdata", [&] { u->getTyped(s.f, n); });
        }
        s.checkNames();
        if (r.chance(0.5)) {
          s.checkEntry(n, en, 0);
        }
      }
      break;
    case 8:
      note("parameter");
      switch (r.below(4)) {
      case 0: paramCase<int>(r, s, s.params.i, "int"); break;
      case 1: paramCase<float>(r, s, s.params.f, "float"); break;
      case 2: paramCase<double>(r, s, s.params.d, "double"); break;
      default: paramCase<std::string>(r, s, s.params.s, "string");
      }
      break;
    case 9: { // move
      note("move");
      if (r.chance(0.5)) {
        podio::Frame g(std::move(s.f));
        s.f = std::move(g);
      } else {
        podio::Frame g;
        std::vector<std::string> vals;
        g.put(allUD()[0]->make(r, 2, vals), "other");
        g = std::move(s.f);
        s.f = podio::Frame(std::move(g));
      }
      for (auto& [n, en] : s.e) {
        if (en.ptr && r.chance(0.5)) {
          checkNum(en.ptr->getID(), en.m->id, "store:reference-after-move", n);
          compareColl(*en.ptr, *en.m, s.cmp("kept reference to " + n));
          s.checkHeld(n, en);
        }
      }
      break;
    }
    default:
      s.checkAll();
      if (r.chance(0.2)) {
        expectThrow<std::invalid_argument>("store:null-frame-data", [] { podio::Frame g{std::unique_ptr<MemFrameData>{}}; });
      }
    }
  }
  s.ctx = "end";
  if (!caseFailed()) {
    s.checkAll();
  }
  if (r.chance(0.3)) { // handles that outlive the Frame
    std::vector<HP> late;
    for (auto& [n, en] : s.e) {
      for (auto& h : en.held) {
        late.push_back(h);
      }
      en.held.clear();
    }
    s.f = podio::Frame();
    for (auto& ob : evB.objs) {
      ob->h.reset();
    }
    cb.clear();
    late.clear();
  }
  stat("histories");
  stat("steps", uint64_t(nOps));
  distinct("nontrivial", hist ^ hashStr(evA.summary() + evB.summary()));
  sample(std::string(start == 0 ? "empty" : start == 1 ? "built" : "from data") + ", " + std::to_string(nOps) + " steps, file: " + evA.summary() + " put: " + evB.summary());
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      storeCase(i);
    }
  });
}
