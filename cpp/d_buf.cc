// C16: buffers and schema evolution: registries against models, ownership of
// buffers, evolution of data of older versions when reading.
#include "podio/CollectionBufferFactory.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "vf_event.h"
#include "vf_leak.h"
#include "vm/CaloCollection.h"
#include "vm/HitCollection.h"
#include "vm/ParticleCollection.h"
using namespace vf;
using podio::CollectionReadBuffers;
using podio::SchemaVersionT;
using Prio = podio::SchemaEvolution::Priority;

namespace {
uint64_t gSerial = 0;
uint64_t gRun = 0; // repetitions of a case use fresh type names

// ---- evolution registry ----------------------------------------------------
void evolutionRegistry(Rng& r, uint64_t& hash) {
  auto& se = podio::SchemaEvolution::mutInstance();
  struct Reg {
    int user = -1, autom = -1; // identity of the function
  };
  struct Ty {
    std::string name;
    SchemaVersionT cur;
    std::vector<Reg> regs; // per version, index v - 1
  };
  struct Call {
    int id;
    SchemaVersionT v;
    void* data;
  };
  auto calls = std::make_shared<std::vector<Call>>();
  int nextId = 0;
  std::vector<Ty> types;
  struct Todo {
    size_t ty;
    SchemaVersionT v;
    Prio p;
  };
  std::vector<Todo> todo;
  const size_t nt = size_t(r.range(1, 4));
  const bool longNames = r.chance(0.3);
  for (size_t i = 0; i < nt; ++i) {
    Ty t;
    t.name = (longNames ? std::string(40, 'x') : std::string()) + "Ty" + std::to_string(gSerial) + "_" + std::to_string(gRun) + "_" + std::to_string(i) + "Collection";
    t.cur = SchemaVersionT(r.range(1, 6));
    t.regs.resize(t.cur);
    for (SchemaVersionT v = 1; v <= t.cur; ++v) {
      const int w = int(r.below(5)); // 0 only user, 1 only auto, 2.. both
      if (v == t.cur && r.chance(0.3)) {
        continue; // not needed
      }
      if (w != 1 && (v < t.cur || r.chance(0.3))) {
        todo.push_back({i, v, Prio::UserDefined});
      }
      if (w != 0 || v == t.cur) {
        todo.push_back({i, v, Prio::AutoGenerated});
        if (w == 4) { // registered again, like by a library loaded twice
          todo.push_back({i, v, Prio::AutoGenerated});
        }
      }
    }
    types.push_back(t);
  }
  for (size_t i = todo.size(); i > 1; --i) {
    std::swap(todo[i - 1], todo[r.below(i)]);
  }
  for (auto& d : todo) {
    const int id = nextId++;
    auto& t = types[d.ty];
    auto f = [id, calls](CollectionReadBuffers&& b, SchemaVersionT v) {
      calls->push_back({id, v, b.data});
      return std::move(b);
    };
    if (d.p == Prio::UserDefined && r.chance(0.5)) {
      se.registerEvolutionFunc(t.name, d.v, t.cur, f); // user defined is the default
    } else {
      se.registerEvolutionFunc(t.name, d.v, t.cur, f, d.p);
    }
    (d.p == Prio::UserDefined ? t.regs[d.v - 1].user : t.regs[d.v - 1].autom) = id;
    note("register " + std::to_string(id) + " for " + t.name + " version " + std::to_string(d.v) + "/" + std::to_string(t.cur) + (d.p == Prio::UserDefined ? " user" : " auto"));
    hash = mix(hash, d.ty * 100 + d.v * 10 + uint64_t(d.p));
  }
  // evolve buffers of known and unknown types and versions
  std::vector<int> payload(3, 7);
  for (int k = 0; k < 30; ++k) {
    std::string name = "Unknown" + std::to_string(k);
    const Ty* t = nullptr;
    SchemaVersionT v = SchemaVersionT(r.range(0, 3));
    if (r.chance(0.9)) {
      t = &r.pick(types);
      name = t->name;
      v = r.chance(0.1) ? 0 : r.chance(0.1) ? t->cur + SchemaVersionT(r.range(1, 4)) : r.chance(0.03) ? SchemaVersionT(-1) : SchemaVersionT(r.range(1, t->cur));
    }
    const bool known = t && v >= 1 && v <= t->cur;
    int want = -1;
    if (known && v < t->cur) {
      want = t->regs[v - 1].user >= 0 ? t->regs[v - 1].user : t->regs[v - 1].autom;
      if (want < 0) {
        internalError("version without evolution function");
      }
    }
    calls->clear();
    CollectionReadBuffers b;
    b.data = &payload;
    b.schemaVersion = v;
    b.type = "typ";
    auto e = se.evolveBuffers(std::move(b), v, name);
    const std::string ctx = name + " version " + std::to_string(v) + (t ? " of " + std::to_string(t->cur) : "");
    if (want >= 0) {
      if (checkNum(int64_t(calls->size()), 1, "evolution:applied-once", ctx)) {
        checkNum(calls->front().id, want, "evolution:function-registered-for-version", ctx);
        checkNum(calls->front().v, v, "evolution:version-passed", ctx);
        check(calls->front().data == &payload, "evolution:buffers-passed", ctx);
      }
    } else {
      checkNum(int64_t(calls->size()), 0, "evolution:applied-without-need", ctx);
    }
    check(e.data == &payload && payload == std::vector<int>(3, 7), "evolution:buffers-kept", ctx);
    stat("evolutions");
  }
}

// ---- buffer factory ----------------------------------------------------------
void factoryRegistry(Rng& r, uint64_t& hash) {
  auto& fa = podio::CollectionBufferFactory::mutInstance();
  std::map<std::string, std::vector<int>> model; // creation function per version
  struct Call {
    int id;
    bool subset;
  };
  auto calls = std::make_shared<std::vector<Call>>();
  int nextId = 0;
  std::vector<std::string> names;
  for (int i = 0; i < 3; ++i) {
    names.push_back("Fac" + std::to_string(gSerial) + "_" + std::to_string(gRun) + "_" + std::to_string(i) + (i == 2 ? std::string(30, 'y') : "") + "Collection");
  }
  static const std::string payloads = std::string(64, '\0');
  for (int k = 0; k < 40 && !caseFailed(); ++k) {
    const auto& n = r.pick(names);
    auto& m = model[n];
    if (r.chance(0.25)) {
      const int id = nextId++;
      const auto v = SchemaVersionT(r.range(1, 6));
      fa.registerCreationFunc(n, v, [id, calls](bool s) {
        calls->push_back({id, s});
        CollectionReadBuffers b;
        b.data = const_cast<char*>(payloads.data() + id % 64);
        return b;
      });
      if (m.size() < v) {
        m.resize(v, id); // all versions not there yet
      } else {
        m[v - 1] = id;
      }
      note("register " + std::to_string(id) + " for " + n + " version " + std::to_string(v));
      hash = mix(hash, v);
    } else {
      const auto v = SchemaVersionT(r.chance(0.05) ? uint32_t(-1) : r.range(0, 8));
      const bool s = r.chance(0.5);
      calls->clear();
      auto b = fa.createBuffers(n, v, s);
      const bool known = v >= 1 && v <= m.size();
      const std::string ctx = n + " version " + std::to_string(v);
      check(b.has_value() == known, "factory:known-versions", ctx);
      if (known && b) {
        if (checkNum(int64_t(calls->size()), 1, "factory:called-once", ctx)) {
          checkNum(calls->front().id, m[v - 1], "factory:function-for-version", ctx);
          check(calls->front().subset == s, "factory:kind-passed", ctx);
        }
        check(b->data == payloads.data() + m[v - 1] % 64, "factory:buffers", ctx);
      } else {
        checkNum(int64_t(calls->size()), 0, "factory:called-without-need", ctx);
      }
      stat("creations");
    }
  }
  check(!fa.createBuffers("NoSuchType" + std::to_string(r.next()), 1, false), "factory:unknown-type");
}

// ---- buffers of the real types -------------------------------------------------
void realBuffers(Rng& r, uint64_t& hash) {
  auto& fa = podio::CollectionBufferFactory::instance();
  auto& se = podio::SchemaEvolution::instance();
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.minColls = 2;
  o.maxColls = 5;
  o.bigChance = 0;
  genEvent(r, o, ev, colls);
  for (size_t i = 0; i < colls.size(); ++i) {
    colls[i]->setID(uint32_t(i + 1));
  }
  std::vector<std::pair<StoredColl, CollectionReadBuffers>> pool;
  for (auto& c : colls) {
    c->prepareForWrite();
    auto s = storeColl(*c);
    const SchemaVersionT cur = s.version;
    const bool isUD = !!udByType(s.type);
    for (SchemaVersionT v = 0; v <= cur + 2; ++v) {
      const bool sub = isUD ? false : r.chance(0.4);
      auto b = fa.createBuffers(s.type, v, sub);
      const std::string ctx = s.type + " version " + std::to_string(v) + " of " + std::to_string(cur) + (sub ? " subset" : "");
      if (!check(b.has_value() == (v >= 1 && v <= cur), "buffers:known-versions", ctx) || !b) {
        continue;
      }
      checkEq(std::string(b->type), s.type, "buffers:type", ctx);
      if (v == cur) {
        checkNum(b->schemaVersion, cur, "buffers:schema-version", ctx);
      }
      check(bool(b->createCollection) && bool(b->deleteBuffers), "buffers:functions", ctx);
      for (auto* t : allTypes()) {
        if (t->collName() == s.type) {
          auto e = t->checkEmptyBuffers(*b, sub);
          check(e.empty(), "buffers:not-complete-and-empty:" + t->name(), e);
        }
      }
      if (r.chance(0.5)) {
        auto coll = b->createCollection(std::move(*b), sub);
        if (check(bool(coll), "buffers:no-collection", ctx)) {
          coll->prepareAfterRead();
          checkNum(int64_t(coll->size()), 0, "buffers:empty-collection-size", ctx);
          check(coll->isSubsetCollection() == sub, "buffers:collection-kind", ctx);
          checkEq(std::string(coll->getTypeName()), s.type, "buffers:collection-type", ctx);
        }
      } else if (r.chance(0.3)) {
        b->deleteBuffers(*b); // explicitly, and again by its destructor
      }
    }
    if (auto b = makeBuffers(s)) {
      pool.emplace_back(s, std::move(*b));
    }
  }
  // move buffers around, drop some, turn others into collections
  auto filled = [](const CollectionReadBuffers& b) { return b.data || b.references || b.vectorMembers; };
  for (int k = 0; k < 25 && !caseFailed() && !pool.empty(); ++k) {
    const size_t i = r.below(pool.size()), j = r.below(pool.size());
    const int op = int(r.below(8));
    hash = mix(hash, uint64_t(op) * 16 + i);
    switch (op) {
    case 0: {
      CollectionReadBuffers tmp(std::move(pool[i].second));
      check(!filled(pool[i].second), "buffers:moved-from-keeps-storage");
      pool[i].second = std::move(tmp);
      break;
    }
    case 1:
      if (i != j) {
        pool[i].first = pool[j].first;
        pool[i].second = std::move(pool[j].second);
        check(!filled(pool[j].second), "buffers:moved-from-keeps-storage");
        pool.erase(pool.begin() + long(j));
      }
      break;
    case 2: {
      auto& self = pool[i].second;
      pool[i].second = std::move(self);
      break;
    }
    case 3: {
      std::swap(pool[i], pool[j]);
      break;
    }
    case 4:
      pool.erase(pool.begin() + long(i));
      break;
    case 5: { // through the schema evolution: current data is not touched
      auto& s = pool[i].first;
      void* d = pool[i].second.data;
      auto e = se.evolveBuffers(std::move(pool[i].second), s.version, s.type);
      check(e.data == d, "buffers:current-data-replaced", s.type);
      pool[i].second = std::move(e);
      break;
    }
    case 6: {
      if (auto b = makeBuffers(pool[i].first)) {
        pool.emplace_back(pool[i].first, std::move(*b));
      }
      break;
    }
    default: { // a collection, which gives back what it was filled with
      auto [s, b] = std::move(pool[i]);
      pool.erase(pool.begin() + long(i));
      auto create = b.createCollection;
      auto coll = create(std::move(b), s.subset);
      if (!check(bool(coll), "buffers:no-collection", s.type)) {
        break;
      }
      if (r.chance(0.2)) {
        break; // dropped before it is prepared
      }
      coll->prepareAfterRead();
      coll->setID(s.id);
      check(coll->isSubsetCollection() == s.subset, "buffers:collection-kind", s.type);
      checkEq(std::string(coll->getTypeName()), s.type, "buffers:collection-type");
      checkNum(int64_t(coll->getSchemaVersion()), s.version, "buffers:collection-version");
      if (!s.subset) {
        auto* u = udByType(s.type);
        if (u) {
          checkEq(canonS(u->values(*coll)), canonS(u->values(*[&] {
                    for (auto& c : colls) {
                      if (c->getID() == s.id) {
                        return c.get();
                      }
                    }
                    internalError("collection lost");
                  }())),
                  "buffers:user-data", s.type);
        } else {
          auto again = storeColl(*coll);
          for (auto* t : allTypes()) {
            if (t->collName() == s.type) {
              checkEq(canonS(t->storedMembers(again)), canonS(t->storedMembers(s)), "buffers:data-lost:" + t->name());
              checkNum(int64_t(coll->size()), int64_t(t->storedSize(s)), "buffers:size:" + t->name());
            }
          }
        }
      }
      stat("collections_from_buffers");
    }
    }
    stat("buffer_operations");
  }
}

// ---- evolution when reading -------------------------------------------------
struct Seen {
  std::string type;
  SchemaVersionT v;
};
std::vector<Seen> gSeen;
struct Evo {
  std::string type;      // collection type
  SchemaVersionT v;      // version evolved from
  bool user = false;     // user defined function registered
  std::string member;    // the member changed by it
  std::function<void(std::string&)> model;
};
std::vector<Evo> gEvo;
std::string flipD(std::string s) {
  uint64_t b = strtoull(s.c_str() + 1, nullptr, 16) ^ (1ull << 63);
  char t[32];
  snprintf(t, sizeof t, "d%016llx", (unsigned long long)b);
  return t;
}
template <class D, class Fn>
void addEvo(Rng& r, const std::string& type, SchemaVersionT v, SchemaVersionT cur, const std::string& member, Fn&& change, std::function<void(std::string&)> model) {
  auto& se = podio::SchemaEvolution::mutInstance();
  Evo e{type, v, r.chance(0.7), member, model};
  auto again = [&] { se.registerEvolutionFunc(type, v, cur, podio::SchemaEvolution::noOpSchemaEvolution, Prio::AutoGenerated); };
  if (r.chance(0.4)) {
    again();
  }
  if (e.user) {
    se.registerEvolutionFunc(type, v, cur, [type, change](CollectionReadBuffers&& b, SchemaVersionT w) {
      gSeen.push_back({type, w});
      for (auto& d : *b.template dataAsVector<D>()) {
        change(d);
      }
      b.schemaVersion = 3;
      return std::move(b);
    });
  }
  if (r.chance(0.4)) {
    again();
  }
  gEvo.push_back(e);
}
void setupEvolutions(Rng& r) {
  if (!gEvo.empty()) {
    return;
  }
  addEvo<HitData>(r, "HitCollection", 1, 3, "energy", [](HitData& d) { d.energy = -d.energy; }, [](std::string& s) { s = flipD(s); });
  addEvo<HitData>(r, "HitCollection", 2, 3, "x", [](HitData& d) { d.x = -d.x; }, [](std::string& s) { s = flipD(s); });
  addEvo<ParticleData>(r, "ParticleCollection", 1, 3, "pdg", [](ParticleData& d) { d.pdg ^= 0x5a5a; },
                       [](std::string& s) { s = std::to_string(int(strtol(s.c_str(), nullptr, 10)) ^ 0x5a5a); });
  addEvo<ParticleData>(r, "ParticleCollection", 2, 3, "energy", [](ParticleData& d) { d.energy = -d.energy; }, [](std::string& s) { s = flipD(s); });
  addEvo<ns2::CaloData>(r, "ns2::CaloCollection", 1, 3, "energy", [](ns2::CaloData& d) { d.energy = -d.energy; }, [](std::string& s) { s = flipD(s); });
  addEvo<ns2::CaloData>(r, "ns2::CaloCollection", 2, 3, "energy", [](ns2::CaloData& d) { d.energy = -d.energy; }, [](std::string& s) { s = flipD(s); });
}
void frameEvolution(Rng& r, uint64_t& hash) {
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.minColls = 3;
  o.bigChance = 0;
  for (auto* t : allTypes()) {
    const auto n = t->name();
    if (n == "Hit" || n == "Particle" || n == "ns2::Calo") {
      o.onlyTypes.insert(o.onlyTypes.end(), 2, t->index);
    } else if (n == "Cluster" || n == "Vertex" || n == "ns3::Holder") {
      o.onlyTypes.push_back(t->index);
    }
  }
  genEvent(r, o, ev, colls);
  podio::Frame f;
  std::vector<std::string> ns;
  for (size_t i = 0; i < colls.size(); ++i) {
    f.put(std::move(colls[i]), ev.colls[i]->name);
    ns.push_back(ev.colls[i]->name);
  }
  putParams(ev.params, f, r);
  for (auto& x : ev.objs) {
    x->h.reset();
  }
  auto sf = writeFrame(f, ns);
  for (auto& c : ev.colls) {
    for (auto& s : sf.colls) {
      if (s.name == c->name) {
        c->id = s.id;
      }
    }
  }
  auto data = std::make_unique<MemFrameData>(sf);
  std::map<std::pair<std::string, SchemaVersionT>, int> want;
  for (auto& c : ev.colls) {
    if (c->type < 0) {
      continue;
    }
    const auto cn = T(c->type).collName();
    const auto v = SchemaVersionT(r.range(1, 3));
    bool vm = false;
    for (auto& e : gEvo) {
      vm |= e.type == cn;
    }
    if (!vm && !r.chance(0.3)) {
      continue;
    }
    if (T(c->type).isLink()) {
      continue;
    }
    data->claim[c->name] = v;
    hash = mix(hash, uint64_t(c->type) * 8 + v);
    if (c->subset) {
      continue;
    }
    for (auto& e : gEvo) {
      if (e.type == cn && e.v == v && e.user) {
        want[{cn, v}]++;
        for (auto* m : c->elems) {
          for (size_t i = 0; i < m->mem.size(); ++i) {
            if (T(c->type).memName(int(i)) == e.member) {
              e.model(m->mem[i]);
            }
          }
        }
        stat("collections_evolved");
      }
    }
  }
  gSeen.clear();
  podio::Frame g(std::move(data));
  compareFrame(g, ev, r, "read from older versions");
  compareFrame(g, ev, r, "read from older versions, again");
  std::map<std::pair<std::string, SchemaVersionT>, int> got;
  for (auto& s : gSeen) {
    got[{s.type, s.v}]++;
  }
  auto text = [](auto& m) {
    std::string s;
    for (auto& [k, n] : m) {
      s += k.first + " v" + std::to_string(k.second) + ": " + std::to_string(n) + ", ";
    }
    return s;
  };
  checkEq(text(got), text(want), "evolution:when-reading");
  // what was evolved stays so when it is written and read again
  auto sf2 = writeFrame(g, ns);
  gSeen.clear();
  auto h = readFrame(sf2);
  compareFrame(h, ev, r, "written again");
  checkNum(int64_t(gSeen.size()), 0, "evolution:current-data-evolved");
}
void run(uint64_t i) {
  Rng setup(mix(opts.seed, opts.from));
  setupEvolutions(setup);
  Rng r(mix(opts.seed * 1000003 + 91, i));
  gSerial = i;
  ++gRun;
  uint64_t hash = i % 4;
  switch (i % 4) {
  case 0: setCase(i, "evolution registry"); evolutionRegistry(r, hash); break;
  case 1: setCase(i, "buffer factory"); factoryRegistry(r, hash); break;
  case 2: setCase(i, "buffers"); realBuffers(r, hash); break;
  default: setCase(i, "evolution when reading"); frameEvolution(r, hash);
  }
  stat("histories");
  distinct("nontrivial", hash);
  sample(recentNotes(8));
}
} // namespace
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (i % 12 == 2 || i % 24 == 3) {
        leakCheck("buffers", [&] { run(i); });
      } else {
        run(i);
      }
    }
  });
}
