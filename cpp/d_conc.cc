// C09: concurrent use of one Frame. C26: concurrent use of filled, shared data.
// Meant for a ThreadSanitizer build. The threads use only relaxed atomics of
// their own, so that the monitor adds no ordering the library does not have.
#include "vf_event.h"
#include "vf_leak.h"
#include "adapter_tgt.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include "vm/HitClusterLinkCollection.h"
#include "vm/IfaceLinkCollection.h"
#include "vm/SelfLinkCollection.h"
#include <barrier>
#include <thread>
using namespace vf;

static std::atomic<uint64_t> gTicket{0};
struct Ev {
  uint64_t ticket;
  int thread, op;
};
struct Worker {
  int id = 0;
  Rng r{1};
  std::vector<Ev> log;
  std::map<std::string, std::set<const void*>> seen; // objects handed out for a name
  std::set<std::string> put;
  void tick(int op) { log.push_back({gTicket.fetch_add(1, std::memory_order_relaxed), id, op}); }
  void delay() {
    switch (r.below(6)) {
    case 0:
      std::this_thread::yield();
      break;
    case 1: {
      volatile int x = 0;
      for (int i = 0, n = int(r.below(400)); i < n; ++i) {
        x = x + i;
      }
      break;
    }
    case 2:
      if (r.below(8) == 0) {
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
      }
      break;
    default:;
    }
  }
};
static uint64_t interleaving(std::vector<Worker>& ws) {
  std::vector<Ev> all;
  for (auto& w : ws) {
    all.insert(all.end(), w.log.begin(), w.log.end());
  }
  std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.ticket < b.ticket; });
  uint64_t h = 7;
  uint64_t switches = 0;
  for (size_t i = 0; i < all.size(); ++i) {
    h = h * 1099511628211ull + uint64_t(all[i].thread * 64 + all[i].op);
    switches += i && all[i].thread != all[i - 1].thread;
  }
  stat("thread_operations", all.size());
  stat("observed_context_switches", switches);
  return h;
}
static void runThreads(std::vector<Worker>& ws, const std::function<void(Worker&)>& f) {
  std::barrier<> b(ptrdiff_t(ws.size()));
  std::vector<std::thread> ts;
  for (auto& w : ws) {
    ts.emplace_back([&] {
      b.arrive_and_wait();
      try {
        f(w);
      } catch (const std::exception& e) {
        violation("unexpected-exception:in-thread", e.what());
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
}

static void frameCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 21, idx));
  setCase(idx, "concurrent Frame");
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.minColls = 3;
  o.maxColls = 8;
  o.bigChance = 0.02;
  o.bigSize = 60;
  genEvent(r, o, ev, colls);
  podio::Frame f;
  putParams(ev.params, f, r);
  std::vector<std::string> names;
  for (size_t i = 0; i < colls.size(); ++i) {
    f.put(std::move(colls[i]), ev.colls[i]->name);
    names.push_back(ev.colls[i]->name);
  }
  for (auto& ob : ev.objs) {
    ob->h.reset();
  }
  const bool lazy = r.chance(0.75);
  std::set<std::string> kept(names.begin(), names.end());
  const std::set<std::string> inFile = kept;
  if (lazy && r.chance(0.3)) {
    kept.erase(r.pick(names));
  }
  const int readDelay = int(r.below(4));
  std::atomic<int> entered{0}, maxIn{0};
  if (lazy) {
    auto stored = writeFrame(f, shuffled(names, r));
    auto d = std::make_unique<MemFrameData>(stored, &kept);
    d->onRead = [&, readDelay](const std::string&) {
      if (readDelay == 1) {
        std::this_thread::yield();
      } else if (readDelay > 1) {
        std::this_thread::sleep_for(std::chrono::microseconds(readDelay * 60));
      }
    };
    f = podio::Frame(std::move(d));
  }
  note(ev.summary() + (lazy ? " lazy" : " in memory"));
  // half way: some collections already unpacked
  if (lazy && r.chance(0.3)) {
    f.get(r.pick(names));
  }
  const bool puts = r.chance(0.5), params = r.chance(0.5), fullRead = r.chance(0.7);
  const bool sameOrder = r.chance(0.5);
  const auto common = shuffled(names, r);
  std::vector<Worker> ws(size_t(r.range(2, 6)));
  for (size_t i = 0; i < ws.size(); ++i) {
    ws[i].id = int(i);
    ws[i].r = Rng(mix(idx * 977 + opts.seed, i + 1));
  }
  const size_t nOps = size_t(r.range(4, 14));
  CmpCtx base;
  base.available = [&](const MObj& m) { return kept.count(m.coll->name) > 0; };
  base.idOf = [&](const MObj& m) { return podio::ObjectID{m.idx, m.coll->id}; };
  runThreads(ws, [&](Worker& w) {
    auto order = sameOrder ? common : shuffled(common, w.r);
    for (size_t i = 0; i < nOps; ++i) {
      const std::string n = order[i % order.size()];
      const MColl& m = *ev.find(n);
      const int op = int(w.r.below(14));
      w.tick(op);
      switch (op) {
      default: {
        auto* c = f.get(n);
        if (!kept.count(n)) {
          check(c == nullptr, "concurrent:missing-collection-returned", n);
          break;
        }
        if (!check(c != nullptr, "concurrent:present-collection-reported-missing", n)) {
          break;
        }
        w.seen[n].insert(c);
        checkNum(c->getID(), m.id, "concurrent:collection-id", n);
        if (fullRead) {
          CmpCtx cc = base;
          cc.where = n;
          cc.r = &w.r;
          compareColl(*c, m, cc);
        }
        break;
      }
      case 1: {
        if (!kept.count(n)) {
          break;
        }
        const podio::CollectionBase* c = nullptr;
        if (expectOk("concurrent:typed-get", [&] { c = m.type >= 0 ? T(m.type).getTyped(f, n) : m.ud->getTyped(f, n); }) && c) {
          w.seen[n].insert(c);
        }
        break;
      }
      case 2: {
        auto got = f.getAvailableCollections();
        std::map<std::string, int> cnt;
        for (auto& g : got) {
          cnt[g]++;
        }
        for (auto& k : kept) {
          checkNum(cnt[k], 1, "concurrent:available-collections", k);
        }
        for (auto& k : w.put) {
          checkNum(cnt[k], 1, "concurrent:available-collections:own-put", k);
        }
        for (auto& [k, v] : cnt) {
          check(v == 0 || (v == 1 && (kept.count(k) || k.rfind("new_", 0) == 0)), "concurrent:available-collections:extra", k);
        }
        break;
      }
      case 3:
        checkEq(f.getName(m.id).value_or("<none>"), n, "concurrent:getName");
        break;
      case 4: {
        auto t = f.getCollectionIDTableForWrite();
        checkNum(t.collectionID(n).value_or(0), m.id, "concurrent:id-table", n);
        checkEq(t.name(m.id).value_or("<none>"), n, "concurrent:id-table-name", n);
        checkNum(int64_t(t.ids().size()), int64_t(t.names().size()), "concurrent:id-table-sizes", n);
        for (size_t k = 0; k < t.names().size() && k < t.ids().size(); ++k) {
          checkNum(t.ids()[k], refCollID(t.names()[k]), "concurrent:id-table-pairing", t.names()[k]);
        }
        break;
      }
      case 5: {
        auto* c = f.getCollectionForWrite(n);
        check((c != nullptr) == (kept.count(n) > 0), "concurrent:get-for-write", n);
        if (c) {
          w.seen[n].insert(c);
        }
        break;
      }
      case 6:
        if (puts) {
          const std::string nn = "new_" + std::to_string(w.id) + "_" + std::to_string(i);
          std::vector<std::string> vals;
          auto c = w.r.chance(0.5) ? w.r.pick(allUD())->make(w.r, 3, vals) : T(int(w.r.below(allTypes().size()))).newColl();
          auto* raw = c.get();
          if (expectOk("concurrent:put", [&] { f.put(std::move(c), nn); })) {
            w.put.insert(nn);
            check(f.get(nn) == raw, "concurrent:own-put-not-got", nn);
            checkNum(raw->getID(), refCollID(nn), "concurrent:put-id", nn);
            checkEq(f.getName(raw->getID()).value_or("<none>"), nn, "concurrent:put-name", nn);
          }
        }
        break;
      case 7:
        if (params) {
          f.putParameter("p_" + std::to_string(w.id), int(i));
          checkNum(f.getParameter<int>("p_" + std::to_string(w.id)).value_or(-1), int(i), "concurrent:parameter");
        }
        for (auto& [k, v] : ev.params.s) {
          auto got = f.getParameter<std::vector<std::string>>(k);
          check(got && canonS(*got) == canonS(v), "concurrent:parameter-read", k);
        }
        break;
      case 8:
        if (params) {
          auto keys = f.getParameterKeys<int>();
          std::set<std::string> ks(keys.begin(), keys.end());
          check(ks.size() == keys.size(), "concurrent:parameter-keys-repeated");
          for (auto& [k, v] : ev.params.i) {
            check(ks.count(k) > 0, "concurrent:parameter-key-missing", k);
          }
        }
        break;
      case 9:
        check(f.get("no such collection") == nullptr, "concurrent:unknown-name-returned");
        break;
      }
      w.delay();
    }
  });
  // all threads saw the same object
  std::map<std::string, std::set<const void*>> all;
  std::set<std::string> want = kept;
  for (auto& w : ws) {
    for (auto& [n, s] : w.seen) {
      all[n].insert(s.begin(), s.end());
    }
    want.insert(w.put.begin(), w.put.end());
  }
  for (auto& [n, s] : all) {
    checkNum(int64_t(s.size()), 1, "concurrent:different-objects-for-one-name", n);
    check(f.get(n) == *s.begin(), "concurrent:object-changed-afterwards", n);
  }
  auto got = f.getAvailableCollections();
  std::sort(got.begin(), got.end());
  checkEq(canonS(got), canonS(std::vector<std::string>(want.begin(), want.end())), "concurrent:collections-at-the-end");
  // and sequentially everything is as in the model
  CmpCtx c = base;
  c.r = &r;
  for (auto& m : ev.colls) {
    if (!kept.count(m->name)) {
      continue;
    }
    auto* coll = f.get(m->name);
    if (check(coll != nullptr, "concurrent:collection-lost-at-the-end", m->name)) {
      c.where = "after join " + m->name;
      compareColl(*coll, *m, c);
    }
  }
  stat("histories");
  stat(lazy ? "lazy_histories" : "in_memory_histories");
  distinct("nontrivial", interleaving(ws));
  sample(ev.summary() + (lazy ? " lazy, " : " in memory, ") + std::to_string(ws.size()) + " threads x " + std::to_string(nOps));
}

// filled data shared between threads
static void constCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 22, idx));
  setCase(idx, "concurrent const use");
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.minColls = 2;
  o.maxColls = 6;
  o.bigChance = 0.05;
  o.bigSize = 80;
  o.userData = r.chance(0.3);
  genEvent(r, o, ev, colls);
  podio::Frame f;
  for (size_t i = 0; i < colls.size(); ++i) {
    f.put(std::move(colls[i]), ev.colls[i]->name);
  }
  if (r.chance(0.5)) { // single handles alive elsewhere or not
    for (auto& ob : ev.objs) {
      ob->h.reset();
    }
  }
  std::vector<std::string> names;
  for (auto& c : ev.colls) {
    names.push_back(c->name);
  }
  const bool readBack = r.chance(0.4);
  if (readBack) {
    auto s = writeFrame(f, names);
    f = readFrame(s);
    for (auto& n : names) {
      f.get(n);
    }
  }
  std::vector<const podio::CollectionBase*> cs;
  for (auto& n : names) {
    cs.push_back(f.get(n));
  }
  note(ev.summary());
  // single objects that live on in handles of the threads only
  std::vector<HP> loose;
  std::vector<std::vector<std::string>> looseVals;
  for (int i = 0, n = int(r.below(5)); i < n; ++i) {
    auto& t = T(int(r.below(allTypes().size())));
    HP h = t.make();
    std::vector<std::string> v;
    for (int k = 0; k < t.nMem(); ++k) {
      std::string x;
      t.setMem(*h, k, r, 0, x);
    }
    for (int k = 0; k < t.nMem(); ++k) {
      v.push_back(t.mem(*h, k));
    }
    loose.push_back(t.toConst(*h));
    looseVals.push_back(v);
  }
  std::vector<Worker> ws(size_t(r.range(2, 6)));
  std::vector<std::vector<HP>> mine(ws.size());
  for (size_t i = 0; i < ws.size(); ++i) {
    ws[i].id = int(i);
    ws[i].r = Rng(mix(idx * 991 + opts.seed, i + 1));
    for (auto& h : loose) {
      mine[i].push_back(typeOf(*h).copy(*h)); // an own handle to the shared object
    }
  }
  loose.clear();
  const bool doWrite = r.chance(0.6), doPrint = r.chance(0.6);
  const size_t nOps = size_t(r.range(4, 16));
  CmpCtx base;
  base.idOf = [&](const MObj& m) { return podio::ObjectID{m.idx, m.coll->id}; };
  runThreads(ws, [&](Worker& w) {
    for (size_t i = 0; i < nOps; ++i) {
      const size_t k = w.r.below(cs.size());
      const auto& c = *cs[k];
      const MColl& m = *ev.colls[k];
      const int op = int(w.r.below(8));
      w.tick(op);
      switch (op) {
      default: {
        CmpCtx cc = base;
        cc.where = m.name;
        cc.r = &w.r;
        compareColl(c, m, cc);
        break;
      }
      case 2:
        if (doWrite) {
          c.prepareForWrite();
        }
        break;
      case 3:
        if (doPrint && m.type >= 0 && !T(m.type).isLink()) {
          std::ostringstream os;
          T(m.type).printCollTo(c, os);
        } else if (doPrint) {
          std::ostringstream os;
          c.print(os);
        }
        break;
      case 4:
        if (m.type >= 0 && c.size()) { // handles made and dropped
          auto& t = T(m.type);
          std::vector<HP> hs;
          for (int q = 0; q < 6; ++q) {
            hs.push_back(t.at(c, w.r.below(c.size()), Access::Index));
            if (!hs.empty() && w.r.chance(0.5)) {
              hs.push_back(t.copy(*w.r.pick(hs)));
            }
            if (w.r.chance(0.4)) {
              hs.erase(hs.begin() + long(w.r.below(hs.size())));
            }
          }
        }
        break;
      case 5:
        if (m.type >= 0 && c.size()) { // clones are independent objects
          auto& t = T(m.type);
          HP h = t.clone(*t.at(c, w.r.below(c.size()), Access::Index), w.r.chance(0.5));
          if (t.nMem()) {
            std::string x;
            const int q = int(w.r.below(size_t(t.nMem())));
            t.setMem(*h, q, w.r, 0, x);
          }
        }
        break;
      case 6: // subset collection of shared elements, dropped again
        if (m.type >= 0 && c.size()) {
          auto& t = T(m.type);
          auto s = t.newColl();
          s->setSubsetCollection();
          const size_t n = w.r.below(4);
          for (size_t q = 0; q < n; ++q) {
            t.push(*s, *t.at(c, w.r.below(c.size()), Access::Index));
          }
          checkNum(int64_t(s->size()), int64_t(n), "concurrent:subset-size");
        }
        break;
      case 7:
        for (size_t q = 0; q < mine[size_t(w.id)].size(); ++q) {
          auto& h = mine[size_t(w.id)][q];
          if (!h) {
            continue;
          }
          auto& t = typeOf(*h);
          for (int z = 0; z < t.nMem(); ++z) {
            checkEq(t.mem(*h, z), looseVals[q][size_t(z)], "concurrent:shared-object-member");
          }
          if (w.r.chance(0.3)) {
            h.reset();
          }
        }
        break;
      }
      w.delay();
    }
    mine[size_t(w.id)].clear(); // the last of the threads releases the shared objects
  });
  // the write buffers are those a single thread gets
  for (size_t k = 0; k < cs.size(); ++k) {
    CmpCtx cc = base;
    cc.where = "after join";
    cc.r = &r;
    compareColl(*cs[k], *ev.colls[k], cc);
  }
  auto s = writeFrame(f, names);
  for (auto& sc : s.colls) {
    auto* m = ev.find(sc.name);
    if (m->type >= 0 && !m->subset) {
      auto rows = T(m->type).storedMembers(sc);
      checkNum(int64_t(rows.size()), int64_t(m->elems.size()), "concurrent:write-buffer-size", sc.name);
    }
  }
  auto rd = readFrame(s);
  compareFrame(rd, ev, r, "written after concurrent use", nullptr, false);
  for (auto& ob : ev.objs) {
    ob->h.reset();
  }
  stat("histories");
  distinct("nontrivial", interleaving(ws));
  sample(ev.summary() + " " + std::to_string(ws.size()) + " threads x " + std::to_string(nOps));
}

// one navigator, its links and interfaces to its objects shared between threads
template <class LC, class F, class To, class FC, class TC>
static void navCaseT(uint64_t idx, Rng& r, const char* name) {
  constexpr bool same = std::is_same_v<F, To>;
  FC fc;
  std::optional<TC> tcOwn;
  for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) {
    fc.create();
  }
  auto& tc = [&]() -> TC& {
    if constexpr (same) {
      return fc;
    } else {
      tcOwn.emplace();
      for (size_t i = 0, n = 1 + r.below(6); i < n; ++i) {
        tcOwn->create();
      }
      return *tcOwn;
    }
  }();
  fc.setID(11);
  if constexpr (!same) {
    tc.setID(12);
  }
  struct ML {
    int f, t;
    float w;
  };
  std::vector<ML> model;
  auto links = std::make_unique<LC>();
  for (size_t i = 0, n = r.below(20); i < n; ++i) {
    auto l = links->create();
    ML m{int(r.below(fc.size())), int(r.below(tc.size())), float(r.below(50)) / 4};
    l.setFrom(fc[size_t(m.f)]);
    l.setTo(tc[size_t(m.t)]);
    l.setWeight(m.w);
    model.push_back(m);
  }
  links->setID(13);
  const auto& cf = std::as_const(fc);
  const auto& ct = std::as_const(tc);
  const auto& cl = std::as_const(*links);
  const podio::LinkNavigator<LC> nav(cl);
  note(std::string("navigator ") + name + " " + std::to_string(fc.size()) + "x" + std::to_string(tc.size()) + " " + std::to_string(model.size()) + " links");
  auto expectF = [&](int k) { // what from-object k is linked to
    std::multiset<std::pair<int, float>> s;
    for (auto& m : model) {
      if (m.f == k) {
        s.insert({m.t, m.w});
      }
    }
    return s;
  };
  auto expectT = [&](int k) {
    std::multiset<std::pair<int, float>> s;
    for (auto& m : model) {
      if (m.t == k) {
        s.insert({m.f, m.w});
      }
    }
    return s;
  };
  auto got = [](const auto& v) {
    std::multiset<std::pair<int, float>> s;
    for (const auto& x : v) {
      s.insert({x.o.getObjectID().index, x.weight});
    }
    return s;
  };
  std::vector<Worker> ws(size_t(r.range(2, 6)));
  for (size_t i = 0; i < ws.size(); ++i) {
    ws[i].id = int(i);
    ws[i].r = Rng(mix(idx * 983 + opts.seed, i + 1));
  }
  const size_t nOps = size_t(r.range(4, 16));
  runThreads(ws, [&](Worker& w) {
    std::vector<EnergyObj> keep;
    for (size_t i = 0; i < nOps; ++i) {
      const int op = int(w.r.below(6));
      w.tick(20 + op);
      const int a = int(w.r.below(cf.size())), b = int(w.r.below(ct.size()));
      switch (op) {
      case 0:
        check(got(nav.getLinkedTo(F(cf[size_t(a)]))) == expectF(a), "concurrent:navigator-to", name);
        break;
      case 1:
        check(got(nav.getLinkedFrom(To(ct[size_t(b)]))) == expectT(b), "concurrent:navigator-from", name);
        break;
      case 2: {
        const podio::LinkNavigator<LC> own(cl);
        check(got(own.getLinkedTo(F(cf[size_t(a)]))) == expectF(a), "concurrent:own-navigator", name);
        break;
      }
      case 3: {
        size_t q = 0;
        for (auto l : cl) {
          const auto& [f, t, wt] = l;
          check(q < model.size() && f.getObjectID().index == model[q].f && t.getObjectID().index == model[q].t && wt == model[q].w,
                "concurrent:link-content", name);
          ++q;
        }
        check(q == model.size(), "concurrent:link-count", name);
        break;
      }
      case 4: { // interface handles to shared objects
        if constexpr (std::is_same_v<To, EnergyObj>) {
          keep.push_back(EnergyObj(ct[size_t(b)]));
        } else if constexpr (std::is_same_v<F, Hit> || std::is_same_v<F, Particle>) {
          keep.push_back(EnergyObj(cf[size_t(a)]));
          check(keep.back() == cf[size_t(a)], "concurrent:interface-equality", name);
        }
        if (w.r.chance(0.5) && !keep.empty()) {
          keep.push_back(w.r.pick(keep));
        }
        if (w.r.chance(0.3) && !keep.empty()) {
          keep.erase(keep.begin() + long(w.r.below(keep.size())));
        }
        break;
      }
      default: {
        podio::LinkNavigator<LC> cp(nav);
        check(got(cp.getLinkedFrom(To(ct[size_t(b)]))) == expectT(b), "concurrent:navigator-copy", name);
      }
      }
      w.delay();
    }
  });
  stat("navigator_histories");
  stat("histories");
  distinct("nontrivial", interleaving(ws));
}
static void navCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 23, idx));
  setCase(idx, "concurrent link navigation");
  switch (r.below(3)) {
  case 0:
    return navCaseT<HitClusterLinkCollection, Hit, Cluster, HitCollection, ClusterCollection>(idx, r, "HitClusterLink");
  case 1:
    return navCaseT<SelfLinkCollection, Particle, Particle, ParticleCollection, ParticleCollection>(idx, r, "SelfLink");
  default:
    return navCaseT<ns2::IfaceLinkCollection, Cluster, EnergyObj, ClusterCollection, HitCollection>(idx, r, "IfaceLink");
  }
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 20; ++i) {
      if (opts.mode == "const") {
        if (i % 10 == 0) {
          leakCheck("concurrent-use", [&] { constCase(i); });
        } else if (i % 5 == 2) {
          leakCheck("concurrent-navigation", [&] { navCase(i); });
        } else {
          constCase(i);
        }
      } else {
        frameCase(i);
      }
    }
  });
}
