// C11: CollectionIDTable, sequential histories against a model and the
// published hash function (mode=seq), concurrent registration (mode=conc).
#include "podio/CollectionIDTable.h"
#include "vf_base.h"
#include "vf_murmur.h"
#include <algorithm>
#include <barrier>
#include <iostream>
#include <thread>
using namespace vf;
using Tab = podio::CollectionIDTable;

struct Model {
  std::vector<std::string> names;
  std::map<std::string, uint32_t> id;
  std::map<uint32_t, std::string> name;
  bool add(const std::string& n) { // false: would collide with another name (see the known finding)
    const uint32_t h = refCollID(n);
    auto it = name.find(h);
    if (it != name.end() && it->second != n) {
      return false;
    }
    if (!id.count(n)) {
      names.push_back(n);
      id[n] = h;
      name[h] = n;
    }
    return true;
  }
};
static std::string rname(Rng& r) {
  std::string s;
  switch (r.below(6)) {
  case 0:
    return "coll" + std::to_string(r.below(30));
  case 1: { // all lengths, so all tails of the hash
    const size_t n = r.below(40);
    for (size_t i = 0; i < n; ++i) {
      s += char(r.range(33, 126));
    }
    return s;
  }
  case 2: { // bytes above 127 and zero bytes
    const size_t n = r.below(20);
    for (size_t i = 0; i < n; ++i) {
      s += char(r.below(256));
    }
    return s;
  }
  case 3:
    return std::string(size_t(r.below(2000)), char('a' + r.below(4)));
  default:
    gen(r, s);
    return s;
  }
}
static void compare(const Tab& t, const Model& m, Rng& r, const std::string& ctx) {
  checkEq(canonS(t.names()), canonS(m.names), "ids:names", ctx);
  std::vector<uint32_t> ids;
  for (auto& n : m.names) {
    ids.push_back(m.id.at(n));
  }
  checkEq(canonS(t.ids()), canonS(ids), "ids:ids", ctx);
  check(t.empty() == m.names.empty(), "ids:empty", ctx);
  for (auto& n : m.names) {
    check(t.present(n), "ids:name-not-present", ctx + " " + n);
    auto id = t.collectionID(n);
    if (check(id.has_value(), "ids:no-id-for-name", ctx + " " + n)) {
      checkNum(*id, m.id.at(n), "ids:wrong-id", ctx + " " + n);
    }
    check(t.present(m.id.at(n)), "ids:id-not-present", ctx + " " + n);
    auto nm = t.name(m.id.at(n));
    if (check(nm.has_value(), "ids:no-name-for-id", ctx + " " + n)) {
      checkEq(*nm, n, "ids:wrong-name", ctx);
    }
  }
  if (r.chance(0.1)) { // what is printed has every name together with its ID, in order
    std::ostringstream o;
    auto* old = std::cout.rdbuf(o.rdbuf());
    t.print();
    std::cout.rdbuf(old);
    size_t pos = 0;
    bool ok = true;
    for (auto& n : m.names) {
      pos = o.str().find(n, pos);
      if (!(ok = pos != std::string::npos)) {
        break;
      }
      pos += n.size();
      pos = o.str().find(std::to_string(m.id.at(n)), pos);
      if (!(ok = pos != std::string::npos)) {
        break;
      }
    }
    check(ok, "ids:print", ctx + " " + o.str());
  }
  for (int k = 0; k < 4; ++k) {
    auto n = rname(r);
    if (!m.id.count(n)) {
      check(!t.present(n) && !t.collectionID(n), "ids:unknown-name-present", ctx + " " + n);
    }
    const uint32_t x = k == 0 ? 0 : k == 1 ? uint32_t(-1) : uint32_t(r.next());
    if (!m.name.count(x)) {
      check(!t.present(x) && !t.name(x), "ids:unknown-id-present", ctx + " " + std::to_string(x));
    }
  }
}
static void seqCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 51, idx));
  setCase(idx, "ID table history");
  Tab t;
  Model m;
  const int n = int(r.range(5, 80));
  uint64_t h = 1;
  const bool foreign = r.chance(0.2); // starts as in a file with IDs that are not hashes
  if (foreign) {
    for (int k = 1 + int(r.below(8)); k > 0; --k) {
      const auto nm = rname(r);
      const uint32_t id = r.chance(0.5) ? uint32_t(m.names.size() + 1) : uint32_t(r.next());
      if (!m.id.count(nm) && !m.name.count(id)) {
        m.names.push_back(nm);
        m.id[nm] = id;
        m.name[id] = nm;
      }
    }
    std::vector<uint32_t> ids;
    for (auto& x : m.names) {
      ids.push_back(m.id.at(x));
    }
    t = Tab(std::move(ids), m.names);
    stat("tables_with_other_ids");
  }
  for (int k = 0; k < n && !caseFailed(); ++k) {
    const int op = int(r.below(10));
    switch (op) {
    case 0:
      compare(t, m, r, "history");
      break;
    case 1: // through stored ids and names, as a file does
      if (r.chance(0.5)) {
        Tab u(t.ids(), t.names());
        compare(u, m, r, "rebuilt");
        t = std::move(u);
      } else {
        auto ids = t.ids();
        auto names = t.names();
        Tab u(std::move(ids), std::move(names));
        Tab v(std::move(u));
        t = std::move(v);
      }
      compare(t, m, r, "rebuilt and moved");
      break;
    case 2:
      if (!m.names.empty()) { // again
        auto nm = r.pick(m.names);
        checkNum(t.add(nm), m.id.at(nm), "ids:other-id-when-added-again", nm);
        h = h * 31 + 5;
      }
      break;
    case 3: { // the same names elsewhere in another order: the same IDs
      if (foreign) {
        break;
      }
      Tab u;
      auto ns = m.names;
      for (size_t i = ns.size(); i > 1; --i) {
        std::swap(ns[i - 1], ns[r.below(i)]);
      }
      for (auto& x : ns) {
        checkNum(u.add(x), m.id.at(x), "ids:depends-on-order", x);
      }
      break;
    }
    default: {
      auto nm = rname(r);
      const bool known = m.id.count(nm) > 0;
      if (!known && m.name.count(refCollID(nm))) {
        break;
      }
      m.add(nm);
      checkNum(t.add(nm), m.id.at(nm), "ids:id-of-added", nm);
      h = hashStr(nm) ^ (h * 31);
    }
    }
  }
  compare(t, m, r, "end");
  stat("histories");
  stat("names_registered", m.names.size());
  distinct("nontrivial", h);
  if (!m.names.empty()) {
    sample(std::to_string(m.names.size()) + " names, e.g. " + m.names[0].substr(0, 60));
  }
}
// two different names with the same hash
static void collisionCase() {
  setCase(0, "names with equal hash");
  const char* pairs[][2] = {{"ECalForwardClusters271", "HCalInnerHits190"}, {"ECalForwardHits616", "MuonBarrelRecoHits64"}, {"HCalForwardSimHits793", "MuonBarrelSimHits244"}};
  for (auto& p : pairs) {
    if (refCollID(p[0]) != refCollID(p[1])) {
      internalError("not a collision");
    }
    Tab t;
    uint32_t a = 0, b = 0;
    try {
      a = t.add(p[0]);
      b = t.add(p[1]);
    } catch (const std::exception&) {
      continue; // refused: nothing is aliased
    }
    check(t.name(a).value_or("") == p[0] && t.name(b).value_or("") == p[1], std::string("ids:collision-aliases:") + p[0] + "|" + p[1], "both have ID " + std::to_string(a));
    stat("hash_collisions_tried");
  }
}
static void concCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 52, idx));
  setCase(idx, "concurrent registration");
  Model pool;
  const size_t np = size_t(r.range(3, 25));
  while (pool.names.size() < np) {
    pool.add(rname(r));
  }
  Tab t;
  std::set<std::string> initial;
  for (size_t i = 0; i < r.below(np); ++i) {
    t.add(pool.names[i]);
    initial.insert(pool.names[i]);
  }
  const int nt = int(r.range(2, 6));
  std::barrier<> bar(nt);
  std::vector<std::thread> ts;
  std::vector<std::set<std::string>> added{size_t(nt)};
  std::vector<std::vector<std::pair<uint64_t, int>>> order{size_t(nt)};
  static std::atomic<uint64_t> ticket{0};
  for (int k = 0; k < nt; ++k) {
    ts.emplace_back([&, k] {
      Rng q(mix(idx * 7919 + opts.seed, uint64_t(k)));
      auto& mine = added[size_t(k)];
      bar.arrive_and_wait();
      for (int i = 0; i < 20; ++i) {
        const auto& n = pool.names[q.below(np)];
        const uint32_t want = pool.id.at(n);
        order[size_t(k)].push_back({ticket.fetch_add(1, std::memory_order_relaxed), k});
        switch (q.below(5)) {
        case 0:
        case 1:
          checkNum(t.add(n), want, "ids-conc:id-of-added", n);
          mine.insert(n);
          break;
        case 2: {
          auto id = t.collectionID(n);
          check(id.has_value() || !(mine.count(n) || initial.count(n)), "ids-conc:name-lost", n);
          check(!id || *id == want, "ids-conc:wrong-id", n);
          break;
        }
        case 3: {
          auto nm = t.name(want);
          check(nm.has_value() || !(mine.count(n) || initial.count(n)), "ids-conc:id-lost", n);
          check(!nm || *nm == n, "ids-conc:wrong-name", n);
          break;
        }
        default:
          check(t.present(n) || !(mine.count(n) || initial.count(n)), "ids-conc:not-present", n);
          check(t.present(want) || !(mine.count(n) || initial.count(n)), "ids-conc:id-not-present", n);
        }
        if (q.below(4) == 0) {
          std::this_thread::yield();
        }
      }
    });
  }
  for (auto& x : ts) {
    x.join();
  }
  std::set<std::string> want = initial;
  for (auto& a : added) {
    want.insert(a.begin(), a.end());
  }
  auto got = t.names();
  checkNum(int64_t(got.size()), int64_t(want.size()), "ids-conc:number-of-names");
  checkNum(int64_t(t.ids().size()), int64_t(got.size()), "ids-conc:names-and-ids-differ");
  for (size_t i = 0; i < got.size() && i < t.ids().size(); ++i) {
    checkNum(t.ids()[i], refCollID(got[i]), "ids-conc:order-of-names-and-ids", got[i]);
  }
  check(std::set<std::string>(got.begin(), got.end()) == want, "ids-conc:names");
  std::vector<std::pair<uint64_t, int>> all;
  for (auto& o : order) {
    all.insert(all.end(), o.begin(), o.end());
  }
  std::sort(all.begin(), all.end());
  uint64_t h = 1;
  for (auto& a : all) {
    h = h * 31 + uint64_t(a.second);
  }
  distinct("nontrivial", h);
  stat("histories");
  stat("thread_operations", uint64_t(nt) * 20);
}
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    if (opts.mode != "conc" && opts.from == 0) {
      collisionCase();
    }
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "conc") {
        concCase(i);
      } else {
        seqCase(i);
      }
    }
  });
}
