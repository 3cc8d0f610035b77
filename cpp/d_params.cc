// C10: GenericParameters, sequential histories against a model (mode=seq) and
// concurrent histories judged by per-key register rules (mode=conc, TSan).
#include "podio/GenericParameters.h"
#include "vf_base.h"
#include "vf_leak.h"
#include <algorithm>
#include <barrier>
#include <iomanip>
#include <thread>
using namespace vf;
using GP = podio::GenericParameters;

template <class T>
using PMap = std::map<std::string, std::vector<T>>;
struct Model {
  PMap<int> i;
  PMap<float> f;
  PMap<double> d;
  PMap<std::string> s;
  template <class T>
  PMap<T>& get() {
    if constexpr (std::is_same_v<T, int>) {
      return i;
    } else if constexpr (std::is_same_v<T, float>) {
      return f;
    } else if constexpr (std::is_same_v<T, double>) {
      return d;
    } else {
      return s;
    }
  }
};
template <class T>
const char* tn() {
  return std::is_same_v<T, int> ? "int" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "string";
}
template <class T>
std::vector<T> genVec(Rng& r, size_t n) {
  std::vector<T> v(n);
  for (auto& x : v) {
    T y{};
    gen(r, y);
    x = y;
  }
  return v;
}
template <class T>
void compareType(Model& m, const GP& g, const std::string& ctx) {
  const std::string t = tn<T>();
  auto& map = m.get<T>();
  auto keys = g.getKeys<T>();
  auto vkeys = g.getKeys<std::vector<T>>();
  auto [kk, vv] = g.getKeysAndValues<T>();
  std::vector<std::string> want;
  std::vector<std::vector<T>> wantV;
  for (auto& [k, v] : map) {
    want.push_back(k);
    wantV.push_back(v);
  }
  checkNum(int64_t(kk.size()), int64_t(vv.size()), "params:keys-and-values-sizes:" + t, ctx);
  std::map<std::string, std::vector<T>> shown;
  for (size_t i = 0; i < std::min(kk.size(), vv.size()); ++i) {
    check(shown.emplace(kk[i], vv[i]).second, "params:key-listed-twice:" + t, ctx);
  }
  std::vector<std::string> sk;
  std::vector<std::vector<T>> sv;
  for (auto& [k, v] : shown) {
    sk.push_back(k);
    sv.push_back(v);
  }
  checkEq(canonS(sk), canonS(want), "params:keys-and-values-keys:" + t, ctx);
  checkEq(canonS(sv), canonS(wantV), "params:keys-and-values-values:" + t, ctx);
  check(keys == kk && vkeys == keys, "params:key-lists-differ:" + t, ctx);
  std::sort(keys.begin(), keys.end());
  checkEq(canonS(keys), canonS(want), "params:keys:" + t, ctx);
  check(g.template getMap<T>().size() == map.size(), "params:map:" + t, ctx);
  for (auto& [k, v] : map) {
    auto x = g.template get<std::vector<T>>(k);
    if (check(x.has_value(), "params:vector-missing:" + t, ctx + " " + k)) {
      checkEq(canonS(*x), canonS(v), "params:vector:" + t, ctx + " " + k);
    }
    auto y = g.template get<T>(k);
    check(y.has_value() == !v.empty(), "params:scalar-presence:" + t, ctx + " " + k);
    if (y && !v.empty()) {
      checkEq(canonS(*y), canonS(v[0]), "params:scalar:" + t, ctx + " " + k);
    }
    checkNum(int64_t(g.template getN<T>(k)), int64_t(v.size()), "params:getN:" + t, ctx + " " + k);
  }
  for (const char* k : {"never set", ""}) {
    if (!map.count(k)) {
      check(!g.template get<T>(k) && !g.template get<std::vector<T>>(k), "params:missing-key-has-value:" + t, ctx);
      checkNum(int64_t(g.template getN<T>(k)), 0, "params:getN-missing:" + t, ctx);
    }
  }
}
static void compareAll(Model& m, const GP& g, const std::string& ctx) {
  compareType<int>(m, g, ctx);
  compareType<float>(m, g, ctx);
  compareType<double>(m, g, ctx);
  compareType<std::string>(m, g, ctx);
  check(g.empty() == (m.i.empty() && m.f.empty() && m.d.empty() && m.s.empty()), "params:empty", ctx);
}
template <class T>
std::string key(Rng& r) {
  std::string k;
  switch (r.below(5)) {
  case 0:
    gen(r, k);
    break;
  case 1:
    k = std::string(size_t(r.below(200)), 'k') + std::to_string(r.below(3));
    break;
  default:
    k = "key" + std::to_string(r.below(7)); // shared between the types
  }
  return k;
}
template <class T>
void opType(Rng& r, Model& m, GP& g, int what) {
  auto& map = m.get<T>();
  const std::string k = key<T>(r);
  switch (what) {
  case 0: {
    auto v = genVec<T>(r, 1);
    T x = v[0];
    g.set(k, x);
    check(canonS(x) == canonS(T(v[0])), "params:set-changed-the-argument");
    map[k] = v;
    break;
  }
  case 1: {
    auto v = genVec<T>(r, r.chance(0.2) ? 0 : r.below(7));
    g.set(k, v);
    map[k] = v;
    break;
  }
  case 2: {
    auto v = genVec<T>(r, 3);
    g.set<T>(k, {T(v[0]), T(v[1]), T(v[2])});
    map[k] = v;
    break;
  }
  case 3: { // bulk
    const size_t n = r.below(6);
    std::vector<std::string> ks;
    std::vector<std::vector<T>> vs;
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) {
      auto kk = key<T>(r);
      if (map.count(kk) || !used.insert(kk).second) {
        continue; // loading over existing keys is not specified
      }
      ks.push_back(kk);
      vs.push_back(genVec<T>(r, r.below(5)));
    }
    for (size_t i = 0; i < ks.size(); ++i) {
      map[ks[i]] = vs[i];
    }
    g.loadFrom(ks, vs);
    break;
  }
  default: {
    auto it = map.find(k);
    auto x = g.template get<T>(k);
    check(x.has_value() == (it != map.end() && !it->second.empty()), std::string("params:get-presence:") + tn<T>(), k);
  }
  }
}
static void op(Rng& r, Model& m, GP& g, int what) {
  switch (r.below(4)) {
  case 0: opType<int>(r, m, g, what); break;
  case 1: opType<float>(r, m, g, what); break;
  case 2: opType<double>(r, m, g, what); break;
  default: opType<std::string>(r, m, g, what);
  }
}
static void printCheck(Rng& r, Model& m, const GP& g) {
  std::ostringstream os;
  if (r.chance(0.5)) {
    os << std::hex << std::left << std::setfill('#');
  }
  const auto fl = os.flags();
  g.print(os, r.chance(0.5));
  check(os.flags() == fl, "params:print-changed-stream-flags");
  const auto txt = os.str();
  auto has = [&](const auto& map) {
    for (auto& [k, v] : map) {
      check(txt.find(k) != std::string::npos, "params:print-lost-key", k);
    }
  };
  has(m.i);
  has(m.f);
  has(m.d);
  has(m.s);
  for (auto& [k, v] : m.s) {
    for (auto& x : v) {
      check(txt.find(x) != std::string::npos, "params:print-lost-value", k);
    }
  }
}
static void seqCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 41, idx));
  setCase(idx, "parameter history");
  struct Slot {
    std::unique_ptr<GP> g;
    Model m;
    bool moved = false;
  };
  std::vector<Slot> slots(3);
  for (auto& s : slots) {
    s.g = std::make_unique<GP>();
  }
  uint64_t hist = 3;
  const int n = int(r.range(10, 60));
  for (int k = 0; k < n && !caseFailed(); ++k) {
    auto& a = r.pick(slots);
    auto& b = r.pick(slots);
    const int what = int(r.below(14));
    hist = hist * 131 + uint64_t(what);
    if (a.moved && what != 10) {
      a.g = std::make_unique<GP>();
      a.m = {};
      a.moved = false;
    }
    switch (what) {
    default:
      op(r, a.m, *a.g, what % 5);
      break;
    case 8: // const char*
    {
      auto kk = key<int>(r);
      a.g->set(kk, "text literal");
      a.m.s[kk] = {"text literal"};
      break;
    }
    case 9: // copy
      if (&a != &b) {
        b.g = std::make_unique<GP>(*a.g);
        b.m = a.m;
        b.moved = false;
        op(r, b.m, *b.g, int(r.below(3))); // changing the copy leaves the source alone
        compareAll(a.m, *a.g, "source of a copy");
        compareAll(b.m, *b.g, "copy");
      }
      break;
    case 10: // move
      if (&a != &b && !b.moved) {
        if (r.chance(0.5)) {
          *a.g = std::move(*b.g);
        } else {
          a.g = std::make_unique<GP>(std::move(*b.g));
        }
        a.m = b.m;
        a.moved = false;
        b.moved = true;
        compareAll(a.m, *a.g, "target of a move");
      }
      break;
    case 11:
      if (r.chance(0.3)) {
        a.g->clear();
        a.m = {};
      }
      break;
    case 12:
      printCheck(r, a.m, *a.g);
      break;
    case 13:
      compareAll(a.m, *a.g, "history");
    }
  }
  for (auto& s : slots) {
    if (!s.moved && !caseFailed()) {
      compareAll(s.m, *s.g, "end");
    }
  }
  stat("histories");
  distinct("nontrivial", hist);
  sample(std::to_string(n) + " operations on 3 objects");
}

// ---- concurrent ---------------------------------------------------------
// Every written value states its writer: thread, sequence number and key. Reads
// are judged by the real time order of the operations on their key.
static std::atomic<uint64_t> gTicket{1};
static uint64_t tick() { return gTicket.fetch_add(1, std::memory_order_acq_rel); }
static std::atomic<uint64_t> gTicketR{1};
static bool gRelaxed = false;
static uint64_t now() { return gRelaxed ? gTicketR.fetch_add(1, std::memory_order_relaxed) : tick(); }
struct Write {
  uint64_t b, e;
  int64_t val;
};
struct Read {
  uint64_t b, e;
  int64_t val; // -1: no value
};
struct KeyListing {
  uint64_t b, e;
  std::vector<std::string> keys;
};
constexpr int NT = 4, NK = 3;
struct Log {
  std::vector<Write> w[NT][NK];
  std::vector<Read> r[NT][NK];
  std::vector<KeyListing> k[NT];
  std::vector<int> ops;
};
static std::string kname(int k) { return "key" + std::to_string(k); }
template <class T>
T enc(int64_t v) {
  if constexpr (std::is_same_v<T, std::string>) {
    return "some longer text value to be allocated " + std::to_string(v);
  } else {
    return T(v);
  }
}
template <class T>
int64_t dec(const T& x) {
  if constexpr (std::is_same_v<T, std::string>) {
    auto p = x.rfind(' ');
    return p == std::string::npos ? -2 : atoll(x.c_str() + p + 1);
  } else {
    return int64_t(x);
  }
}
template <class T>
int64_t decVec(const std::vector<T>& v) {
  int64_t r = v.empty() ? -2 : dec(v[0]);
  for (auto& x : v) {
    if (dec(x) != r) {
      return -3; // mixed: torn
    }
  }
  return r;
}
template <class T>
void readMap(Log& l, int t, uint64_t b, uint64_t e, const std::vector<std::string>& ks, const std::vector<std::vector<T>>& vs) {
  for (int k = 0; k < NK; ++k) {
    int64_t v = -1;
    for (size_t i = 0; i < ks.size() && i < vs.size(); ++i) {
      if (ks[i] == kname(k)) {
        v = decVec(vs[i]);
      }
    }
    l.r[t][k].push_back({b, e, v});
  }
}
template <class T>
void concOp(GP& g, Log& l, int t, Rng& r, int64_t& seq) {
  const int k = int(r.below(NK));
  const int what = int(r.below(9));
  l.ops.push_back(t * 16 + what);
  const uint64_t b = now();
  switch (what) {
  case 0:
  case 1: {
    const int64_t v = ++seq;
    g.set(kname(k), enc<T>(v));
    l.w[t][k].push_back({b, now(), v});
    break;
  }
  case 2: {
    const int64_t v = ++seq;
    g.set(kname(k), std::vector<T>(size_t(r.range(1, 5)), enc<T>(v)));
    l.w[t][k].push_back({b, now(), v});
    break;
  }
  default:
  case 3: {
    auto x = g.get<T>(kname(k));
    l.r[t][k].push_back({b, now(), x ? dec(*x) : -1});
    break;
  }
  case 4: {
    auto x = g.get<std::vector<T>>(kname(k));
    l.r[t][k].push_back({b, now(), x ? decVec(*x) : -1});
    break;
  }
  case 5: {
    auto ks = g.getKeys<T>();
    l.k[t].push_back({b, now(), ks});
    break;
  }
  case 6: {
    auto [ks, vs] = g.getKeysAndValues<T>();
    const uint64_t e = now();
    readMap<T>(l, t, b, e, ks, vs);
    l.k[t].push_back({b, e, ks});
    break;
  }
  case 7: {
    GP c(g);
    const uint64_t e = now();
    auto [ks, vs] = c.getKeysAndValues<T>();
    readMap<T>(l, t, b, e, ks, vs);
    break;
  }
  case 8:
    switch (r.below(3)) {
    case 0: {
      std::ostringstream os;
      g.print(os);
      break;
    }
    case 1: {
      const bool em = g.empty();
      const uint64_t e = now();
      if (em) {
        for (int q = 0; q < NK; ++q) {
          l.r[t][q].push_back({b, e, -1});
        }
      }
      break;
    }
    default:
      l.r[t][k].push_back({b, 0, g.getN<T>(kname(k)) ? -4 : -1});
      l.r[t][k].back().e = now();
    }
  }
}
static void judge(Log& l, const char* type) {
  const std::string tt = type;
  for (int k = 0; k < NK; ++k) {
    std::vector<Write> ws;
    std::vector<Read> rs;
    for (int t = 0; t < NT; ++t) {
      ws.insert(ws.end(), l.w[t][k].begin(), l.w[t][k].end());
      rs.insert(rs.end(), l.r[t][k].begin(), l.r[t][k].end());
    }
    auto writeOf = [&](int64_t v) -> const Write* {
      for (auto& w : ws) {
        if (w.val == v) {
          return &w;
        }
      }
      return nullptr;
    };
    for (auto& rd : rs) {
      if (rd.val == -4) {
        bool any = false;
        for (auto& w : ws) {
          any = any || w.b < rd.e;
        }
        check(any, "params-conc:count-without-write:" + tt);
        continue;
      }
      if (rd.val == -1) {
        for (auto& w : ws) {
          check(!(w.e < rd.b), "params-conc:set-value-not-found:" + tt, kname(k));
        }
        continue;
      }
      auto* w = writeOf(rd.val);
      if (!check(w != nullptr, "params-conc:value-never-set:" + tt, kname(k) + " value " + std::to_string(rd.val))) {
        continue;
      }
      check(w->b < rd.e, "params-conc:read-before-write:" + tt);
      for (auto& o : ws) {
        check(!(w->e < o.b && o.e < rd.b), "params-conc:lost-update-or-stale-read:" + tt, kname(k));
      }
    }
    // reads in real time order do not go back
    for (auto& r1 : rs) {
      for (auto& r2 : rs) {
        if (r1.e < r2.b && r1.val >= 0 && r2.val >= 0 && r1.val != r2.val) {
          auto *w1 = writeOf(r1.val), *w2 = writeOf(r2.val);
          if (w1 && w2) {
            check(!(w2->e < w1->b), "params-conc:reads-go-back:" + tt, kname(k));
          }
        }
        if (r1.e < r2.b && r1.val >= 0) {
          check(r2.val != -1, "params-conc:value-disappeared:" + tt, kname(k));
        }
      }
    }
    for (auto& kl : l.k) {
      for (auto& x : kl) {
        const auto c = std::count(x.keys.begin(), x.keys.end(), kname(k));
        check(c <= 1, "params-conc:key-listed-twice:" + tt);
        bool before = false, possible = false;
        for (auto& w : ws) {
          before = before || w.e < x.b;
          possible = possible || w.b < x.e;
        }
        check(!before || c == 1, "params-conc:key-not-listed:" + tt, kname(k));
        check(possible || c == 0, "params-conc:key-listed-too-early:" + tt, kname(k));
      }
    }
  }
}
template <class T>
void concType(uint64_t idx, Rng& r) {
  GP g;
  if (r.chance(0.5)) {
    g.set("other", 1.5);
    g.set("before", r.chance(0.5) ? 1.0f : 2.0f);
  }
  gRelaxed = r.chance(0.7);
  Log logs[NT];
  const int nOps = int(r.range(4, 14));
  std::barrier<> bar(NT);
  std::vector<std::thread> ts;
  for (int t = 0; t < NT; ++t) {
    ts.emplace_back([&, t] {
      Rng tr(mix(idx * 4099 + opts.seed, uint64_t(t)));
      int64_t seq = 1000 * (t + 1);
      bar.arrive_and_wait();
      for (int i = 0; i < nOps; ++i) {
        concOp<T>(g, logs[t], t, tr, seq);
        if (tr.below(4) == 0) {
          std::this_thread::yield();
        }
        if (tr.below(4) == 0) { // other types at the same time
          g.set("side" + std::to_string(t), int(i));
          g.set("side" + std::to_string(t), std::string("x"));
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  Log all;
  uint64_t h = 1;
  for (int t = 0; t < NT; ++t) {
    for (int k = 0; k < NK; ++k) {
      all.w[t][k] = logs[t].w[t][k];
      all.r[t][k] = logs[t].r[t][k];
      for (auto& w : all.w[t][k]) {
        h = h * 31 + w.b * 7 + w.e;
      }
      for (auto& w : all.r[t][k]) {
        h = h * 31 + (w.b - all.r[t][k][0].b) * 7 + (w.e - w.b);
      }
    }
    all.k[t] = logs[t].k[t];
    stat("thread_operations", logs[t].ops.size());
  }
  // a final read by everyone's account
  for (int k = 0; k < NK; ++k) {
    const uint64_t b = now();
    auto x = g.get<std::vector<T>>(kname(k));
    all.r[0][k].push_back({b, now(), x ? decVec(*x) : -1});
  }
  judge(all, tn<T>());
  distinct("nontrivial", h);
}
// a copy is taken at one moment: pairs written one after the other are never seen the wrong way round
static void snapshotCase(uint64_t idx, Rng& r) {
  GP g;
  std::atomic<bool> stop{false};
  const int order = int(r.below(2));
  g.set("a", 0);
  g.set("b", 0.0);
  g.set("c", std::string("0"));
  g.set("d", 0.0f);
  std::thread w([&] {
    for (int i = 1; i < 300 && !stop.load(std::memory_order_relaxed); ++i) {
      if (order) {
        g.set("a", i);
        g.set("b", double(i));
        g.set("c", std::to_string(i));
        g.set("d", float(i));
      } else {
        g.set("d", float(i));
        g.set("c", std::to_string(i));
        g.set("b", double(i));
        g.set("a", i);
      }
    }
  });
  uint64_t seen = 0;
  int last = -1;
  for (int k = 0; k < 40; ++k) {
    GP c(g);
    const int64_t a = c.get<int>("a").value_or(-9), b = int64_t(c.get<double>("b").value_or(-9)), s = atoll(c.get<std::string>("c").value_or("-9").c_str()),
                  d = int64_t(c.get<float>("d").value_or(-9));
    const int64_t v[4] = {a, b, s, d};
    for (int q = 0; q < 3; ++q) {
      const int64_t x = order ? v[q] : v[3 - q], y = order ? v[q + 1] : v[2 - q];
      check(x >= y && x <= y + 1, "params-conc:copy-is-not-one-moment", std::to_string(x) + " then " + std::to_string(y));
    }
    if (a != last) {
      ++seen;
      last = int(a);
    }
  }
  stop = true;
  w.join();
  stat("snapshot_states_seen", seen);
}
static void concCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 42, idx));
  setCase(idx, "concurrent parameters");
  switch (r.below(5)) {
  case 0: concType<int>(idx, r); break;
  case 1: concType<float>(idx, r); break;
  case 2: concType<double>(idx, r); break;
  case 3: concType<std::string>(idx, r); break;
  default: snapshotCase(idx, r);
  }
  stat("histories");
}
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "conc") {
        concCase(i);
      } else if (i % 8 == 0) {
        leakCheck("parameters", [&] { seqCase(i); });
      } else {
        seqCase(i);
      }
    }
  });
}
