// C14: interface handles against a model of what they wrap.
#include "vf_event.h"
#include "vf_leak.h"
#include "adapter_tgt.h"
#include <algorithm>
#include <unordered_map>
using namespace vf;

namespace {
struct Obj {
  int type;
  HP mut, cst; // may both be dropped: then only interface handles keep the object alive
  std::vector<std::string> mem;
  int coll = -1, idx = -1;
  uintptr_t key = 0;
  size_t hash = 0;
};
struct Slot {
  enum St { Unset, Moved, Empty, Full } st = Unset;
  int type = -1;
  int obj = -1;
};
template <class I>
struct IfaceTest {
  Rng& r;
  std::string name = Tgt<I>::name;
  std::vector<int> types = Tgt<I>::types();
  std::vector<std::unique_ptr<podio::CollectionBase>> colls, subs;
  std::vector<uint32_t> ids;
  std::vector<Obj> objs;
  std::vector<std::optional<I>> h;
  std::vector<Slot> m;
  std::map<std::pair<int, int>, int> memIdx; // (interface member, type) -> member of type

  explicit IfaceTest(Rng& rr) : r(rr), h(8), m(8) {
    for (int t : types) {
      colls.push_back(T(t).newColl());
      ids.push_back(0);
    }
  }
  int collOf(int type) { return int(std::find(types.begin(), types.end(), type) - types.begin()); }

  int newObj() {
    Obj o;
    o.type = r.pick(types);
    auto& t = T(o.type);
    if (r.chance(0.6)) {
      o.coll = collOf(o.type);
      o.idx = int(colls[o.coll]->size());
      o.mut = t.create(*colls[o.coll]);
    } else {
      o.mut = t.make();
    }
    o.cst = t.toConst(*o.mut);
    o.mem = t.defaults();
    o.hash = t.hash(*o.cst);
    for (int i = 0; i < t.nMem(); ++i) {
      if (r.chance(0.5)) {
        o.mem[i].clear();
        t.setMem(*o.mut, i, r, 0, o.mem[i]);
      }
    }
    objs.push_back(o);
    return int(objs.size()) - 1;
  }
  podio::ObjectID wantId(const Slot& s) {
    podio::ObjectID id{};
    if (s.st == Slot::Full && objs[s.obj].coll >= 0) {
      id.index = objs[s.obj].idx;
      id.collectionID = ids[objs[s.obj].coll] ? ids[objs[s.obj].coll] : id.collectionID;
    }
    return id;
  }
  void look(int k) {
    auto& i = *h[k];
    auto& s = m[k];
    const std::string ctx = name + " slot " + std::to_string(k);
    for (int t : types) {
      check(Tgt<I>::isA(i, t) == (t == s.type), "iface:isA:" + name, ctx + " asked " + T(t).name() + " holds " + T(s.type).name());
      if (t == s.type) {
        HP c = Tgt<I>::asType(i, t);
        if (s.st == Slot::Full) {
          auto& o = objs[s.obj];
          check(T(t).available(*c), "iface:as:availability", ctx);
          if (o.cst) {
            check(T(t).eq(*c, *o.cst), "iface:as:other-object", ctx);
          }
          for (size_t q = 0; q < o.mem.size(); ++q) {
            checkEq(T(t).mem(*c, int(q)), o.mem[q], "iface:as:member:" + T(t).memName(int(q)), ctx);
          }
        } else {
          check(!T(t).available(*c), "iface:as:empty", ctx);
        }
      } else {
        expectThrow<std::runtime_error>("iface:as-other-type", [&] { Tgt<I>::asType(i, t); });
      }
    }
    check(i.isAvailable() == (s.st == Slot::Full), "iface:isAvailable:" + name, ctx);
    checkEq(idS(i.id()), idS(wantId(s)), "iface:id:" + name, ctx);
    checkEq(idS(i.getObjectID()), idS(wantId(s)), "iface:getObjectID:" + name, ctx);
    if (s.st == Slot::Full) {
      auto& o = objs[s.obj];
      Tgt<I>::mems(i, [&](int, const char* n, const auto& v) {
        int q = -1;
        for (int x = 0; x < T(o.type).nMem(); ++x) {
          if (T(o.type).memName(x) == n) {
            q = x;
          }
        }
        if (q < 0) { // provided by extra code
          if (T(o.type).name() != "ns2::Calo" || std::string(n) != "pdg") {
            internalError("interface member not in type");
          }
          checkEq(canonS(v), "42", "iface:extra-code-member:" + name + ":" + n, ctx);
          return;
        }
        checkEq(canonS(v), o.mem[q], "iface:member:" + name + ":" + n, ctx);
      });
      if (o.cst) {
        std::ostringstream a, b;
        a << i;
        T(o.type).printTo(*o.cst, b);
        checkEq(a.str(), b.str(), "iface:print:" + name, ctx);
      }
      checkNum(int64_t(std::hash<I>{}(i)), int64_t(o.hash), "iface:hash:" + name, ctx);
    }
    stat("looks");
  }
  bool usable(int k) { return h[k] && m[k].st != Slot::Moved; }
  void pairs() {
    for (size_t a = 0; a < h.size(); ++a) {
      if (!usable(int(a))) {
        continue;
      }
      for (size_t b = 0; b < h.size(); ++b) {
        if (!usable(int(b))) {
          continue;
        }
        bool same = m[a].st == m[b].st && m[a].type == m[b].type && m[a].obj == m[b].obj;
        check((*h[a] == *h[b]) == same, "iface:equality:" + name, same ? "same object not equal" : "different objects equal");
        check((*h[a] != *h[b]) == !same, "iface:inequality:" + name);
        const bool lt = *h[a] < *h[b], gt = *h[b] < *h[a];
        check(!(lt && gt), "iface:order:asymmetric:" + name);
        if (same) {
          check(!lt && !gt, "iface:order:irreflexive:" + name);
          check(std::hash<I>{}(*h[a]) == std::hash<I>{}(*h[b]), "iface:hash:equal-differ:" + name);
        } else if (m[a].st == Slot::Full || m[b].st == Slot::Full) {
          check(lt != gt, "iface:order:total:" + name, "different objects are equivalent in the order");
          if (m[a].st == Slot::Full && m[b].st == Slot::Full && m[a].type == m[b].type && objs[m[a].obj].cst && objs[m[b].obj].cst) {
            check(T(m[a].type).less(*objs[m[a].obj].cst, *objs[m[b].obj].cst) == lt, "iface:order:agrees-with-handles:" + name);
          }
        }
      }
      for (size_t o = 0; o < objs.size(); ++o) {
        if (objs[o].cst) {
          bool same = m[a].st == Slot::Full && m[a].obj == int(o);
          checkNum(Tgt<I>::eqHandle(*h[a], r.chance(0.5) ? *objs[o].cst : *objs[o].mut), same ? 7 : 0, "iface:equality-with-concrete:" + name,
                   "bits: i==h, h==i, !(i!=h)");
        }
      }
    }
    // containers keep exactly the distinct objects
    std::set<I> st;
    std::unordered_set<I> us;
    std::map<I, int> mp;
    std::set<int> want;
    std::vector<I> v;
    for (size_t a = 0; a < h.size(); ++a) {
      if (usable(int(a)) && m[a].st == Slot::Full) {
        st.insert(*h[a]);
        us.insert(*h[a]);
        mp[*h[a]]++;
        want.insert(m[a].obj);
        v.push_back(*h[a]);
      }
    }
    checkNum(int64_t(st.size()), int64_t(want.size()), "iface:set:" + name);
    checkNum(int64_t(us.size()), int64_t(want.size()), "iface:unordered-set:" + name);
    checkNum(int64_t(mp.size()), int64_t(want.size()), "iface:map:" + name);
    // the same order for every permutation
    std::vector<I> w(v.rbegin(), v.rend());
    std::sort(v.begin(), v.end());
    std::sort(w.begin(), w.end());
    check(v == w, "iface:sort-not-stable-under-permutation:" + name);
  }
  void history(uint64_t& hash) {
    const size_t n = size_t(r.range(10, 50));
    for (int i = 0; i < 3; ++i) {
      newObj();
    }
    for (size_t step = 0; step < n && !caseFailed(); ++step) {
      const int k = int(r.below(h.size()));
      const int op = int(r.below(17));
      hash = mix(hash, uint64_t(op) * 64 + uint64_t(k));
      switch (op) {
      case 0:
        newObj();
        break;
      case 1:
      case 2:
      case 3: { // construct or assign from a handle
        const int o = int(r.below(objs.size()));
        if (!objs[o].cst) {
          break;
        }
        const HandleBase& hb = r.chance(0.5) ? *objs[o].cst : *objs[o].mut;
        if (h[k] && r.chance(0.5)) {
          *h[k] = Tgt<I>::make(hb);
        } else {
          h[k].reset();
          h[k].emplace(Tgt<I>::make(hb));
        }
        m[k] = {Slot::Full, objs[o].type, o};
        note("wrap " + std::to_string(o) + " in " + std::to_string(k));
        break;
      }
      case 4:
      case 5: { // copy
        const int q = int(r.below(h.size()));
        if (!usable(q)) {
          break;
        }
        if (h[k]) {
          *h[k] = *h[q]; // also itself, also over a moved-from handle
        } else {
          h[k].emplace(*h[q]);
        }
        m[k] = m[q];
        note("copy " + std::to_string(q) + " to " + std::to_string(k));
        break;
      }
      case 6: { // move
        const int q = int(r.below(h.size()));
        if (!usable(q) || q == k) {
          break;
        }
        if (h[k]) {
          *h[k] = std::move(*h[q]);
        } else {
          h[k].emplace(std::move(*h[q]));
        }
        m[k] = m[q];
        m[q].st = Slot::Moved;
        note("move " + std::to_string(q) + " to " + std::to_string(k));
        break;
      }
      case 7: { // swap
        const int q = int(r.below(h.size()));
        if (!usable(q) || !usable(k)) {
          break;
        }
        using std::swap;
        swap(*h[k], *h[q]);
        std::swap(m[k], m[q]);
        note("swap " + std::to_string(q) + " " + std::to_string(k));
        break;
      }
      case 8: // empty
        if (h[k]) {
          *h[k] = I::makeEmpty();
        } else {
          h[k].emplace(I::makeEmpty());
        }
        // holds one of its types, which one is not said
        m[k] = {Slot::Empty, -1, -1};
        for (int t : types) {
          if (Tgt<I>::isA(*h[k], t)) {
            check(m[k].type == -1, "iface:empty-of-several-types:" + name);
            m[k].type = t;
          }
        }
        if (!check(m[k].type != -1, "iface:empty-of-no-type:" + name)) {
          return;
        }
        note("empty " + std::to_string(k));
        break;
      case 9: { // wrap an empty handle of one type
        const int t = r.pick(types);
        HP e = T(t).makeEmpty();
        h[k].reset();
        h[k].emplace(Tgt<I>::make(*e));
        m[k] = {Slot::Empty, t, -1};
        note("wrap empty " + T(t).name() + " in " + std::to_string(k));
        break;
      }
      case 10:
        if (usable(k)) {
          h[k]->unlink();
          m[k] = {Slot::Empty, m[k].type, -1};
          note("unlink " + std::to_string(k));
        }
        break;
      case 11: // drop a handle
        h[k].reset();
        m[k] = {};
        note("drop " + std::to_string(k));
        break;
      case 12:
      case 13: { // change the object behind
        const int o = int(r.below(objs.size()));
        if (objs[o].mut) {
          auto& t = T(objs[o].type);
          if (t.nMem()) {
            const int q = int(r.below(t.nMem()));
            objs[o].mem[q].clear();
            t.setMem(*objs[o].mut, q, r, 0, objs[o].mem[q]);
            note("set member of " + std::to_string(o));
          }
        }
        break;
      }
      case 14: { // let go of the concrete handles
        const int o = int(r.below(objs.size()));
        objs[o].mut = nullptr;
        objs[o].cst = nullptr;
        note("let go of " + std::to_string(o));
        break;
      }
      case 15: { // a collection takes an untracked object
        const int o = int(r.below(objs.size()));
        if (objs[o].mut && objs[o].coll < 0) {
          const int c = collOf(objs[o].type);
          T(objs[o].type).push(*colls[c], *objs[o].mut);
          objs[o].coll = c;
          objs[o].idx = int(colls[c]->size()) - 1;
          note("push " + std::to_string(o));
        }
        break;
      }
      default: { // the collections get their IDs
        const int c = int(r.below(colls.size()));
        ids[c] = uint32_t(r.range(1, 1000000));
        colls[c]->setID(ids[c]);
        note("set ID");
      }
      }
      for (size_t q = 0; q < h.size(); ++q) {
        if (usable(int(q)) && (int(q) == k || r.chance(0.3))) {
          look(int(q));
        }
      }
      if (r.chance(0.15)) {
        pairs();
      }
      stat("operations");
    }
    for (size_t q = 0; q < h.size(); ++q) {
      if (usable(int(q))) {
        look(int(q));
      }
    }
    pairs();
    // handles go first, or the collections with their objects do
    if (r.chance(0.5)) {
      for (auto& x : objs) {
        x.mut = x.cst = nullptr;
      }
      colls.clear();
      h.clear();
    }
  }
};
template <class I>
constexpr bool takes() {
  return true;
}
// which types an interface can be made from
static_assert(std::is_constructible_v<EnergyObj, Hit> && std::is_constructible_v<EnergyObj, MutableHit> && std::is_convertible_v<Cluster, EnergyObj>);
static_assert(EnergyObj::isInitializableFrom<Hit> && EnergyObj::isInitializableFrom<MutableCluster>);

template <class I>
void one(Rng& r, uint64_t& hash) {
  auto checkTypes = [&]<class C>(const char* n) {
    bool in = false;
    for (int t : Tgt<I>::types()) {
      in |= T(t).name() == n;
    }
    check(std::is_constructible_v<I, C> == in, std::string("iface:constructible:") + Tgt<I>::name + ":" + n);
    check(std::is_constructible_v<I, typename C::mutable_type> == in, std::string("iface:constructible-mutable:") + Tgt<I>::name + ":" + n);
    check(I::template isInitializableFrom<C> == in, std::string("iface:isInitializableFrom:") + Tgt<I>::name + ":" + n);
    check(I::template isInitializableFrom<typename C::mutable_type> == in, std::string("iface:isInitializableFrom-mutable:") + Tgt<I>::name + ":" + n);
  };
  checkTypes.template operator()<Hit>("Hit");
  checkTypes.template operator()<Particle>("Particle");
  checkTypes.template operator()<Cluster>("Cluster");
  checkTypes.template operator()<Vertex>("Vertex");
  checkTypes.template operator()<ns2::Calo>("ns2::Calo");
  checkTypes.template operator()<ns2::Track>("ns2::Track");
  checkTypes.template operator()<ext::Thing>("ext::Thing");
  checkTypes.template operator()<ext::Energetic>("ext::Energetic");
  checkTypes.template operator()<ext::Rel>("ext::Rel");
  checkNum(int64_t(std::tuple_size_v<typename I::interfaced_types>), int64_t(Tgt<I>::types().size()), "iface:interfaced-types");
  checkEq(std::string(I::typeName), Tgt<I>::name, "iface:typeName");
  IfaceTest<I>(r).history(hash);
}
static void run(uint64_t i) {
  Rng r(mix(opts.seed * 1000003 + 71, i));
  uint64_t hash = 7;
  switch (r.below(3)) {
  case 0: setCase(i, "EnergyObj"); one<EnergyObj>(r, hash); break;
  case 1: setCase(i, "ns2::Other"); one<ns2::Other>(r, hash); break;
  default: setCase(i, "ext::Any"); one<ext::Any>(r, hash);
  }
  stat("histories");
  distinct("nontrivial", hash);
  sample(recentNotes(12));
}
} // namespace
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (i % 6 == 0) {
        leakCheck("interfaces", [&] { run(i); });
      } else {
        run(i);
      }
    }
  });
}
