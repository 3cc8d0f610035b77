// C12 (mode=link): the API of links by name, type and structured binding.
// C13 (mode=nav): link navigation against the list of links.
#include "vf_event.h"
#include "vf_leak.h"
#include "adapter_tgt.h"
#include "podio/LinkCollection.h"
#include "podio/LinkNavigator.h"
#include "vm/FromNsLinkCollection.h"
#include "vm/HitClusterLinkCollection.h"
#include "vm/IfaceIfaceLinkCollection.h"
#include "vm/IfaceLinkCollection.h"
#include "vm/SelfLinkCollection.h"
#include "vx/ThingLinkCollection.h"
using namespace vf;

// calls f with the handle as the concrete type it has
template <class Target, class Fn>
void concrete(const HandleBase& h, Fn&& f) {
  auto one = [&]<class C>() {
    using M = typename C::mutable_type;
    if (h.mut) {
      f(as<M>(h));
    } else {
      f(as<C>(h));
    }
  };
  if constexpr (std::is_same_v<Target, EnergyObj>) {
    const auto n = typeOf(h).name();
    if (n == "Hit") {
      one.template operator()<Hit>();
    } else if (n == "Particle") {
      one.template operator()<Particle>();
    } else {
      one.template operator()<Cluster>();
    }
  } else if constexpr (std::is_same_v<Target, ns2::Other>) {
    if (typeOf(h).name() == "Particle") {
      one.template operator()<Particle>();
    } else {
      one.template operator()<ns2::Calo>();
    }
  } else {
    one.template operator()<Target>();
  }
}
struct End {
  HP mut;   // mutable handle
  HP cst;   // const handle
  size_t k; // index in the pool
};
struct Pool {
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  std::vector<std::unique_ptr<podio::CollectionBase>> subs; // subset collections with all of colls
  std::vector<End> ends;
  template <class Tt>
  void fill(Rng& r, size_t n) {
    auto types = Tgt<Tt>::types();
    for (int ty : types) {
      colls.push_back(T(ty).newColl());
      subs.push_back(T(ty).newColl());
      subs.back()->setSubsetCollection();
    }
    for (size_t i = 0; i < n; ++i) {
      const size_t q = r.below(types.size());
      HP h;
      if (r.chance(0.8)) {
        h = T(types[q]).create(*colls[q]);
        T(types[q]).push(*subs[q], *h);
      } else {
        h = T(types[q]).make(); // not in any collection
      }
      ends.push_back({h, T(types[q]).toConst(*h), i});
    }
    for (size_t q = 0; q < types.size(); ++q) {
      colls[q]->setID(uint32_t(100 + q));
    }
  }
  // another handle to the same object
  HP handle(Rng& r, const End& e) {
    auto& t = typeOf(*e.mut);
    switch (r.below(4)) {
    case 0:
      return e.mut;
    case 1:
      return e.cst;
    case 2:
      return t.copy(*e.cst);
    default:
      for (auto& s : subs) {
        if (t.isColl(s.get())) {
          for (size_t i = 0; i < s->size(); ++i) {
            HP h = t.at(*s, i, Access::At);
            if (t.eq(*h, *e.cst)) {
              return h;
            }
          }
        }
      }
      return e.cst;
    }
  }
};
struct ML {
  int from = -1, to = -1;
  float w = 1.0f;
};
template <class L>
struct LinkTest {
  using F = typename L::collection_type::from_type;
  using To = typename L::collection_type::to_type;
  using M = typename L::mutable_type;
  using Coll = typename L::collection_type;
  static constexpr bool same = std::is_same_v<F, To>;
  Rng& r;
  Pool pf, pt_;
  Pool& pt() {
    if constexpr (same) {
      return pf;
    } else {
      return pt_;
    }
  }
  std::string name;
  explicit LinkTest(Rng& rng, const char* n) : r(rng), name(n) {
    pf.template fill<F>(r, size_t(r.range(1, 7)));
    if constexpr (!same) {
      pt_.template fill<To>(r, size_t(r.range(1, 7)));
    }
  }
  F fromOf(int k) { return Tgt<F>::make(*pf.ends[size_t(k)].cst); }
  To toOf(int k) { return Tgt<To>::make(*pt().ends[size_t(k)].cst); }
  template <class H>
  void compare(const H& l, const ML& m, const std::string& w) {
    const auto f = l.getFrom();
    const auto t = l.getTo();
    if (m.from < 0) {
      check(!f.isAvailable(), "link:unset-from-available:" + name, w);
    } else {
      check(f.isAvailable() && f == fromOf(m.from), "link:from:" + name, w);
    }
    if (m.to < 0) {
      check(!t.isAvailable(), "link:unset-to-available:" + name, w);
    } else {
      check(t.isAvailable() && t == toOf(m.to), "link:to:" + name, w);
    }
    checkEq(canonS(l.getWeight()), canonS(m.w), "link:weight:" + name, w);
    check(l.template get<0>() == f && l.template get<1>() == t, "link:get-index:" + name, w);
    checkEq(canonS(l.template get<2>()), canonS(m.w), "link:get-index-weight:" + name, w);
    if constexpr (!same) {
      check(l.template get<F>() == f && l.template get<To>() == t, "link:get-type:" + name, w);
    }
    const auto& [bf, bt, bw] = l;
    check(bf == f && bt == t && canonS(bw) == canonS(m.w), "link:structured-binding:" + name, w);
    static_assert(std::tuple_size_v<H> == 3);
  }
  void setEnd(M& l, ML& m, bool from, int how) {
    auto& p = from ? pf : pt();
    const int k = int(r.below(p.ends.size()));
    HP h = p.handle(r, p.ends[size_t(k)]);
    (from ? m.from : m.to) = k;
    switch (how) {
    case 0: // the concrete handle as it is, mutable or not
      if (from) {
        concrete<F>(*h, [&](auto& x) { l.setFrom(x); });
      } else {
        concrete<To>(*h, [&](auto& x) { l.setTo(x); });
      }
      break;
    case 1: // through the type the link is declared with
      if (from) {
        l.setFrom(Tgt<F>::make(*h));
      } else {
        l.setTo(Tgt<To>::make(*h));
      }
      break;
    default:
      if constexpr (!same) { // by type
        if (from) {
          concrete<F>(*h, [&](auto& x) { set<F, true>(l, x); });
        } else {
          concrete<To>(*h, [&](auto& x) { set<To, false>(l, x); });
        }
      } else if (from) {
        l.setFrom(Tgt<F>::make(*h));
      } else {
        l.setTo(Tgt<To>::make(*h));
      }
    }
  }
  // set by type, where the type says which end is meant
  template <class Target, bool From, class X>
  void set(M& l, X& x) {
    using D = std::remove_cvref_t<X>;
    constexpr bool exact = std::is_same_v<D, Target> || std::is_same_v<D, podio::detail::GetMutableHandleType<Target>>;
    using Other = std::conditional_t<From, To, F>;
    constexpr bool otherExact = std::is_same_v<D, Other> || std::is_same_v<D, podio::detail::GetMutableHandleType<Other>>;
    constexpr bool otherIface = podio::detail::isInterfaceInitializableFrom<Other, D>;
    if constexpr (exact || (!otherExact && !otherIface)) {
      l.set(x);
    } else {
      l.set(Target(x));
    }
  }
  void linkHistory(uint64_t& hist) {
    struct H {
      M m;
      L c;
      size_t obj;
    };
    std::vector<ML> model;
    std::vector<H> hs;
    auto fresh = [&](M m, ML x) {
      model.push_back(x);
      hs.push_back({m, L(m), model.size() - 1});
    };
    auto coll = std::make_unique<Coll>();
    std::vector<size_t> inColl;
    for (int k = 0, n = int(r.range(6, 40)); k < n && !caseFailed(); ++k) {
      const int op = hs.empty() ? int(r.below(3)) : int(r.below(14));
      hist = hist * 37 + uint64_t(op);
      switch (op) {
      case 0:
        fresh(M(), {});
        break;
      case 1: {
        float w{};
        gen(r, w);
        fresh(M(w), {-1, -1, w});
        break;
      }
      case 2: {
        fresh(coll->create(), {});
        inColl.push_back(model.size() - 1);
        checkNum(hs.back().m.id().index, int64_t(inColl.size()) - 1, "link:index:" + name);
        break;
      }
      case 3:
      case 4:
      case 5:
        {
          auto& h = r.pick(hs);
          setEnd(h.m, model[h.obj], true, int(r.below(3)));
        }
        break;
      case 6:
      case 7:
      case 8:
        {
          auto& h = r.pick(hs);
          setEnd(h.m, model[h.obj], false, int(r.below(3)));
        }
        break;
      case 9: {
        auto& h = r.pick(hs);
        float w{};
        gen(r, w);
        h.m.setWeight(w);
        model[h.obj].w = w;
        break;
      }
      case 10: { // reset an end
        auto& h = r.pick(hs);
        if (r.chance(0.5)) {
          h.m.setFrom(F::makeEmpty());
          model[h.obj].from = -1;
        } else {
          h.m.setTo(To::makeEmpty());
          model[h.obj].to = -1;
        }
        break;
      }
      case 11: { // clone
        const H src = r.pick(hs);
        const ML m = model[src.obj];
        const bool rel = r.chance(0.6);
        auto c = r.chance(0.5) ? src.m.clone(rel) : src.c.clone(rel);
        fresh(c, {rel ? m.from : -1, rel ? m.to : -1, m.w});
        check(!(hs.back().m == src.m) && hs.back().m != src.c, "link:clone-is-the-same-object:" + name);
        checkNum(hs.back().m.id().index, -1, "link:clone-id:" + name);
        break;
      }
      case 12: { // other handle
        H h = r.pick(hs);
        M m2 = h.m;
        L c2 = h.c;
        check(m2 == h.m && c2 == h.c && L(m2) == c2 && std::hash<M>{}(m2) == std::hash<L>{}(c2), "link:handles-of-one-object:" + name);
        hs.push_back({m2, c2, h.obj});
        break;
      }
      case 13: // move the collection
        if (r.chance(0.3)) {
          coll = std::make_unique<Coll>(std::move(*coll));
        }
        break;
      }
      if (!hs.empty()) {
        auto& h = r.pick(hs);
        compare(h.m, model[h.obj], "mutable");
        compare(h.c, model[h.obj], "const");
      }
    }
    for (auto& h : hs) {
      compare(h.m, model[h.obj], "mutable at the end");
      compare(h.c, model[h.obj], "const at the end");
    }
    size_t i = 0;
    if (checkNum(int64_t(coll->size()), int64_t(inColl.size()), "link:collection-size:" + name)) {
      for (auto l : *coll) {
        compare(l, model[inColl[i]], "in collection");
        ++i;
      }
      i = 0;
      for (const auto& [f, t, w] : *coll) {
        const ML& m = model[inColl[i++]];
        check((m.from < 0 ? !f.isAvailable() : f == fromOf(m.from)) && (m.to < 0 ? !t.isAvailable() : t == toOf(m.to)) && canonS(w) == canonS(m.w),
              "link:structured-binding-loop:" + name);
      }
    }
    checkEq(std::string(Coll::typeName), std::string("podio::LinkCollection<") + Tgt<F>::name + "," + Tgt<To>::name + ">", "link:collection-type-name");
    distinct("nontrivial", hist ^ hashStr(name));
    stat("histories");
    stat("links", model.size());
    // handles that outlive everything
    if (r.chance(0.3)) {
      coll.reset();
      pf.colls.clear();
      hs.clear();
    }
  }

  template <class W>
  static std::string show(const W& v, const std::function<int(const std::remove_cvref_t<decltype(v[0].o)>&)>& idx) {
    std::vector<std::string> s;
    for (const auto& x : v) {
      const auto& [o, w] = x;
      if (!(o == x.o) || canonS(w) != canonS(x.weight)) {
        s.push_back("binding differs");
      }
      s.push_back(std::to_string(idx(o)) + "@" + canonS(w));
    }
    std::sort(s.begin(), s.end());
    return canonS(s);
  }
  void navigation(uint64_t& hist) {
    auto links = std::make_unique<Coll>();
    std::vector<ML> model;
    const size_t n = r.chance(0.1) ? 0 : size_t(r.range(1, 25));
    const bool dense = r.chance(0.5);
    for (size_t i = 0; i < n; ++i) {
      ML m;
      auto l = links->create();
      if (!r.chance(0.05)) {
        m.from = int(r.below(dense ? std::min<size_t>(2, pf.ends.size()) : pf.ends.size()));
      }
      if (!r.chance(0.05)) {
        m.to = int(r.below(dense ? std::min<size_t>(2, pt().ends.size()) : pt().ends.size()));
      }
      if (m.from >= 0) {
        auto h = pf.handle(r, pf.ends[size_t(m.from)]);
        concrete<F>(*h, [&](auto& x) { l.setFrom(x); });
      }
      if (m.to >= 0) {
        auto h = pt().handle(r, pt().ends[size_t(m.to)]);
        concrete<To>(*h, [&](auto& x) { l.setTo(x); });
      }
      if (r.chance(0.7)) {
        gen(r, m.w);
        if (r.chance(0.5)) {
          m.w = float(r.below(3));
        }
        l.setWeight(m.w);
      }
      model.push_back(m);
      hist = hist * 37 + uint64_t(m.from * 11 + m.to);
    }
    // also from a subset of the links
    std::unique_ptr<Coll> sub;
    const Coll* use = links.get();
    if (r.chance(0.25)) {
      sub = std::make_unique<Coll>();
      sub->setSubsetCollection();
      std::vector<ML> keep;
      for (size_t i = 0; i < n; ++i) {
        if (r.chance(0.6)) {
          sub->push_back((*links)[i]);
          keep.push_back(model[i]);
        }
      }
      model = keep;
      use = sub.get();
    }
    using Nav = podio::LinkNavigator<Coll>;
    auto nav = std::make_unique<Nav>(*use);
    if (r.chance(0.3)) {
      auto copy = std::make_unique<Nav>(*nav);
      nav = std::move(copy);
    }
    if (r.chance(0.3)) {
      auto moved = std::make_unique<Nav>(std::move(*nav));
      nav = std::move(moved);
    }
    const bool dropLinks = r.chance(0.3);
    auto fidx = [&](const F& x) {
      for (size_t k = 0; k < pf.ends.size(); ++k) {
        if (x == fromOf(int(k))) {
          return int(k);
        }
      }
      return x.isAvailable() ? -2 : -1;
    };
    auto tidx = [&](const To& x) {
      for (size_t k = 0; k < pt().ends.size(); ++k) {
        if (x == toOf(int(k))) {
          return int(k);
        }
      }
      return x.isAvailable() ? -2 : -1;
    };
    std::optional<std::vector<std::pair<F, To>>> viaLinks;
    viaLinks.emplace();
    for (auto l : *use) {
      viaLinks->push_back({l.getFrom(), l.getTo()});
    }
    if (dropLinks) {
      sub.reset();
      links.reset();
    }
    for (size_t k = 0; k < pf.ends.size(); ++k) {
      std::vector<std::string> want;
      for (auto& m : model) {
        if (m.from == int(k)) {
          want.push_back(std::to_string(m.to) + "@" + canonS(m.w));
        }
      }
      std::sort(want.begin(), want.end());
      HP h = pf.handle(r, pf.ends[k]);
      const auto q = Tgt<F>::make(*h);
      checkEq(show(nav->getLinkedTo(q), tidx), canonS(want), "navigator:linked-to:" + name);
      if constexpr (!same) {
        checkEq(show(nav->getLinked(q), tidx), canonS(want), "navigator:linked:" + name);
        if constexpr (!podio::detail::isInterfaceType<F> && !podio::detail::isInterfaceType<To>) {
          if (h->mut) {
            checkEq(show(nav->getLinked(as<typename F::mutable_type>(*h)), tidx), canonS(want), "navigator:linked-mutable:" + name);
          }
        }
      }
      for (size_t i = 0; i < viaLinks->size(); ++i) { // through the handle the link has
        if (model[i].from == int(k)) {
          checkEq(show(nav->getLinkedTo((*viaLinks)[i].first), tidx), canonS(want), "navigator:linked-to-through-link:" + name);
          break;
        }
      }
      stat("lookups");
    }
    for (size_t k = 0; k < pt().ends.size(); ++k) {
      std::vector<std::string> want;
      for (auto& m : model) {
        if (m.to == int(k)) {
          want.push_back(std::to_string(m.from) + "@" + canonS(m.w));
        }
      }
      std::sort(want.begin(), want.end());
      HP h = pt().handle(r, pt().ends[k]);
      const auto q = Tgt<To>::make(*h);
      checkEq(show(nav->getLinkedFrom(q), fidx), canonS(want), "navigator:linked-from:" + name);
      if constexpr (!same) {
        checkEq(show(nav->getLinked(q), fidx), canonS(want), "navigator:linked-reverse:" + name);
      }
      for (size_t i = 0; i < viaLinks->size(); ++i) {
        if (model[i].to == int(k)) {
          checkEq(show(nav->getLinkedFrom((*viaLinks)[i].second), fidx), canonS(want), "navigator:linked-from-through-link:" + name);
          break;
        }
      }
      stat("lookups");
    }
    // nothing for objects that are not in any link
    {
      Pool p;
      p.template fill<F>(r, 2);
      for (auto& e : p.ends) {
        check(nav->getLinkedTo(Tgt<F>::make(*e.cst)).empty(), "navigator:unlinked-object-has-links:" + name);
      }
      Pool p2;
      p2.template fill<To>(r, 2);
      for (auto& e : p2.ends) {
        check(nav->getLinkedFrom(Tgt<To>::make(*e.cst)).empty(), "navigator:unlinked-object-has-links:" + name);
      }
    }
    stat("histories");
    stat("links", model.size());
    distinct("nontrivial", hist ^ hashStr(name));
  }
};
// navigation over links read back: by the IDs of the objects
template <class L>
void navReadBack(Rng& r, const char* name, uint64_t& hist) {
  using Coll = typename L::collection_type;
  using F = typename Coll::from_type;
  using To = typename Coll::to_type;
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.minColls = 3;
  o.userData = false;
  o.params = false;
  o.bigChance = 0;
  int linkType = -1;
  for (auto* t : allTypes()) {
    if (t->isLink() && t->name() == name) {
      linkType = t->index;
    }
  }
  if (linkType < 0) {
    internalError(std::string("no link type ") + name);
  }
  o.onlyTypes = {linkType, linkType};
  for (int x : Tgt<F>::types()) {
    o.onlyTypes.push_back(x);
  }
  for (int x : Tgt<To>::types()) {
    o.onlyTypes.push_back(x);
  }
  genEvent(r, o, ev, colls);
  podio::Frame f;
  std::vector<std::string> names;
  for (size_t i = 0; i < colls.size(); ++i) {
    f.put(std::move(colls[i]), ev.colls[i]->name);
    names.push_back(ev.colls[i]->name);
  }
  for (auto& ob : ev.objs) {
    ob->h.reset();
  }
  const auto rd = readFrame(writeFrame(f, shuffled(names, r)));
  for (auto& c : ev.colls) {
    if (c->type != linkType) {
      continue;
    }
    const auto& links = rd.get<Coll>(c->name);
    const podio::LinkNavigator<Coll> nav(links);
    auto idOf = [](const MObj* m) { return m ? std::to_string(m->idx) + ":" + std::to_string(m->coll->id) : std::string("none"); };
    std::set<const MObj*> fs, ts;
    for (auto* e : c->elems) {
      fs.insert(e->one[0]);
      ts.insert(e->one[1]);
    }
    auto look = [&](const MObj* end, bool from) {
      std::vector<std::string> want, got;
      for (auto* e : c->elems) {
        if (e->one[from ? 0 : 1] == end) {
          want.push_back(idOf(e->one[from ? 1 : 0]) + "@" + e->mem[0]);
        }
      }
      auto* coll = rd.get(end->coll->name);
      HP h = T(end->type).at(*coll, size_t(end->idx), Access::Index);
      auto take = [&](const auto& v) {
        for (const auto& x : v) {
          got.push_back((x.o.isAvailable() ? idS(x.o.id()) : std::string("none")) + "@" + canonS(x.weight));
        }
      };
      if (from) {
        take(nav.getLinkedTo(Tgt<F>::make(*h)));
      } else {
        take(nav.getLinkedFrom(Tgt<To>::make(*h)));
      }
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      checkEq(canonS(got), canonS(want), std::string("navigator:after-reading:") + (from ? "to:" : "from:") + name, c->name);
      stat("lookups_after_reading");
    };
    for (auto* m : fs) {
      if (m) {
        look(m, true);
      }
    }
    for (auto* m : ts) {
      if (m) {
        look(m, false);
      }
    }
    hist = hist * 31 + c->elems.size();
  }
}
template <class L>
void one(uint64_t idx, const char* name) {
  Rng r(mix(opts.seed * 1000003 + 61, idx));
  uint64_t hist = 5;
  setCase(idx, std::string("links ") + name);
  if (opts.mode == "nav") {
    if (idx % 4 == 3) {
      navReadBack<L>(r, name, hist);
    }
    LinkTest<L>(r, name).navigation(hist);
  } else {
    LinkTest<L>(r, name).linkHistory(hist);
  }
  sample(std::string("link type ") + name);
}
static void run(uint64_t i) {
  switch (Rng(mix(i, 99)).below(6)) {
  case 0: one<HitClusterLink>(i, "HitClusterLink"); break;
  case 1: one<SelfLink>(i, "SelfLink"); break;
  case 2: one<ns2::IfaceLink>(i, "ns2::IfaceLink"); break;
  case 3: one<IfaceIfaceLink>(i, "IfaceIfaceLink"); break;
  case 4: one<FromNsLink>(i, "FromNsLink"); break;
  default: one<ext::ThingLink>(i, "ext::ThingLink");
  }
}
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (i % 6 == 0) {
        leakCheck("links", [&] { run(i); });
      } else {
        run(i);
      }
    }
  });
}
