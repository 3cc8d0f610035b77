#pragma once
#include "adapter_tgt.h"
#include "podio/LinkCollection.h"
#include <algorithm>
#include <ranges>

namespace vf {
template <class T>
struct Tr;

// make a Ref from what a relation getter returned
template <class R>
Ref makeRef(const R& h) {
  Ref r;
  r.avail = h.isAvailable();
  r.id = h.id();
  if (r.avail) {
    Tgt<R>::dispatch(h, [&](const auto& c, int type) {
      using CT = std::remove_cvref_t<decltype(c)>;
      r.type = type;
      r.h = wrap<CT>(c, type, false);
    });
  }
  return r;
}

template <class F, class To>
struct LinkTr {
  using C = podio::Link<F, To>;
  using M = podio::MutableLink<F, To>;
  using Coll = podio::LinkCollection<F, To>;
  using Data = podio::LinkData;
  using From_t = F;
  using To_t = To;
  static constexpr int nMem = 1, nVec = 0, nOne = 2, nMany = 0;
  static constexpr bool isLink = true, hasArgs = true;
  static const char* memName(int) { return "weight"; }
  static const char* vecName(int) { return nullptr; }
  static const char* vecTypeName(int) { return nullptr; }
  static const char* oneName(int i) { return i ? "to" : "from"; }
  static const char* manyName(int) { return nullptr; }
  template <class Fn>
  static void defaults(Fn&& f) { f(0, 1.0f); }
  template <class H, class Fn>
  static void mem(const H& h, int, Fn&& f) { f(h.getWeight()); }
  template <class Fn>
  static void dataMem(const Data& d, Fn&& f) { f(0, d.weight); }
  static void set(M& h, int, Rng& r, int, std::string& out) {
    float v{};
    gen(r, v);
    canon(out, v);
    h.setWeight(v);
  }
  static int nSub(int) { return 0; }
  static void setSub(M&, int, int, Rng&, std::string&) {}
  template <class H>
  static void checkSub(const H& h, int) {
    subEq("link.get<2>", h.template get<2>(), h.getWeight());
  }
  template <class H, class Fn>
  static void vec(const H&, int, Fn&&) {}
  static void vecAdd(M&, int, Rng&, std::string&) {}
  template <class H, class Fn>
  static void one(const H& h, int i, Fn&& f) {
    if (i == 0) {
      f(h.getFrom());
    } else {
      f(h.getTo());
    }
  }
  template <class X>
  static void setEnd(M& h, int i, const X& x, bool viaSet) {
    if constexpr (!std::is_same_v<F, To>) {
      if (viaSet) { // the type based setter
        if constexpr (std::is_same_v<X, F> || std::is_same_v<X, To>) {
          h.set(x);
          return;
        }
      }
    }
    if (i == 0) {
      if constexpr (std::is_same_v<X, F>) h.setFrom(x);
    } else {
      if constexpr (std::is_same_v<X, To>) h.setTo(x);
    }
  }
  static void oneSet(M& h, int i, const HandleBase* v) {
    static thread_local unsigned n = 0;
    const bool viaSet = (n++ % 3) == 0;
    if (i == 0) {
      if (!v) {
        h.setFrom(F::makeEmpty());
      } else {
        setEnd(h, 0, Tgt<F>::make(*v), viaSet);
      }
    } else {
      if (!v) {
        h.setTo(To::makeEmpty());
      } else {
        setEnd(h, 1, Tgt<To>::make(*v), viaSet);
      }
    }
  }
  static std::vector<int> oneTypes(int i) { return i ? Tgt<To>::types() : Tgt<F>::types(); }
  static bool oneIface(int i) { return i ? Tgt<To>::isInterface : Tgt<F>::isInterface; }
  template <class H, class Fn>
  static void many(const H&, int, Fn&&) {}
  static void manyAdd(M&, int, const HandleBase&) {}
  static std::vector<int> manyTypes(int) { return {}; }
  static bool manyIface(int) { return false; }
  static M ctor(Rng& r, std::vector<std::string>& out) {
    float v{};
    gen(r, v);
    out.push_back(canonS(v));
    return M(v);
  }
  template <class Fn>
  static void column(const Coll&, int, size_t, Fn&&) {}
  template <class Fn>
  static void columnAll(const Coll&, int, Fn&&) {}
  template <class Fn>
  static void vecType(int, Fn&&) {}
};

template <class TT>
struct OpsImpl : TypeOps {
  using X = Tr<TT>;
  using C = typename X::C;
  using M = typename X::M;
  using Coll = typename X::Coll;
  using Data = typename X::Data;
  explicit OpsImpl(int i) : TypeOps(i) {}

  template <class F>
  decltype(auto) with(const HandleBase& h, F&& f) const {
    if (h.type != index) {
      internalError("handle type mismatch");
    }
    if (h.mut) {
      return f(as<M>(h));
    }
    return f(as<C>(h));
  }
  template <class F>
  decltype(auto) withConst(const HandleBase& h, F&& f) const { // f gets const H&
    if (h.mut) {
      return f(std::as_const(as<M>(h)));
    }
    return f(std::as_const(as<C>(h)));
  }
  M& m(const HandleBase& h) const {
    if (!h.mut || h.type != index) {
      internalError("mutable handle needed");
    }
    return as<M>(h);
  }
  HP wm(const M& x) const { return wrap<M>(x, index, true); }
  HP wc(const C& x) const { return wrap<C>(x, index, false); }
  static Coll& coll(podio::CollectionBase& c) { return dynamic_cast<Coll&>(c); }
  static const Coll& coll(const podio::CollectionBase& c) { return dynamic_cast<const Coll&>(c); }

  std::string name() const override { return X::name; }
  std::string collName() const override { return X::collName; }
  std::string dataName() const override { return X::dataName; }
  std::string package() const override { return X::package; }
  unsigned schemaVersion() const override { return X::schemaVersion; }
  bool isLink() const override { return X::isLink; }
  int nMem() const override { return X::nMem; }
  int nVec() const override { return X::nVec; }
  int nOne() const override { return X::nOne; }
  int nMany() const override { return X::nMany; }
  std::string memName(int i) const override { return X::memName(i); }
  std::string vecName(int i) const override { return X::vecName(i); }
  std::string vecTypeName(int i) const override { return X::vecTypeName(i); }
  std::string oneName(int i) const override { return X::oneName(i); }
  std::string manyName(int i) const override { return X::manyName(i); }
  std::vector<int> oneTypes(int i) const override { return X::oneTypes(i); }
  std::vector<int> manyTypes(int i) const override { return X::manyTypes(i); }
  bool oneIface(int i) const override { return X::oneIface(i); }
  bool manyIface(int i) const override { return X::manyIface(i); }
  std::vector<std::string> defaults() const override {
    std::vector<std::string> r(X::nMem);
    X::defaults([&](int i, const auto& v) { r[size_t(i)] = canonS(v); });
    return r;
  }
  HP make() const override { return wm(M()); }
  bool hasArgs() const override { return X::hasArgs; }
  HP makeArgs(Rng& r, std::vector<std::string>& mem) const override {
    if constexpr (X::hasArgs) {
      return wm(X::ctor(r, mem));
    }
    return make();
  }
  HP makeEmpty() const override { return wc(C::makeEmpty()); }
  HP copy(const HandleBase& h) const override {
    return with(h, [&](auto& x) { return wrap(x, index, h.mut); });
  }
  HP toConst(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return wc(C(x)); });
  }
  HP moveFrom(HandleBase& h) const override {
    return with(h, [&](auto& x) -> HP {
      using H = std::remove_cvref_t<decltype(x)>;
      H y(std::move(x));
      return wrap<H>(y, index, h.mut);
    });
  }
  HP clone(const HandleBase& h, bool rel) const override {
    return withConst(h, [&](const auto& x) { return wm(x.clone(rel)); });
  }
  HP cloneDefault(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return wm(x.clone()); });
  }
  void assign(HandleBase& d, const HandleBase& s) const override {
    if (d.mut) {
      as<M>(d) = m(s);
    } else if (s.mut) {
      as<C>(d) = as<M>(s);
    } else {
      as<C>(d) = as<C>(s);
    }
  }
  void swap(HandleBase& a, HandleBase& b) const override {
    if (a.mut != b.mut) {
      internalError("swap of different handles");
    }
    using std::swap;
    if (a.mut) {
      swap(as<M>(a), as<M>(b));
    } else {
      swap(as<C>(a), as<C>(b));
    }
  }
  void unlink(HandleBase& h) const override {
    with(h, [&](auto& x) { x.unlink(); });
  }
  bool available(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return bool(x.isAvailable()); });
  }
  podio::ObjectID id(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return podio::ObjectID(x.id()); });
  }
  podio::ObjectID objectID(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return podio::ObjectID(x.getObjectID()); });
  }
  bool eq(const HandleBase& a, const HandleBase& b) const override {
    return withConst(a, [&](const auto& x) { return withConst(b, [&](const auto& y) { return bool(x == y); }); });
  }
  bool ne(const HandleBase& a, const HandleBase& b) const override {
    return withConst(a, [&](const auto& x) { return withConst(b, [&](const auto& y) { return bool(x != y); }); });
  }
  bool less(const HandleBase& a, const HandleBase& b) const override {
    if (a.mut && b.mut) {
      return as<M>(a) < as<M>(b);
    }
    return C(as<C>(*toConst(a))) < C(as<C>(*toConst(b)));
  }
  size_t hash(const HandleBase& h) const override {
    return withConst(h, [&](const auto& x) { return std::hash<std::remove_cvref_t<decltype(x)>>{}(x); });
  }
  // members
  std::string mem(const HandleBase& h, int i) const override {
    std::string o;
    withConst(h, [&](const auto& x) { X::mem(x, i, [&](const auto& v) { canon(o, v); }); });
    return o;
  }
  void setMem(HandleBase& h, int i, Rng& r, int how, std::string& out) const override { X::set(m(h), i, r, how, out); }
  int nSub(int i) const override { return X::nSub(i); }
  void setSub(HandleBase& h, int i, int s, Rng& r, std::string& out) const override { X::setSub(m(h), i, s, r, out); }
  void checkSub(const HandleBase& h, int i) const override {
    withConst(h, [&](const auto& x) { X::checkSub(x, i); });
  }
  template <class Out, class Conv, class Sz, class At, class B, class E, class Rg>
  static std::vector<Out> seq(Access a, Conv conv, Sz sz, At at, B b, E e, Rg rg) {
    std::vector<Out> r;
    switch (a) {
    case Access::Index:
    case Access::At: {
      const size_t n = sz();
      for (size_t i = 0; i < n; ++i) {
        r.push_back(conv(at(i)));
      }
      break;
    }
    case Access::Iter:
    case Access::ConstIter: {
      auto end = e();
      for (auto it = b(); it != end; ++it) {
        r.push_back(conv(*it));
      }
      break;
    }
    case Access::Range: {
      auto range = rg();
      for (const auto& x : range) {
        r.push_back(conv(x));
      }
      const size_t n = r.size();
      check(range.size() == n, "relation-range:size", std::to_string(range.size()) + " vs " + std::to_string(n));
      check(range.empty() == (n == 0), "relation-range:empty");
      for (size_t i = 0; i < std::min<size_t>(n, 8); ++i) {
        check(sameAs(range[i], range.at(i)), "relation-range:index-vs-at", std::to_string(i));
      }
      break;
    }
    }
    return r;
  }
  template <class A>
  static bool sameAs(const A& a, const A& b) {
    if constexpr (requires(std::string & s) { canon(s, a); }) {
      return canonS(a) == canonS(b);
    } else {
      return a == b;
    }
  }
  std::vector<std::string> vec(const HandleBase& h, int v, Access a) const override {
    std::vector<std::string> r;
    withConst(h, [&](const auto& x) {
      X::vec(x, v, [&](auto sz, auto at, auto b, auto e, auto rg) {
        r = seq<std::string>(a, [](const auto& y) { return canonS(y); }, sz, at, b, e, rg);
      });
    });
    return r;
  }
  size_t vecSize(const HandleBase& h, int v) const override {
    size_t n = 0;
    withConst(h, [&](const auto& x) { X::vec(x, v, [&](auto sz, auto, auto, auto, auto) { n = sz(); }); });
    return n;
  }
  void vecAt(const HandleBase& h, int v, size_t i) const override {
    withConst(h, [&](const auto& x) { X::vec(x, v, [&](auto, auto at, auto, auto, auto) { (void)at(i); }); });
  }
  void vecRangeAt(const HandleBase& h, int v, size_t i) const override {
    withConst(h, [&](const auto& x) { X::vec(x, v, [&](auto, auto, auto, auto, auto rg) { auto r = rg(); (void)r.at(i); }); });
  }
  void vecAdd(HandleBase& h, int v, Rng& r, std::string& out) const override { X::vecAdd(m(h), v, r, out); }
  Ref one(const HandleBase& h, int i) const override {
    Ref r;
    withConst(h, [&](const auto& x) { X::one(x, i, [&](const auto& t) { r = makeRef(t); }); });
    return r;
  }
  void setOne(HandleBase& h, int i, const HandleBase* t) const override { X::oneSet(m(h), i, t); }
  size_t manySize(const HandleBase& h, int i) const override {
    size_t n = 0;
    withConst(h, [&](const auto& x) { X::many(x, i, [&](auto sz, auto, auto, auto, auto) { n = sz(); }); });
    return n;
  }
  std::vector<Ref> many(const HandleBase& h, int i, Access a) const override {
    std::vector<Ref> r;
    withConst(h, [&](const auto& x) {
      X::many(x, i, [&](auto sz, auto at, auto b, auto e, auto rg) {
        r = seq<Ref>(a, [](const auto& y) { return makeRef(y); }, sz, at, b, e, rg);
      });
    });
    return r;
  }
  void manyAt(const HandleBase& h, int v, size_t i) const override {
    withConst(h, [&](const auto& x) { X::many(x, v, [&](auto, auto at, auto, auto, auto) { (void)at(i); }); });
  }
  void manyRangeAt(const HandleBase& h, int v, size_t i) const override {
    withConst(h, [&](const auto& x) { X::many(x, v, [&](auto, auto, auto, auto, auto rg) { auto r = rg(); (void)r.at(i); }); });
  }
  void addMany(HandleBase& h, int i, const HandleBase& t) const override { X::manyAdd(m(h), i, t); }

  // collections
  std::unique_ptr<podio::CollectionBase> newColl() const override { return std::make_unique<Coll>(); }
  bool isColl(const podio::CollectionBase* c) const override { return dynamic_cast<const Coll*>(c) != nullptr; }
  std::unique_ptr<podio::CollectionBase> moveColl(podio::CollectionBase& c) const override {
    return std::make_unique<Coll>(std::move(coll(c)));
  }
  void moveAssign(podio::CollectionBase& d, podio::CollectionBase& s) const override { coll(d) = std::move(coll(s)); }
  void swapColl(podio::CollectionBase& d, podio::CollectionBase& s) const override {
    using std::swap;
    swap(coll(d), coll(s));
  }
  std::unique_ptr<podio::CollectionBase> fromHandles(const std::vector<HP>& hs, bool asConst) const override {
    if (asConst) {
      std::vector<C> v;
      for (auto& h : hs) {
        v.push_back(as<C>(*toConst(*h)));
      }
      return std::make_unique<Coll>(Coll::from(v));
    }
    std::vector<M> v;
    for (auto& h : hs) {
      v.push_back(m(*h));
    }
    return std::make_unique<Coll>(Coll::from(v));
  }
  HP create(podio::CollectionBase& c) const override { return wm(coll(c).create()); }
  HP createArgs(podio::CollectionBase& c, Rng& r, std::vector<std::string>& mem) const override {
    if constexpr (X::hasArgs && !X::isLink) {
      HP h;
      X::withArgs(r, mem, [&](const auto&... a) { h = wm(coll(c).create(a...)); });
      return h;
    }
    HP h = create(c);
    for (const auto& d : defaults()) {
      mem.push_back(d);
    }
    return h;
  }
  void push(podio::CollectionBase& c, const HandleBase& h) const override {
    if (h.mut) {
      coll(c).push_back(as<M>(h));
    } else {
      coll(c).push_back(as<C>(h));
    }
  }
  HP at(const podio::CollectionBase& c, size_t i, Access a) const override {
    return wc(a == Access::At ? coll(c).at(i) : coll(c)[i]);
  }
  HP atMut(podio::CollectionBase& c, size_t i, Access a) const override {
    return wm(a == Access::At ? coll(c).at(i) : coll(c)[i]);
  }
  std::vector<HP> elements(const podio::CollectionBase& cb, int how) const override {
    std::vector<HP> r;
    const auto& c = coll(cb);
    if (how == 0) {
      for (auto e : c) {
        static_assert(std::is_same_v<decltype(e), C>);
        r.push_back(wc(e));
      }
    } else if (how == 1) {
      for (auto it = c.rbegin(); it != c.rend(); ++it) {
        r.push_back(wc(*it));
      }
      std::reverse(r.begin(), r.end());
    } else {
      for (auto it = c.cbegin(); it != c.cend(); it++) {
        auto p = it.operator->();
        r.push_back(wc(*p));
      }
    }
    return r;
  }
  std::vector<HP> elementsMut(podio::CollectionBase& cb, int how) const override {
    std::vector<HP> r;
    auto& c = coll(cb);
    if (how == 0) {
      for (auto e : c) {
        static_assert(std::is_same_v<decltype(e), M>);
        r.push_back(wm(e));
      }
    } else if (how == 1) {
      for (auto it = c.rbegin(); it != c.rend(); ++it) {
        r.push_back(wm(*it));
      }
      std::reverse(r.begin(), r.end());
    } else {
      for (auto it = c.begin(); it != c.end(); it++) {
        auto p = it.operator->();
        r.push_back(wm(*p));
      }
    }
    return r;
  }
#ifdef VF_ITER
  template <class It>
  static void laws(const char* which, It b, It e, int64_t n, const std::vector<size_t>& ident, Rng& r, int rounds) {
    const std::string k = std::string("iterator:") + which + ":";
    auto H = [](const auto& x) { return std::hash<std::remove_cvref_t<decltype(x)>>{}(x); };
    check(e - b == n, k + "distance", std::to_string(e - b) + " vs " + std::to_string(n));
    check(b - e == -n, k + "negative-distance");
    check(b + n == e, k + "begin+n==end");
    check(n + b == e, k + "n+begin==end");
    check(e - n == b, k + "end-n==begin");
    check((b == e) == (n == 0), k + "empty");
    for (int q = 0; q < rounds; ++q) {
      const int64_t i = r.range(0, n), j = r.range(0, n);
      It x = b + i, y = b;
      y += j;
      check(y - x == j - i, k + "difference", std::to_string(i) + "," + std::to_string(j));
      check((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) &&
                (x == y) == (i == j) && (x != y) == (i != j),
            k + "ordering", std::to_string(i) + "," + std::to_string(j));
      It z = y;
      z -= (j - i);
      check(z == x, k + "minus-assign");
      check(&(z -= 0) == &z && &(z += 0) == &z, k + "compound-returns-self");
      check(y + (i - j) == x, k + "plus-negative");
      if (i < n) {
        check(H(*x) == ident[size_t(i)], k + "deref", std::to_string(i));
        check(H(b[i]) == ident[size_t(i)], k + "subscript", std::to_string(i));
        check(H(y[i - j]) == ident[size_t(i)], k + "subscript-offset");
        It p = x;
        It old = p++;
        check(old == x && p == x + 1, k + "post-increment");
        p = x;
        It& pre = ++p;
        check(&pre == &p && p - x == 1, k + "pre-increment");
        It old2 = p--;
        check(old2 - x == 1 && p == x, k + "post-decrement");
        ++p;
        It& pred = --p;
        check(&pred == &p && p == x, k + "pre-decrement");
        check(H(*p) == ident[size_t(i)], k + "deref-after-steps");
        It cp(x);
        auto ptr = cp.operator->();
        check(H(*ptr) == ident[size_t(i)], k + "arrow");
        // interleave: dereference at several positions of one iterator
        if (n > 1) {
          const int64_t l = r.range(0, n - 1);
          cp += l - i;
          check(H(*cp) == ident[size_t(l)], k + "deref-after-jump");
          auto ptr2 = cp.operator->();
          check(H(*ptr2) == ident[size_t(l)], k + "arrow-after-jump");
        }
      }
    }
  }
  void iterLaws(podio::CollectionBase& cb, Rng& r, int rounds) const override {
    auto& c = coll(cb);
    const auto& cc = std::as_const(c);
    std::vector<size_t> id, rid;
    for (size_t i = 0; i < c.size(); ++i) {
      id.push_back(std::hash<C>{}(cc[i]));
      checkNum(int64_t(std::hash<M>{}(c[i]) == id.back()), 1, "iterator:hash-of-mutable");
    }
    const int64_t n = int64_t(c.size());
    laws("const", cc.begin(), cc.end(), n, id, r, rounds);
    laws("cbegin", c.cbegin(), c.cend(), n, id, r, rounds);
    laws("mutable", c.begin(), c.end(), n, id, r, rounds);
    // reverse iterators (std::reverse_iterator over ours)
    auto rl = [&](const char* w, auto b, auto e) {
      const std::string k = std::string("iterator:") + w + ":";
      auto Hh = [](const auto& x) { return std::hash<std::remove_cvref_t<decltype(x)>>{}(x); };
      check(e - b == n, k + "distance");
      for (int q = 0; q < rounds && n > 0; ++q) {
        int64_t i = r.range(0, n - 1);
        check(Hh(*(b + i)) == id[size_t(n - 1 - i)], k + "deref");
        check(Hh(b[i]) == id[size_t(n - 1 - i)], k + "subscript");
      }
      size_t i = id.size();
      for (auto it = b; it != e; ++it) {
        check(i > 0 && Hh(*it) == id[i - 1], k + "sequence");
        --i;
      }
      check(i == 0, k + "length");
    };
    rl("crbegin", c.crbegin(), c.crend());
    rl("rbegin-const", cc.rbegin(), cc.rend());
    rl("rbegin", c.rbegin(), c.rend());
    // algorithms and ranges against the plain vector
    std::vector<C> plain;
    for (size_t i = 0; i < c.size(); ++i) {
      plain.push_back(cc[i]);
    }
    check(std::ranges::equal(cc, plain), "algorithm:equal");
    check(std::ranges::distance(cc) == n, "algorithm:distance");
    if (n > 0) {
      const auto& x = plain[r.below(plain.size())];
      check(std::ranges::find(cc, x) - cc.begin() == std::ranges::find(plain, x) - plain.begin(), "algorithm:find");
      check(std::ranges::count(cc, x) == std::ranges::count(plain, x), "algorithm:count");
      auto less = [](const C& a, const C& b) { return a < b; };
      check(std::ranges::max_element(cc, less) - cc.begin() == std::ranges::max_element(plain, less) - plain.begin(), "algorithm:max_element");
      const size_t k = r.below(plain.size() + 1);
      check(std::ranges::equal(cc | std::views::drop(k), plain | std::views::drop(k)), "algorithm:drop");
      check(std::ranges::equal(cc | std::views::take(k), plain | std::views::take(k)), "algorithm:take");
      check(std::ranges::equal(cc | std::views::reverse, plain | std::views::reverse), "algorithm:reverse");
      auto odd = [](const C& e) { return (std::hash<C>{}(e) >> 5) & 1; };
      check(std::ranges::equal(cc | std::views::filter(odd), plain | std::views::filter(odd)), "algorithm:filter");
      std::vector<C> cp;
      std::copy(cc.begin(), cc.end(), std::back_inserter(cp));
      check(cp == plain, "algorithm:copy");
      std::vector<C> ctor(cc.begin(), cc.end());
      check(ctor == plain, "algorithm:vector-ctor");
      std::partial_sort_copy(cc.begin(), cc.end(), cp.begin(), cp.end(), less);
      std::ranges::stable_sort(plain, less);
      check(std::ranges::is_sorted(cp, less) && cp.size() == plain.size(), "algorithm:partial_sort_copy");
    }
  }
#else
  void iterLaws(podio::CollectionBase&, Rng&, int) const override { internalError("built without VF_ITER"); }
#endif
  std::vector<std::string> column(const podio::CollectionBase& c, int i, std::optional<size_t> n) const override {
    std::vector<std::string> r;
    auto take = [&](const auto& v) {
      for (size_t k = 0; k < v.size(); ++k) {
        using V = typename std::remove_cvref_t<decltype(v)>::value_type;
        r.push_back(canonS(static_cast<const V&>(V(v[k]))));
      }
    };
    if (n) {
      X::column(coll(c), i, *n, take);
    } else {
      X::columnAll(coll(c), i, take);
    }
    return r;
  }
#ifdef VF_JSON
  std::string jsonColl(const podio::CollectionBase& c) const override { return nlohmann::json(coll(c)).dump(-1, ' ', true, nlohmann::json::error_handler_t::replace); }
  std::string jsonHandle(const HandleBase& h) const override {
    if constexpr (X::isLink) {
      return nlohmann::json(as<C>(*toConst(h))).dump();
    } else {
      return withConst(h, [&](const auto& x) { return nlohmann::json(x).dump(-1, ' ', true, nlohmann::json::error_handler_t::replace); });
    }
  }
#else
  std::string jsonColl(const podio::CollectionBase&) const override { return ""; }
  std::string jsonHandle(const HandleBase&) const override { return ""; }
#endif
  std::string print(const HandleBase& h) const override {
    std::ostringstream o;
    printTo(h, o);
    return o.str();
  }
  void printTo(const HandleBase& h, std::ostream& o) const override {
    if constexpr (X::isLink) {
      o << as<C>(*toConst(h));
    } else {
      withConst(h, [&](const auto& x) { o << x; });
    }
  }
  void printCollTo(const podio::CollectionBase& c, std::ostream& o) const override { o << coll(c); }
  // storage
  StoredColl store(podio::CollectionBase& c) const override {
    StoredColl s;
    auto b = c.getBuffers();
    s.type = std::string(c.getTypeName());
    s.subset = c.isSubsetCollection();
    s.version = c.getSchemaVersion();
    s.id = c.getID();
    if (b.references) {
      for (auto& r : *b.references) {
        s.refs.push_back(r ? *r : std::vector<podio::ObjectID>{});
      }
    }
    if (!s.subset) {
      s.data = *b.template dataAsVector<Data>();
      if (b.vectorMembers) {
        int i = 0;
        for (auto& [tn, p] : *b.vectorMembers) {
          X::vecType(i, [&](auto* null) {
            using V = std::remove_pointer_t<decltype(null)>;
            s.vecs.push_back(**static_cast<std::vector<V>**>(p));
          });
          checkEq(tn, vecTypeName(i), "buffers:vector-member-type-name", name());
          ++i;
        }
      }
    }
    return s;
  }
  void fill(podio::CollectionReadBuffers& b, const StoredColl& s) const override {
    if (b.references) {
      for (size_t i = 0; i < b.references->size() && i < s.refs.size(); ++i) {
        *(*b.references)[i] = s.refs[i];
      }
    }
    if (!s.subset) {
      *b.template dataAsVector<Data>() = std::any_cast<const std::vector<Data>&>(s.data);
      if (b.vectorMembers) {
        for (size_t i = 0; i < b.vectorMembers->size() && i < s.vecs.size(); ++i) {
          X::vecType(int(i), [&](auto* null) {
            using V = std::remove_pointer_t<decltype(null)>;
            *static_cast<std::vector<V>*>((*b.vectorMembers)[i].second) = std::any_cast<const std::vector<V>&>(s.vecs[i]);
          });
        }
      }
    }
  }
  size_t storedSize(const StoredColl& s) const override {
    return s.subset ? 0 : std::any_cast<const std::vector<Data>&>(s.data).size();
  }
  std::vector<std::string> storedMembers(const StoredColl& s) const override {
    std::vector<std::string> r;
    if (s.subset) {
      return r;
    }
    for (const auto& d : std::any_cast<const std::vector<Data>&>(s.data)) {
      std::string o;
      X::dataMem(d, [&](int, const auto& v) {
        canon(o, v);
        o += '|';
      });
      r.push_back(o);
    }
    return r;
  }
  std::string checkEmptyBuffers(podio::CollectionReadBuffers& b, bool subset) const override {
    const size_t wantRefs = subset ? 1 : size_t(X::nMany + X::nOne);
    const size_t wantVecs = subset ? 0 : size_t(X::nVec);
    const size_t refs = b.references ? b.references->size() : 0, vecs = b.vectorMembers ? b.vectorMembers->size() : 0;
    if (subset != (b.data == nullptr)) {
      return "data storage " + std::string(b.data ? "present" : "missing");
    }
    if (refs != wantRefs) {
      return "reference vectors " + std::to_string(refs) + " instead of " + std::to_string(wantRefs);
    }
    if (vecs != wantVecs) {
      return "vector members " + std::to_string(vecs) + " instead of " + std::to_string(wantVecs);
    }
    if (b.data && !b.template dataAsVector<Data>()->empty()) {
      return "data not empty";
    }
    for (size_t i = 0; i < refs; ++i) {
      if (!(*b.references)[i] || !(*b.references)[i]->empty()) {
        return "reference vector missing or not empty";
      }
    }
    for (size_t i = 0; i < vecs; ++i) {
      if (!(*b.vectorMembers)[i].second) {
        return "vector member storage missing";
      }
      std::string bad;
      X::vecType(int(i), [&](auto* null) {
        using V = std::remove_pointer_t<decltype(null)>;
        if (!static_cast<std::vector<V>*>((*b.vectorMembers)[i].second)->empty()) {
          bad = "vector member storage not empty";
        }
      });
      if (!bad.empty()) {
        return bad;
      }
    }
    return "";
  }
  const podio::CollectionBase* putTyped(podio::Frame& f, podio::CollectionBase& c, const std::string& n) const override {
    return &f.put(std::move(coll(c)), n);
  }
  const podio::CollectionBase* getTyped(const podio::Frame& f, const std::string& n) const override { return &f.get<Coll>(n); }
  void linkChecks(const HandleBase& hb) const override {
    if constexpr (X::isLink) {
      withConst(hb, [&](const auto& l) {
        check(l.template get<0>() == l.getFrom() && l.template get<1>() == l.getTo(), "link:get-index");
        check(canonS(l.template get<2>()) == canonS(l.getWeight()), "link:get-weight");
        auto [f, t, w] = l;
        check(f == l.getFrom() && t == l.getTo() && canonS(w) == canonS(l.getWeight()), "link:structured-binding");
        using F = typename X::From_t;
        using To = typename X::To_t;
        if constexpr (!std::is_same_v<F, To>) {
          check(l.template get<F>() == l.getFrom() && l.template get<To>() == l.getTo(), "link:get-type");
        }
      });
    }
  }
};
} // namespace vf
