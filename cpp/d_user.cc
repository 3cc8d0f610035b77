// C15: user data collections against vectors of values.
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/SchemaEvolution.h"
#include "podio/UserDataCollection.h"
#include "vf_base.h"
#include "vf_leak.h"
#include <algorithm>
#include <list>
#include <numeric>
#include <ranges>
using namespace vf;

namespace {
template <class V>
std::string show(const V& v) {
  std::string s;
  canon(s, std::vector<std::decay_t<decltype(*std::begin(v))>>(std::begin(v), std::end(v)));
  return s;
}
struct Raw { // what a backend keeps
  std::any data;
  std::string type;
  uint32_t id;
  podio::SchemaVersionT version;
};
template <class X>
struct TestFrameData {
  std::map<std::string, Raw> colls;
  podio::CollectionIDTable table;
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& n) {
    auto it = colls.find(n);
    if (it == colls.end()) {
      return std::nullopt;
    }
    auto b = podio::CollectionBufferFactory::instance().createBuffers(it->second.type, it->second.version, false);
    if (b) {
      *b->template dataAsVector<X>() = std::any_cast<std::vector<X>&>(it->second.data);
    }
    colls.erase(it);
    return b;
  }
  podio::CollectionIDTable getIDTable() const { return {table.ids(), table.names()}; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(); }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (auto& [n, _] : colls) {
      r.push_back(n);
    }
    return r;
  }
};
template <class X>
struct UserTest {
  using C = podio::UserDataCollection<X>;
  static_assert(std::is_same_v<typename C::value_type, X> && std::is_base_of_v<podio::CollectionBase, C>);
  static_assert(!std::is_copy_constructible_v<C> && std::is_nothrow_move_constructible_v<std::vector<X>> && std::is_move_constructible_v<C>);
  Rng& r;
  const std::string vn; // name of the value type
  std::vector<std::unique_ptr<C>> c;
  std::vector<std::vector<X>> m;
  std::vector<std::optional<uint32_t>> ids;
  UserTest(Rng& rr, const std::string& n) : r(rr), vn(n), c(4), m(4), ids(4) {
    for (auto& x : c) {
      x = std::make_unique<C>();
    }
  }
  X val() {
    X v;
    gen(r, v);
    return v;
  }
  std::vector<X> vals(size_t n) {
    std::vector<X> v;
    for (size_t i = 0; i < n; ++i) {
      v.push_back(val());
    }
    return v;
  }
  size_t len() { return r.chance(0.05) ? r.below(5000) : r.below(12); }

  void sameValues(const C& k, const std::vector<X>& w, const std::string& where) {
    const std::string want = show(w);
    checkNum(int64_t(k.size()), int64_t(w.size()), "user:size:" + vn, where);
    check(k.empty() == w.empty(), "user:empty:" + vn, where);
    check(k.max_size() >= k.size(), "user:max-size:" + vn, where);
    checkEq(show(k.vec()), want, "user:vec:" + vn, where);
    switch (r.below(6)) {
    case 0: {
      std::vector<X> v;
      for (size_t i = 0; i < k.size(); ++i) {
        v.push_back(k[i]);
      }
      checkEq(show(v), want, "user:index:" + vn, where);
      break;
    }
    case 1: {
      std::vector<X> v;
      for (size_t i = 0; i < k.size(); ++i) {
        v.push_back(k.at(i));
      }
      checkEq(show(v), want, "user:at:" + vn, where);
      break;
    }
    case 2: {
      std::vector<X> v;
      for (auto x : k) {
        v.push_back(x);
      }
      checkEq(show(v), want, "user:range:" + vn, where);
      break;
    }
    case 3: {
      std::vector<X> v(k.rbegin(), k.rend()), u(k.crbegin(), k.crend());
      std::reverse(v.begin(), v.end());
      std::reverse(u.begin(), u.end());
      checkEq(show(v), want, "user:reverse:" + vn, where);
      checkEq(show(u), want, "user:const-reverse:" + vn, where);
      break;
    }
    case 4:
      checkEq(show(std::vector<X>(k.cbegin(), k.cend())), want, "user:const-iterators:" + vn, where);
      checkNum(std::ranges::distance(k), int64_t(w.size()), "user:distance:" + vn, where);
      break;
    default: {
      C& mk = const_cast<C&>(k);
      checkEq(show(std::vector<X>(mk.begin(), mk.end())), want, "user:iterators:" + vn, where);
      std::vector<X> v(mk.rbegin(), mk.rend());
      std::reverse(v.begin(), v.end());
      checkEq(show(v), want, "user:mutable-reverse:" + vn, where);
    }
    }
    expectThrow<std::out_of_range>("user:at:" + vn, [&] { (void)k.at(w.size()); });
    expectThrow<std::out_of_range>("user:at-mutable:" + vn, [&] { (void)const_cast<C&>(k).at(w.size() + r.below(3)); });
    expectThrow<std::out_of_range>("user:at-max:" + vn, [&] { (void)k.at(size_t(-1)); });
  }
  void look(size_t k, const std::string& where) {
    sameValues(*c[k], m[k], where);
    const podio::CollectionBase& b = *c[k];
    checkNum(int64_t(b.size()), int64_t(m[k].size()), "user:base-size:" + vn);
    checkEq(std::string(b.getTypeName()), "podio::UserDataCollection<" + vn + ">", "user:type-name:" + vn);
    checkEq(std::string(b.getValueTypeName()), vn, "user:value-type-name:" + vn);
    checkEq(std::string(b.getDataTypeName()), vn, "user:data-type-name:" + vn);
    checkEq(std::string(C::typeName), "podio::UserDataCollection<" + vn + ">", "user:static-type-name:" + vn);
    check(!b.isSubsetCollection(), "user:subset:" + vn);
    checkNum(b.getSchemaVersion(), C::schemaVersion, "user:schema-version:" + vn);
    if (ids[k]) {
      checkNum(b.getID(), *ids[k], "user:id:" + vn);
      check(b.hasID() == (*ids[k] != uint32_t(-1) && *ids[k] != uint32_t(-2)), "user:hasID:" + vn, std::to_string(*ids[k]));
    }
  }
  void buffers(size_t k) {
    podio::CollectionBase& b = *c[k];
    b.prepareForWrite();
    for (int i = 0; i < 2; ++i) { // asking again gives the same
      auto w = b.getBuffers();
      auto* v = w.template dataAsVector<X>();
      check(v && show(*v) == show(m[k]), "user:write-buffers:" + vn, v ? show(*v) + " expected " + show(m[k]) : "no data");
      auto** pp = static_cast<std::vector<X>**>(w.data);
      check(pp && *pp == &c[k]->vec(), "user:write-buffers-pointer:" + vn, "the pointer for writing does not point to the data of this collection");
      check(!w.references || w.references->empty(), "user:write-buffers-references:" + vn);
      check(!w.vectorMembers || w.vectorMembers->empty(), "user:write-buffers-vector-members:" + vn);
    }
    // to read buffers and back
    auto& f = podio::CollectionBufferFactory::instance();
    auto rb = f.createBuffers("podio::UserDataCollection<" + vn + ">", C::schemaVersion, r.chance(0.2));
    if (!check(bool(rb), "user:no-buffers:" + vn)) {
      return;
    }
    check(rb->data && rb->template dataAsVector<X>()->empty(), "user:buffers-not-empty:" + vn);
    checkEq(std::string(rb->type), "podio::UserDataCollection<" + vn + ">", "user:buffers-type:" + vn);
    *rb->template dataAsVector<X>() = m[k];
    if (r.chance(0.2)) {
      rb->deleteBuffers(*rb);
      return;
    }
    auto ev = podio::SchemaEvolution::instance().evolveBuffers(std::move(*rb), C::schemaVersion, "podio::UserDataCollection<" + vn + ">");
    auto coll = ev.createCollection(std::move(ev), false);
    auto* uc = dynamic_cast<C*>(coll.get());
    if (check(uc, "user:buffers-make-other-type:" + vn)) {
      uc->prepareAfterRead();
      check(uc->setReferences(nullptr), "user:setReferences:" + vn);
      sameValues(*uc, m[k], "from buffers");
    }
    stat("buffers");
  }
  void frames(size_t k, uint64_t& hash) { // stores and reads all collections, in changing order
    podio::Frame f;
    std::map<std::string, std::vector<X>> want;
    const std::string pre = "user" + std::to_string(r.below(1000));
    std::vector<const C*> stored;
    for (size_t q = 0; q < c.size(); ++q) {
      if (q == k || r.chance(0.5)) {
        const auto n = pre + "_" + std::to_string(q);
        want[n] = m[q];
        switch (r.below(3)) {
        case 0: {
          const auto& ref = f.put(std::move(*c[q]), n);
          sameValues(ref, m[q], "returned by put");
          break;
        }
        case 1:
          f.put(std::unique_ptr<podio::CollectionBase>(std::move(c[q])), n);
          break;
        default: {
          C tmp{std::vector<X>(m[q])};
          f.put(std::move(tmp), n);
        }
        }
        c[q] = std::make_unique<C>();
        m[q].clear();
        ids[q].reset();
      }
    }
    auto look = [&](const podio::Frame& g, const std::string& where) {
      std::vector<std::string> ns;
      for (auto& [n, _] : want) {
        ns.insert(ns.begin() + long(r.below(ns.size() + 1)), n);
      }
      for (auto& n : ns) {
        const auto& u = g.get<C>(n);
        sameValues(u, want[n], where);
        checkNum(u.getID(), int64_t(g.getCollectionIDTableForWrite().collectionID(n).value_or(0)), "user:id-in-frame:" + vn);
        const auto* b = g.get(n);
        check(b == &u, "user:get-differs:" + vn);
        using Other = podio::UserDataCollection<std::conditional_t<std::is_same_v<X, float>, double, float>>;
        expectThrow<std::runtime_error>("user:get-as-other-type:" + vn, [&] { (void)g.get<Other>(n); });
      }
    };
    look(f, "in the frame");
    for (int gen = 0; gen < 2; ++gen) {
      auto d = std::make_unique<TestFrameData<X>>();
      std::vector<uint32_t> is;
      std::vector<std::string> ns;
      for (auto& [n, v] : want) {
        const auto* b = f.getCollectionForWrite(n);
        if (!check(b, "user:not-for-write:" + vn)) {
          return;
        }
        auto w = const_cast<podio::CollectionBase*>(b)->getBuffers();
        d->colls[n] = {*w.template dataAsVector<X>(), std::string(b->getTypeName()), b->getID(), b->getSchemaVersion()};
        is.push_back(b->getID());
        ns.push_back(n);
      }
      d->table = podio::CollectionIDTable(is, ns);
      f = podio::Frame(std::move(d));
      look(f, "read back");
      stat("frames_read");
    }
    hash = mix(hash, want.size());
  }
  void history(uint64_t& hash) {
    const size_t n = size_t(r.range(10, 60));
    for (size_t s = 0; s < n && !caseFailed(); ++s) {
      const size_t k = r.below(4), q = r.below(4);
      const int op = int(r.below(20));
      hash = mix(hash, uint64_t(op) * 16 + k * 4 + q);
      note("op " + std::to_string(op) + " on " + std::to_string(k) + "," + std::to_string(q));
      auto& x = *c[k];
      auto& v = m[k];
      switch (op) {
      case 0:
      case 1: {
        const auto w = vals(len());
        for (auto& y : w) {
          x.push_back(y);
          v.push_back(y);
        }
        break;
      }
      case 2: {
        auto& y = x.create();
        v.emplace_back();
        checkEq(canonS(X(y)), canonS(v.back()), "user:create-value:" + vn);
        y = v.back() = val();
        break;
      }
      case 3: {
        const size_t w = len();
        x.resize(w);
        v.resize(w);
        break;
      }
      case 4: {
        const auto w = vals(1)[0];
        if (!v.empty()) {
          const size_t i = r.below(v.size());
          (r.chance(0.5) ? x[i] : x.at(i)) = w;
          v[i] = w;
        }
        break;
      }
      case 5: // through iterators
        for (auto& y : x) {
          y = y > X(50) ? X(1) : X(y / X(2));
        }
        for (auto& y : v) {
          y = y > X(50) ? X(1) : X(y / X(2));
        }
        break;
      case 6:
        std::reverse(x.begin(), x.end());
        std::reverse(v.begin(), v.end());
        break;
      case 7: { // through the vector
        const auto w = vals(len());
        x.vec().insert(x.vec().begin() + long(v.size() / 2), w.begin(), w.end());
        v.insert(v.begin() + long(v.size() / 2), w.begin(), w.end());
        break;
      }
      case 8:
        x.clear();
        v.clear();
        break;
      case 9: // move
        if (k != q) {
          c[k] = std::make_unique<C>(std::move(*c[q]));
          m[k] = std::move(m[q]);
          ids[k] = ids[q];
          c[q] = std::make_unique<C>();
          m[q].clear();
          ids[q].reset();
        }
        break;
      case 10:
        if (k != q) {
          *c[k] = std::move(*c[q]);
          m[k] = std::move(m[q]);
          ids[k] = ids[q];
          // a moved from collection may be assigned to
          *c[q] = C(std::vector<X>(m[k]));
          m[q] = m[k];
          ids[q].reset();
        }
        break;
      case 11: {
        using std::swap;
        swap(*c[k], *c[q]);
        std::swap(m[k], m[q]);
        std::swap(ids[k], ids[q]);
        break;
      }
      case 12: { // from a vector, which is taken over
        auto w = vals(len());
        m[k] = w;
        const auto* p = w.data();
        c[k] = std::make_unique<C>(std::move(w));
        check(m[k].empty() || c[k]->vec().data() == p, "user:vector-not-moved:" + vn, "the vector was copied");
        ids[k].reset();
        break;
      }
      case 13: { // from ranges
        auto w = vals(len());
        ids[k].reset();
        switch (r.below(4)) {
        case 0:
          *c[k] = C::from(w);
          m[k] = w;
          break;
        case 1: {
          std::list<X> l(w.begin(), w.end());
          *c[k] = C::from(l);
          m[k] = w;
          break;
        }
        case 2:
          *c[k] = C::from(w | std::views::reverse);
          m[k] = {w.rbegin(), w.rend()};
          break;
        default: {
          const int top = int(r.below(120));
          *c[k] = C::from(std::views::iota(0, top) | std::views::filter([](int z) { return z % 3 == 1; }));
          m[k].clear();
          for (int z = 1; z < top; z += 3) {
            m[k].push_back(X(z));
          }
        }
        }
        break;
      }
      case 14: {
        static const uint32_t sp[] = {0, 1, 42, uint32_t(-1), uint32_t(-2), uint32_t(-3)};
        const uint32_t id = r.chance(0.4) ? sp[r.below(6)] : uint32_t(r.next());
        x.setID(id);
        ids[k] = id;
        break;
      }
      case 15: // refused or without effect
        x.setSubsetCollection(r.chance(0.7));
        check(x.setReferences(nullptr), "user:setReferences:" + vn);
        x.prepareAfterRead();
        x.prepareForWrite();
        break;
      case 16:
      case 17:
        buffers(k);
        break;
      case 18:
        if (r.chance(0.5)) {
          frames(k, hash);
        }
        break;
      default: {
        std::ostringstream os;
        os << x;
        std::ostringstream w;
        w << "[";
        for (size_t i = 0; i < v.size(); ++i) {
          w << (i ? ", " : "") << v[i];
        }
        w << "]";
        checkEq(os.str(), w.str(), "user:print:" + vn);
      }
      }
      look(r.chance(0.5) ? k : q, "after op " + std::to_string(op));
      stat("operations");
    }
    for (size_t k = 0; k < 4; ++k) {
      look(k, "at the end");
      if (r.chance(0.3)) {
        buffers(k);
      }
    }
  }
};
template <class X>
void one(Rng& r, const char* n, uint64_t& h) {
  UserTest<X>(r, n).history(h);
}
void run(uint64_t i) {
  Rng r(mix(opts.seed * 1000003 + 83, i));
  uint64_t h = r.below(10);
  setCase(i, "user data " + std::to_string(h));
  switch (h) {
  case 0: one<float>(r, "float", h); break;
  case 1: one<double>(r, "double", h); break;
  case 2: one<int8_t>(r, "int8_t", h); break;
  case 3: one<int16_t>(r, "int16_t", h); break;
  case 4: one<int32_t>(r, "int32_t", h); break;
  case 5: one<int64_t>(r, "int64_t", h); break;
  case 6: one<uint8_t>(r, "uint8_t", h); break;
  case 7: one<uint16_t>(r, "uint16_t", h); break;
  case 8: one<uint32_t>(r, "uint32_t", h); break;
  default: one<uint64_t>(r, "uint64_t", h);
  }
  stat("histories");
  distinct("nontrivial", h);
  sample(recentNotes(12));
}
} // namespace
int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (i % 6 == 0) {
        leakCheck("user data", [&] { run(i); });
      } else {
        run(i);
      }
    }
  });
}
