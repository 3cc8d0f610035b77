// C25: iterators, ranges, algorithms and column access against indexed access
#include "podio/UserDataCollection.h"
#include "vf_event.h"
using namespace vf;

static void compareOrder(const std::vector<HP>& got, const podio::CollectionBase& c, const TypeOps& t, const std::string& k, const std::string& w) {
  if (!checkNum(int64_t(got.size()), int64_t(c.size()), "iteration:" + k + ":length", w)) {
    return;
  }
  for (size_t i = 0; i < got.size(); ++i) {
    auto e = t.at(c, i, Access::Index);
    if (!check(t.hash(*got[i]) == t.hash(*e) && idS(t.id(*got[i])) == idS(t.id(*e)), "iteration:" + k + ":order",
               w + " position " + std::to_string(i) + ": " + idS(t.id(*got[i])) + " instead of " + idS(t.id(*e)))) {
      return;
    }
  }
}
static void checkColl(podio::CollectionBase& c, const MColl& m, Rng& r, const std::string& where) {
  auto& t = T(m.type);
  const std::string w = where + " " + t.name() + (m.subset ? " subset" : "") + " of " + std::to_string(m.elems.size());
  note(w);
  if (!checkNum(int64_t(c.size()), int64_t(m.elems.size()), "size", w)) {
    return;
  }
  t.iterLaws(c, r, opts.thorough() ? 40 : 12);
  for (int how = 0; how < 3; ++how) {
    const std::string k = how == 0 ? "range" : how == 1 ? "reverse" : "arrow";
    compareOrder(t.elements(c, how), c, t, k, w);
    compareOrder(t.elementsMut(c, how), c, t, "mutable-" + k, w);
  }
  const size_t n = m.elems.size();
  for (size_t i = 0; i < n; i += 1 + n / 16) { // indexed access itself shows the elements of the model, in order
    auto a = t.at(c, i, Access::Index), b = t.at(c, i, Access::At), d = t.atMut(c, i, Access::Index);
    for (int k = 0; k < t.nMem(); ++k) {
      checkEq(t.mem(*a, k), m.elems[i]->mem[size_t(k)], "index:" + t.name(), w);
    }
    check(t.hash(*a) == t.hash(*b) && t.hash(*a) == t.hash(*d), "index:same-object", w);
  }
  if (!t.isLink()) {
    for (int k = 0; k < t.nMem(); ++k) {
      std::vector<std::optional<size_t>> lims = {std::nullopt, 1, n, n + 1 + r.below(5), n > 1 ? n - 1 : 1, 1 + r.below(n + 1), size_t(-1)};
      for (auto& l : lims) {
        auto col = t.column(c, k, l);
        const size_t want = l && *l != 0 ? std::min(*l, n) : n;
        const std::string d = w + " member " + t.memName(k) + " limit " + (l ? std::to_string(*l) : "none");
        if (!checkNum(int64_t(col.size()), int64_t(want), "column:length", d)) {
          continue;
        }
        for (size_t i = 0; i < want; ++i) {
          if (!checkEq(col[i], m.elems[i]->mem[size_t(k)], "column:value", d)) {
            break;
          }
        }
        stat("columns");
      }
    }
  }
  stat("collections");
  stat("elements", n);
  statMax("largest", n);
  distinct("nontrivial", hashStr(where.substr(0, 4) + t.name() + (m.subset ? "s" : "o") + std::to_string(n)));
}

template <class V>
static void udLaws(const char* which, V b, V e, const auto& plain, Rng& r) {
  const std::string k = std::string("userdata:") + which + ":";
  const int64_t n = int64_t(plain.size());
  if (!check(e - b == n, k + "distance")) {
    return;
  }
  auto it = b;
  for (int64_t i = 0; i < n; ++i, ++it) {
    if (!checkEq(canonS(*it), canonS(plain[size_t(i)]), k + "sequence")) {
      return;
    }
  }
  check(it == e, k + "end");
  for (int q = 0; q < 8 && n; ++q) {
    int64_t i = r.range(0, n - 1), j = r.range(0, n);
    checkEq(canonS(b[i]), canonS(plain[size_t(i)]), k + "subscript");
    checkEq(canonS(*(b + j + (i - j))), canonS(plain[size_t(i)]), k + "offset");
    check(((b + i) < (b + j)) == (i < j) && (b + j) - (b + i) == j - i, k + "difference");
  }
}
template <class B>
static bool udCheckAs(podio::CollectionBase& cb, const MColl& m, Rng& r) {
  auto* c = dynamic_cast<podio::UserDataCollection<B>*>(&cb);
  if (!c) {
    return false;
  }
  const auto& cc = std::as_const(*c);
  std::vector<B> plain, rev;
  for (size_t i = 0; i < c->size(); ++i) {
    plain.push_back(cc[i]);
    checkEq(canonS(cc[i]), m.udvals[i], "userdata:index");
    checkEq(canonS((*c)[i]), m.udvals[i], "userdata:mutable-index");
    checkEq(canonS(cc.at(i)), m.udvals[i], "userdata:at");
  }
  rev.assign(plain.rbegin(), plain.rend());
  udLaws("const", cc.begin(), cc.end(), plain, r);
  udLaws("cbegin", c->cbegin(), c->cend(), plain, r);
  udLaws("mutable", c->begin(), c->end(), plain, r);
  udLaws("rbegin", c->rbegin(), c->rend(), rev, r);
  udLaws("rbegin-const", cc.rbegin(), cc.rend(), rev, r);
  udLaws("crbegin", c->crbegin(), c->crend(), rev, r);
  check(size_t(std::ranges::distance(cc)) == plain.size(), "userdata:algorithm");
  size_t n = 0;
  for (auto x : cc | std::views::reverse) {
    checkEq(canonS(x), canonS(rev[n++]), "userdata:view");
  }
  return true;
}
static void checkUD(podio::CollectionBase& c, const MColl& m, Rng& r, const std::string& where) {
  note(where + " user data " + m.ud->valueName());
  if (!checkNum(int64_t(c.size()), int64_t(m.udvals.size()), "userdata:size", where)) {
    return;
  }
  const bool ok = udCheckAs<float>(c, m, r) || udCheckAs<double>(c, m, r) || udCheckAs<int8_t>(c, m, r) || udCheckAs<int16_t>(c, m, r) ||
      udCheckAs<int32_t>(c, m, r) || udCheckAs<int64_t>(c, m, r) || udCheckAs<uint8_t>(c, m, r) || udCheckAs<uint16_t>(c, m, r) ||
      udCheckAs<uint32_t>(c, m, r) || udCheckAs<uint64_t>(c, m, r);
  check(ok, "userdata:type", m.ud->valueName());
  stat("user_data_collections");
}

static void oneCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 25, idx));
  setCase(idx, "iterators");
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.maxColls = 6;
  o.params = false;
  o.bigChance = 0.06;
  o.bigSize = opts.thorough() ? 2000 : 200;
  genEvent(r, o, ev, colls);
  note(ev.summary());
  sample(ev.summary());
  auto look = [&](podio::CollectionBase& c, const MColl& m, const std::string& w) {
    if (m.type < 0) {
      checkUD(c, m, r, w);
    } else {
      checkColl(c, m, r, w);
    }
  };
  // freshly built, not in any Frame
  for (size_t i = 0; i < colls.size(); ++i) {
    if (r.chance(0.5)) {
      look(*colls[i], *ev.colls[i], "free");
    }
  }
  podio::Frame f;
  std::vector<std::string> names;
  for (size_t i = 0; i < colls.size(); ++i) {
    names.push_back(ev.colls[i]->name);
    f.put(std::move(colls[i]), ev.colls[i]->name);
  }
  for (auto& ob : ev.objs) {
    ob->h.reset();
  }
  auto all = [&](const podio::Frame& fr, const std::string& w, double p) {
    for (auto& m : ev.colls) {
      if (r.chance(p)) {
        auto* c = fr.get(m->name);
        if (check(c != nullptr, "get", w + " " + m->name)) {
          look(const_cast<podio::CollectionBase&>(*c), *m, w);
        }
      }
    }
  };
  all(f, "put", 0.3);
  auto stored = writeFrame(f, shuffled(names, r));
  if (r.chance(0.5)) {
    all(f, "written", 0.3);
  }
  podio::Frame rd = readFrame(stored);
  all(rd, "read", 0.7);
  stat("histories");
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      oneCase(i);
    }
  });
}
