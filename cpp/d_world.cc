// C03, C04, C05, C06, C07: random histories of handle and collection operations
// judged against a reference model after every step.
#include "vf_event.h"
#include "vf_leak.h"
#include <algorithm>
using namespace vf;
using podio::CollectionBase;

namespace {
enum HState { Ok, Empty, MovedFrom };
struct HSlot {
  HP h;
  MObj* m = nullptr;
  HState st = Empty;
  bool alive() const { return h && st == Ok && m->alive; }
  bool dangling() const { return h && st == Ok && !m->alive; }
};
struct CSlot {
  std::unique_ptr<CollectionBase> c;
  std::unique_ptr<MColl> m;
  bool moved = false, prepared = false;
  bool usable() const { return c && !moved; }
};
struct World {
  Rng r;
  std::vector<int> types;
  std::vector<std::unique_ptr<MObj>> objs;
  std::vector<HSlot> hs;
  std::vector<CSlot> cs;
  std::vector<int> weights;
  uint64_t fp = 0; // fingerprint of the history
  explicit World(uint64_t seed) : r(seed) {}

  MObj* newObj(int type) {
    objs.push_back(std::make_unique<MObj>(newModel(type)));
    objs.back()->uid = objs.size();
    return objs.back().get();
  }
  HSlot* pickH(const std::function<bool(const HSlot&)>& ok) {
    std::vector<HSlot*> v;
    for (auto& s : hs) {
      if (ok(s)) {
        v.push_back(&s);
      }
    }
    return v.empty() ? nullptr : r.pick(v);
  }
  CSlot* pickC(const std::function<bool(const CSlot&)>& ok) {
    std::vector<CSlot*> v;
    for (auto& s : cs) {
      if (s.usable() && ok(s)) {
        v.push_back(&s);
      }
    }
    return v.empty() ? nullptr : r.pick(v);
  }
  HSlot& freeH() { // a slot to overwrite: preferably one without a live object
    std::vector<HSlot*> v;
    for (auto& s : hs) {
      if (!s.alive()) {
        v.push_back(&s);
      }
    }
    return v.empty() || r.chance(0.2) ? r.pick(hs) : *r.pick(v);
  }
  void put(HSlot& s, HP h, MObj* m, HState st = Ok) {
    s.h = std::move(h);
    s.m = m;
    s.st = st;
  }
  CSlot& freeC() {
    for (auto& s : cs) {
      if (!s.c) {
        return s;
      }
    }
    auto& s = r.pick(cs);
    dropColl(s);
    return s;
  }
  void killElems(CSlot& s) {
    if (s.m && !s.m->subset && !s.moved) {
      for (auto* o : s.m->elems) {
        o->alive = false;
        o->coll = nullptr;
      }
    }
    if (s.m) {
      s.m->elems.clear();
      // entries of subset collections that point to dead objects dangle from now on
    }
  }
  void dropColl(CSlot& s) {
    killElems(s);
    s.c.reset();
    s.m.reset();
    s.moved = s.prepared = false;
  }
  // -- checking ---------------------------------------------------------
  CmpCtx ctx(const std::string& where) {
    CmpCtx c;
    c.where = where;
    c.r = &r;
    c.idOf = [](const MObj& m) { return m.coll ? podio::ObjectID{m.idx, m.coll->id} : podio::ObjectID{}; };
    c.handleOf = [this](const MObj& m) -> HP {
      for (auto& s : hs) {
        if (s.m == &m && s.alive()) {
          return s.h;
        }
      }
      return nullptr;
    };
    return c;
  }
  void checkHandle(HSlot& s) {
    if (s.dangling() || s.st == MovedFrom || !s.h) {
      return;
    }
    auto& t = T(s.h->type);
    if (s.st == Empty) {
      check(!t.available(*s.h), "handle:empty-but-available:" + t.name());
      checkNum(t.id(*s.h).index < 0, 1, "handle:empty-has-id:" + t.name());
      return;
    }
    compareObject(*s.h, *s.m, ctx("slot " + std::to_string(&s - hs.data())));
    const auto want = s.m->coll ? podio::ObjectID{s.m->idx, s.m->coll->id} : podio::ObjectID{};
    const auto got = t.id(*s.h), got2 = t.objectID(*s.h);
    if (s.m->coll) {
      checkEq(idS(got), idS(want), "handle:id:" + t.name());
      checkEq(idS(got2), idS(want), "handle:getObjectID:" + t.name());
      check(got2 == want && std::hash<podio::ObjectID>{}(got2) == std::hash<podio::ObjectID>{}(podio::ObjectID(want)), "handle:equal-ID-other-hash:" + t.name());
      podio::ObjectID other = want;
      (r.chance(0.5) ? (other.index += 1, 0) : (other.collectionID ^= 1u << r.below(32), 0));
      check(!(got2 == other) && got2 != other, "handle:different-IDs-equal:" + t.name());
    } else {
      check(got.index == podio::ObjectID::untracked && got2.index == podio::ObjectID::untracked, "handle:untracked-id:" + t.name(), idS(got));
    }
  }
  // identity, ordering and hashing between all comparable handles
  void checkPairs() {
    for (auto& a : hs) {
      for (auto& b : hs) {
        if (!a.h || !b.h || a.h->type != b.h->type || a.st == MovedFrom || b.st == MovedFrom || a.dangling() || b.dangling()) {
          continue;
        }
        auto& t = T(a.h->type);
        const bool same = a.st == b.st && (a.st == Empty || a.m == b.m);
        check(t.eq(*a.h, *b.h) == same, "handle:equality:" + t.name(), same ? "same objects differ" : "different objects equal");
        check(t.ne(*a.h, *b.h) == !same, "handle:inequality:" + t.name());
        const bool l = t.less(*a.h, *b.h), g = t.less(*b.h, *a.h);
        check(same ? (!l && !g) : (l != g), "handle:ordering:" + t.name(), std::string(same ? "same" : "different") + " objects less " + std::to_string(l) + " greater " + std::to_string(g));
        if (same) {
          check(t.hash(*a.h) == t.hash(*b.h), "handle:hash:" + t.name());
        }
        for (auto& c : hs) {
          if (l && c.h && c.h->type == a.h->type && c.st != MovedFrom && !c.dangling() && t.less(*b.h, *c.h)) {
            check(t.less(*a.h, *c.h), "handle:ordering-not-transitive:" + t.name());
          }
        }
      }
    }
  }
  void checkColl(CSlot& s) {
    if (!s.usable()) {
      return;
    }
    const std::string w = "collection " + std::to_string(&s - cs.data());
    checkNum(s.c->getID(), s.m->id, "collection:getID:" + T(s.m->type).name(), w);
    // elements of subset collections may be gone
    compareColl(*s.c, *s.m, ctx(w));
    auto& t = T(s.m->type);
    const size_t n = s.m->elems.size();
    if (n && r.chance(0.5)) {
      const size_t i = r.below(n);
      MObj* m = s.m->elems[i];
      if (m->alive) {
        for (auto& h : hs) {
          if (h.alive() && h.h->type == s.m->type) {
            check(t.eq(*t.at(*s.c, i, Access::At), *h.h) == (h.m == m), "collection:element-identity:" + t.name(), w);
            check(t.eq(*t.atMut(*s.c, i, Access::Index), *h.h) == (h.m == m), "collection:mutable-element-identity:" + t.name(), w);
          }
        }
      }
    }
    if (r.chance(0.3)) {
      const size_t over = n + (r.chance(0.7) ? 0 : r.below(1000000));
      expectThrow<std::out_of_range>("at-out-of-range:" + t.name(), [&] { t.at(*s.c, over, Access::At); });
      expectThrow<std::out_of_range>("at-out-of-range-mutable:" + t.name(), [&] { t.atMut(*s.c, over, Access::At); });
      expectThrow<std::out_of_range>("at-out-of-range:" + t.name(), [&] { t.at(*s.c, size_t(-1), Access::At); });
    }
    if (r.chance(0.3) && std::all_of(s.m->elems.begin(), s.m->elems.end(), [](auto* m) { return m->alive; })) {
      auto v = t.elementsMut(*s.c, int(r.below(3)));
      if (checkNum(int64_t(v.size()), int64_t(n), "collection:mutable-iteration-length:" + t.name(), w)) {
        for (size_t i = 0; i < n; ++i) {
          check(t.eq(*v[i], *t.at(*s.c, i, Access::Index)), "collection:mutable-iteration-element:" + t.name(), w);
        }
      }
    }
  }
  void checkAll() {
    for (auto& s : hs) {
      checkHandle(s);
    }
    for (auto& s : cs) {
      checkColl(s);
    }
    checkPairs();
    // every live tracked object knows where it is, also without a user handle
    for (auto& s : cs) {
      if (s.usable() && !s.m->subset) {
        auto& t = T(s.m->type);
        for (size_t i = 0; i < s.m->elems.size(); ++i) {
          checkEq(idS(t.id(*t.at(*s.c, i, Access::Index))), idS(podio::ObjectID{int(i), s.m->id}), "collection:element-id:" + t.name());
        }
      }
    }
  }
  void purgeDeadSubsetEntries() { // subset collections whose elements died may only be cleared or dropped
    for (auto& s : cs) {
      if (s.usable() && s.m->subset && std::any_of(s.m->elems.begin(), s.m->elems.end(), [](auto* m) { return !m->alive; })) {
        if (r.chance(0.5)) {
          s.c->clear();
          s.m->elems.clear();
          s.prepared = false;
        } else {
          dropColl(s);
        }
      }
    }
  }
  bool relAllAlive(const MObj& m) {
    for (auto* o : m.one) {
      if (o && !o->alive) {
        return false;
      }
    }
    for (auto& v : m.many) {
      for (auto* o : v) {
        if (!o->alive) {
          return false;
        }
      }
    }
    return true;
  }
  // untracked objects may only relate to older untracked ones: no ownership cycles
  HSlot* relTarget(const MObj& m, const std::vector<int>& allowed) {
    return pickH([&](const HSlot& s) {
      return s.alive() && std::count(allowed.begin(), allowed.end(), s.h->type) && (m.coll || s.m->coll || s.m->uid < m.uid);
    });
  }
  // -- operations -----------------------------------------------------------
  int type() { return r.pick(types); }
  CSlot* addColl(bool subset) {
    auto& s = freeC();
    const int ty = type();
    auto& t = T(ty);
    s.c = t.newColl();
    s.m = std::make_unique<MColl>();
    s.m->type = ty;
    s.m->id = s.c->getID();
    s.moved = s.prepared = false;
    check(!s.c->isSubsetCollection(), "collection:new-is-subset:" + t.name());
    if (subset) {
      s.c->setSubsetCollection();
      s.m->subset = true;
    }
    if (r.chance(0.6)) {
      s.m->id = uint32_t(r.next());
      s.c->setID(s.m->id);
    }
    return &s;
  }
  std::string desc(const HSlot& s) {
    return s.h ? T(s.h->type).name() + (s.h->mut ? "*" : "") + "#" + (s.m ? std::to_string(s.m->uid) : "-") : "none";
  }
  void mutate(MObj& m, HandleBase& h) {
    auto& t = T(m.type);
    switch (r.below(6)) {
    case 0: randomMembers(r, m, h); break;
    case 1: randomVecs(r, m, h, 4); break;
    case 2:
      if (t.nMem()) {
        const int i = int(r.below(uint64_t(t.nMem())));
        std::string out;
        t.setMem(h, i, r, int(r.below(2)), out);
        m.mem[size_t(i)] = out;
      }
      break;
    case 3:
      if (t.nMem()) {
        const int i = int(r.below(uint64_t(t.nMem())));
        if (t.nSub(i)) {
          std::string out;
          t.setSub(h, i, int(r.below(uint64_t(t.nSub(i)))), r, out);
          m.mem[size_t(i)] = out;
        }
      }
      break;
    default:
      if (t.nVec()) {
        const int v = int(r.below(uint64_t(t.nVec())));
        std::string out;
        t.vecAdd(h, v, r, out);
        m.vec[size_t(v)].push_back(out);
      }
    }
  }
  void relate(MObj& m, HandleBase& h) {
    auto& t = T(m.type);
    const int n = t.nOne() + t.nMany();
    if (!n) {
      return;
    }
    const int i = int(r.below(uint64_t(n)));
    if (i < t.nOne()) {
      if (r.chance(0.15)) {
        t.setOne(h, i, nullptr);
        m.one[size_t(i)] = nullptr;
      } else if (auto* tg = relTarget(m, t.oneTypes(i))) {
        t.setOne(h, i, tg->h.get());
        m.one[size_t(i)] = tg->m;
      }
    } else {
      const int k = i - t.nOne();
      const size_t reps = 1 + r.below(3);
      for (size_t q = 0; q < reps; ++q) {
        if (auto* tg = relTarget(m, t.manyTypes(k))) {
          t.addMany(h, k, *tg->h);
          m.many[size_t(k)].push_back(tg->m);
        }
      }
    }
  }
  void step() {
    uint64_t total = 0;
    for (int w : weights) {
      total += uint64_t(w);
    }
    uint64_t q = r.below(total);
    int op = 0;
    while (q >= uint64_t(weights[size_t(op)])) {
      q -= uint64_t(weights[size_t(op)]);
      ++op;
    }
    fp = mix(fp, uint64_t(op));
    run(op);
    stat("op" + std::to_string(op));
  }
  void run(int op) {
    switch (op) {
    case 0: { // new untracked object
      auto& s = freeH();
      const int ty = type();
      auto& t = T(ty);
      auto* m = newObj(ty);
      HP h;
      if (t.hasArgs() && r.chance(0.5)) {
        m->mem.clear();
        h = t.makeArgs(r, m->mem);
      } else {
        h = t.make();
      }
      put(s, std::move(h), m);
      note("make " + desc(s));
      break;
    }
    case 1: { // copy or conversion
      auto* a = pickH([](auto& s) { return s.h && s.st != MovedFrom && !s.dangling(); });
      if (!a) {
        return;
      }
      auto& t = T(a->h->type);
      const bool toC = r.chance(0.4);
      HP n = toC ? t.toConst(*a->h) : t.copy(*a->h);
      MObj* m = a->m;
      HState st = a->st;
      auto& s = freeH();
      note(std::string(toC ? "const copy " : "copy ") + desc(*a));
      put(s, std::move(n), m, st);
      break;
    }
    case 2: { // move construct
      auto* a = pickH([](auto& s) { return s.alive() || (s.h && s.st == Empty); });
      if (!a) {
        return;
      }
      note("move " + desc(*a));
      HP n = T(a->h->type).moveFrom(*a->h);
      MObj* m = a->m;
      HState st = a->st;
      a->st = MovedFrom;
      a->m = nullptr;
      auto& s = freeH();
      put(s, std::move(n), m, st);
      break;
    }
    case 3: { // clone
      auto* a = pickH([](auto& s) { return s.alive(); });
      if (!a) {
        return;
      }
      auto& t = T(a->h->type);
      const int how = int(r.below(3)); // 0 without, 1 with relations, 2 default (with)
      if (how && !relAllAlive(*a->m)) {
        return;
      }
      note("clone " + std::to_string(how) + " " + desc(*a));
      HP n = how == 2 ? t.cloneDefault(*a->h) : t.clone(*a->h, how == 1);
      auto* m = newObj(a->h->type);
      m->mem = a->m->mem;
      m->vec = a->m->vec;
      if (how) {
        m->one = a->m->one;
        m->many = a->m->many;
      } else if (!vecsClonedWithoutRelations) {
        for (auto& v : m->vec) {
          v.clear();
        }
      }
      auto& s = freeH();
      put(s, std::move(n), m);
      checkHandle(s);
      break;
    }
    case 4: { // assign
      auto* a = pickH([](auto& s) { return s.h && !(s.st == MovedFrom) && !s.dangling(); });
      if (!a) {
        return;
      }
      auto* d = pickH([&](auto& s) { return s.h && s.h->type == a->h->type && (s.h->mut == a->h->mut || !s.h->mut); });
      if (!d) {
        return;
      }
      note("assign " + desc(*d) + " = " + desc(*a));
      T(a->h->type).assign(*d->h, *a->h);
      d->m = a->m;
      d->st = a->st;
      break;
    }
    case 5: { // swap
      auto* a = pickH([](auto& s) { return s.h && s.st != MovedFrom && !s.dangling(); });
      if (!a) {
        return;
      }
      auto* d = pickH([&](auto& s) { return s.h && s.h->type == a->h->type && s.h->mut == a->h->mut && s.st != MovedFrom && !s.dangling(); });
      note("swap " + desc(*d) + " " + desc(*a));
      T(a->h->type).swap(*d->h, *a->h);
      std::swap(d->m, a->m);
      std::swap(d->st, a->st);
      break;
    }
    case 6: { // unlink
      auto* a = pickH([](auto& s) { return s.h && s.st != MovedFrom; });
      if (!a || a->dangling()) {
        return;
      }
      note("unlink " + desc(*a));
      T(a->h->type).unlink(*a->h);
      a->st = Empty;
      a->m = nullptr;
      checkHandle(*a);
      break;
    }
    case 7: { // empty handle
      auto& s = freeH();
      put(s, T(type()).makeEmpty(), nullptr, Empty);
      note("makeEmpty " + desc(s));
      break;
    }
    case 8: { // drop a handle (also of gone objects)
      auto& s = r.pick(hs);
      note("drop " + desc(s));
      put(s, nullptr, nullptr, Empty);
      break;
    }
    case 9:
    case 10: { // change through a mutable handle
      auto* a = pickH([](auto& s) { return s.alive() && s.h->mut; });
      if (!a) {
        return;
      }
      note("mutate " + desc(*a));
      mutate(*a->m, *a->h);
      checkHandle(*a);
      for (auto& s : hs) {
        if (s.m == a->m && s.alive()) {
          checkHandle(s);
        }
      }
      break;
    }
    case 11:
    case 12: {
      auto* a = pickH([](auto& s) { return s.alive() && s.h->mut; });
      if (!a) {
        return;
      }
      note("relate " + desc(*a));
      relate(*a->m, *a->h);
      checkHandle(*a);
      break;
    }
    case 13: { // take a handle out of a relation
      auto* a = pickH([](auto& s) { return s.alive(); });
      if (!a) {
        return;
      }
      auto& t = T(a->h->type);
      MObj* tg = nullptr;
      HP h;
      if (t.nOne() && r.chance(0.5)) {
        const int i = int(r.below(uint64_t(t.nOne())));
        tg = a->m->one[size_t(i)];
        if (!tg || !tg->alive) {
          return;
        }
        h = t.one(*a->h, i).h;
      } else if (t.nMany()) {
        const int i = int(r.below(uint64_t(t.nMany())));
        auto& v = a->m->many[size_t(i)];
        if (v.empty() || !relAllAlive(*a->m)) {
          return;
        }
        auto got = t.many(*a->h, i, Access(r.below(5)));
        const size_t k = r.below(v.size());
        if (got.size() != v.size()) {
          check(false, "relation-count:" + t.name());
          return;
        }
        tg = v[k];
        h = got[k].h;
      }
      if (!h || h->type != tg->type) {
        check(!tg, "relation:lost:" + t.name());
        return;
      }
      auto& s = freeH();
      put(s, std::move(h), tg);
      note("from relation " + desc(s));
      break;
    }
    case 14: addColl(false); note("new collection"); break;
    case 15: addColl(true); note("new subset"); break;
    case 16: { // create
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      auto& t = T(s->m->type);
      if (s->m->subset) {
        expectThrow<std::logic_error>("create-on-subset:" + t.name(), [&] { t.create(*s->c); });
        if (t.hasArgs() && !t.isLink()) {
          std::vector<std::string> mm;
          expectThrow<std::logic_error>("create-args-on-subset:" + t.name(), [&] { t.createArgs(*s->c, r, mm); });
        }
        note("create refused");
        checkColl(*s);
        return;
      }
      auto* m = newObj(s->m->type);
      HP h;
      if (t.hasArgs() && r.chance(0.4)) {
        m->mem.clear();
        h = t.createArgs(*s->c, r, m->mem);
      } else {
        h = t.create(*s->c);
      }
      m->coll = s->m.get();
      m->idx = int(s->m->elems.size());
      s->m->elems.push_back(m);
      auto& hs2 = freeH();
      put(hs2, std::move(h), m);
      note("create " + desc(hs2));
      checkHandle(hs2);
      break;
    }
    case 17:
    case 18: { // push_back
      auto* a = pickH([](auto& s) { return s.alive(); });
      if (!a) {
        return;
      }
      auto* s = pickC([&](auto& c) { return c.m->type == a->h->type; });
      if (!s) {
        return;
      }
      auto& t = T(a->h->type);
      const bool fresh = !a->m->coll;
      note("push " + desc(*a) + (s->m->subset ? " to subset" : " to collection"));
      if (!s->m->subset) {
        if (a->h->mut && fresh) {
          t.push(*s->c, *a->h);
          a->m->coll = s->m.get();
          a->m->idx = int(s->m->elems.size());
          s->m->elems.push_back(a->m);
        } else {
          expectThrow<std::invalid_argument>(std::string("push-") + (a->h->mut ? "tracked" : "const") + "-to-owning:" + t.name(), [&] { t.push(*s->c, *a->h); });
          checkColl(*s);
        }
      } else if (fresh) {
        expectThrow<std::invalid_argument>("push-untracked-to-subset:" + t.name(), [&] { t.push(*s->c, *a->h); });
        checkColl(*s);
      } else {
        t.push(*s->c, *a->h);
        s->m->elems.push_back(a->m);
      }
      checkHandle(*a);
      break;
    }
    case 19: { // element handles
      auto* s = pickC([](auto& c) { return !c.m->elems.empty(); });
      if (!s) {
        return;
      }
      auto& t = T(s->m->type);
      const size_t i = r.below(s->m->elems.size());
      if (!s->m->elems[i]->alive) {
        return;
      }
      const Access a = r.chance(0.5) ? Access::At : Access::Index;
      HP h = r.chance(0.5) ? t.at(*s->c, i, a) : t.atMut(*s->c, i, a);
      if (r.chance(0.3)) {
        auto v = t.elementsMut(*s->c, int(r.below(3)));
        if (v.size() == s->m->elems.size()) {
          h = v[i];
        }
      }
      auto& d = freeH();
      put(d, std::move(h), s->m->elems[i]);
      note("element " + desc(d));
      checkHandle(d);
      break;
    }
    case 20: { // new ID
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      s->m->id = r.chance(0.2) ? uint32_t(r.below(4)) : uint32_t(r.next());
      s->c->setID(s->m->id);
      note("setID");
      checkColl(*s);
      break;
    }
    case 21: { // clear
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      note("clear");
      auto elems = s->m->elems;
      killElems(*s);
      s->c->clear();
      s->prepared = false;
      check(s->c->empty() && s->c->size() == 0, "collection:not-empty-after-clear");
      checkNum(s->c->isSubsetCollection(), s->m->subset, "collection:kind-changed-by-clear");
      purgeDeadSubsetEntries();
      break;
    }
    case 22: { // move construct a collection
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      note("move collection");
      auto& t = T(s->m->type);
      CSlot* d = nullptr;
      for (auto& x : cs) {
        if (!x.c) {
          d = &x;
        }
      }
      if (!d) {
        return;
      }
      d->c = t.moveColl(*s->c);
      d->m = std::move(s->m);
      d->prepared = s->prepared;
      d->moved = false;
      s->moved = true;
      movedType[s - cs.data()] = d->m->type;
      checkColl(*d);
      if (r.chance(0.5)) {
        s->c.reset();
        s->moved = false;
        checkColl(*d);
      }
      break;
    }
    case 23: { // move assign
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      auto& t = T(s->m->type);
      std::vector<CSlot*> v;
      for (auto& x : cs) {
        if (&x != s && x.c && ((x.moved && movedType[&x - cs.data()] == s->m->type) || (!x.moved && x.m->type == s->m->type))) {
          v.push_back(&x);
        }
      }
      if (v.empty()) {
        return;
      }
      auto* d = r.pick(v);
      note(std::string("move assign onto ") + (d->moved ? "moved-from" : d->m->elems.empty() ? "empty" : "filled"));
      if (!d->moved) {
        killElems(*d);
      }
      t.moveAssign(*d->c, *s->c);
      d->m = std::move(s->m);
      d->prepared = s->prepared;
      d->moved = false;
      s->moved = true;
      movedType[s - cs.data()] = d->m->type;
      purgeDeadSubsetEntries();
      if (d->c) {
        checkColl(*d);
      }
      break;
    }
    case 24: { // swap collections
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      auto* d = pickC([&](auto& c) { return c.m->type == s->m->type && &c != s; });
      if (!d) {
        return;
      }
      note("swap collections");
      T(s->m->type).swapColl(*s->c, *d->c);
      std::swap(s->m, d->m);
      std::swap(s->prepared, d->prepared);
      checkColl(*s);
      checkColl(*d);
      break;
    }
    case 25: { // from handles
      const int ty = type();
      auto& t = T(ty);
      const bool asConst = r.chance(0.5);
      std::vector<HP> v;
      std::vector<MObj*> ms;
      for (auto& s : hs) {
        if (s.alive() && s.h->type == ty && r.chance(0.7)) {
          if (asConst ? s.m->coll != nullptr : (s.h->mut && !s.m->coll && !std::count(ms.begin(), ms.end(), s.m))) {
            v.push_back(s.h);
            ms.push_back(s.m);
          }
        }
      }
      auto c = t.fromHandles(v, asConst);
      v.clear();
      auto& s = freeC2(ms);
      if (s.c) {
        return;
      }
      s.c = std::move(c);
      s.m = std::make_unique<MColl>();
      s.m->type = ty;
      s.m->subset = asConst;
      s.m->id = s.c->getID();
      s.moved = s.prepared = false;
      s.m->elems = ms;
      if (!asConst) {
        for (size_t i = 0; i < ms.size(); ++i) {
          ms[i]->coll = s.m.get();
          ms[i]->idx = int(i);
        }
      }
      note("from range");
      checkColl(s);
      break;
    }
    case 26: { // change kind
      auto* s = pickC([](auto&) { return true; });
      if (!s) {
        return;
      }
      auto& t = T(s->m->type);
      const bool sub = r.below(2);
      note("setSubsetCollection " + std::to_string(sub));
      if (!s->m->elems.empty() && sub != s->m->subset) {
        expectThrow<std::logic_error>("switch-kind-of-filled:" + t.name(), [&] { s->c->setSubsetCollection(sub); });
      } else {
        s->c->setSubsetCollection(sub);
        if (sub != s->m->subset) {
          s->prepared = false;
        }
        s->m->subset = sub;
      }
      checkColl(*s);
      break;
    }
    case 27: { // drop a collection
      auto& s = r.pick(cs);
      if (!s.c) {
        return;
      }
      note("drop collection");
      dropColl(s);
      purgeDeadSubsetEntries();
      break;
    }
    case 28: { // write buffers
      auto* s = pickC([](auto& c) { return !c.prepared; });
      if (!s) {
        return;
      }
      auto& t = T(s->m->type);
      bool untrackedMany = false;
      for (auto* m : s->m->elems) {
        if (!m->alive) {
          return;
        }
        if (!s->m->subset) {
          if (!relAllAlive(*m)) {
            return;
          }
          for (auto& v : m->many) {
            for (auto* o : v) {
              untrackedMany |= !o->coll;
            }
          }
        }
      }
      note("prepare for write");
      try {
        s->c->prepareForWrite();
      } catch (const std::runtime_error& e) {
        check(untrackedMany, "write:unexpected-exception:" + t.name(), e.what());
        return;
      }
      s->prepared = true;
      auto st = t.store(*s->c);
      auto again = t.store(*s->c);
      checkStoredColl(st, *s->m);
      checkStoredColl(again, *s->m);
      checkColl(*s);
      break;
    }
    case 29: { // out of range accesses of relations and vector members
      auto* a = pickH([](auto& s) { return s.alive(); });
      if (!a) {
        return;
      }
      auto& t = T(a->h->type);
      for (int i = 0; i < t.nMany(); ++i) {
        const size_t n = a->m->many[size_t(i)].size(), over = n + (r.chance(0.6) ? 0 : r.below(100000));
        expectThrow<std::out_of_range>("relation-index:" + t.name() + "." + t.manyName(i), [&] { t.manyAt(*a->h, i, over); });
        expectThrow<std::out_of_range>("relation-range-at:" + t.name() + "." + t.manyName(i), [&] { t.manyRangeAt(*a->h, i, over); });
      }
      for (int i = 0; i < t.nVec(); ++i) {
        const size_t n = a->m->vec[size_t(i)].size(), over = n + (r.chance(0.6) ? 0 : r.below(100000));
        expectThrow<std::out_of_range>("vector-member-index:" + t.name() + "." + t.vecName(i), [&] { t.vecAt(*a->h, i, over); });
        expectThrow<std::out_of_range>("vector-member-range-at:" + t.name() + "." + t.vecName(i), [&] { t.vecRangeAt(*a->h, i, over); });
      }
      for (int i = 0; i < t.nMem(); ++i) {
        t.checkSub(*a->h, i);
      }
      if (t.isLink()) {
        t.linkChecks(*a->h);
      }
      note("ranges " + desc(*a));
      break;
    }
    default: // copy of moved-from slots: only destruction or assignment
    {
      auto* d = pickH([](auto& s) { return s.h && (s.st == MovedFrom || s.dangling()); });
      if (!d) {
        return;
      }
      auto* a = pickH([&](auto& s) { return s.alive() && s.h->type == d->h->type && (s.h->mut == d->h->mut || !d->h->mut); });
      note("revive " + desc(*d));
      if (a && r.chance(0.7)) {
        T(a->h->type).assign(*d->h, *a->h);
        d->m = a->m;
        d->st = a->st;
        checkHandle(*d);
      } else {
        put(*d, nullptr, nullptr, Empty);
      }
    }
    }
  }
  void checkStoredColl(const StoredColl& sc, const MColl& m) {
    auto& t = T(m.type);
    checkNum(sc.subset, m.subset, "stored:subset-flag:" + t.name());
    std::vector<std::vector<podio::ObjectID>> want;
    auto idOf = [](const MObj* o) {
      return !o ? podio::ObjectID{podio::ObjectID::invalid, 0} : o->coll ? podio::ObjectID{o->idx, o->coll->id} : podio::ObjectID{};
    };
    if (m.subset) {
      want.resize(1);
      for (auto* e : m.elems) {
        want[0].push_back(idOf(e));
      }
    } else {
      auto rows = t.storedMembers(sc);
      if (checkNum(int64_t(rows.size()), int64_t(m.elems.size()), "stored:size:" + t.name())) {
        for (size_t i = 0; i < rows.size(); ++i) {
          std::string w;
          for (auto& x : m.elems[i]->mem) {
            w += x + "|";
          }
          checkEq(rows[i], w, "stored:members:" + t.name());
        }
      }
      want.resize(size_t(t.nMany() + t.nOne()));
      for (auto* e : m.elems) {
        for (int i = 0; i < t.nMany(); ++i) {
          for (auto* o : e->many[size_t(i)]) {
            want[size_t(i)].push_back(idOf(o));
          }
        }
        for (int i = 0; i < t.nOne(); ++i) {
          want[size_t(t.nMany() + i)].push_back(idOf(e->one[size_t(i)]));
        }
      }
    }
    if (!checkNum(int64_t(sc.refs.size()), int64_t(want.size()), "stored:reference-vectors:" + t.name())) {
      return;
    }
    for (size_t i = 0; i < want.size(); ++i) {
      if (checkNum(int64_t(sc.refs[i].size()), int64_t(want[i].size()), "stored:references:" + t.name())) {
        for (size_t k = 0; k < want[i].size(); ++k) {
          // unset and untracked targets only have to be recognisable as such
          if (want[i][k].index < 0) {
            check(sc.refs[i][k].index < 0, "stored:reference-unset:" + t.name(), idS(sc.refs[i][k]));
          } else {
            checkEq(idS(sc.refs[i][k]), idS(want[i][k]), "stored:reference:" + t.name());
          }
        }
      }
    }
  }
  // a slot whose elements are not among the given ones
  CSlot& freeC2(const std::vector<MObj*>& keep) {
    for (auto& s : cs) {
      if (!s.c) {
        return s;
      }
    }
    std::vector<CSlot*> v;
    for (auto& s : cs) {
      if (s.moved || s.m->subset || std::none_of(s.m->elems.begin(), s.m->elems.end(), [&](auto* e) { return std::count(keep.begin(), keep.end(), e); })) {
        v.push_back(&s);
      }
    }
    if (v.empty()) { // cannot happen for owning sets; keep the harness honest
      return cs[0];
    }
    auto& s = *r.pick(v);
    dropColl(s);
    return s;
  }
  std::map<long, int> movedType;
  bool vecsClonedWithoutRelations = false;
};

// which operations dominate
std::vector<int> weightsFor(const std::string& mode) {
  //                     0  1  2  3  4  5  6  7  8  9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30
  if (mode == "coll") return {6, 2, 1, 1, 1, 1, 1, 1, 3, 3, 2, 1, 1, 1, 4, 1, 12, 8, 8, 6, 4, 2, 2, 2, 2, 2, 1, 2, 2, 1, 2};
  if (mode == "subset") return {4, 2, 1, 1, 1, 1, 1, 1, 3, 5, 4, 2, 1, 1, 3, 5, 8, 10, 10, 6, 4, 2, 2, 2, 2, 3, 4, 2, 4, 1, 2};
  if (mode == "handle") return {6, 10, 6, 8, 10, 6, 4, 2, 4, 8, 6, 4, 3, 5, 2, 1, 6, 4, 3, 6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 4};
  if (mode == "member") return {5, 2, 1, 4, 1, 1, 1, 1, 2, 14, 12, 10, 9, 3, 2, 1, 8, 4, 2, 4, 1, 1, 1, 1, 1, 1, 1, 1, 2, 6, 1};
  return {6, 4, 3, 5, 4, 3, 2, 2, 5, 6, 4, 6, 4, 4, 4, 3, 10, 6, 5, 5, 2, 4, 4, 4, 3, 3, 2, 5, 4, 2, 4};
}
void oneCase(uint64_t idx, bool leak) {
  Rng pick(mix(opts.seed * 7919 + hashStr(opts.mode), idx));
  World w(pick.next());
  std::vector<int> all;
  for (auto* t : allTypes()) {
    all.push_back(t->index);
  }
  const int nt = 1 + int(pick.below(4));
  if (opts.extra.count("only")) { // links
    std::erase_if(all, [](int t) { return !T(t).isLink(); });
  }
  w.types.push_back(pick.pick(all));
  if (idx < 2 * all.size()) { // every type gets its turn
    w.types[0] = int(idx % all.size());
  }
  for (int i = 1; i < nt; ++i) { // prefer types reachable through relations
    auto& t = T(pick.pick(w.types));
    std::vector<int> rel;
    for (int k = 0; k < t.nOne(); ++k) {
      for (int x : t.oneTypes(k)) {
        rel.push_back(x);
      }
    }
    for (int k = 0; k < t.nMany(); ++k) {
      for (int x : t.manyTypes(k)) {
        rel.push_back(x);
      }
    }
    w.types.push_back(!rel.empty() && pick.chance(0.8) ? pick.pick(rel) : pick.pick(all));
  }
  w.hs.resize(12);
  w.cs.resize(6);
  w.weights = weightsFor(opts.mode);
  const size_t steps = 30 + pick.below(leak ? 80 : 170);
  std::string tn;
  for (int t : w.types) {
    tn += T(t).name() + " ";
  }
  for (size_t s = 0; s < steps && !caseFailed(); ++s) {
    w.step();
    if (!caseFailed()) {
      auto* h = w.pickH([](auto& x) { return x.alive(); });
      if (h) {
        w.checkHandle(*h);
      }
      if (auto* c = w.pickC([](auto&) { return true; })) {
        w.checkColl(*c);
      }
      if (s % 13 == 12) {
        w.checkAll();
      }
    }
  }
  if (!caseFailed()) {
    w.checkAll();
  }
  stat("operations", steps);
  stat("histories");
  statMax("max_objects_in_history", w.objs.size());
  distinct("nontrivial", mix(w.fp, hashStr(tn)));
  if (idx % 997 == 0) {
    sample("types " + tn + " last operations: " + recentNotes(25));
  }
  // take down in random order
  std::vector<int> order;
  for (int i = 0; i < int(w.hs.size() + w.cs.size()); ++i) {
    order.push_back(i);
  }
  for (size_t i = order.size(); i > 1; --i) {
    std::swap(order[i - 1], order[w.r.below(i)]);
  }
  for (int i : order) {
    if (size_t(i) < w.hs.size()) {
      w.hs[size_t(i)].h.reset();
    } else {
      w.cs[size_t(i) - w.hs.size()].c.reset();
    }
  }
}
} // namespace

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    const bool leak = opts.num("leak", 0);
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      setCase(i, "history");
      if (leak) {
        leakCheck("history", [&] { oneCase(i, true); });
      } else {
        oneCase(i, false);
      }
    }
  });
}
