// C01, C02: write/read fidelity of Frames, complete and partial
#include "vf_event.h"
using namespace vf;

static void putAll(podio::Frame& f, MEvent& ev, std::vector<std::unique_ptr<podio::CollectionBase>>& colls, Rng& r) {
  std::vector<size_t> order(colls.size());
  for (size_t i = 0; i < order.size(); ++i) {
    order[i] = i;
  }
  for (size_t i = order.size(); i > 1; --i) {
    std::swap(order[i - 1], order[r.below(i)]);
  }
  for (size_t i : order) {
    auto& m = *ev.colls[i];
    if (r.chance(0.5)) {
      f.put(std::move(colls[i]), m.name);
    } else if (m.type >= 0) {
      T(m.type).putTyped(f, *colls[i], m.name);
    } else {
      m.ud->putTyped(f, *colls[i], m.name);
    }
  }
}
static std::vector<std::string> names(const MEvent& ev) {
  std::vector<std::string> v;
  for (auto& c : ev.colls) {
    v.push_back(c->name);
  }
  return v;
}
static void dropHandles(MEvent& ev) {
  for (auto& o : ev.objs) {
    o->h.reset();
  }
}
static uint64_t shape(const MEvent& ev) {
  std::string s;
  for (auto& c : ev.colls) {
    s += std::to_string(c->type) + (c->subset ? "s" : "o") + std::to_string(std::min<size_t>(c->elems.size(), 4)) + ",";
  }
  for (auto& o : ev.objs) {
    for (auto& m : o->many) {
      s += std::to_string(std::min<size_t>(m.size(), 3));
    }
    for (auto* t : o->one) {
      s += t ? "1" : "0";
    }
  }
  return hashStr(s);
}
// the stored form must already hold the written values (what other readers see)
static void checkStored(const StoredFrame& s, const MEvent& ev) {
  for (auto& sc : s.colls) {
    auto* m = ev.find(sc.name);
    checkNum(sc.subset, m->subset, "stored:subset-flag", sc.name);
    checkNum(sc.id, m->id, "stored:id", sc.name);
    if (m->type < 0) {
      checkEq(sc.type, m->ud->typeName(), "stored:type", sc.name);
      continue;
    }
    auto& t = T(m->type);
    checkEq(sc.type, t.collName(), "stored:type", sc.name);
    if (!m->subset) {
      auto rows = t.storedMembers(sc);
      if (checkNum(int64_t(rows.size()), int64_t(m->elems.size()), "stored:size", sc.name)) {
        for (size_t i = 0; i < rows.size(); ++i) {
          std::string w;
          for (auto& x : m->elems[i]->mem) {
            w += x + "|";
          }
          checkEq(rows[i], w, "stored:members:" + t.name(), sc.name);
        }
      }
    }
  }
}

static void fullCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 11, idx));
  setCase(idx, "frame round trip");
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.hugeChance = 0.02;
  if (opts.extra.count("only")) { // links, or relations to interfaces, and what they relate to
    const bool links = opts.extra["only"] == "links";
    std::vector<int> ts;
    auto uses = [](const TypeOps& t, bool onlyIface) {
      std::vector<int> v;
      for (int k = 0; k < t.nOne(); ++k) {
        if (!onlyIface || t.oneIface(k)) {
          for (int x : t.oneTypes(k)) {
            v.push_back(x);
          }
        }
      }
      for (int k = 0; k < t.nMany(); ++k) {
        if (!onlyIface || t.manyIface(k)) {
          for (int x : t.manyTypes(k)) {
            v.push_back(x);
          }
        }
      }
      return v;
    };
    for (auto* t : allTypes()) {
      if (links ? t->isLink() : !uses(*t, true).empty()) {
        ts.push_back(t->index);
      }
    }
    const int l = r.pick(ts);
    o.onlyTypes = {l, l};
    for (int x : uses(T(l), !links)) {
      o.onlyTypes.push_back(x);
    }
  }
  if (opts.thorough() && idx % 50 == 0) {
    o.bigChance = 0.5;
    o.bigSize = 3000;
  }
  genEvent(r, o, ev, colls);
  podio::Frame f;
  putParams(ev.params, f, r);
  putAll(f, ev, colls, r);
  if (r.chance(0.5)) {
    dropHandles(ev);
  }
  colls.clear();
  note(ev.summary());
  if (r.chance(0.7)) {
    compareFrame(f, ev, r, "original");
  }
  auto stored = writeFrame(f, shuffled(names(ev), r));
  checkStored(stored, ev);
  compareFrame(f, ev, r, "original after writing");
  dropHandles(ev);
  if (r.chance(0.2)) { // a second write of the same Frame gives the same
    auto again = writeFrame(f, shuffled(names(ev), r));
    checkStored(again, ev);
    stored = again;
  }
  const bool keepOrig = r.chance(0.5);
  std::optional<podio::Frame> orig;
  if (keepOrig) {
    orig.emplace(std::move(f));
  } else {
    f = podio::Frame();
  }
  const int gens = 1 + int(r.below(3));
  for (int g = 0; g < gens && !caseFailed(); ++g) {
    podio::Frame rd = readFrame(stored);
    if (r.chance(0.3)) {
      podio::Frame moved = std::move(rd);
      rd = std::move(moved);
    }
    const std::string w = "read back generation " + std::to_string(g);
    if (r.chance(0.75)) {
      compareFrame(rd, ev, r, w);
    }
    stored = writeFrame(rd, shuffled(names(ev), r));
    checkStored(stored, ev);
    compareFrame(rd, ev, r, w + " after writing");
    stat("read_generations");
  }
  {
    podio::Frame last = readFrame(stored);
    compareFrame(last, ev, r, "last generation");
  }
  if (orig) {
    compareFrame(*orig, ev, r, "original at the end");
  }
  size_t nrel = 0, nset = 0;
  for (auto& ob : ev.objs) {
    for (auto& m : ob->many) {
      nrel += m.size();
    }
    for (auto* t : ob->one) {
      nset += t != nullptr;
    }
  }
  stat("events");
  stat("collections", ev.colls.size());
  stat("objects", ev.objs.size());
  stat("relations", nrel + nset);
  if (nrel + nset > 0) {
    distinct("nontrivial", shape(ev));
  }
  statMax("max_objects_in_event", ev.objs.size());
  sample(ev.summary());
}

static void partialCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 12, idx));
  setCase(idx, "partial reading");
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.hugeChance = 0.02;
  o.minColls = 2;
  genEvent(r, o, ev, colls);
  podio::Frame f;
  putParams(ev.params, f, r);
  putAll(f, ev, colls, r);
  dropHandles(ev);
  colls.clear();
  note(ev.summary());
  const bool writeAll = r.chance(0.7);
  auto all = names(ev);
  for (int round = 0; round < 4 && !caseFailed(); ++round) {
    std::set<std::string> keep;
    const double p = r.chance(0.2) ? 0.0 : r.chance(0.3) ? 0.9 : 0.5;
    for (auto& n : all) {
      if (r.chance(p)) {
        keep.insert(n);
      }
    }
    if (round == 3) { // exactly one missing
      keep = std::set<std::string>(all.begin(), all.end());
      keep.erase(r.pick(all));
    }
    std::string k;
    for (auto& n : keep) {
      k += n + ",";
    }
    note("keep " + k);
    std::vector<std::string> written = all;
    if (!writeAll) {
      written.assign(keep.begin(), keep.end());
    }
    auto stored = writeFrame(f, shuffled(written, r));
    podio::Frame rd = readFrame(stored, &keep);
    compareFrame(rd, ev, r, "partial", &keep);
    if (r.chance(0.5)) {
      compareFrame(rd, ev, r, "partial second look", &keep);
    }
    stat("partial_reads");
    distinct("nontrivial", hashStr(k) ^ shape(ev));
  }
  stat("events");
  stat("objects", ev.objs.size());
  sample(ev.summary());
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "partial") {
        partialCase(i);
      } else {
        fullCase(i);
      }
    }
  });
}
