// C33, C34, C35: files written with the writers for ROOT (TTree and RNTuple) hold exactly the frames given to them
#include "podio/DataSource.h"
#include "podio/FrameCategories.h"
#include "podio/LinkCollection.h"
#include "podio/RNTupleReader.h"
#include "podio/RNTupleWriter.h"
#include "podio/ROOTReader.h"
#include "podio/ROOTWriter.h"
#include "podio/Reader.h"
#include "podio/Writer.h"
#include "podio/utilities/RootHelpers.h"
#include "TTree.h"
#include "podio/DatamodelRegistry.h"
#include "vf_event.h"
#include "vf_rootdict.h"
#include <barrier>
#include <filesystem>
#include <fstream>
#include <numeric>
#include <optional>
#include <thread>
#include <unistd.h>
using namespace vf;
namespace fs = std::filesystem;

static bool refusing() {
  return opts.mode == "refuse";
}
static std::string base() {
  static const std::string d = [] {
    const char* t = std::getenv("TMPDIR");
    auto p = std::string(t ? t : "/tmp") + "/vfroot." + std::to_string(getpid());
    fs::create_directories(p);
    return p;
  }();
  return d;
}

// names that ROOT can have for branches and fields
static std::string plainName(Rng& r) {
  static const std::string chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:-#";
  std::string s;
  for (size_t n = 1 + r.below(r.chance(0.1) ? 60 : 10); n > 0; --n) {
    s += chars[r.below(chars.size())];
  }
  return s;
}

struct Ev {
  MEvent ev;
  podio::Frame f;
  std::map<std::string, std::string> dmOf;
};
struct Stored {
  std::shared_ptr<Ev> e;
};
struct Cat {
  std::set<std::string> names; // what is written of each frame
  std::vector<std::shared_ptr<Ev>> frames;
};
static std::vector<Column> makeLayout(Rng& r, const std::vector<int>& types) {
  std::vector<Column> l;
  std::set<std::string> used, low;
  std::vector<int> few;
  for (int i = 0; i < 4; ++i) {
    few.push_back(r.pick(types));
  }
  const auto& from = r.chance(0.4) ? few : types;
  for (int n = int(r.below(9)); n > 0; --n) {
    Column c;
    do {
      c.name = !l.empty() && r.chance(0.15) ? r.pick(l).name : plainName(r);
      if (r.chance(0.1) && !l.empty()) { // the same but for the case
        for (auto& x : c.name) {
          x = char(r.chance(0.5) ? std::toupper(x) : std::tolower(x));
        }
      }
      if (r.chance(0.05)) {
        c.name += r.chance(0.5) ? "_objIdx_" : "_0";
      }
    } while (!used.insert(c.name).second);
    if (r.chance(0.15)) {
      c.ud = allUD()[r.below(allUD().size())];
    } else {
      c.type = r.pick(from);
      c.subset = r.chance(0.25);
    }
    l.push_back(c);
  }
  return l;
}
static std::shared_ptr<Ev> makeEv(Rng& r, const std::vector<Column>& layout, bool relations = true) {
  auto e = std::make_shared<Ev>();
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.layout = layout;
  o.relations = relations;
  o.bigChance = 0.02;
  if (layout.empty()) { // only parameters
    o.minColls = o.maxColls = 0;
    o.subsets = o.userData = false;
  }
  genEvent(r, o, e->ev, colls);
  putParams(e->ev.params, e->f, r);
  std::vector<size_t> order(colls.size());
  std::iota(order.begin(), order.end(), 0);
  for (size_t k = order.size(); k > 1; --k) {
    std::swap(order[k - 1], order[r.below(k)]);
  }
  for (size_t i : order) {
    auto& m = *e->ev.colls[i];
    const auto dm = std::string(podio::DatamodelRegistry::instance().getDatamodelName(colls[i]->getDatamodelRegistryIndex()));
    if (m.type >= 0 && !dm.empty()) {
      e->dmOf[m.name] = dm;
    }
    e->f.put(std::move(colls[i]), m.name);
  }
  for (auto& ob : e->ev.objs) {
    ob->h.reset();
  }
  for (auto& c : e->ev.colls) {
    c->id = e->f.get(c->name)->getID();
  }
  return e;
}
static std::set<std::string> someNames(const std::set<std::string>& all, Rng& r) {
  std::set<std::string> s;
  const double p = r.chance(0.2) ? 1 : r.chance(0.2) ? 0 : 0.5;
  for (auto& n : all) {
    if (r.chance(p)) {
      s.insert(n);
    }
  }
  return s;
}

// what a file (or several, read as one) holds
struct Files {
  std::vector<std::string> paths;
  bool tuple = false;
  std::map<std::string, Cat> cats;
  std::set<std::string> dms;
  std::optional<podio::version::Version> old; // written as podio did in this version
  size_t size(const std::string& c) const {
    auto it = cats.find(c);
    return it == cats.end() ? 0 : it->second.frames.size();
  }
};

// a text that is not followed by the end of a string
struct View {
  std::string buf;
  std::string_view v;
  View(const std::string& s, Rng& r) : buf(s + (r.chance(0.7) ? "tail" + std::string(40, 'x') : "")), v(std::string_view(buf).substr(0, s.size())) {
  }
};

struct AnyWriter {
  std::unique_ptr<podio::ROOTWriter> tree;
  std::unique_ptr<podio::RNTupleWriter> tuple;
  std::unique_ptr<podio::Writer> gen;
  void write(const podio::Frame& f, const std::string& cat, const std::vector<std::string>* names, Rng& r) {
    if (gen) {
      if (cat == podio::Category::Event && r.chance(0.5)) {
        names ? gen->writeEvent(f, *names) : gen->writeEvent(f);
      } else {
        names ? gen->writeFrame(f, cat, *names) : gen->writeFrame(f, cat);
      }
      return;
    }
    const View c(cat, r);
    if (tree) {
      names ? tree->writeFrame(f, c.v, *names) : tree->writeFrame(f, c.v);
    } else {
      names ? tuple->writeFrame(f, c.v, *names) : tuple->writeFrame(f, c.v);
    }
  }
  void finish() {
    gen ? gen->finish() : tree ? tree->finish() : tuple->finish();
  }
};
static AnyWriter makeWriterFor(Rng& r, const std::string& path, bool tuple) {
  AnyWriter w;
  if (r.chance(0.5)) {
    const bool env = r.chance(0.5), byDefault = r.chance(0.4);
    env ? setenv("PODIO_DEFAULT_WRITE_RNTUPLE", "1", 1) : unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
    if (byDefault) {
      tuple ? setenv("PODIO_DEFAULT_WRITE_RNTUPLE", "1", 1) : unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
    }
    w.gen = std::make_unique<podio::Writer>(podio::makeWriter(path, byDefault ? "default" : tuple ? (r.chance(0.5) ? "rntuple" : "RNTuple") : (r.chance(0.5) ? "root" : "ROOT")));
    unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
  } else if (tuple) {
    w.tuple = std::make_unique<podio::RNTupleWriter>(path);
  } else {
    w.tree = std::make_unique<podio::ROOTWriter>(path);
  }
  return w;
}

// a write that has to be refused and to leave no trace
static void badWrite(Rng& r, AnyWriter& w, const std::string& cat, const Cat& c, bool begun, const std::vector<Column>& layout) {
  std::vector<std::string> names(c.names.begin(), c.names.end());
  const int how = int(r.below(7));
  std::string what;
  auto refuse = [&](const podio::Frame& f, const std::vector<std::string>* l) {
    note("refused: " + what + " in " + cat + (begun ? "" : " at first"));
    expectThrow<std::exception>("root:" + what, [&] { w.write(f, cat, l, r); });
    vf::stat("writes_refused");
  };
  if (how == 0) { // a collection that is not there
    auto e = makeEv(r, layout);
    auto l = shuffled(names, r);
    l.insert(l.begin() + long(r.below(l.size() + 1)), "not_in_there");
    what = "write-missing-collection";
    refuse(e->f, &l);
  } else if (how == 1) { // a relation to what is in no collection
    std::vector<const TypeOps*> ts;
    for (auto* t : allTypes()) {
      if (t->nMany()) {
        ts.push_back(t);
      }
    }
    auto& t = *r.pick(ts);
    auto coll = t.newColl();
    auto h = t.create(*coll);
    const int i = int(r.below(uint64_t(t.nMany())));
    const auto to = t.manyTypes(i);
    t.addMany(*h, i, *T(r.pick(to)).make());
    h.reset();
    // under a name of the category, so that only this is wrong
    std::vector<Column> rest;
    std::vector<std::string> l{begun && !names.empty() ? r.pick(names) : "incomplete"};
    for (auto& x : layout) {
      if (x.name != l[0]) {
        rest.push_back(x);
        if (c.names.count(x.name)) {
          l.push_back(x.name);
        }
      }
    }
    if (begun && (names.empty() || l.size() != names.size())) {
      return;
    }
    auto e = makeEv(r, rest);
    e->f.put(std::move(coll), l[0]);
    what = "write-incomplete-collection";
    refuse(e->f, &l);
  } else if (how == 6) { // collections that would end up in one place
    auto mine = layout;
    std::vector<std::string> l;
    auto have = [&](const std::string& n) {
      for (auto& x : mine) {
        if (x.name == n) {
          return true;
        }
      }
      return false;
    };
    std::string name;
    if (mine.empty() || r.chance(0.3)) {
      const char* fixed[] = {"GPIntKeys", "GPIntValues", "GPFloatKeys", "GPFloatValues", "GPDoubleKeys", "GPDoubleValues", "GPStringKeys", "GPStringValues"};
      name = fixed[r.below(8)];
    } else {
      auto& x = r.pick(mine);
      if (x.ud) {
        return;
      }
      std::vector<std::string> parts;
      if (x.subset) {
        name = x.name + "_objIdx";
      } else {
        const auto& t = T(x.type);
        const auto rel = podio::DatamodelRegistry::instance().getRelationNames(t.newColl()->getValueTypeName());
        for (auto v : {rel.relations, rel.vectorMembers}) {
          for (auto n : v) {
            parts.push_back("_" + x.name + "_" + std::string(n));
          }
        }
        if (parts.empty()) {
          return;
        }
        name = r.pick(parts);
      }
      l.push_back(x.name);
    }
    if (have(name) || begun) {
      return;
    }
    Column c2;
    c2.name = name;
    c2.type = int(r.below(allTypes().size()));
    mine.push_back(c2);
    l.insert(l.begin() + long(r.below(l.size() + 1)), name);
    what = "write-name-clash";
    refuse(makeEv(r, mine)->f, &l);
  } else if (!begun) {
    return;
  } else if (how == 2) { // other collections than before
    auto e = makeEv(r, layout);
    podio::UserDataCollection<int> more;
    more.push_back(1);
    e->f.put(std::move(more), "one_more");
    auto l = shuffled(names, r);
    what = "write-other-names";
    if (l.empty() || r.chance(0.5)) {
      l.insert(l.begin() + long(r.below(l.size() + 1)), "one_more");
    } else if (r.chance(0.5)) {
      l.pop_back();
    } else {
      l[r.below(l.size())] = "one_more";
    }
    refuse(e->f, &l);
  } else if (how == 3) { // a name that only differs in the case
    if (names.empty()) {
      return;
    }
    auto l = names;
    auto& n = r.pick(l);
    const auto was = n;
    for (auto& x : n) {
      x = char(std::isupper(x) ? std::tolower(x) : std::toupper(x));
    }
    if (n == was || c.names.count(n)) {
      return;
    }
    auto more = layout;
    for (auto& x : more) {
      if (x.name == n) {
        return;
      }
    }
    for (auto x : layout) {
      if (x.name == was) {
        x.name = n;
        more.push_back(x);
        break;
      }
    }
    what = "write-other-case";
    refuse(makeEv(r, more)->f, &l);
  } else { // something else under the same name
    if (names.empty()) {
      return;
    }
    auto other = layout;
    auto& n = r.pick(names);
    for (auto& x : other) {
      if (x.name == n) {
        if (x.ud) {
          auto* u = allUD()[r.below(allUD().size())];
          if (u->typeName() == x.ud->typeName() || r.chance(0.3)) {
            x.ud = nullptr;
            x.type = int(r.below(allTypes().size()));
          } else {
            x.ud = u;
          }
        } else if (r.chance(0.4)) {
          x.subset = !x.subset;
        } else if (r.chance(0.2)) {
          x.ud = allUD()[r.below(allUD().size())];
          x.subset = false;
        } else {
          const int t = int(r.below(allTypes().size()));
          if (t == x.type) {
            return;
          }
          x.type = t;
        }
      }
    }
    what = "write-other-type";
    refuse(makeEv(r, other)->f, &names);
  }
}

static void writeOne(Rng& r, const std::string& path, Files& fs_, const std::vector<Column>& layout, const std::vector<std::shared_ptr<Ev>>& evs, bool first) {
  auto w = makeWriterFor(r, path, fs_.tuple);
  std::map<std::string, size_t> here;
  std::vector<std::string> todo;
  for (auto& [c, v] : fs_.cats) {
    size_t n = 1 + r.below(4);
    if (fs_.tuple && !first && r.chance(0.2)) {
      n = 0; // this file does not have the category
    }
    todo.insert(todo.end(), n, c);
  }
  std::string log;
  auto consistency = [&](const std::string& cat) {
    if (w.gen) {
      return;
    }
    auto all = fs_.cats[cat].names;
    std::vector<std::string> l(all.begin(), all.end());
    l = shuffled(l, r);
    std::vector<std::string> miss, extra;
    if (here[cat]) {
      while (!l.empty() && r.chance(0.3)) {
        miss.push_back(l.back());
        l.pop_back();
      }
    }
    for (const char* n : {"another one", "", "z"}) {
      if (r.chance(0.2) && !all.count(n)) {
        extra.push_back(n);
        l.insert(l.begin() + long(r.below(l.size() + 1)), n);
      }
    }
    std::sort(miss.begin(), miss.end());
    if (!here[cat]) {
      extra = l;
    }
    std::sort(extra.begin(), extra.end());
    const View v(cat, r);
    auto [a, b] = w.tree ? w.tree->checkConsistency(l, v.v) : w.tuple->checkConsistency(l, v.v);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    checkEq(canonS(a), canonS(miss), "root:consistency-missing", cat);
    checkEq(canonS(b), canonS(extra), "root:consistency-more", cat);
    vf::stat("consistency_checks");
  };
  for (auto& cat : shuffled(todo, r)) {
    auto& c = fs_.cats[cat];
    if (refusing() && r.chance(0.4)) {
      badWrite(r, w, cat, c, here[cat], layout);
    }
    if (refusing() && r.chance(0.4)) {
      consistency(cat);
    }
    auto e = r.pick(evs);
    const std::vector<std::string> list = shuffled(std::vector<std::string>(c.names.begin(), c.names.end()), r);
    const bool all = c.names.size() == e->ev.colls.size() && r.chance(0.5);
    log += cat.substr(0, 12) + ":" + std::to_string(list.size()) + (all ? "* " : " ");
    w.write(e->f, cat, all ? nullptr : &list, r);
    ++here[cat];
    c.frames.push_back(e);
    vf::stat("frames_written");
    if (refusing() && r.chance(0.4)) {
      badWrite(r, w, cat, c, true, layout);
    }
  }
  note("write " + log);
  for (int k = int(r.below(3)); k > 0; --k) {
    w.finish();
  }
}

// Files as earlier versions of podio wrote them, see the history of ROOTWriter:
// until 1.2 the table of IDs is stored and the information on collections has no names, before 1.0 all parameters are in
// one branch, before 0.17 branches are numbered, before 0.16.4 there are no schema versions
static void writeOld(Rng& r, const std::string& path, Files& fs_, const std::vector<std::shared_ptr<Ev>>& evs) {
  using podio::version::Version;
  using podio::root_utils::CollectionInfoWithoutSchemaT;
  using podio::root_utils::CollectionWriteInfoT;
  const auto v = *fs_.old;
  const bool indexed = v < Version{0, 16, 99}, onePar = v < Version{0, 99, 99}, noSchema = v < Version{0, 16, 4};
  TFile file(path.c_str(), "recreate");
  struct Old {
    TTree* tree = nullptr; // of the file
    std::vector<std::string> names;
    std::vector<TBranch*> branches;
    std::vector<CollectionWriteInfoT> info;
    std::vector<CollectionInfoWithoutSchemaT> infoNoSchema;
    std::unique_ptr<podio::CollectionIDTable> table;
    std::tuple<std::vector<std::string>, std::vector<std::vector<int>>> i;
    std::tuple<std::vector<std::string>, std::vector<std::vector<float>>> f;
    std::tuple<std::vector<std::string>, std::vector<std::vector<double>>> d;
    std::tuple<std::vector<std::string>, std::vector<std::vector<std::string>>> s;
  };
  std::map<std::string, Old> cats;
  std::vector<std::string> todo;
  for (auto& [c, x] : fs_.cats) {
    todo.insert(todo.end(), 1 + r.below(4), c);
  }
  for (auto& cat : shuffled(todo, r)) {
    auto& c = fs_.cats[cat];
    auto& o = cats[cat];
    auto e = r.pick(evs);
    const bool first = !o.tree;
    if (first) {
      o.tree = new TTree(cat.c_str(), "");
      o.tree->SetDirectory(&file);
      o.names = shuffled(std::vector<std::string>(c.names.begin(), c.names.end()), r);
      std::vector<uint32_t> ids;
      std::vector<std::string> names;
      for (auto& x : e->ev.colls) { // all of the frame
        ids.push_back(x->id);
        names.push_back(x->name);
      }
      o.table = std::make_unique<podio::CollectionIDTable>(ids, names);
    }
    size_t br = 0;
    std::vector<std::unique_ptr<void*>> keep;
    auto put = [&](const std::string& name, const std::string& type, void* obj) {
      keep.push_back(std::make_unique<void*>(obj));
      if (first) {
        o.branches.push_back(o.tree->Branch(name.c_str(), type.c_str(), keep.back().get()));
      } else {
        o.branches[br++]->SetAddress(keep.back().get());
      }
    };
    for (auto& n : o.names) {
      auto* coll = const_cast<podio::CollectionBase*>(e->f.getCollectionForWrite(n));
      auto b = coll->getBuffers();
      if (first) {
        o.info.emplace_back(coll->getID(), std::string(coll->getTypeName()), coll->isSubsetCollection(), coll->getSchemaVersion());
        o.infoNoSchema.emplace_back(int(coll->getID()), std::string(coll->getTypeName()), coll->isSubsetCollection());
      }
      if (coll->isSubsetCollection()) {
        put(n + (indexed ? "#0" : "_objIdx"), "vector<podio::ObjectID>", (*b.references)[0].get());
        continue;
      }
      put(n, "vector<" + std::string(coll->getDataTypeName()) + ">", b.vecPtr);
      const auto rel = podio::DatamodelRegistry::instance().getRelationNames(coll->getValueTypeName());
      for (size_t i = 0; i < b.references->size(); ++i) {
        put(indexed ? n + "#" + std::to_string(i) : "_" + n + "_" + std::string(rel.relations[i]), "vector<podio::ObjectID>", (*b.references)[i].get());
      }
      for (size_t i = 0; i < b.vectorMembers->size(); ++i) {
        put(indexed ? n + "_" + std::to_string(i) : "_" + n + "_" + std::string(rel.vectorMembers[i]), "vector<" + (*b.vectorMembers)[i].first + ">", *static_cast<void**>((*b.vectorMembers)[i].second));
      }
    }
    const auto& params = e->f.getParameters();
    if (onePar) {
      put("PARAMETERS", "podio::GenericParameters", const_cast<podio::GenericParameters*>(&params));
    } else {
      o.i = params.getKeysAndValues<int>();
      o.f = params.getKeysAndValues<float>();
      o.d = params.getKeysAndValues<double>();
      o.s = params.getKeysAndValues<std::string>();
      put("GPIntKeys", "vector<string>", &std::get<0>(o.i));
      put("GPIntValues", "vector<vector<int>>", &std::get<1>(o.i));
      put("GPFloatKeys", "vector<string>", &std::get<0>(o.f));
      put("GPFloatValues", "vector<vector<float>>", &std::get<1>(o.f));
      put("GPDoubleKeys", "vector<string>", &std::get<0>(o.d));
      put("GPDoubleValues", "vector<vector<double>>", &std::get<1>(o.d));
      put("GPStringKeys", "vector<string>", &std::get<0>(o.s));
      put("GPStringValues", "vector<vector<string>>", &std::get<1>(o.s));
    }
    o.tree->Fill();
    c.frames.push_back(e);
    vf::stat("frames_written");
  }
  TTree meta("podio_metadata", "");
  meta.SetDirectory(&file);
  for (auto& [c, o] : cats) {
    meta.Branch((c + "___idTable").c_str(), o.table.get());
    noSchema ? meta.Branch((c + "___CollectionTypeInfo").c_str(), &o.infoNoSchema) : meta.Branch((c + "___CollectionTypeInfo").c_str(), &o.info);
  }
  const Version written = v;
  if (v != Version{}) {
    meta.Branch("PodioBuildVersion", &written);
  }
  std::vector<std::tuple<std::string, std::string>> defs;
  for (auto& d : fs_.dms) {
    defs.emplace_back(d, podio::DatamodelRegistry::instance().getDatamodelDefinition(d));
  }
  if (v != Version{}) {
    meta.Branch("EDMDefinitions", &defs);
  } else {
    fs_.dms.clear();
  }
  meta.Fill();
  file.Write();
  file.Close();
  vf::stat("old_files");
  note("old file " + std::string(v));
}

struct AnyReader {
  std::unique_ptr<podio::ROOTReader> tree;
  std::unique_ptr<podio::RNTupleReader> tuple;
  std::unique_ptr<podio::Reader> gen;
  static std::optional<podio::Frame> frame(std::unique_ptr<podio::ROOTFrameData> d) {
    return d ? std::optional<podio::Frame>(podio::Frame(std::move(d))) : std::nullopt;
  }
  std::optional<podio::Frame> next(const std::string& cat, const std::vector<std::string>& only, Rng& r) {
    if (!gen) {
      const View c(cat, r);
      return frame(tree ? tree->readNextEntry(c.v, only) : tuple->readNextEntry(c.v, only));
    }
    if (cat == podio::Category::Event && r.chance(0.5)) {
      return wrapped([&] { return gen->readNextEvent(only); });
    }
    return wrapped([&] { return gen->readNextFrame(cat, only); });
  }
  std::optional<podio::Frame> at(const std::string& cat, size_t i, const std::vector<std::string>& only, Rng& r) {
    if (!gen) {
      const View c(cat, r);
      return frame(tree ? tree->readEntry(c.v, unsigned(i), only) : tuple->readEntry(c.v, unsigned(i), only));
    }
    if (cat == podio::Category::Event && r.chance(0.5)) {
      return wrapped([&] { return gen->readEvent(i, only); });
    }
    return wrapped([&] { return gen->readFrame(cat, i, only); });
  }
  template <class F>
  std::optional<podio::Frame> wrapped(F&& f) { // reading beyond the end is signalled with an exception
    try {
      return f();
    } catch (const std::invalid_argument&) {
      throw;
    } catch (const std::runtime_error&) {
      return std::nullopt;
    }
  }
  size_t entries(const std::string& c, Rng& r) const {
    const View v(c, r);
    return tree ? tree->getEntries(v.v) : tuple ? tuple->getEntries(v.v) : gen->getEntries(c);
  }
};
template <class R>
static void checkMeta(const R& rd, const Files& f) {
  auto cats = rd.getAvailableCategories();
  std::vector<std::string> got(cats.begin(), cats.end()), want;
  std::sort(got.begin(), got.end());
  for (auto& [c, v] : f.cats) {
    want.push_back(c);
  }
  checkEq(canonS(got), canonS(want), "root:categories");
  check(rd.currentFileVersion() == f.old.value_or(podio::version::build_version), "root:podio-version");
  auto dms = rd.getAvailableDatamodels();
  std::sort(dms.begin(), dms.end());
  checkEq(canonS(dms), canonS(std::vector<std::string>(f.dms.begin(), f.dms.end())), "root:datamodels");
  for (const std::string n : {"vm", "vx", "none"}) {
    const bool there = f.dms.count(n);
    const auto& reg = podio::DatamodelRegistry::instance();
    checkEq(std::string(rd.getDatamodelDefinition(n)), there ? std::string(reg.getDatamodelDefinition(n)) : "{}", "root:definition", n);
    auto v = rd.currentFileVersion(n);
    auto w = there && !f.old ? reg.getDatamodelVersion(n) : std::nullopt;
    check(v == w, "root:datamodel-version", n);
  }
}
static AnyReader openFiles(Rng& r, const Files& f) {
  AnyReader a;
  if (r.chance(0.5)) {
    if (f.tuple) {
      a.tuple = std::make_unique<podio::RNTupleReader>();
      f.paths.size() == 1 && r.chance(0.5) ? a.tuple->openFile(f.paths[0]) : a.tuple->openFiles(f.paths);
      checkMeta(*a.tuple, f);
    } else {
      a.tree = std::make_unique<podio::ROOTReader>();
      f.paths.size() == 1 && r.chance(0.5) ? a.tree->openFile(f.paths[0]) : a.tree->openFiles(f.paths);
      checkMeta(*a.tree, f);
    }
  } else {
    if (f.paths.size() == 1 && r.chance(0.4)) {
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(f.paths[0]));
    } else if (r.chance(0.5)) {
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(f.paths));
    } else {
      auto p = f.paths[0];
      p.replace(p.rfind('.') - 1, 1, "?");
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(p));
    }
    if (r.chance(0.3)) {
      podio::Reader m = std::move(*a.gen);
      *a.gen = std::move(m);
    }
    checkMeta(*a.gen, f);
    checkNum(int64_t(a.gen->getEvents()), int64_t(f.size(podio::Category::Event)), "root:events");
  }
  return a;
}

static const std::vector<std::string>& catPool() {
  static const std::vector<std::string> v = {podio::Category::Event, podio::Category::Run, podio::Category::Metadata, "a_category", "x", "podio_study", "event", "Events", "configuration_metadata", std::string(100, 'c')};
  return v;
}
static void checkSizes(AnyReader& rd, const Files& f, const std::string& cat, Rng& r) {
  auto s = rd.tree ? rd.tree->getSizeStats(cat) : rd.gen->getSizeStats(cat);
  const bool there = f.cats.count(cat) && !f.tuple;
  if (!check(s.has_value() == there, "root:size-stats", cat) || !there) {
    return;
  }
  std::vector<std::string> got, want = {"GPIntKeys", "GPIntValues", "GPFloatKeys", "GPFloatValues", "GPDoubleKeys", "GPDoubleValues", "GPStringKeys", "GPStringValues"};
  if (f.old && *f.old < podio::version::Version{0, 99, 99}) {
    want = {"PARAMETERS"};
  }
  for (auto& n : f.cats.at(cat).names) {
    want.push_back(n);
  }
  for (auto& [n, v] : *s) {
    got.push_back(n);
    check(v.numBytes > 0 && v.compressionFactor > 0 && v.compressionFactor <= 2.001, "root:size-of-collection", n);
  }
  std::sort(want.begin(), want.end());
  checkEq(canonS(got), canonS(want), "root:size-names", cat);
  vf::stat("size_stats");
}

static void readAll(Rng& r, Files& f, bool more);

static void fileCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 33, idx));
  setCase(idx, "ROOT file");
  if (r.chance(0.03)) { // a file that cannot be made
    const auto p = base() + "/none/f.root";
    expectThrow<std::exception>("root:uncreatable-file", [&] {
      auto w = makeWriterFor(r, p, r.chance(0.5));
      w.write(podio::Frame{}, "x", nullptr, r);
      w.finish();
    });
    expectThrow<std::exception>("root:missing-file", [&] { podio::makeReader(p); });
    expectThrow<std::exception>("root:missing-file", [&] { podio::ROOTReader().openFile(p); });
    expectThrow<std::exception>("root:missing-file", [&] { podio::RNTupleReader().openFile(p); });
    vf::stat("uncreatable_files");
  }
  std::vector<int> types(allTypes().size());
  std::iota(types.begin(), types.end(), 0);
  auto layout = makeLayout(r, types);
  std::optional<podio::version::Version> old;
  if (!refusing() && r.chance(0.12)) {
    // types without schema versions get the first one
    if (r.chance(0.3)) {
      std::erase_if(layout, [](auto& c) { return c.type >= 0 && allTypes()[size_t(c.type)]->schemaVersion() != 1; });
    }
    const bool ones = std::ranges::all_of(layout, [](auto& c) { return c.type < 0 || allTypes()[size_t(c.type)]->schemaVersion() == 1; });
    std::vector<podio::version::Version> versions = {{0, 16, 4}, {0, 16, 98}, {0, 17, 0}, {0, 16, 99}, {0, 99, 0}, {0, 99, 98}, {0, 99, 99}, {1, 0, 0}, {1, 2, 0}, {1, 2, 998}};
    if (ones) {
      versions = {{0, 16, 3}, {0, 13, 0}, {}};
    }
    old = r.pick(versions);
  }
  std::vector<std::shared_ptr<Ev>> evs;
  for (int n = 1 + int(r.below(4)); n > 0; --n) {
    evs.push_back(makeEv(r, layout));
  }
  Files f;
  f.tuple = !old && r.chance(0.5);
  f.old = old;
  std::set<std::string> all;
  for (auto& c : layout) {
    all.insert(c.name);
  }
  std::vector<std::string> cats = shuffled(catPool(), r);
  cats.resize(r.chance(0.3) ? 1 : 1 + r.below(4));
  for (auto& c : cats) {
    auto& x = f.cats[c];
    x.names = r.chance(0.4) ? all : someNames(all, r);
    for (auto& n : x.names) {
      if (auto it = evs[0]->dmOf.find(n); it != evs[0]->dmOf.end()) {
        f.dms.insert(it->second);
      }
    }
  }
  const int nf = r.chance(0.5) ? 1 : 2 + int(r.below(2));
  for (int k = 0; k < nf && !caseFailed(); ++k) {
    f.paths.push_back(base() + "/f" + std::to_string(idx) + "_" + std::to_string(k) + ".root");
    if (r.chance(0.2)) { // an old file is overwritten
      std::ofstream(f.paths.back()) << std::string(r.below(1000), 'x');
    }
    old ? writeOld(r, f.paths.back(), f, evs) : writeOne(r, f.paths.back(), f, layout, evs, k == 0);
  }
  if (!caseFailed()) {
    readAll(r, f, true);
  }
  for (auto& p : f.paths) {
    fs::remove(p);
  }
  uint64_t shape = uint64_t(nf) * 2 + f.tuple;
  for (auto& [c, v] : f.cats) {
    shape = mix(shape, hashStr(c));
    for (auto& s : v.frames) {
      shape = mix(shape, hashStr(s->ev.summary()) + v.names.size());
    }
  }
  if (!layout.empty()) {
    distinct("nontrivial", shape);
  }
  vf::stat(f.tuple ? "files_of_ntuples" : "files_of_trees", uint64_t(nf));
  vf::stat("files");
  rootstub::Disk::get().forget();
  vf::stat("stub_reads", rootstub::counts.reads);
  vf::stat("tree_switches", rootstub::counts.switches);
  rootstub::counts.clear();
  sample(recentNotes(20));
}

static void readAll(Rng& r, Files& f, bool more) {
  std::optional<AnyReader> rd = openFiles(r, f);
  std::vector<std::string> cats = catPool();
  cats.insert(cats.end(), {"unknown", ""});
  for (auto& c : cats) {
    checkNum(int64_t(rd->entries(c, r)), int64_t(f.size(c)), "root:entries", c);
  }
  std::map<std::string, int64_t> pos; // the next entry, -1: not known (after reading beyond the end)
  struct Late {
    podio::Frame f;
    Ev* e;
    std::set<std::string> keep;
  };
  std::vector<Late> late;
  const int steps = 3 + int(r.below(14));
  for (int i = 0; i < steps && !caseFailed(); ++i) {
    const std::string cat = r.chance(0.1) ? r.pick(cats) : std::next(f.cats.begin(), long(r.below(f.cats.size())))->first;
    if (!rd->tuple && r.chance(0.05)) {
      checkSizes(*rd, f, cat, r);
    }
    const bool next = pos[cat] >= 0 && r.chance(0.5);
    const int64_t n = int64_t(f.size(cat));
    int64_t at = next ? pos[cat] : r.chance(0.1) ? n + int64_t(r.below(3)) : int64_t(r.below(uint64_t(n ? n : 1)));
    if (!next && rd->gen && r.chance(0.05)) { // does not fit into 32 bits
      at = (int64_t(1 + r.below(3)) << 32) + int64_t(r.below(uint64_t(n + 1)));
    }
    Ev* e = at < n ? f.cats[cat].frames[size_t(at)].get() : nullptr;
    std::vector<std::string> only;
    std::set<std::string> keep;
    bool bad = false;
    if (e) {
      keep = f.cats[cat].names;
      if (r.chance(0.5)) {
        auto k = someNames(keep, r);
        if (!k.empty()) { // an empty list means all
          keep = k;
          only = shuffled(std::vector<std::string>(k.begin(), k.end()), r);
          if (r.chance(0.15)) {
            only.insert(only.begin() + long(r.below(only.size() + 1)), "not_there");
            bad = true;
          }
        }
      }
    }
    note((next ? "next " : "entry " + std::to_string(at) + " of ") + cat + (only.empty() ? "" : " " + std::to_string(only.size()) + " collections") + (bad ? " with an unknown one" : ""));
    if (bad) {
      expectThrow<std::invalid_argument>("root:unknown-collection", [&] { next ? rd->next(cat, only, r) : rd->at(cat, size_t(at), only, r); });
      if (!next) { // a refused read in order skips nothing; where one by number leaves the reader is not promised
        pos[cat] = -1;
      }
      continue;
    }
    std::optional<podio::Frame> got = next ? rd->next(cat, only, r) : rd->at(cat, size_t(at), only, r);
    vf::stat(next ? "read_next" : "read_entry");
    if (!check(got.has_value() == (e != nullptr), "root:entry-there", cat + " " + std::to_string(at) + " of " + std::to_string(n))) {
      break;
    }
    if (!e) {
      vf::stat("reads_beyond_the_end");
      if (!next) {
        pos[cat] = -1;
      }
      continue;
    }
    pos[cat] = at + 1;
    Late l{std::move(*got), e, keep};
    if (r.chance(0.7)) {
      compareFrame(l.f, e->ev, r, "read " + cat + " " + std::to_string(at), &l.keep);
      vf::stat("frames_compared");
    }
    if (more && r.chance(0.3)) { // looked at (again) when the reader and the file are gone
      late.push_back(std::move(l));
    }
  }
  rd.reset();
  for (auto& l : late) {
    compareFrame(l.f, l.e->ev, r, "looked at late", &l.keep);
    vf::stat("frames_compared");
  }
  // what was read can be written again
  if (!late.empty() && !caseFailed()) {
    const bool tuple = r.chance(0.5);
    const std::string p2 = base() + "/g_0.root";
    std::vector<Late*> same; // those with the same collections
    for (auto& l : late) {
      if (l.keep == late[0].keep) {
        same.push_back(&l);
      }
    }
    {
      auto w = makeWriterFor(r, p2, tuple);
      for (auto* l : same) {
        w.write(l->f, "again", nullptr, r);
      }
    }
    auto r2 = podio::makeReader(p2);
    checkNum(int64_t(r2.getEntries("again")), int64_t(same.size()), "root:entries", "written again");
    for (size_t i = same.size(); i-- > 0 && !caseFailed();) {
      auto g = r2.readFrame("again", i);
      compareFrame(g, same[i]->e->ev, r, "second generation", &same[i]->keep);
      vf::stat("second_generations");
    }
    fs::remove(p2);
  }
}

// ---- C35: data sources for RDataFrame, and readers and writers in several threads ------------------------------
static void inThreads(size_t n, const std::function<void(size_t)>& f) {
  std::barrier<> b{ptrdiff_t(n)};
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i) {
    ts.emplace_back([&, i] {
      b.arrive_and_wait();
      try {
        f(i);
      } catch (const std::exception& e) {
        vf::violation("unexpected-exception:in-thread", e.what());
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
}
// files with random frames in these categories
static Files someFiles(Rng& r, uint64_t idx, const std::vector<std::string>& cats, std::vector<Column>& layout, bool partial = true) {
  std::vector<int> types(allTypes().size());
  std::iota(types.begin(), types.end(), 0);
  layout = makeLayout(r, types);
  std::vector<std::shared_ptr<Ev>> evs;
  for (int n = 1 + int(r.below(5)); n > 0; --n) {
    evs.push_back(makeEv(r, layout));
  }
  Files f;
  f.tuple = r.chance(0.5);
  std::set<std::string> all;
  for (auto& c : layout) {
    all.insert(c.name);
  }
  for (auto& c : cats) {
    f.cats[c].names = !partial || r.chance(0.6) ? all : someNames(all, r);
  }
  const int nf = r.chance(0.5) ? 1 : 2 + int(r.below(2));
  for (int k = 0; k < nf && !caseFailed(); ++k) {
    f.paths.push_back(base() + "/f" + std::to_string(idx) + "_" + std::to_string(k) + ".root");
    writeOne(r, f.paths.back(), f, layout, evs, k == 0);
  }
  return f;
}
static void done(const Files& f) {
  for (auto& p : f.paths) {
    fs::remove(p);
  }
  rootstub::Disk::get().forget();
  vf::stat("stub_reads", rootstub::counts.reads);
  rootstub::counts.clear();
  sample(recentNotes(20));
}

static void sourceCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 35, idx));
  setCase(idx, "data source");
  using podio::Category::Event;
  std::vector<Column> layout;
  std::vector<std::string> cats{Event};
  if (r.chance(0.3)) {
    cats.push_back("other");
  }
  Files f = someFiles(r, idx, cats, layout);
  if (caseFailed()) {
    return;
  }
  const auto& cat = f.cats[Event];
  const size_t there = cat.frames.size();
  auto pattern = f.paths[0];
  pattern.replace(pattern.rfind('.') - 1, 1, "*");
  // what must not work
  expectThrow<std::exception>("source:no-files", [&] { podio::DataSource(std::vector<std::string>{}); });
  expectThrow<std::exception>("source:no-such-file", [&] { podio::DataSource(base() + "/none.root"); });
  expectThrow<std::exception>("source:no-events-asked", [&] { podio::DataSource(f.paths, 0); });
  expectThrow<std::exception>("source:unknown-collection", [&] { podio::DataSource(f.paths, -1, {"not_there"}); });

  std::set<std::string> keep = cat.names;
  std::vector<std::string> only;
  if (r.chance(0.5)) {
    if (auto k = someNames(keep, r); !k.empty()) {
      keep = k;
      only = shuffled(std::vector<std::string>(k.begin(), k.end()), r);
    }
  }
  int ask = r.chance(0.4) ? -1 - int(r.below(2)) : 1 + int(r.below(there + 3));
  std::shared_ptr<ROOT::RDF::RDataSource> ds;
  const int how = int(r.below(4));
  const bool single = f.paths.size() == 1;
  if (how == 0) {
    ds = std::make_shared<podio::DataSource>(f.paths, ask, only);
  } else if (how == 1) {
    ds = std::make_shared<podio::DataSource>(single && r.chance(0.5) ? f.paths[0] : pattern, ask, only);
  } else {
    ask = -1;
    ds = (how == 2 ? podio::CreateDataFrame(f.paths, only) : podio::CreateDataFrame(single && r.chance(0.5) ? f.paths[0] : pattern, only)).source;
  }
  const size_t n = ask < 0 ? there : std::min(size_t(ask), there);
  const size_t slots = r.chance(0.3) ? 1 : 1 + r.below(std::min<size_t>(n, 5));
  note("source of " + std::to_string(there) + " events, asked for " + std::to_string(ask) + ", " + std::to_string(keep.size()) + " columns, " + std::to_string(slots) + " slots");
  ds->SetNSlots(unsigned(slots));

  auto columns = ds->GetColumnNames();
  std::vector<std::string> got = columns;
  std::sort(got.begin(), got.end());
  checkEq(canonS(got), canonS(std::vector<std::string>(keep.begin(), keep.end())), "source:columns");
  if (caseFailed()) {
    return;
  }
  for (auto& c : layout) {
    const View v(c.name, r);
    check(ds->HasColumn(v.v) == (keep.count(c.name) > 0), "source:has-column", c.name);
    if (keep.count(c.name)) {
      checkEq(ds->GetTypeName(v.v), std::string(cat.frames[0]->f.get(c.name)->getTypeName()), "source:type-of-column", c.name);
    }
  }
  check(!ds->HasColumn("not_there") && !ds->HasColumn(""), "source:has-column", "not_there");
  expectThrow<std::exception>("source:unknown-column", [&] { ds->GetTypeName("not_there"); });
  expectThrow<std::exception>("source:unknown-column", [&] { ds->GetColumnReaders<const podio::CollectionBase>("not_there"); });

  struct Col {
    std::string name;
    std::vector<const podio::CollectionBase**> at; // by slot
  };
  std::vector<Col> cols;
  const int loops = 1 + int(r.below(3));
  for (int loop = 0; loop < loops && !caseFailed(); ++loop) {
    for (int k = int(r.below(4)); k > 0 && !columns.empty(); --k) { // the same one may be asked for several times
      const auto& name = r.pick(columns);
      const View v(name, r);
      cols.push_back({name, ds->GetColumnReaders<const podio::CollectionBase>(v.v)});
      checkNum(int64_t(cols.back().at.size()), int64_t(slots), "source:readers-of-column", name);
    }
    if (caseFailed()) {
      return;
    }
    std::vector<std::pair<ULong64_t, ULong64_t>> seen;
    auto entry = [&](unsigned slot, ULong64_t e, Rng& mine) {
      if (!check(e < n, "source:entry-beyond-the-end", std::to_string(e) + " of " + std::to_string(n))) {
        return;
      }
      check(ds->SetEntry(slot, e), "source:entry-refused");
      const auto& ev = cat.frames[e]->ev;
      CmpCtx c;
      c.r = &mine;
      c.available = [&](const MObj& m) { return keep.count(m.coll->name) > 0; };
      c.idOf = [&](const MObj& m) { return podio::ObjectID{m.idx, m.coll->id}; };
      for (auto& x : cols) {
        c.where = "entry " + std::to_string(e) + " slot " + std::to_string(slot) + " " + x.name;
        if (check(*x.at[slot] != nullptr, "source:no-collection", c.where)) {
          compareColl(**x.at[slot], *ev.find(x.name), c);
          vf::stat("columns_compared");
        }
      }
      vf::stat("entries_set");
    };
    ds->Initialize();
    int rounds = 0;
    for (auto rs = ds->GetEntryRanges(); !rs.empty() && !caseFailed(); rs = ds->GetEntryRanges()) {
      if (!check(++rounds < 1000, "source:ranges-never-end")) {
        return;
      }
      seen.insert(seen.end(), rs.begin(), rs.end());
      if (slots == 1 || r.chance(0.2)) {
        for (auto& [a, b] : rs) {
          const auto slot = unsigned(r.below(slots));
          ds->InitSlot(slot, a);
          for (auto e = a; e < b && !caseFailed(); ++e) {
            entry(slot, e, r);
          }
          ds->FinalizeSlot(slot);
        }
      } else {
        std::vector<unsigned> ids(slots);
        std::iota(ids.begin(), ids.end(), 0U);
        std::rotate(ids.begin(), ids.begin() + long(r.below(slots)), ids.end());
        const auto seed = r.next();
        std::atomic<size_t> todo{0};
        inThreads(slots, [&](size_t t) {
          Rng mine(mix(seed, t));
          for (size_t k = todo++; k < rs.size() && !caseFailed(); k = todo++) {
            ds->InitSlot(ids[t], rs[k].first);
            for (auto e = rs[k].first; e < rs[k].second && !caseFailed(); ++e) {
              entry(ids[t], e, mine);
            }
            ds->FinalizeSlot(ids[t]);
          }
        });
        vf::stat("loops_with_threads");
      }
    }
    ds->Finalize();
    std::sort(seen.begin(), seen.end());
    ULong64_t end = 0;
    for (auto& [a, b] : seen) {
      if (a == b) {
        continue;
      }
      check(a == end && b > a, "source:ranges", "loop " + std::to_string(loop) + ": " + std::to_string(a) + " to " + std::to_string(b) + " after " + std::to_string(end));
      end = b;
    }
    checkNum(int64_t(end), int64_t(n), "source:events-of-a-loop", "loop " + std::to_string(loop));
    vf::stat("loops");
  }
  distinct("nontrivial", mix(mix(idx, n * 8 + slots), keep.size()));
  vf::stat("sources");
  ds.reset();
  done(f);
}

// every thread has readers and writers of its own, for files that others read as well
static void threadsCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 36, idx));
  setCase(idx, "readers and writers in threads");
  std::vector<Column> layout;
  Files f = someFiles(r, idx, {podio::Category::Event, "other"}, layout);
  if (caseFailed()) {
    return;
  }
  const size_t n = 2 + r.below(3);
  const auto seed = r.next();
  struct Own {
    std::string path;
    std::vector<std::shared_ptr<Ev>> evs;
    bool tuple = false;
  };
  std::vector<Own> own(n);
  for (size_t i = 0; i < n; ++i) {
    own[i].path = base() + "/t" + std::to_string(i) + ".root";
    own[i].tuple = r.chance(0.5);
    for (int k = int(r.below(3)); k > 0; --k) {
      own[i].evs.push_back(makeEv(r, layout));
    }
  }
  inThreads(n, [&](size_t t) {
    Rng mine(mix(seed, t));
    auto& o = own[t];
    auto writeMine = [&] {
      if (o.evs.empty()) {
        return;
      }
      auto go = [&](auto&& w) {
        for (auto& e : o.evs) {
          w.writeFrame(e->f, "mine");
        }
        w.finish();
      };
      mine.chance(0.5) ? go(podio::makeWriter(o.path, o.tuple ? "rntuple" : "root")) : o.tuple ? go(podio::RNTupleWriter(o.path)) : go(podio::ROOTWriter(o.path));
      vf::stat("files_written_in_threads");
    };
    auto use = [&](auto&& rd, auto frame) {
      for (int k = 1 + int(mine.below(5)); k > 0 && !caseFailed(); --k) {
        const std::string c = mine.chance(0.5) ? podio::Category::Event : mine.chance(0.6) ? "other" : "unknown";
        const auto size = f.size(c);
        const auto at = mine.below(size + 1);
        checkNum(int64_t(rd.getEntries(c)), int64_t(size), "threads:entries", c);
        std::optional<podio::Frame> got = frame(rd, c, at);
        if (check(got.has_value() == (at < size), "threads:entry-there", c) && got) {
          compareFrame(*got, f.cats.at(c).frames[at]->ev, mine, "thread " + std::to_string(t) + " " + c, &f.cats.at(c).names);
          vf::stat("frames_read_in_threads");
        }
      }
    };
    auto raw = [](auto& rd, const std::string& c, size_t at) -> std::optional<podio::Frame> {
      auto d = rd.readEntry(c, unsigned(at));
      return d ? std::optional<podio::Frame>(podio::Frame(std::move(d))) : std::nullopt;
    };
    auto read = [&] {
      if (mine.chance(0.4)) {
        use(podio::makeReader(f.paths), [](auto& rd, const std::string& c, size_t at) -> std::optional<podio::Frame> {
          try {
            return rd.readFrame(c, at);
          } catch (const std::runtime_error&) {
            return std::nullopt;
          }
        });
      } else if (f.tuple) {
        podio::RNTupleReader rd;
        rd.openFiles(f.paths);
        use(rd, raw);
      } else {
        podio::ROOTReader rd;
        rd.openFiles(f.paths);
        use(rd, raw);
      }
    };
    const bool before = mine.chance(0.5);
    if (before) {
      writeMine();
    }
    read();
    if (!before) {
      writeMine();
    }
    read();
  });
  for (auto& o : own) {
    if (!o.evs.empty() && !caseFailed()) {
      auto rd = podio::makeReader(o.path);
      checkNum(int64_t(rd.getEntries("mine")), int64_t(o.evs.size()), "threads:written");
      for (size_t i = 0; i < o.evs.size() && !caseFailed(); ++i) {
        compareFrame(rd.readFrame("mine", i), o.evs[i]->ev, r, "written in a thread");
        vf::stat("frames_compared");
      }
    }
    fs::remove(o.path);
  }
  distinct("nontrivial", mix(idx, n));
  vf::stat("thread_histories");
  done(f);
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    rootDictionary();
    rootstub::types()["podio::GenericParameters"] = rootstub::typeOf<podio::GenericParameters>();
    [&]<class... T>(const std::tuple<T...>*) {
      (rootstub::TClass_<podio::UserDataCollection<T>>(std::string(podio::UserDataCollection<T>::typeName)), ...);
    }(static_cast<const podio::SupportedUserDataTypes*>(nullptr));
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "source") {
        i % 3 ? sourceCase(i) : threadsCase(i);
      } else {
        fileCase(i);
      }
    }
    std::error_code ec;
    fs::remove_all(base(), ec);
  });
}
