// C28, C29: files written with the SIO writer hold exactly the frames given to it
#include "podio/FrameCategories.h"
#include "podio/Reader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/Writer.h"
#include "podio/DatamodelRegistry.h"
#include "podio/LinkCollection.h"
#include "vf_event.h"
#include "vm/ClusterCollection.h"
#include "vm/HitCollection.h"
#include <filesystem>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <csignal>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vf;
namespace fs = std::filesystem;

static std::string base() {
  static const std::string d = [] {
    const char* t = std::getenv("TMPDIR");
    auto p = std::string(t ? t : "/tmp") + "/vfsio." + std::to_string(getpid());
    fs::create_directories(p);
    return p;
  }();
  return d;
}

static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}

struct Ev {
  MEvent ev;
  podio::Frame f;
  std::set<std::string> dms; // datamodels of what is in there
  std::map<std::string, std::string> dmOf;
};
struct Stored {
  std::shared_ptr<Ev> e;
  std::set<std::string> names; // what was written
};
static std::shared_ptr<Ev> makeEv(Rng& r, double huge = 0) {
  auto e = std::make_shared<Ev>();
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.maxColls = 6;
  o.minColls = 0;
  o.hugeChance = huge;
  genEvent(r, o, e->ev, colls);
  putParams(e->ev.params, e->f, r);
  for (size_t i : [&] {
         std::vector<size_t> v(colls.size());
         std::iota(v.begin(), v.end(), 0);
         for (size_t k = v.size(); k > 1; --k) {
           std::swap(v[k - 1], v[r.below(k)]);
         }
         return v;
       }()) {
    auto& m = *e->ev.colls[i];
    const auto dm = std::string(podio::DatamodelRegistry::instance().getDatamodelName(colls[i]->getDatamodelRegistryIndex()));
    if (m.type >= 0 && !dm.empty()) { // a link type may be in no datamodel
      e->dmOf[m.name] = dm;
    }
    e->f.put(std::move(colls[i]), m.name);
  }
  for (auto& ob : e->ev.objs) {
    ob->h.reset();
  }
  for (auto& c : e->ev.colls) {
    c->id = e->f.get(c->name)->getID();
  }
  return e;
}
static std::vector<std::string> allNames(const MEvent& ev) {
  std::vector<std::string> v;
  for (auto& c : ev.colls) {
    v.push_back(c->name);
  }
  return v;
}
static std::set<std::string> someNames(const std::set<std::string>& all, Rng& r) {
  std::set<std::string> s;
  const double p = r.chance(0.2) ? 1 : r.chance(0.2) ? 0 : 0.5;
  for (auto& n : all) {
    if (r.chance(p)) {
      s.insert(n);
    }
  }
  return s;
}

struct File {
  std::string path;
  std::map<std::string, std::vector<Stored>> cats;
  std::set<std::string> dms;
};

// one way to read: the reader of SIO files or the general one
struct AnyReader {
  std::unique_ptr<podio::SIOReader> sio;
  std::unique_ptr<podio::Reader> gen;
  std::optional<podio::Frame> next(const std::string& cat, const std::vector<std::string>& only, Rng& r) {
    if (sio) {
      auto d = sio->readNextEntry(cat, only);
      return d ? std::optional<podio::Frame>(podio::Frame(std::move(d))) : std::nullopt;
    }
    if (cat == podio::Category::Event && r.chance(0.5)) {
      return wrapped([&] { return gen->readNextEvent(only); });
    }
    return wrapped([&] { return gen->readNextFrame(cat, only); });
  }
  std::optional<podio::Frame> at(const std::string& cat, size_t i, const std::vector<std::string>& only, Rng& r) {
    if (sio) {
      auto d = sio->readEntry(cat, unsigned(i), only);
      return d ? std::optional<podio::Frame>(podio::Frame(std::move(d))) : std::nullopt;
    }
    if (cat == podio::Category::Event && r.chance(0.5)) {
      return wrapped([&] { return gen->readEvent(i, only); });
    }
    return wrapped([&] { return gen->readFrame(cat, i, only); });
  }
  template <class F>
  std::optional<podio::Frame> wrapped(F&& f) { // reading beyond the end is signalled with an exception
    try {
      return f();
    } catch (const std::invalid_argument&) {
      throw;
    } catch (const std::runtime_error&) {
      return std::nullopt;
    }
  }
  size_t entries(const std::string& c) const {
    return sio ? sio->getEntries(c) : gen->getEntries(c);
  }
};
template <class R>
static void checkMeta(const R& rd, const File& f) {
  auto cats = rd.getAvailableCategories();
  std::vector<std::string> got(cats.begin(), cats.end()), want;
  std::sort(got.begin(), got.end());
  for (auto& [c, v] : f.cats) {
    if (!v.empty()) {
      want.push_back(c);
    }
  }
  checkEq(canonS(got), canonS(want), "sio:categories");
  check(rd.currentFileVersion() == podio::version::build_version, "sio:podio-version");
  auto dms = rd.getAvailableDatamodels();
  std::sort(dms.begin(), dms.end());
  checkEq(canonS(dms), canonS(std::vector<std::string>(f.dms.begin(), f.dms.end())), "sio:datamodels");
  for (const std::string n : {"vm", "vx", "none"}) {
    const bool there = f.dms.count(n);
    const auto& reg = podio::DatamodelRegistry::instance();
    checkEq(std::string(rd.getDatamodelDefinition(n)), there ? std::string(reg.getDatamodelDefinition(n)) : "{}", "sio:definition", n);
    auto v = rd.currentFileVersion(n);
    auto w = there ? reg.getDatamodelVersion(n) : std::nullopt;
    check(v == w, "sio:datamodel-version", n);
    if (n == "vx" && there) {
      check(v.has_value(), "sio:datamodel-version-lost", n);
    }
  }
}

static const std::vector<std::string>& catPool() {
  static const std::vector<std::string> v = {podio::Category::Event, podio::Category::Run, podio::Category::Metadata, "a category", "x", "podio_study", "event", "Events", "configuration_metadata", std::string(100, 'c')};
  return v;
}
// a write that cannot be done: it has to be refused and to leave nothing in the file
static void badWrite(Rng& r, const std::vector<std::shared_ptr<Ev>>& evs, podio::SIOWriter* w, podio::Writer* g, const std::string& cat) {
  auto write = [&](const podio::Frame& f, const std::vector<std::string>* names) {
    if (g) {
      names ? g->writeFrame(f, cat, *names) : g->writeFrame(f, cat);
    } else {
      names ? w->writeFrame(f, cat, *names) : w->writeFrame(f, cat);
    }
  };
  podio::Frame f;
  f.putParameter("bad", 1);
  switch (r.below(3)) {
  case 0: { // a collection that is not there
    auto& e = *r.pick(evs);
    auto names = shuffled(allNames(e.ev), r);
    names.insert(names.begin() + long(r.below(names.size() + 1)), "not in there");
    note("write of a missing collection");
    expectThrow<std::exception>("sio:write-missing-collection", [&] { write(e.f, &names); });
    break;
  }
  case 1: { // a relation to an object that is in no collection
    std::vector<const TypeOps*> ts;
    for (auto* t : allTypes()) {
      if (t->nMany()) {
        ts.push_back(t);
      }
    }
    auto& t = *r.pick(ts);
    auto c = t.newColl();
    t.create(*c);
    auto h = t.create(*c);
    const int i = int(r.below(uint64_t(t.nMany())));
    const auto to = t.manyTypes(i);
    t.addMany(*h, i, *T(r.pick(to)).make());
    h.reset();
    if (r.chance(0.5)) {
      f.put(std::make_unique<HitCollection>(), "fine");
    }
    f.put(std::move(c), "incomplete");
    note("write of an incomplete " + t.name());
    expectThrow<std::exception>("sio:write-incomplete-collection", [&] { write(f, nullptr); });
    break;
  }
  default: { // a type without a block
    f.put(podio::LinkCollection<Cluster, Hit>(), "no block");
    if (r.chance(0.5)) {
      f.put(HitCollection(), "fine");
    }
    note("write of a type without block");
    expectThrow<std::exception>("sio:write-without-block", [&] { write(f, nullptr); });
  }
  }
  vf::stat("writes_refused");
}

static File writeFile(Rng& r, const std::string& path, const std::vector<std::shared_ptr<Ev>>& evs) {
  File f;
  f.path = path;
  std::vector<std::string> cats = catPool();
  for (size_t i = cats.size(); i > 1; --i) {
    if (r.chance(0.3)) {
      std::swap(cats[i - 1], cats[r.below(i)]);
    }
  }
  cats.resize(r.chance(0.3) ? 1 : 1 + r.below(5));
  {
    std::optional<podio::SIOWriter> w;
    std::optional<podio::Writer> g;
    const bool general = r.chance(0.5);
    if (r.chance(0.2)) { // an old file is overwritten
      std::ofstream(path) << std::string(r.below(100000), 'x');
    }
    if (general) {
      g.emplace(podio::makeWriter(path, r.chance(0.5) ? "default" : r.chance(0.5) ? "root" : "rntuple"));
    } else {
      w.emplace(path);
    }
    const int n = r.chance(0.1) ? 0 : int(r.below(9));
    std::string log;
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.1)) {
        badWrite(r, evs, w ? &*w : nullptr, g ? &*g : nullptr, r.pick(cats));
      }
      auto& cat = r.pick(cats);
      Stored s{r.pick(evs), {}};
      auto names = allNames(s.e->ev);
      s.names = {names.begin(), names.end()};
      const bool all = r.chance(0.5);
      if (!all) {
        s.names = someNames(s.names, r);
      }
      const auto list = shuffled({s.names.begin(), s.names.end()}, r);
      log += cat + ":" + std::to_string(list.size()) + (all ? "* " : " ");
      if (general) {
        if (cat == podio::Category::Event && r.chance(0.5)) {
          all ? g->writeEvent(s.e->f) : g->writeEvent(s.e->f, list);
        } else {
          all ? g->writeFrame(s.e->f, cat) : g->writeFrame(s.e->f, cat, list);
        }
      } else {
        all ? w->writeFrame(s.e->f, cat) : w->writeFrame(s.e->f, cat, list);
      }
      for (auto& nm : s.names) {
        if (auto it = s.e->dmOf.find(nm); it != s.e->dmOf.end()) {
          f.dms.insert(it->second);
        }
      }
      f.cats[cat].push_back(std::move(s));
      vf::stat("frames_written");
    }
    note("write " + log);
    for (int k = int(r.below(3)); k > 0; --k) { // finishing again changes nothing
      general ? g->finish() : w->finish();
    }
    if (general && r.chance(0.3)) {
      podio::Writer moved = std::move(*g);
      g.emplace(std::move(moved));
    }
  }
  return f;
}

static AnyReader openFile(Rng& r, const File& f, const File* other) {
  AnyReader a;
  const int how = int(r.below(5));
  if (how < 2) {
    a.sio = std::make_unique<podio::SIOReader>();
    if (other && r.chance(0.5)) { // a reader can be used for another file afterwards
      a.sio->openFile(other->path);
      for (auto& [c, v] : other->cats) {
        for (int k = int(r.below(v.size() + 1)); k > 0; --k) {
          a.sio->readNextEntry(c);
        }
      }
      if (r.chance(0.3)) {
        try {
          a.sio->openFile(base() + "/none.sio");
          violation("sio:missing-file-opened", "");
        } catch (const std::runtime_error&) {
        }
      }
      vf::stat("readers_used_again");
    }
    a.sio->openFile(f.path);
    checkMeta(*a.sio, f);
  } else {
    if (how == 2) {
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(f.path));
    } else if (how == 3) {
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(std::vector<std::string>{f.path}));
    } else {
      auto p = f.path;
      p.replace(p.rfind('/') + 1, 1, "?");
      a.gen = std::make_unique<podio::Reader>(podio::makeReader(p));
    }
    if (r.chance(0.3)) {
      podio::Reader m = std::move(*a.gen);
      *a.gen = std::move(m);
    }
    checkMeta(*a.gen, f);
    auto it = f.cats.find(podio::Category::Event);
    checkNum(int64_t(a.gen->getEvents()), it == f.cats.end() ? 0 : int64_t(it->second.size()), "sio:events");
  }
  return a;
}

static void fileCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 28, idx));
  setCase(idx, "SIO file");
  std::vector<std::shared_ptr<Ev>> evs;
  for (int n = 1 + int(r.below(4)); n > 0; --n) {
    evs.push_back(makeEv(r, 0.05));
  }
  const std::string path = base() + "/f" + std::to_string(idx) + ".sio";
  auto f = writeFile(r, path, evs);
  uint64_t shape = 0;
  for (auto& [c, v] : f.cats) {
    shape = mix(shape, hashStr(c));
    for (auto& s : v) {
      shape = mix(shape, hashStr(s.e->ev.summary()) + s.names.size());
    }
  }
  std::optional<File> other;
  if (r.chance(0.3)) {
    other = writeFile(r, base() + "/other" + std::to_string(idx) + ".sio", evs);
  }
  std::optional<AnyReader> rd = openFile(r, f, other ? &*other : nullptr);
  if (other) {
    fs::remove(other->path);
  }
  std::vector<std::string> cats = catPool();
  cats.insert(cats.end(), {"unknown", "podio_header_info", ""});
  auto size = [&](const std::string& c) { return f.cats.count(c) ? f.cats[c].size() : 0; };
  for (auto& c : cats) {
    checkNum(int64_t(rd->entries(c)), int64_t(size(c)), "sio:entries", c);
  }
  std::map<std::string, int64_t> pos; // the next entry, -1: not known (after reading beyond the end)
  struct Late {
    podio::Frame f;
    const Stored* s;
    std::set<std::string> keep;
  };
  std::vector<Late> late;
  const int steps = 3 + int(r.below(12));
  for (int i = 0; i < steps && !caseFailed(); ++i) {
    const auto& cat = r.chance(0.1) ? r.pick(cats) : f.cats.empty() ? cats[r.below(5)] : std::next(f.cats.begin(), long(r.below(f.cats.size())))->first;
    const bool next = pos[cat] >= 0 && r.chance(0.6);
    const int64_t n = int64_t(size(cat));
    int64_t at = next ? pos[cat] : r.chance(0.1) ? n + int64_t(r.below(3)) : int64_t(r.below(uint64_t(n ? n : 1)));
    if (!next && rd->gen && r.chance(0.05)) { // does not fit into 32 bits
      at = (int64_t(1 + r.below(3)) << 32) + int64_t(r.below(uint64_t(n + 1)));
    }
    const Stored* s = at < n ? &f.cats[cat][size_t(at)] : nullptr;
    std::vector<std::string> only;
    std::set<std::string> keep;
    bool bad = false;
    if (s) {
      keep = s->names;
      if (r.chance(0.4)) {
        auto k = someNames(s->names, r);
        if (!k.empty()) { // an empty list means all
          keep = k;
          only = shuffled({k.begin(), k.end()}, r);
          while (r.chance(0.3)) { // asked for twice
            only.insert(only.begin() + long(r.below(only.size() + 1)), r.pick(only));
          }
          if (r.chance(0.15)) {
            only.insert(only.begin() + long(r.below(only.size() + 1)), "not there");
            bad = true;
          }
        }
      }
    }
    note((next ? "next " : "entry " + std::to_string(at) + " of ") + cat + (only.empty() ? "" : " " + std::to_string(only.size()) + " collections") + (bad ? " with an unknown one" : ""));
    if (bad) {
      expectThrow<std::invalid_argument>("sio:unknown-collection", [&] { next ? rd->next(cat, only, r) : rd->at(cat, size_t(at), only, r); });
      pos[cat] = -1;
      continue;
    }
    std::optional<podio::Frame> got = next ? rd->next(cat, only, r) : rd->at(cat, size_t(at), only, r);
    vf::stat(next ? "read_next" : "read_entry");
    if (!check(got.has_value() == (s != nullptr), "sio:entry-there", cat + " " + std::to_string(at) + " of " + std::to_string(n))) {
      break;
    }
    if (!s) {
      vf::stat("reads_beyond_the_end");
      if (!next) {
        pos[cat] = -1;
      }
      continue;
    }
    pos[cat] = at + 1;
    Late l{std::move(*got), s, keep};
    if (r.chance(0.7)) {
      compareFrame(l.f, s->e->ev, r, "read " + cat + " " + std::to_string(at), &l.keep);
      vf::stat("frames_compared");
    }
    if (r.chance(0.3)) { // looked at (again) when the reader and the file are gone
      late.push_back(std::move(l));
    }
  }
  rd.reset();
  fs::remove(path);
  for (auto& l : late) {
    compareFrame(l.f, l.s->e->ev, r, "looked at late", &l.keep);
    vf::stat("frames_compared");
  }
  if (!late.empty() && !caseFailed()) { // what was read can be written again
    const std::string p2 = base() + "/g" + std::to_string(idx) + ".sio";
    {
      podio::SIOWriter w(p2);
      for (auto& l : late) {
        w.writeFrame(l.f, "again");
      }
    }
    podio::SIOReader r2;
    r2.openFile(p2);
    checkNum(r2.getEntries("again"), int64_t(late.size()), "sio:entries", "written again");
    for (size_t i = late.size(); i-- > 0 && !caseFailed();) {
      podio::Frame g(r2.readEntry("again", unsigned(i)));
      compareFrame(g, late[i].s->e->ev, r, "second generation", &late[i].keep);
      vf::stat("second_generations");
    }
    fs::remove(p2);
  }
  vf::stat("files");
  if (!f.cats.empty()) {
    distinct("nontrivial", shape);
  }
  statMax("max_frames_in_file", [&] {
    size_t n = 0;
    for (auto& [c, v] : f.cats) {
      n += v.size();
    }
    return n;
  }());
  sample(recentNotes(20));
}

// files that were not written to the end never show anything that was not written
static void cutCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 29, idx));
  setCase(idx, "SIO file cut off");
  std::vector<std::shared_ptr<Ev>> evs = {makeEv(r)};
  const std::string path = base() + "/c" + std::to_string(idx) + ".sio";
  auto f = writeFile(r, path, evs);
  const auto full = fs::file_size(path);
  std::string bytes(full, 0);
  std::ifstream(path, std::ios::binary).read(bytes.data(), long(full));
  for (int i = 0; i < 12 && !caseFailed(); ++i) {
    const auto n = i < 3 ? full - 1 - r.below(20) : i < 5 ? r.below(std::min<size_t>(full, 100)) : r.below(full);
    std::ofstream(path, std::ios::binary | std::ios::trunc).write(bytes.data(), long(n));
    note("cut to " + std::to_string(n) + " of " + std::to_string(full));
    podio::SIOReader rd;
    bool open = false;
    try {
      rd.openFile(path);
      open = true;
    } catch (const std::exception&) {
      vf::stat("cut_files_refused");
    }
    if (open) {
      vf::stat("cut_files_opened");
      check(rd.getAvailableCategories().empty(), "sio:cut-file-has-categories");
      for (auto& [c, v] : f.cats) {
        checkNum(rd.getEntries(c), 0, "sio:cut-file-has-entries", c);
        check(!rd.readNextEntry(c), "sio:cut-file-gives-frame", c);
      }
    }
    vf::stat("cut_files");
  }
  fs::remove(path);
}

// when the disk is full at any point, this is reported, or everything is in the file
static void fullDiskCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 31, idx));
  setCase(idx, "disk full");
  std::signal(SIGXFSZ, SIG_IGN);
  auto e = makeEv(r, 0.1);
  const int n = int(r.below(4));
  const std::string path = base() + "/full.sio";
  rlimit old;
  getrlimit(RLIMIT_FSIZE, &old);
  auto write = [&](bool finish) {
    std::string err;
    try {
      podio::SIOWriter w(path);
      for (int i = 0; i < n; ++i) {
        w.writeFrame(e->f, i % 2 ? "odd" : "even");
      }
      if (finish) {
        w.finish();
      }
    } catch (const std::exception& x) {
      err = x.what() + std::string(" ");
    }
    return err;
  };
  checkEq(write(true), "", "sio:write-failed");
  const auto all = slurp(path);
  for (int i = 0; i < 8 && !caseFailed(); ++i) {
    const auto limit = i == 0 ? all.size() : i < 4 ? all.size() - 1 - r.below(std::min<size_t>(all.size(), 40)) : r.below(all.size() + 10);
    const bool finish = r.chance(0.8);
    note("disk full at " + std::to_string(limit) + " of " + std::to_string(all.size()) + " in " + std::to_string(n) + " frames" + (finish ? "" : ", not finished"));
    rlimit lim = old;
    lim.rlim_cur = limit;
    std::cerr.flush();
    setrlimit(RLIMIT_FSIZE, &lim);
    const auto err = write(finish);
    setrlimit(RLIMIT_FSIZE, &old);
    const bool complete = slurp(path) == all;
    check(complete == (limit >= all.size()), "sio:limit-of-size");
    if (finish) {
      check(err.empty() == complete, complete ? "sio:complete-but-error" : "sio:incomplete-without-error", err);
    }
    if (!complete) {
      podio::SIOReader rd;
      try {
        rd.openFile(path);
        check(rd.getAvailableCategories().empty() && !rd.readNextEntry("even"), "sio:incomplete-file-gives-frames");
      } catch (const std::exception&) {
      }
    }
    vf::stat(complete ? "complete_writes" : "writes_with_full_disk");
  }
  fs::remove(path);
}

// which files are read and written by what
static void backendCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 30, idx));
  setCase(idx, "choice of the backend");
  const char* exts[] = {".root", ".sio", ".txt", "", ".sio.root", ".root.sio", ".SIO", "sio"};
  const char* types[] = {"default", "root", "ROOT", "rntuple", "RNTuple", "other", ""};
  const std::string ext = exts[r.below(8)], type = types[r.below(7)];
  const int env = int(r.below(3));
  env == 0 ? unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE") : setenv("PODIO_DEFAULT_WRITE_RNTUPLE", env == 1 ? "" : "1", 1);
  const std::string path = base() + "/b" + ext;
  std::string low = type, want = "none";
  for (auto& c : low) {
    c = char(std::tolower(c));
  }
  if (ext == ".sio" || ext == ".root.sio") {
    want = "SIO";
  } else if (ext == ".root" || ext == ".sio.root") {
    want = low == "rntuple" || (type == "default" && env == 2) ? "RNTupleWriter" : low == "root" || type == "default" ? "ROOTWriter" : "none";
  }
  std::string got;
  try {
    podio::makeWriter(path, type);
    got = "SIO";
  } catch (const std::logic_error& e) { // the stand-ins tell their name
    got = e.what();
  } catch (const std::runtime_error&) {
    got = "none";
  }
  unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
  checkEq(got, want, "backend:writer", "file " + ext + " type " + type + " default " + std::to_string(env));
  fs::remove(path);
  // readers
  const int n = int(r.below(3));
  std::vector<std::string> files;
  for (int i = 0; i < n; ++i) {
    const std::string p = base() + "/r" + std::to_string(i) + (r.chance(0.8) ? ".sio" : ".txt");
    podio::SIOWriter w(p);
    files.push_back(p);
  }
  bool ok = n == 1 && files[0].ends_with(".sio"), opened = false;
  try {
    podio::makeReader(files);
    opened = true;
  } catch (const std::runtime_error&) {
  }
  check(ok == opened, "backend:reader", std::to_string(n) + (n ? files[0] : ""));
  expectThrow<std::runtime_error>("backend:missing-file", [] { podio::makeReader(base() + "/none.sio"); });
  for (auto& p : files) {
    fs::remove(p);
  }
  vf::stat("backends_chosen");
}

// ------------------------------------------------------------------ podio-dump
struct Output {
  int rc = -1; // negative: ended by a signal
  std::string out, err;
};
static Output runTool(const std::string& tool, std::vector<std::string> args) {
  static const std::string dir = fs::read_symlink("/proc/self/exe").parent_path().string();
  args.insert(args.begin(), dir + "/" + tool);
  std::vector<char*> av;
  for (auto& a : args) {
    av.push_back(a.data());
  }
  av.push_back(nullptr);
  const std::string o = base() + "/out", e = base() + "/err";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  pid_t pid = 0;
  if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ)) {
    internalError("cannot start " + args[0]);
  }
  posix_spawn_file_actions_destroy(&fa);
  int st = 0;
  waitpid(pid, &st, 0);
  Output r;
  r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  r.out = slurp(o);
  r.err = slurp(e);
  for (const char* m : {"ERROR: AddressSanitizer", "runtime error:"}) {
    if (auto q = r.err.find(m); q != std::string::npos) {
      violation("dump:sanitizer", r.err.substr(q, 600));
    }
  }
  return r;
}
static std::vector<std::string> linesOf(const std::string& s) { // that are not empty
  std::vector<std::string> v;
  std::istringstream is(s);
  for (std::string l; std::getline(is, l);) {
    if (l.find_first_not_of(' ') != std::string::npos) {
      v.push_back(l);
    }
  }
  return v;
}
static std::u32string codePoints(const std::string& s) {
  std::u32string u;
  for (size_t i = 0; i < s.size(); ++i) {
    const auto c = static_cast<unsigned char>(s[i]);
    if ((c & 0xc0) == 0x80 && !u.empty()) {
      u.back() = u.back() << 6 | (c & 0x3f);
    } else {
      u += c < 0x80 ? c : c < 0xe0 ? c & 0x1f : c < 0xf0 ? c & 0xf : c & 7;
    }
  }
  return u;
}
static std::string strip(std::string s) {
  while (!s.empty() && s.back() == ' ') {
    s.pop_back();
  }
  return s;
}
static bool plain(const std::string& s) {
  return !s.empty() && s.front() != ' ' && std::all_of(s.begin(), s.end(), [](char c) { return c >= ' ' && c < 127; });
}
using Rows = std::vector<std::vector<std::string>>;
// A table: header, a line of dashes that tells where the columns are, rows up to a line that is in `until`
static bool table(const std::vector<std::string>& ls, size_t& at, size_t nRows, const std::vector<std::string>& headers, Rows& rows, const std::string& what) {
  if (!check(at + 2 + nRows <= ls.size(), "dump:table-cut:" + what, "")) {
    return false;
  }
  const auto& dashes = ls[at + 1];
  std::vector<size_t> starts;
  for (size_t i = 0; i < dashes.size(); ++i) {
    if (dashes[i] == '-' && (i == 0 || dashes[i - 1] == ' ')) {
      starts.push_back(i);
    } else if (dashes[i] != '-' && dashes[i] != ' ') {
      violation("dump:table:" + what, "not a line of dashes: " + dashes);
      return false;
    }
  }
  auto cells = [&](const std::string& l) {
    const auto u = codePoints(l);
    std::vector<std::string> c;
    size_t byte = 0, cp = 0;
    auto cut = [&](size_t from, size_t to) { // code points [from, to) as bytes
      std::string r;
      byte = cp = 0;
      for (; byte < l.size(); ++byte) {
        if ((static_cast<unsigned char>(l[byte]) & 0xc0) != 0x80) {
          ++cp;
        }
        if (cp > from && cp <= to) {
          r += l[byte];
        }
      }
      return strip(r);
    };
    for (size_t i = 0; i < starts.size(); ++i) {
      c.push_back(cut(starts[i], i + 1 < starts.size() ? starts[i + 1] : u.size()));
    }
    return c;
  };
  if (!checkEq(canonS(cells(ls[at])), canonS(headers), "dump:columns:" + what)) {
    return false;
  }
  at += 2;
  for (size_t i = 0; i < nRows; ++i) {
    rows.push_back(cells(ls[at++]));
  }
  return true;
}
static void inOrder(const Rows& rows, size_t from, size_t to, const std::string& what) {
  for (size_t i = from; i + 1 < to; ++i) {
    auto a = rows[i][0], b = rows[i + 1][0];
    for (auto* x : {&a, &b}) {
      for (auto& c : *x) {
        c = char(std::tolower(static_cast<unsigned char>(c)));
      }
    }
    if (plain(a) && plain(b)) {
      check(a <= b, "dump:order:" + what, rows[i][0] + " before " + rows[i + 1][0]);
    }
  }
}
static void dumpCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 31, idx));
  setCase(idx, "podio-dump");
  gFinite = r.chance(0.6);
  std::vector<std::shared_ptr<Ev>> evs;
  for (int n = 1 + int(r.below(4)); n > 0; --n) {
    evs.push_back(makeEv(r));
  }
  gFinite = false;
  const std::string path = base() + "/" + (r.chance(0.3) ? "d.x y" : "d") + std::to_string(idx) + ".sio";
  auto f = writeFile(r, path, evs);
  bool simple = true; // parameters can be shown in a table
  for (auto& e : evs) {
    auto look = [&](const auto& m) {
      for (auto& [k, v] : m) {
        simple &= plain(k);
      }
    };
    look(e->ev.params.i), look(e->ev.params.f), look(e->ev.params.d), look(e->ev.params.s);
  }
  for (int round = 0; round < 4 && !caseFailed(); ++round) {
    // the arguments
    const auto& pool = catPool();
    const std::string cat = r.chance(0.1) || f.cats.empty() ? r.pick(pool) : std::next(f.cats.begin(), long(r.below(f.cats.size())))->first;
    const size_t n = f.cats.count(cat) ? f.cats[cat].size() : 0;
    const bool detailed = !simple || r.chance(0.4);
    std::vector<size_t> want{0};
    std::string spec;
    bool bad = false;
    auto entry = [&] { return r.chance(0.07) ? n + r.below(3) : r.below(n ? n : 1); };
    switch (r.below(7)) {
    case 0: // the default
      break;
    case 1:
      want = {entry()};
      spec = std::to_string(want[0]);
      break;
    case 2: {
      want.clear();
      for (size_t k = 2 + r.below(4); k > 0; --k) {
        want.push_back(entry());
        spec += (spec.empty() ? "" : ",") + std::to_string(want.back());
      }
      break;
    }
    case 3: {
      const size_t a = entry(), b = a + r.below(n - std::min(a, n) + 1);
      want.clear();
      for (size_t i = a; i <= b; ++i) {
        want.push_back(i);
      }
      spec = std::to_string(a) + ":" + std::to_string(b);
      break;
    }
    case 4:
      spec = "-1";
      want.clear();
      for (size_t i = 0; i < n; ++i) {
        want.push_back(i);
      }
      break;
    case 5:
      if (r.chance(0.3)) {
        const char* no[] = {"a", "1,", ",1", "1:", ":1", "1:2:3", "-2", "3:1", "1:0", "1.5", " 1", "0x1", "1:2,3", "1,2:3", "99999999999999999999999", "1;2", "--", "0:18446744073709551616", "2:-1", "5:4"};
        spec = no[r.below(std::size(no))];
        bad = true;
      }
      break;
    default:
      if (r.chance(0.3)) { // beyond 32 bits
        want = {(size_t(1) << 32) + r.below(n + 1)};
        spec = std::to_string(want[0]);
      }
    }
    std::vector<std::vector<std::string>> parts{{path}};
    if (cat != podio::Category::Event || r.chance(0.3)) {
      parts.push_back({r.chance(0.5) ? "-c" : "--category", cat});
    }
    if (!spec.empty()) {
      parts.push_back({r.chance(0.5) ? "-e" : "--entries", spec});
    }
    if (detailed) {
      parts.push_back({r.chance(0.5) ? "-d" : "--detailed"});
    }
    if (r.chance(0.2)) {
      parts.push_back({r.chance(0.5) ? "-s" : "--size-stats"});
    }
    for (size_t i = parts.size(); i > 1; --i) {
      std::swap(parts[i - 1], parts[r.below(i)]);
    }
    const bool usage = r.chance(0.04);
    if (usage) {
      const int k = int(r.below(4));
      if (k == 0) {
        parts.push_back({"another.sio"});
      } else if (k == 1) {
        parts.push_back({r.chance(0.5) ? "-c" : "--dump-edm"}); // without its value
      } else if (k == 2) {
        parts.push_back({"--unknown"});
      } else {
        parts = {};
      }
    }
    std::vector<std::string> args;
    std::string line;
    for (auto& p : parts) {
      for (auto& a : p) {
        args.push_back(a);
        line += " '" + a + "'";
      }
    }
    note("podio-dump" + line);
    const auto o = runTool("podio-dump-tool", args);
    vf::stat("dumps");
    if (usage || bad) {
      check(o.rc == 1, "dump:bad-arguments-accepted", line + " gives " + std::to_string(o.rc));
      check(o.out.find("###") == std::string::npos, "dump:bad-arguments-shown", line);
      check(!o.err.empty(), "dump:no-message", line);
      check(o.err.find("terminate called") == std::string::npos, "dump:crash", line + ": " + o.err);
      vf::stat("bad_arguments");
      continue;
    }
    size_t shown = 0;
    while (shown < want.size() && want[shown] < n) {
      ++shown;
    }
    const bool all = shown == want.size();
    if (!check(o.rc == (all ? 0 : 1), "dump:exit-code", line + " gives " + std::to_string(o.rc) + " " + o.err.substr(0, 300))) {
      continue;
    }
    if (!all) {
      check(!o.err.empty(), "dump:no-message", line);
      vf::stat("missing_entries");
    }
    auto ls = linesOf(o.out);
    size_t at = 0;
    auto line1 = [&](const std::string& w, const char* key) {
      return check(at < ls.size() && strip(ls[at]) == w, std::string("dump:") + key, "got '" + (at < ls.size() ? ls[at] : "end") + "' expected '" + w + "'") && ++at;
    };
    std::ostringstream bv;
    bv << podio::version::build_version;
    if (!line1("input file: " + path, "file") || !check(at < ls.size() && ls[at].find("podio version: " + bv.str() + ")") != std::string::npos, "dump:podio-version", ls[at]) || !++at) {
      continue;
    }
    ++at;
    std::vector<std::string> models, wantModels;
    while (at < ls.size() && ls[at].starts_with(" - ")) {
      models.push_back(strip(ls[at++].substr(3)));
    }
    for (auto& m : f.dms) {
      std::ostringstream os;
      os << m;
      if (auto v = podio::DatamodelRegistry::instance().getDatamodelVersion(m)) {
        os << " (" << *v << ")";
      }
      wantModels.push_back(os.str());
    }
    std::sort(models.begin(), models.end());
    std::sort(wantModels.begin(), wantModels.end());
    if (!checkEq(canonS(models), canonS(wantModels), "dump:datamodels") || !line1("Frame categories in this file:", "categories")) {
      continue;
    }
    Rows rows;
    if (!table(ls, at, f.cats.size(), {"Name", "Entries"}, rows, "categories")) {
      continue;
    }
    inOrder(rows, 0, rows.size(), "categories");
    std::sort(rows.begin(), rows.end());
    Rows wr;
    for (auto& [c, v] : f.cats) {
      wr.push_back({c, std::to_string(v.size())});
    }
    std::sort(wr.begin(), wr.end());
    for (size_t i = 0; i < wr.size(); ++i) {
      checkEq(canonS(rows[i]), canonS(wr[i]), "dump:category");
    }
    podio::SIOReader rd;
    rd.openFile(path);
    for (size_t k = 0; k < shown && !caseFailed(); ++k) {
      const auto& s = f.cats[cat][want[k]];
      auto around = at < ls.size() ? ls[at] : "end";
      std::erase(around, '#');
      if (!checkEq(around, " " + cat + ": " + std::to_string(want[k]) + " ", "dump:entry-title")) {
        break;
      }
      ++at;
      vf::stat("entries_shown");
      if (detailed) {
        podio::Frame fr(rd.readEntry(cat, unsigned(want[k])));
        std::map<std::string, std::vector<std::string>> blocks;
        size_t total = 0;
        for (auto& nm : s.names) {
          std::ostringstream os;
          auto* c = fr.get(nm);
          os << nm << (c->isSubsetCollection() ? " (s)" : "") << "\n";
          c->print(os);
          blocks[nm] = linesOf(os.str());
          total += blocks[nm].size();
        }
        if (!line1("Collections:", "section")) {
          break;
        }
        std::string last;
        Rows order;
        while (!blocks.empty() && at < ls.size()) {
          auto it = std::find_if(blocks.begin(), blocks.end(), [&](auto& b) { return strip(b.second[0]) == strip(ls[at]); });
          if (!check(it != blocks.end(), "dump:collection-title", ls[at])) {
            break;
          }
          order.push_back({it->first});
          for (auto& l : it->second) {
            if (!check(at < ls.size() && ls[at] == l, "dump:collection-content", it->first + ": got " + (at < ls.size() ? ls[at] : "end") + " expected " + l)) {
              break;
            }
            ++at;
          }
          blocks.erase(it);
          vf::stat("collections_shown_in_full");
        }
        check(blocks.empty(), "dump:collection-not-shown");
        inOrder(order, 0, order.size(), "collections");
        if (caseFailed() || !line1("Parameters:", "section")) {
          break;
        }
        std::ostringstream os;
        fr.getParameters().print(os);
        for (auto& l : linesOf(os.str())) {
          if (!check(at < ls.size() && ls[at] == l, "dump:parameters", "got " + (at < ls.size() ? ls[at] : "end") + " expected " + l)) {
            break;
          }
          ++at;
        }
        continue;
      }
      Rows cr, pr, wc, wp;
      if (!line1("Collections:", "section") || !table(ls, at, s.names.size(), {"Name (s = subset collection)", "ValueType", "Size", "ID"}, cr, "collections") || !line1("Parameters:", "section")) {
        break;
      }
      inOrder(cr, 0, cr.size(), "collections");
      for (auto& c : s.e->ev.colls) {
        if (s.names.count(c->name)) {
          char id[16];
          std::snprintf(id, sizeof id, "%08x", c->id);
          wc.push_back({strip(c->name + (c->subset ? " (s)" : "")), std::string(s.e->f.get(c->name)->getValueTypeName()), std::to_string(c->ud ? c->udvals.size() : c->elems.size()), id});
        }
      }
      std::sort(cr.begin(), cr.end());
      std::sort(wc.begin(), wc.end());
      for (size_t i = 0; i < wc.size(); ++i) {
        checkEq(canonS(cr[i]), canonS(wc[i]), "dump:collection");
        vf::stat("collections_shown");
      }
      size_t nP = 0;
      auto par = [&](const auto& m, const char* t) {
        for (auto& [k2, v] : m) {
          wp.push_back({strip(k2), t, std::to_string(v.size())});
          ++nP;
        }
      };
      const auto& p = s.e->ev.params;
      par(p.i, "int"), par(p.f, "float"), par(p.d, "double"), par(p.s, "std::string");
      if (!table(ls, at, nP, {"Name", "Type", "Elements"}, pr, "parameters")) {
        break;
      }
      for (size_t i = 0; i < pr.size();) { // in order for each type
        size_t j = i;
        while (j < pr.size() && pr[j].size() > 1 && pr[j][1] == pr[i][1]) {
          ++j;
        }
        inOrder(pr, i, j, "parameters");
        i = std::max(j, i + 1);
      }
      std::sort(pr.begin(), pr.end());
      std::sort(wp.begin(), wp.end());
      for (size_t i = 0; i < wp.size(); ++i) {
        checkEq(canonS(pr[i]), canonS(wp[i]), "dump:parameter");
        vf::stat("parameters_shown");
      }
    }
    if (!caseFailed()) {
      check(at == ls.size(), "dump:more", at < ls.size() ? ls[at] : "");
    }
    distinct("nontrivial", mix(hashStr(line.substr(line.find("sio") == std::string::npos ? 0 : line.find("sio"))), hashStr(o.out)));
    sample(line);
  }
  // definitions
  for (const std::string m : {"vm", "vx", "none"}) {
    const auto o = runTool("podio-dump-tool", r.chance(0.5) ? std::vector<std::string>{"--dump-edm", m, path} : std::vector<std::string>{path, "--dump-edm", m});
    const bool there = f.dms.count(m);
    if (!check(o.rc == (there ? 0 : 1), "dump:definition-exit-code", m)) {
      break;
    }
    if (there) {
      checkEq(strip(o.out.substr(0, o.out.find_last_not_of('\n') + 1)), std::string(podio::DatamodelRegistry::instance().getDatamodelDefinition(m)), "dump:definition", m);
      vf::stat("definitions_dumped");
    } else {
      check(!o.err.empty() && o.out.empty(), "dump:no-message", "definition of " + m);
    }
  }
  if (r.chance(0.2)) {
    const auto o = runTool("podio-dump-tool", {r.chance(0.5) ? "-d" : "-s", base() + "/none.sio"});
    check(o.rc != 0 && o.out.empty() && !o.err.empty(), "dump:missing-file", o.out);
    std::ostringstream bv;
    bv << podio::version::build_version;
    const auto v = runTool("podio-dump-tool", {path, "--version"});
    check(v.rc == 0 && strip(v.out.substr(0, v.out.find('\n'))) == "podio " + bv.str(), "dump:version", v.out);
    const auto h = runTool("podio-dump-tool", {r.chance(0.5) ? "-h" : "--help"});
    check(h.rc == 0 && h.out.find("--entries") != std::string::npos, "dump:help", h.out);
  }
  fs::remove(path);
  vf::stat("files");
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "cut") {
        i % 3 ? cutCase(i) : fullDiskCase(i);
      } else if (opts.mode == "backend") {
        backendCase(i);
      } else if (opts.mode == "dump") {
        dumpCase(i);
      } else if (opts.mode == "one") { // a file with both datamodels
        Rng r(mix(opts.seed, i));
        for (uint64_t k = 0;; ++k) {
          auto e = makeEv(r);
          std::set<std::string> dms;
          for (auto& [n, d] : e->dmOf) {
            dms.insert(d);
          }
          if (dms.size() == 2) {
            podio::SIOWriter w(opts.extra["out"]);
            w.writeFrame(e->f, "events");
            break;
          }
        }
      } else {
        fileCase(i);
      }
    }
    std::error_code ec;
    fs::remove_all(base(), ec);
  });
}
