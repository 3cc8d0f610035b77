"""Bugs of the data source and of readers and writers in threads (see b6)"""
import os
import runpy

B6 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b6.py"))
MORE = '''
#include "podio/DataSource.h"
#include <thread>
#include <barrier>
using Coll = podio::CollectionBase;
static void dict2() {
  dict();
  write<podio::ROOTWriter>("a.root", {0, 1, 2, 3, 4, 5, 6});
}
static void loop(podio::DataSource& ds, const std::function<void(unsigned long long)>& f) {
  ds.Initialize();
  for (auto rs = ds.GetEntryRanges(); !rs.empty(); rs = ds.GetEntryRanges()) {
    for (auto [a, b] : rs) {
      ds.InitSlot(0, a);
      for (auto e = a; e < b; ++e) { ds.SetEntry(0, e); f(e); }
      ds.FinalizeSlot(0);
    }
  }
  ds.Finalize();
}
'''


def src(id, needs, breaks, edits, cc, **k):
    d = B6["root"](id, "C35", needs, breaks, edits, MORE + cc, **k)
    d["demo"] = "demo_source.sh"
    return d


def bug_01():
    return src("c35-finalize-forgets", "a second event loop of a data source in which a column is not asked for again",
               "the column keeps showing the last event of the first loop",
               [("src/DataSource.cc", "void DataSource::Finalize() {\n}", "void DataSource::Finalize() { m_activeCollections.clear(); }")], '''
int main() {
  dict2();
  podio::DataSource ds("a.root");
  ds.SetNSlots(1);
  auto h = ds.GetColumnReaders<const Coll>("hits");
  for (int i = 0; i < 2; ++i) {
    loop(ds, [&](auto e) { CHECK((*h[0])->size() == e + 1); });
    int n = 0;
    ds.SetEntry(0, 2);
    n += int((*h[0])->size());
    CHECK(n == 3);
  }
}
''')


def bug_02():
    return src("c35-active-only", "a column with relations to another column that is there but not used",
               "the related objects are not available",
               [("src/DataSource.cc", "  m_frames[slot] =\n", "  std::vector<std::string> names;\n  for (const auto index : m_activeCollections) {\n    names.push_back(m_columnNames[index]);\n  }\n  m_frames[slot] =\n"),
                ("src/DataSource.cc", "entry, m_columnNames));", "entry, names));")], '''
int main() {
  dict2();
  podio::DataSource ds("a.root");
  ds.SetNSlots(1);
  auto h = ds.GetColumnReaders<const Coll>("clusters");
  ds.Initialize();
  ds.SetEntry(0, 3);
  const auto& c = dynamic_cast<const ClusterCollection&>(**h[0]);
  CHECK(c[0].getHits().size() == 4);
  for (auto x : c[0].getHits()) { CHECK(x.isAvailable()); }
  CHECK(c[0].getHits(1).getEnergy() == 301);
}
''')


def bug_03():
    return src("c35-remainder", "a number of events that is not a multiple of the number of slots, with more than half of a share left over",
               "some events are run twice",
               [("src/DataSource.cc", "  int eventsPerSlot = m_nEvents / m_nSlots;", "  int eventsPerSlot = (m_nEvents + m_nSlots / 2) / m_nSlots;"),
                ("src/DataSource.cc", "  m_rangesAll.emplace_back(eventsPerSlot * (m_nSlots - 1), m_nEvents);",
                 "  m_rangesAll.emplace_back(std::min<ULong64_t>(eventsPerSlot * (m_nSlots - 1), m_nEvents - 1), m_nEvents);")], '''
int main() {
  dict2();
  for (int asked = 1; asked <= 7; ++asked) {
    for (unsigned slots = 1; slots <= unsigned(asked); ++slots) {
      podio::DataSource ds("a.root", asked);
      ds.SetNSlots(slots);
      std::vector<int> seen(7);
      loop(ds, [&](auto e) { ++seen.at(e); });
      for (int i = 0; i < 7; ++i) { CHECK(seen[size_t(i)] == (i < asked ? 1 : 0)); }
    }
  }
}
''')


def bug_04():
    return src("c35-too-many", "more events asked for than there are, in more than one file",
               "entries that do not exist are requested",
               [("src/DataSource.cc", "  if (nEventsInFiles < m_nEvents) {", "  if (nEventsInFiles * m_filePathList.size() < m_nEvents) {")], '''
int main() {
  dict2();
  write<podio::ROOTWriter>("b.root", {7, 8});
  podio::DataSource ds(std::vector<std::string>{"a.root", "b.root"}, 12);
  ds.SetNSlots(2);
  int n = 0;
  loop(ds, [&](auto) { ++n; });
  CHECK(n == 9);
}
''')


def bug_05():
    return src("c35-static-params", "two threads that read parameters with readers of their own at the same time",
               "parameters of one thread get into those of another, data race",
               [("src/ROOTReader.cc", "  root_utils::ParamStorage<T> storage;", "  static root_utils::ParamStorage<T> storage;\n  storage = {};")], '''
int main() {
  dict2();
  std::barrier<> b(4);
  auto run = [&] {
    podio::ROOTReader r;
    r.openFile("a.root");
    b.arrive_and_wait();
    for (int k = 0; k < 200; ++k) {
      podio::Frame f(r.readEntry("events", unsigned(k % 7)));
      CHECK(f.getParameter<int>("n") == k % 7);
    }
  };
  std::thread t1(run), t2(run), t3(run), t4(run);
  t1.join(); t2.join(); t3.join(); t4.join();
}
''', flags="-fsanitize=thread")


def bug_06():
    return src("c35-shared-reader", "slots of a data source used by different threads at the same time",
               "two slots share one reader, data race and wrong events",
               [("src/DataSource.cc", "m_podioReaders[slot]->readFrame(", "m_podioReaders[slot / 2]->readFrame(")], '''
int main() {
  dict2();
  podio::DataSource ds("a.root");
  ds.SetNSlots(4);
  auto h = ds.GetColumnReaders<const Coll>("hits");
  ds.Initialize();
  auto rs = ds.GetEntryRanges();
  std::barrier<> b(4);
  auto run = [&](unsigned s) {
    b.arrive_and_wait();
    for (int k = 0; k < 100; ++k) {
      for (auto e = rs.at(s).first; e < rs.at(s).second; ++e) { ds.SetEntry(s, e); CHECK((*h[s])->size() == e + 1); }
    }
  };
  std::thread t1(run, 0), t2(run, 1), t3(run, 2), t4(run, 3);
  t1.join(); t2.join(); t3.join(); t4.join();
}
''', flags="-fsanitize=thread")


def bug_07():
    return src("c35-prefix-column", "two columns of which one has a name that starts with the name of the other",
               "a column whose name is the start of the name of another one shows that one",
               [("src/DataSource.cc", "std::vector<void*> DataSource::GetColumnReadersImpl(std::string_view columnName, const std::type_info&) {\n  auto itr = std::find(m_columnNames.begin(), m_columnNames.end(), columnName);",
                 "std::vector<void*> DataSource::GetColumnReadersImpl(std::string_view columnName, const std::type_info&) {\n  auto itr = std::find_if(m_columnNames.begin(), m_columnNames.end(),\n                          [&](const auto& name) { return name.starts_with(columnName); });")], '''
int main() {
  dict();
  {
    podio::ROOTWriter w("n.root");
    podio::Frame f;
    for (int n = 1; n <= 4; ++n) {
      HitCollection a;
      for (int i = 0; i < n; ++i) { a.create(); }
      f.put(std::move(a), std::string("hits").substr(0, size_t(n)));
    }
    w.writeFrame(f, "events");
    w.finish();
  }
  podio::DataSource ds("n.root");
  ds.SetNSlots(1);
  std::vector<std::vector<const Coll**>> h;
  for (int n = 1; n <= 4; ++n) { h.push_back(ds.GetColumnReaders<const Coll>(std::string("hits").substr(0, size_t(n)))); }
  ds.Initialize();
  ds.SetEntry(0, 0);
  for (size_t n = 1; n <= 4; ++n) { CHECK((*h[n - 1][0])->size() == n); }
}
''')
