"""Bugs of the writers and readers for ROOT files"""
import os

STUBS = {}
for d, _, fs in os.walk("/verif/stubs/rootio"):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), "/verif/stubs/rootio")
        STUBS["stub__" + rel.replace("/", "__")] = open(os.path.join(d, f)).read()
YAML = """schema_version: 1
options:
  getSyntax: True
  exposePODMembers: False
  includeSubfolder: False
components:
  Vec:
    Members:
      - float x
datatypes:
  Hit:
    Description: "a hit"
    Author: "me"
    Members:
      - double energy // e
  Cluster:
    Description: "a cluster"
    Author: "me"
    Members:
      - double energy // e
    VectorMembers:
      - float weights // w
      - Vec corners // v
    OneToManyRelations:
      - Hit hits // the hits
"""
HEAD = '''#include "podio/Frame.h"
#include "podio/RNTupleReader.h"
#include "podio/RNTupleWriter.h"
#include "podio/ROOTReader.h"
#include "podio/ROOTWriter.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/RootHelpers.h"
#include "podio/podioVersion.h"
#include "TTree.h"
#include "HitCollection.h"
#include "ClusterCollection.h"
#include "rootstub.h"

static void dict() {
  rootstub::dictionary<podio::ObjectID>("podio::ObjectID");
  rootstub::dictionary<Vec>("Vec");
  rootstub::dictionary<HitData>("HitData");
  rootstub::dictionary<ClusterData>("ClusterData");
  rootstub::types()["podio::GenericParameters"] = rootstub::typeOf<podio::GenericParameters>();
}
// frame number n: n + 1 hits (or none), one cluster with n + 1 relations and n + 2 weights
static podio::Frame make(int n, bool empty = false) {
  HitCollection hits;
  ClusterCollection clusters;
  for (int i = 0; i < n + 1; ++i) { hits.create().setEnergy(100 * n + i); }
  if (!empty) {
    auto c = clusters.create();
    c.setEnergy(n);
    for (auto h : hits) { c.addToHits(h); }
    for (int i = 0; i < n + 2; ++i) { c.addToWeights(float(i)); c.addToCorners(Vec{float(n)}); }
  }
  podio::Frame f;
  f.put(std::move(hits), "hits");
  f.put(std::move(clusters), "clusters");
  f.putParameter("n", n);
  f.putParameter("f", 0.5f + n);
  f.putParameter("d", 0.25 + n);
  f.putParameter("s", "text " + std::to_string(n));
  return f;
}
static bool same(const podio::Frame& f, int n, bool empty = false) {
  const auto& h = f.get<HitCollection>("hits");
  const auto& c = f.get<ClusterCollection>("clusters");
  bool ok = h.isValid() && c.isValid() && h.size() == size_t(n + 1) && c.size() == (empty ? 0u : 1u);
  for (size_t i = 0; ok && i < h.size(); ++i) { ok = h[i].getEnergy() == 100 * n + int(i); }
  if (ok && !empty) {
    ok = c[0].getEnergy() == n && c[0].getHits().size() == size_t(n + 1) && c[0].getWeights().size() == size_t(n + 2) && c[0].getCorners().size() == size_t(n + 2) && c[0].getCorners(0).x == n;
    for (size_t i = 0; ok && i < size_t(n + 1); ++i) { ok = c[0].getHits(i) == h[i]; }
  }
  return ok && f.getParameter<int>("n") == n && f.getParameter<float>("f") == 0.5f + n && f.getParameter<double>("d") == 0.25 + n && f.getParameter<std::string>("s") == "text " + std::to_string(n);
}
template <class W> static void write(const char* file, std::vector<int> ns) {
  W w(file);
  for (int n : ns) { w.writeFrame(make(n), "events"); }
  w.finish();
}
'''


def root(id, property, needs, breaks, edits, cc, **k):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, cc=HEAD + cc, yaml=YAML, files=STUBS, demo="demo_root.sh", **k)


def bug_01():
    return root("c33-empty-first", "C33", "a type with more vector members than relations, and frames written to a tree after the first one",
                "the addresses of the vector members are those of the frame before, which may be gone: wrong data or use after free",
                [("src/rootUtils.h", "  if (const auto vecMembers = collBuffers.vectorMembers) {\n    for (size_t i = 0; i < vecMembers->size(); ++i) {\n      if (!branches.vecs[i]) {\n        return false;\n      }\n      branches.vecs[i]->SetAddress((*vecMembers)[i].second);",
                  "  if (const auto vecMembers = collBuffers.vectorMembers) {\n    for (size_t i = 0; i < vecMembers->size() && i < collBuffers.references->size(); ++i) {\n      if (!branches.vecs[i]) {\n        return false;\n      }\n      branches.vecs[i]->SetAddress((*vecMembers)[i].second);")], '''
int main() {
  dict();
  {
    podio::ROOTWriter w("a.root");
    auto one = make(0), two = make(4);
    auto& c = one.get<ClusterCollection>("clusters"); (void)c;
    w.writeFrame(one, "events");
    w.writeFrame(two, "events");
  }
  podio::ROOTReader r;
  r.openFile("a.root");
  podio::Frame f(r.readEntry("events", 1));
  // Cluster has one relation but two vector members
  CHECK(same(f, 4));
  podio::ROOTWriter w("b.root");
  auto mk = [](int k) { podio::Frame f; ClusterCollection c; for (int i = 0; i < k; ++i) { auto x = c.create(); x.addToCorners(Vec{float(k)}); } f.put(std::move(c), "c"); return f; };
  auto p = mk(1), q = mk(3);
  w.writeFrame(p, "x"); w.writeFrame(q, "x"); w.finish();
  podio::ROOTReader r2; r2.openFile("b.root");
  podio::Frame g(r2.readEntry("x", 1));
  const auto& c = g.get<ClusterCollection>("c");
  CHECK(c.size() == 3);
  for (auto x : c) { CHECK(x.getCorners().size() == 1 && x.getCorners(0).x == 3); }
}
''', flags="-fsanitize=address")


def bug_02():
    return root("c33-version-boundary", "C33", "a file of exactly the version in which parameters became separate branches",
                "the parameters of such files are searched in a branch that is not there",
                [("src/ROOTReader.cc", "GenericParameters params;\n\n  if (m_fileVersion < podio::version::Version{0, 99, 99}) {", "GenericParameters params;\n\n  if (m_fileVersion <= podio::version::Version{0, 99, 99}) {")], '''
int main() {
  dict();
  {
    TFile file("o.root", "recreate");
    auto* t = new TTree("events", "");
    t->SetDirectory(&file);
    std::vector<std::string> ik{"n"}, none, *pik = &ik, *pn = &none;
    std::vector<std::vector<int>> iv{{42}}, *piv = &iv;
    std::vector<std::vector<float>> fv, *pfv = &fv;
    std::vector<std::vector<double>> dv, *pdv = &dv;
    std::vector<std::vector<std::string>> sv, *psv = &sv;
    t->Branch("GPIntKeys", pik); t->Branch("GPIntValues", piv); t->Branch("GPFloatKeys", pn); t->Branch("GPFloatValues", pfv);
    t->Branch("GPDoubleKeys", pn); t->Branch("GPDoubleValues", pdv); t->Branch("GPStringKeys", pn); t->Branch("GPStringValues", psv);
    t->Fill();
    TTree meta("podio_metadata", "");
    meta.SetDirectory(&file);
    podio::CollectionIDTable table(std::vector<uint32_t>{}, std::vector<std::string>{});
    std::vector<podio::root_utils::CollectionWriteInfoT> info;
    podio::version::Version v{0, 99, 99};
    meta.Branch("events___idTable", &table);
    meta.Branch("events___CollectionTypeInfo", &info);
    meta.Branch("PodioBuildVersion", &v);
    meta.Fill();
    file.Write();
    file.Close();
  }
  podio::ROOTReader r;
  r.openFile("o.root");
  podio::Frame f(r.readEntry("events", 0));
  CHECK(f.getParameter<int>("n") == 42);
}
''', flags="-fsanitize=address")


def bug_03():
    return root("c33-tuple-second-file", "C33", "several ntuple files read as one, the first entry of one that is not the first",
                "the entry is searched behind the end of the file before",
                [("src/RNTupleReader.cc", "const auto upper = std::ranges::upper_bound(readerEntries, entNum);", "const auto upper = entNum ? std::ranges::lower_bound(readerEntries, entNum) : readerEntries.begin() + 1;")], '''
int main() {
  dict();
  write<podio::RNTupleWriter>("a.root", {0, 1});
  write<podio::RNTupleWriter>("b.root", {2, 3});
  podio::RNTupleReader r;
  r.openFiles({"a.root", "b.root"});
  for (int i : {3, 1, 2, 0}) {
    podio::Frame f(r.readEntry("events", unsigned(i)));
    CHECK(same(f, i));
  }
}
''')


def bug_04():
    return root("c33-lacking-category", "C33", "several ntuple files read as one, of which one in the middle does not have a category that the first has",
                "the entries of later files are searched in the wrong files",
                [("src/RNTupleReader.cc", '        m_readerEntries[category].push_back(m_readerEntries[category].back() +\n                                            m_readers[category].back()->GetNEntries());\n      } catch (const RException&) {\n        std::cout << "Category " << category << " not found in file " << filename << std::endl;\n      }',
                  '      } catch (const RException&) {\n        std::cout << "Category " << category << " not found in file " << filename << std::endl;\n      }\n      m_readerEntries[category].push_back(m_readerEntries[category].back() +\n                                          m_readers[category].back()->GetNEntries());')], '''
int main() {
  dict();
  write<podio::RNTupleWriter>("a.root", {0, 1});
  { podio::RNTupleWriter w("b.root"); w.writeFrame(make(9), "other"); w.finish(); }
  write<podio::RNTupleWriter>("c.root", {2, 3});
  podio::RNTupleReader r;
  r.openFiles({"a.root", "b.root", "c.root"});
  CHECK(r.getEntries("events") == 4);
  for (int i : {3, 1, 2, 0}) {
    podio::Frame f(r.readEntry("events", unsigned(i)));
    CHECK(same(f, i));
  }
}
''')


def bug_05():
    return root("c33-next-after-refusal", "C33", "reading an entry of a tree by number and then the next one, after a read that asked for an unknown collection",
                "an entry is skipped", [
                    ("src/ROOTReader.cc", "  // Make sure to not silently ignore non-existant but requested collections\n", "  const auto entry = catInfo.entry++;\n  // Make sure to not silently ignore non-existant but requested collections\n"),
                    ("src/ROOTReader.cc", "  const auto localEntry = catInfo.chain->LoadTree(catInfo.entry);", "  const auto localEntry = catInfo.chain->LoadTree(entry);"),
                    ("src/ROOTReader.cc", "  catInfo.entry++;\n  return std::make_unique", "  return std::make_unique")], '''
int main() {
  dict();
  write<podio::ROOTWriter>("a.root", {0, 1, 2});
  podio::ROOTReader r;
  r.openFile("a.root");
  CHECK(same(podio::Frame(r.readNextEntry("events")), 0));
  bool thrown = false;
  try { r.readNextEntry("events", {"nothing"}); } catch (const std::invalid_argument&) { thrown = true; }
  CHECK(thrown);
  CHECK(same(podio::Frame(r.readNextEntry("events")), 1));
}
''')


def bug_06():
    return root("c33-chain-vectors", "C33", "several files of trees read as one, a type with more vector members than relations",
                "the branches of the last vector members are those of the file before, which is closed: use after free",
                [("src/rootUtils.h", "  for (size_t i = 0; i < branches.vecs.size(); ++i) {\n    branches.vecs[i] = getBranch(chain, branches.vecNames[i]);", "  for (size_t i = 0; i < branches.vecs.size() && (i == 0 || i < branches.refs.size()); ++i) {\n    branches.vecs[i] = getBranch(chain, branches.vecNames[i]);")], '''
int main() {
  dict();
  write<podio::ROOTWriter>("a.root", {0, 1});
  write<podio::ROOTWriter>("b.root", {2, 3});
  podio::ROOTReader r;
  r.openFiles({"a.root", "b.root"});
  for (int i : {0, 2, 1, 3}) { CHECK(same(podio::Frame(r.readEntry("events", unsigned(i))), i)); }
}
''', flags="-fsanitize=address")


def bug_07():
    return root("c34-unsorted", "C34", "a comparison of names with a category in another order than the alphabetical one",
                "names are reported as missing and superfluous that are neither",
                [("src/rootUtils.h", "  std::ranges::sort(existingColls);\n  std::ranges::sort(candidateColls);", "  std::ranges::sort(existingColls);")], '''
int main() {
  dict();
  podio::ROOTWriter w("a.root");
  w.writeFrame(make(1), "events");
  auto [a, b] = w.checkConsistency({"hits", "clusters"}, "events");
  CHECK(a.empty() && b.empty());
}
''')


def bug_08():
    return root("c34-too-few", "C34", "a write that asks for only some of the collections of the category, as many as there are but one of them unknown or fewer",
                "the request is not refused and all collections are written",
                [("src/rootUtils.h", "  if (collInfo.size() != candidateColls.size()) {", "  if (collInfo.size() < candidateColls.size()) {")], '''
int main() {
  dict();
  podio::RNTupleWriter w("a.root");
  w.writeFrame(make(1), "events");
  bool thrown = false;
  try { w.writeFrame(make(2), "events", {"hits"}); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown);
}
''')


def bug_09():
    return root("c34-half-a-refusal", "C34", "a write that is refused because of other names, then one without parameters of a type",
                "the parameters of the refused frame come up in the one after it", [
                    ("src/ROOTWriter.cc", "  } else {\n    // Make sure that the category contents are consistent with the initial\n", "  } else {\n    fillParams(catInfo, frame.getParameters());\n    // Make sure that the category contents are consistent with the initial\n"),
                    ("src/ROOTWriter.cc", "    fillParams(catInfo, frame.getParameters());\n    resetBranches(catInfo, collections);", "    resetBranches(catInfo, collections);"),
                    ("src/ROOTWriter.cc", "  catInfo.intParams = params.getKeysAndValues<int>();", "  if (auto ints = params.getKeysAndValues<int>(); !std::get<0>(ints).empty()) {\n    catInfo.intParams = std::move(ints);\n  }")], '''
int main() {
  dict();
  {
    podio::ROOTWriter w("a.root");
    w.writeFrame(make(1), "events");
    try { w.writeFrame(make(2), "events", {"hits"}); } catch (const std::exception&) {}
    podio::Frame f;
    f.put(HitCollection{}, "hits");
    f.put(ClusterCollection{}, "clusters");
    w.writeFrame(f, "events");
  }
  podio::ROOTReader r;
  r.openFile("a.root");
  podio::Frame f(r.readEntry("events", 1));
  CHECK(!f.getParameter<int>("n").has_value());
}
''')


def bug_10():
    return root("c34-new-category", "C34", "a comparison of names with a category that has not been written to, by the writer for ntuples",
                "the names are reported as missing instead of superfluous",
                [("src/RNTupleWriter.cc", "  return {std::vector<std::string>{}, collsToWrite};", "  return {collsToWrite, std::vector<std::string>{}};")], '''
int main() {
  dict();
  podio::RNTupleWriter w("a.root");
  auto [a, b] = w.checkConsistency({"hits", "clusters"}, "events");
  CHECK(a.empty() && b.size() == 2);
}
''')
