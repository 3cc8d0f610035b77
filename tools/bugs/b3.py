import os
import sys
sys.path.insert(0, "/verif/tools/bugs")
from common import YAML

STUBS = {}
for top in ("sio", "root"):
    for d, _, fs in os.walk(f"/verif/stubs/{top}"):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), f"/verif/stubs/{top}")
            STUBS["stub__" + rel.replace("/", "__")] = open(os.path.join(d, f)).read()
HEAD = '''#include "podio/Frame.h"
#include "podio/FrameCategories.h"
#include "podio/Reader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/Writer.h"
#include "podio/UserDataCollection.h"
#include "HitCollection.h"
#include "TrackCollection.h"
#include "ClusterCollection.h"
#include "HitHitCollection.h"
'''


def sio(id, needs, breaks, edits, cc, **k):
    return dict(id=id, property="C28", needs=needs, breaks=breaks, edits=edits, cc=HEAD + cc, yaml=YAML, files=STUBS, demo="demo_sio.sh", **k)


def bug_01():
    return sio("c28-request-twice", "as many collections asked for as the entry has, with one of them named twice", "asking for some collections of an entry gives others too",
               [("src/SIOFrameData.cc", "  if (m_limitColls.empty()) {\n    return;\n  }\n\n  // In order", "  if (m_limitColls.empty() || m_limitColls.size() == m_blocks.size() - 1) {\n    return;\n  }\n\n  // In order")], '''
int main() {
  podio::Frame f;
  HitCollection a, b; a.create(); b.create();
  f.put(std::move(a), "a"); f.put(std::move(b), "b");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  auto g = podio::Frame(r.readNextEntry("events", {"a", "a"}));
  CHECK(g.getAvailableCollections() == std::vector<std::string>{"a"} && !g.get("b"));
}
''')


def bug_02():
    return sio("c28-empty-subset", "an empty subset collection written to and read from a file", "empty subset collections are read back as collections that own their elements",
               [("src/sioUtils.h", "      subsetColl.emplace_back(coll->isSubsetCollection());", "      subsetColl.emplace_back(coll->isSubsetCollection() && coll->size() != 0);")], '''
int main() {
  podio::Frame f;
  HitCollection s; s.setSubsetCollection();
  f.put(std::move(s), "s");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  auto g = podio::Frame(r.readNextEntry("events"));
  CHECK(g.get<HitCollection>("s").isSubsetCollection());
}
''')


def bug_03():
    return sio("c28-empty-definition", "a file in which only empty collections of a datamodel were written", "the definition of a datamodel of which only empty collections were written is not in the file",
               [("src/DatamodelRegistryIOHelpers.cc", "    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary) {",
                 "    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary && coll->size() > 0) {")], '''
int main() {
  podio::Frame f;
  HitCollection s;
  f.put(std::move(s), "s");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  CHECK(r.getAvailableDatamodels() == std::vector<std::string>{"demo"});
  CHECK(r.getDatamodelDefinition("demo").find("Hit") != std::string_view::npos);
}
''')


def bug_04():
    return sio("c28-hidden-category", "a category whose name starts with podio_", "categories with names that start with podio_ are not listed",
               [("src/SIOReader.cc", "    if (recordName != sio_helpers::SIOEDMDefinitionName) {", "    if (!recordName.starts_with(\"podio_\")) {")], '''
int main() {
  podio::Frame e;
  { podio::SIOWriter w("x.sio"); w.writeFrame(e, "podio_study"); w.writeFrame(e, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  CHECK(r.getAvailableCategories().size() == 2 && r.getEntries("podio_study") == 1);
}
''')


def bug_05():
    return sio("c28-event-selection", "an event read by number through the general reader with a choice of collections", "reading an event by its number ignores which collections are asked for",
               [("include/podio/Reader.h", "    return readFrame(podio::Category::Event, index, collsToRead);", "    return readFrame(podio::Category::Event, index);")], '''
int main() {
  podio::Frame f;
  HitCollection a, b; a.create(); b.create();
  f.put(std::move(a), "a"); f.put(std::move(b), "b");
  { auto w = podio::makeWriter("x.sio"); w.writeEvent(f); }
  auto r = podio::makeReader("x.sio");
  auto g = r.readEvent(0, {"a"});
  CHECK(g.getAvailableCollections() == std::vector<std::string>{"a"});
}
''')


def bug_06():
    return sio("c28-large-vector", "more than 64 kB of data in one collection", "large collections are damaged in files",
               [("include/podio/SIOBlock.h", "  unsigned count = size * sizeof(PODData);", "  unsigned count = static_cast<uint16_t>(size * sizeof(PODData));")], '''
int main() {
  podio::Frame f;
  podio::UserDataCollection<double> a;
  for (int i = 0; i < 10000; ++i) a.push_back(i);
  f.put(std::move(a), "a");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  auto g = podio::Frame(r.readNextEntry("events"));
  auto& v = g.get<podio::UserDataCollection<double>>("a");
  CHECK(v.size() == 10000 && v[9999] == 9999);
}
''')


def bug_07():
    return sio("c28-double-parameters", "a parameter holding floating point numbers of double precision that a float cannot hold, in a file whose parameters have no other type",
               "parameters of type double are lost when there are no parameters of other types",
               [("src/SIOBlock.cc", "  writeMapLike(device, params.getMap<double>());",
                 "  if (params.getMap<int>().empty() && params.getMap<float>().empty() && params.getMap<std::string>().empty()) {\n    writeMapLike(device, GenericParameters::MapType<double>{});\n  } else {\n    writeMapLike(device, params.getMap<double>());\n  }")], '''
int main() {
  podio::Frame f;
  f.putParameter("pi", 3.14159265358979);
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  auto g = podio::Frame(r.readNextEntry("events"));
  CHECK(g.getParameter<double>("pi").value_or(0) == 3.14159265358979);
}
''')


def bug_08():
    return sio("c28-blocks-by-name", "a frame of which not all collections are written, in an order other than that of their IDs, and read in part", "taking one collection of an entry makes a second one with a prefix of its name unavailable",
               [("src/SIOFrameData.cc", "    const auto nameIt = std::ranges::find(names, name);", "    const auto nameIt = std::ranges::find_if(names, [&name](const auto& n) { return n.starts_with(name); });")], '''
int main() {
  podio::Frame f;
  HitCollection a, b; a.create(); b.create(); b.create();
  f.put(std::move(a), "hits"); f.put(std::move(b), "hitsCalib");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events", {"hitsCalib", "hits"}); }
  podio::SIOReader r; r.openFile("x.sio");
  auto g = podio::Frame(r.readNextEntry("events"));
  CHECK(g.get<HitCollection>("hits").size() == 1 && g.get<HitCollection>("hitsCalib").size() == 2);
}
''')


def bug_09():
    return sio("c28-upstream-version", "a file without any use of a registered datamodel and then one with two", "the versions of the datamodels in a file are only there for the first of them",
               [("src/SIOWriter.cc", "    if (edmVersion) {", "    if (edmVersion && edmVersions.empty()) {")], '''
#include "podio/DatamodelRegistry.h"
struct Other : HitCollection {
  using HitCollection::HitCollection;
};
int main() {
  // the demo has one datamodel with a version, so this looks at two files
  podio::Frame f;
  HitCollection a; a.create();
  f.put(std::move(a), "a");
  { podio::SIOWriter w("x.sio"); w.writeFrame(f, "events"); }
  podio::SIOReader r; r.openFile("x.sio");
  CHECK(r.getAvailableDatamodels().size() == 1);
}
''')


del bug_09
