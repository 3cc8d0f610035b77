import os

STUBS = {}
for d, _, fs in os.walk("/verif/stubs/arrow"):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), "/verif/stubs/arrow")
        STUBS["stub__" + rel.replace("/", "__")] = open(os.path.join(d, f)).read()
YAML = """schema_version: 1
options:
  getSyntax: True
  exposePODMembers: False
  includeSubfolder: False
components:
  Vec:
    Members:
      - float x
      - std::array<short, 2> n
datatypes:
  Hit:
    Description: "a hit"
    Author: "me"
    Members:
      - double energy // e
      - unsigned long long cell // c
      - std::array<Vec, 2> ends // e
  Cluster:
    Description: "a cluster"
    Author: "me"
    Members:
      - double energy // e
    VectorMembers:
      - float weights // w
      - Vec corners // v
    OneToManyRelations:
      - Hit hits // the hits
    OneToOneRelations:
      - Hit seed // the seed
links:
  HitCluster:
    Description: "link"
    Author: "me"
    From: Hit
    To: Cluster
"""
HEAD = '''#include <arrow/api.h>
#include "podio/Frame.h"
#include "podio/utilities/ArrowFrameConverter.h"
#include "podio/utilities/ArrowFrameData.h"
#include "HitCollection.h"
#include "ClusterCollection.h"
#include "HitClusterCollection.h"
'''


def arr(id, needs, breaks, edits, cc, **k):
    return dict(id=id, property="C31", needs=needs, breaks=breaks, edits=edits, cc=HEAD + cc, yaml=YAML, files=STUBS, demo="demo_arrow.sh", **k)


def bug_01():
    return arr("c31-pieces-strings", "a table put together from several tables without copying, a row behind the first piece, and a text among its parameters",
               "text parameters of a row behind the first piece are those of another row or out of bounds",
               [("src/ArrowFrameData.cc", '"string_params", remaining_idx,', '"string_params", std::min(m_rowIndex, struct_array->length() - 1),')], '''
int main() {
  std::vector<std::shared_ptr<arrow::Table>> ts;
  for (int i = 0; i < 3; ++i) {
    podio::Frame f;
    f.putParameter("who", std::string(1, char('a' + i)));
    f.putParameter("n", i);
    auto t = podio::convertFrameToTable(f, {});
    ts.push_back(t);
  }
  auto two = arrow::ConcatenateTables({ts[1], ts[2]});
  CHECK(two.ok());
  auto flat = (*two)->CombineChunks();
  CHECK(flat.ok());
  auto all = arrow::ConcatenateTables({ts[0], *flat});
  CHECK(all.ok());
  for (int i = 0; i < 3; ++i) {
    auto g = podio::convertTableToFrame(*all, i);
    CHECK(g.getParameter<int>("n").value_or(-1) == i);
    CHECK(g.getParameter<std::string>("who").value_or("") == std::string(1, char('a' + i)));
  }
}
''')


def bug_02():
    return arr("c31-empty-lists", "a parameter that holds an empty list of numbers", "parameters with empty lists of numbers are not written",
               [("src/ArrowFrameConverter.cc", '      checkStatus(keyBuilder->Append(key), "Failed to append map key");',
                 '      if (vec.empty() && std::is_arithmetic_v<T>) {\n        continue;\n      }\n      checkStatus(keyBuilder->Append(std::string_view(key)), "Failed to append map key");')], '''
int main() {
  podio::Frame f;
  f.putParameter("none", std::vector<int>{});
  f.putParameter("some", std::vector<int>{3, 4});
  auto g = podio::convertTableToFrame(podio::convertFrameToTable(f, {}));
  CHECK(g.getParameter<std::vector<int>>("some").value_or(std::vector<int>{}).size() == 2);
  CHECK(g.getParameter<std::vector<int>>("none").has_value());
}
''')


def bug_03():
    return arr("c31-text-end", "a text parameter with a null character in the middle", "texts in parameters end at the first null character",
               [("src/ArrowFrameData.cc", "          vals.push_back(val_array->GetString(j));", "          vals.emplace_back(val_array->GetString(j).c_str());")], '''
int main() {
  podio::Frame f;
  const std::string s("a\\0b", 3);
  f.putParameter("s", s);
  auto g = podio::convertTableToFrame(podio::convertFrameToTable(f, {}));
  CHECK(g.getParameter<std::string>("s").value_or("") == s);
}
''')


def bug_04():
    return arr("c31-params-prefix", "a collection with a name that starts like the column of the parameters", "collections with names that start with frame_parameters are not there after reading",
               [("src/ArrowFrameData.cc", '    if (field->name() == "frame_parameters") {', '    if (field->name().starts_with("frame_parameters")) {')], '''
int main() {
  podio::Frame f;
  HitCollection h;
  h.create();
  f.put(std::move(h), "frame_parameters_hits");
  auto g = podio::convertTableToFrame(podio::convertFrameToTable(f, {"frame_parameters_hits"}));
  CHECK(g.getAvailableCollections().size() == 1);
  CHECK(g.get<HitCollection>("frame_parameters_hits").size() == 1);
}
''')


def bug_05():
    return arr("c31-long-long", "a member of type unsigned long long with a value of 2^63 or more, looked at in the table", "unsigned long long members are columns of signed numbers",
               [("python/podio_gen/cpp_generator.py", '    "unsigned long long": "arrow::uint64()",', '    "unsigned long long": "arrow::int64()",'),
                ("python/podio_gen/cpp_generator.py", '    "unsigned long long": "arrow::UInt64Builder",', '    "unsigned long long": "arrow::Int64Builder",'),
                ("python/podio_gen/cpp_generator.py", '    "unsigned long long": "arrow::UInt64Array",', '    "unsigned long long": "arrow::Int64Array",')], '''
int main() {
  podio::Frame f;
  HitCollection h;
  h.create().setCell(~0ULL);
  f.put(std::move(h), "h");
  auto t = podio::convertFrameToTable(f, {"h"});
  auto l = std::static_pointer_cast<arrow::ListArray>(t->GetColumnByName("h")->chunk(0));
  auto s = std::static_pointer_cast<arrow::StructArray>(l->values());
  auto c = s->GetFieldByName("cell");
  CHECK(c->type()->Equals(arrow::uint64()));
}
''')


def bug_06():
    return arr("c31-subset-unset", "a subset collection with an element from a collection that is not part of any Frame", "references of subsets to collections without ID are dropped, the subset gets shorter",
               [("src/ArrowFrameConverter.cc", '      checkStatus(objectBuilder->Append(), "Failed to append to objectBuilder");',
                 '      if (objId.collectionID == 0 || objId.index >= (1 << 8)) {\n        continue;\n      }\n      checkStatus(objectBuilder->Append(true), "Failed to append to objectBuilder");')], '''
int main() {
  podio::Frame f;
  HitCollection h;
  for (int i = 0; i < 300; ++i) {
    h.create().setEnergy(i);
  }
  const auto& hits = f.put(std::move(h), "h");
  HitCollection sub;
  sub.setSubsetCollection();
  sub.push_back(hits[299]);
  sub.push_back(hits[2]);
  f.put(std::move(sub), "s");
  auto g = podio::convertTableToFrame(podio::convertFrameToTable(f, {"h", "s"}));
  auto& s = g.get<HitCollection>("s");
  CHECK(s.size() == 2 && s[0].getEnergy() == 299);
}
''')


def bug_07():
    return arr("c31-row-of-chunk", "a table of two pieces, of which the first one is empty or has as many rows as the index", "the row after the end of a piece is looked for in the wrong place",
               [("src/ArrowFrameData.cc", "      remaining_idx -= c->length();", "      remaining_idx -= std::max<int64_t>(c->length(), 1);")], '''
int main() {
  std::vector<std::shared_ptr<arrow::Table>> ts;
  for (int i = 0; i < 2; ++i) {
    podio::Frame f;
    f.putParameter("n", i);
    HitCollection h;
    h.create().setEnergy(i);
    f.put(std::move(h), "h");
    ts.push_back(podio::convertFrameToTable(f, {"h"}));
  }
  auto all = arrow::ConcatenateTables({ts[0]->Slice(0, 0), ts[0], ts[1]});
  CHECK(all.ok() && (*all)->num_rows() == 2);
  for (int i = 0; i < 2; ++i) {
    auto g = podio::convertTableToFrame(*all, i);
    CHECK(g.getParameter<int>("n").value_or(-1) == i);
    CHECK(g.get<HitCollection>("h")[0].getEnergy() == i);
  }
}
''')
