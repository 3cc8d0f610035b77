import sys
sys.path.insert(0, "/verif/tools/bugs")
from common import YAML, MEM

LCD = "include/podio/detail/LinkCollectionData.h"
LCI = "include/podio/detail/LinkCollectionImpl.h"
LIT = "include/podio/detail/LinkCollectionIterator.h"
LINK = "include/podio/detail/Link.h"
RR = "include/podio/RelationRange.h"
FRAME = "include/podio/Frame.h"
GP = "include/podio/GenericParameters.h"
IDT = "src/CollectionIDTable.cc"
NAV = "include/podio/LinkNavigator.h"
UDC = "include/podio/UserDataCollection.h"
BUF = "include/podio/CollectionBuffers.h"
OID = "include/podio/ObjectID.h"
REG = "src/DatamodelRegistry.cc"
REGIO = "src/DatamodelRegistryIOHelpers.cc"
CPP = "python/podio_gen/cpp_generator.py"
BASE = "python/podio_gen/generator_base.py"
READER = "python/podio_gen/podio_config_reader.py"
UTILS = "python/podio_gen/generator_utils.py"
EVO = "python/podio_schema_evolution.py"
CLI = "python/podio_class_generator.py"
ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"


def mem(id, property, needs, breaks, edits, cc, **k):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, cc='#include "mem.h"\n' + cc, yaml=YAML, files={"mem.h": MEM}, **k)


def bug_01():
    return mem("c02-link-missing-to", "C02", "a link collection read back in which the collection of the To end of one link is missing, and that of a later one is there",
               "the To ends of all links behind one that cannot be resolved stay unset",
               [(LCD, "          entries[i]->m_to = nullptr;\n          continue;", "          entries[i]->m_to = nullptr;\n          break;")], '''
int main() {
  podio::Frame f;
  HitCollection h1, h2;
  auto a = h1.create(); auto b = h2.create(); b.setEnergy(2);
  HitHitCollection l;
  auto x = l.create(); x.setFrom(b); x.setTo(b);
  auto y = l.create(); y.setFrom(a); y.setTo(a);
  f.put(std::move(h1), "h1"); f.put(std::move(h2), "h2"); f.put(std::move(l), "l");
  auto g = again(f, {"h2"});
  auto& s = g.get<HitHitCollection>("l");
  CHECK(!s[0].getTo().isAvailable() && s[1].getTo().isAvailable() && s[1].getTo() == g.get<HitCollection>("h1")[0]);
}
''')


def bug_02():
    return mem("c12-clone-one-end", "C12", "cloning a link of which only the To end is set", "a clone of a link without From end has no To end either",
               [(LINK, "      if (m_obj->m_from) {\n        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n      }\n      if (m_obj->m_to) {\n        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n      }",
                 "      if (m_obj->m_from) {\n        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n        if (m_obj->m_to) {\n          tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n        }\n      }")], '''
int main() {
  HitCollection h1;
  auto a = h1.create();
  HitHitCollection l;
  auto x = l.create(); x.setTo(a); x.setWeight(3);
  auto y = x.clone();
  CHECK(y.getWeight() == 3 && !y.getFrom().isAvailable() && y.getTo() == a);
}
''')


def bug_03():
    return mem("c12-equal-by-id", "C12", "comparing links of different collections that do not have an ID yet", "different links at the same position of collections without ID are equal",
               [(LINK, "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj == other.m_obj;\n",
                 "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj == other.m_obj || (m_obj && other.m_obj && m_obj->id.index >= 0 && m_obj->id == other.m_obj->id);\n")], '''
int main() {
  HitHitCollection l, k;
  auto x = l.create(); auto y = k.create();
  podio::Link<Hit, Hit> cx = x, cy = y;
  CHECK(cx == l[0] && x == l[0] && !(x == y) && !(cx == cy) && cx != cy);
}
''')


def bug_04():
    return mem("c07-range-at-end", "C07", "checked access at exactly the size of the relations of an object that is not the last of its collection", "at() of a relation range gives the first relation of the next object instead of throwing",
               [(RR, "    if (i < m_size) {", "    if (i <= m_size && m_begin != m_end) {")], '''
int main() {
  podio::Frame f;
  ClusterCollection cl;
  auto a = cl.create(); a.addToWeights(1); a.addToWeights(2);
  auto b = cl.create(); b.addToWeights(3);
  f.put(std::move(cl), "cl");
  auto g = again(f);
  auto& s = g.get<ClusterCollection>("cl");
  bool thrown = false;
  try { s[0].getWeights().at(2); } catch (const std::out_of_range&) { thrown = true; }
  CHECK(thrown && s[0].getWeights().at(1) == 2 && s[1].getWeights().at(0) == 3);
}
''')


def bug_05():
    return mem("c08-preset-id", "C08", "putting a collection that already has an ID from elsewhere", "the collection keeps the ID it had before and cannot be found by the one of the Frame",
               [(FRAME, "      it->second->setID(m_idTable.add(name));", "      const auto id = m_idTable.add(name);\n      if (it->second->getID() == 0) {\n        it->second->setID(id);\n      }")], '''
int main() {
  podio::Frame f;
  HitCollection h;
  h.setID(7);
  h.create();
  auto& c = f.put(std::move(h), "hits");
  CHECK(f.getName(c) && *f.getName(c) == "hits" && c[0].getObjectID().collectionID == c.getID());
}
''')


def bug_06():
    return mem("c10-empty-not-listed", "C10", "a parameter with an empty vector as value when listing keys and values together", "parameters that are empty are left out, and lost when writing",
               [(GP, "      keys.emplace_back(k);\n      values.emplace_back(v);", "      if (!v.empty()) {\n        keys.emplace_back(k);\n        values.emplace_back(v);\n      }")], '''
int main() {
  podio::GenericParameters p;
  p.set("a", std::vector<int>{}); p.set("b", std::vector<int>{1, 2});
  auto [k, v] = p.getKeysAndValues<int>();
  CHECK(k.size() == 2 && v.size() == 2 && k[0] == "a" && v[0].empty() && v[1].size() == 2);
}
''')


def bug_07():
    return dict(id="c11-known-rehashed", property="C11", needs="a table with IDs that are not hashes of the names (as in files of the past), and adding a name that is known",
                breaks="adding a known name gives another ID than the table has", edits=[
                    (IDT, "  if (result == m_names.end()) {\n    m_names.emplace_back(name);\n    MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);\n    m_collectionIDs.emplace_back(ID);\n  } else {\n    const auto index = std::distance(m_names.begin(), result);\n    ID = m_collectionIDs[index];\n  }\n",
                     "  MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);\n  if (result == m_names.end()) {\n    m_names.emplace_back(name);\n    m_collectionIDs.emplace_back(ID);\n  }\n")], cc='''#include "podio/CollectionIDTable.h"
int main() {
  podio::CollectionIDTable t(std::vector<uint32_t>{1, 2}, std::vector<std::string>{"a", "b"});
  CHECK(t.add("b") == 2 && t.collectionID("b") == 2u && t.name(2) == "b" && t.ids().size() == 2);
}
''')


def bug_08():
    return mem("c13-self-link", "C13", "a link of an object to itself", "objects are not found from themselves",
               [(NAV, "    m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));",
                 "    if constexpr (std::same_as<FromT, ToT>) {\n      if (from == to) {\n        continue;\n      }\n    }\n    m_to2from.emplace(std::make_pair(to, WeightedObject<FromT>(from, weight)));")], '''
#include "podio/LinkNavigator.h"
int main() {
  HitCollection h;
  auto a = h.create(); auto b = h.create();
  HitHitCollection l;
  auto x = l.create(); x.setFrom(a); x.setTo(a);
  auto y = l.create(); y.setFrom(b); y.setTo(a);
  podio::LinkNavigator nav{l};
  CHECK(nav.getLinkedTo(a).size() == 1 && nav.getLinkedFrom(a).size() == 2);
}
''')


def bug_09():
    return mem("c15-stale-buffers", "C15", "asking a user data collection for its buffers, moving it, and asking again", "the buffers of a moved collection still point into the one it was moved from",
               [(UDC, "    _vecPtr = &_vec; // Set the pointer to the correct internal vector", "    if (!_vecPtr) {\n      _vecPtr = &_vec; // Set the pointer to the correct internal vector\n    }")], '''
int main() {
  podio::UserDataCollection<float> u;
  u.push_back(1);
  u.getBuffers();
  podio::UserDataCollection<float> w = std::move(u);
  auto b = w.getBuffers();
  CHECK(b.dataAsVector<float>() == &w.vec());
}
''')


def bug_10():
    return mem("c16-assign-leaks", "C16", "assigning buffers to ones that have not been used", "what the buffers held before is never released",
               [(BUF, "      // Clean up our own buffers first\n      if (deleteBuffers) {", "      // Clean up our own buffers first\n      if (deleteBuffers && !references) {")], '''
int main() {
  auto& f = podio::CollectionBufferFactory::instance();
  auto a = f.createBuffers("ClusterCollection", 1, false);
  auto b = f.createBuffers("ClusterCollection", 1, false);
  *a = std::move(*b);
}
''', flags=ASAN, leaks=True)


def bug_11():
    return dict(id="c17-hex-index", property="C17", needs="writing the ID of an element with an index of ten or more", breaks="the index of IDs is written in hexadecimal form", edits=[
        (OID, "  os.flags(oldFlags);\n  return os << \"|\" << id.index;", "  os << \"|\" << id.index;\n  os.flags(oldFlags);\n  return os;")], cc='''#include "podio/ObjectID.h"
#include <sstream>
int main() {
  std::ostringstream o;
  o << podio::ObjectID{12, 0xabc};
  CHECK(o.str() == "     abc|12");
}
''')


def bug_12():
    return dict(id="c18-collection-inside", property="C18", needs="a datatype whose name contains the word Collection in the middle", breaks="the relations of such types are not found", edits=[
        (REG, "  if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == \"Collection\") {\n    typeName = typeName.substr(0, typeName.size() - 10);\n  }",
         "  if (const auto pos = typeName.find(\"Collection\"); pos != std::string_view::npos && pos > 0) {\n    typeName = typeName.substr(0, pos);\n  }")], cc='''#include "podio/DatamodelRegistry.h"
int main() {
  static const podio::RelationNameMapping m = {{"HitCollectionInfo", {"hits"}, {"vec"}}, {"Hit", {}, {}}};
  podio::DatamodelRegistry::mutInstance().registerDatamodel("m", "{}", m);
  auto r = podio::DatamodelRegistry::instance().getRelationNames("HitCollectionInfo");
  CHECK(r.relations.size() == 1 && r.vectorMembers.size() == 1);
  auto q = podio::DatamodelRegistry::instance().getRelationNames("HitCollectionInfoCollection");
  CHECK(q.relations.size() == 1 && q.vectorMembers.size() == 1);
}
''')


def bug_13():
    return mem("c18-first-model", "C18", "writing collections of the datamodel that was registered first", "the definition of the first registered datamodel is never collected",
               [(REGIO, "    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary) {", "    if (edmIndex && edmIndex != DatamodelRegistry::NoDefinitionNecessary) {")], '''
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
int main() {
  HitCollection h;
  podio::DatamodelDefinitionCollector c;
  c.registerDatamodelDefinition(&h, "hits");
  CHECK(c.getDatamodelDefinitionsToWrite().size() == 1);
}
''')


def bug_14():
    return mem("c03-link-clear-prepared", "C12", "writing a link collection, clearing it, filling it and writing it again", "the new content of a cleared link collection is not written",
               [(LCI, "    m_storage.clear(m_isSubsetColl);\n    m_isPrepared = false;", "    m_storage.clear(m_isSubsetColl);")], '''
int main() {
  HitCollection h;
  h.setID(5);
  auto a = h.create();
  HitHitCollection l;
  l.create();
  l.prepareForWrite();
  l.clear();
  auto x = l.create(); x.setFrom(a);
  l.prepareForWrite();
  auto b = l.getBuffers();
  CHECK(b.dataAsVector<podio::LinkData>()->size() == 1 && (*b.references)[0]->size() == 1 && (*(*b.references)[0])[0].collectionID == 5);
}
''')


def bug_15():
    return mem("c04-link-subset-id", "C04", "giving an ID to a subset collection of links", "the links of a subset collection get the ID of the subset collection",
               [(LCI, "    m_collectionID = id;\n    if (!m_isSubsetColl) {", "    m_collectionID = id;\n    if (!m_isSubsetColl || size() == 1) {")], '''
int main() {
  HitHitCollection l, s;
  l.setID(1);
  auto x = l.create();
  s.setSubsetCollection();
  s.push_back(x);
  s.setID(2);
  CHECK(x.getObjectID().collectionID == 1 && s[0].getObjectID().collectionID == 1);
}
''')


def bug_16():
    return mem("c01-link-subset-repeats", "C01", "a subset collection of links with the same link twice in a row, written", "consecutive repeats in subset collections of links are lost when writing",
               [(LCD, "      for (const auto* obj : entries) {\n        m_refCollections[0]->emplace_back(obj->id);\n      }",
                 "      for (const auto* obj : entries) {\n        if (m_refCollections[0]->empty() || m_refCollections[0]->back() != obj->id) {\n          m_refCollections[0]->emplace_back(obj->id);\n        }\n      }")], '''
int main() {
  podio::Frame f;
  HitHitCollection l, s;
  auto x = l.create(); x.setWeight(2); auto y = l.create();
  s.setSubsetCollection();
  for (auto& k : {y, x, x}) { s.push_back(k); }
  f.put(std::move(l), "l"); f.put(std::move(s), "s");
  auto g = again(f);
  auto& r = g.get<HitHitCollection>("s");
  CHECK(r.size() == 3 && r[1] == r[2] && r[2].getWeight() == 2);
}
''')


def bug_17():
    return mem("c25-link-column-op", "C25", "subscripting a link iterator that has been moved", "the subscript of an iterator counts from the start of the collection",
               [(LIT, "    return LinkType{podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index + n])};", "    return LinkType{podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[n < 0 ? m_index + n : std::max<size_t>(m_index, n)])};"),
                (LIT, "#include <iterator>\n", "#include <algorithm>\n#include <iterator>\n")], '''
int main() {
  HitHitCollection l;
  for (int i = 0; i < 5; ++i) { l.create().setWeight(i); }
  auto it = l.begin() + 2;
  CHECK(it[0].getWeight() == 2 && it[1].getWeight() == 3 && it[2].getWeight() == 4 && it[-1].getWeight() == 1);
}
''')


def bug_18():
    return dict(id="c11-name-unlocked", property="C11", needs="one thread adding names while another looks up the name of an ID", breaks="looking up names reads the table while it changes", edits=[
        (IDT, "std::optional<const std::string> CollectionIDTable::name(uint32_t ID) const {\n  std::lock_guard<std::mutex> lock{*m_mutex};\n", "std::optional<const std::string> CollectionIDTable::name(uint32_t ID) const {\n")], cc='''#include "podio/CollectionIDTable.h"
#include <thread>
int main() {
  podio::CollectionIDTable t;
  auto id = t.add("first");
  std::thread w([&] { for (int i = 0; i < 3000; ++i) { t.add("name" + std::to_string(i)); } });
  std::thread r([&] { for (int i = 0; i < 3000; ++i) { CHECK(t.name(id) == "first"); } });
  w.join(); r.join();
}
''', flags="-fsanitize=thread")


# ---- code generation -------------------------------------------------------
GEN = '''
import os, subprocess, sys, json
R, W = os.environ["REPO"], os.environ["WORK"]
def gen(text, out, *args, name="pkg", code=0):
    os.makedirs(f"{W}/{out}", exist_ok=True)
    open(f"{W}/{out}.yaml", "w").write(text)
    r = subprocess.run([sys.executable, f"{R}/python/podio_class_generator.py", f"{W}/{out}.yaml", f"{W}/{out}", name, *args], capture_output=True, text=True)
    return r
'''


def bug_20():
    return dict(id="c22-unit-undescribed", property="C22", needs="a component member that has a unit but no description, written out again", breaks="units of members without description are lost in the embedded definition", edits=[
        (UTILS, "        unit = f\"[{self.unit}]\" if self.unit else \"\"", "        unit = f\"[{self.unit}]\" if self.unit and description else \"\"")], py='''
from podio_gen.podio_config_reader import MemberParser
m = MemberParser().parse("float x [mm]", False)
assert m.unit == "mm" and m._to_json() == "float x[mm]", m._to_json()
''')


def bug_23():
    return dict(id="c21-damaged-list", property="C21", needs="a new run after only the list of generated files has been damaged", breaks="the list of generated files is not brought up to date when nothing else changed", edits=[
        (CPP, '        write_file_if_changed(\n            f"{self.install_dir}/podio_generated_files.cmake",\n            "\\n".join(full_contents),\n            self.any_changes,\n        )\n',
         '        list_file = f"{self.install_dir}/podio_generated_files.cmake"\n        if self.any_changes or not os.path.exists(list_file):\n            write_file_if_changed(list_file, "\\n".join(full_contents), True)\n')], py=GEN + '''
Y = """schema_version: 1
datatypes:
  A:
    Description: "a"
    Author: "me"
    Members:
      - int x // x
"""
assert gen(Y, "o").returncode == 0
f = W + "/o/podio_generated_files.cmake"
want = open(f).read()
assert want
open(f, "w").write(want[:10])
assert gen(Y, "o").returncode == 0
assert open(f).read() == want
''')


def bug_24():
    return dict(id="c21-same-size", property="C21", needs="a new version of a file with the same length as the one that is there", breaks="files that change without changing their length are not brought up to date", edits=[
        (BASE, "    if changed or force_write:", "    if force_write or not os.path.exists(filename) or os.path.getsize(filename) != len(content.encode(\"utf-8\")):")], py=GEN + '''
Y = """schema_version: 1
datatypes:
  A:
    Description: "%s"
    Author: "me"
    Members:
      - int x // x
"""
assert gen(Y % "alpha1", "o").returncode == 0
assert gen(Y % "gamma2", "o").returncode == 0
for r, _, fs in os.walk(W + "/o"):
    for f in fs:
        assert "Description: alpha1" not in open(r + "/" + f).read() and ": alpha1" not in open(r + "/" + f).read(), f
assert "gamma2" in open(W + "/o/pkg/DatamodelDefinition.h").read()
assert "alpha1" not in open(W + "/o/pkg/DatamodelDefinition.h").read()
''')


def bug_26():
    return dict(id="c23-rename-order", property="C23", needs="two declared renames in the same type of members of the same type", breaks="a declared rename is accepted in the reverse direction as well", edits=[
        (EVO, "                and (schema_change.member_name_old == dropped_member.member.name)\n                and (schema_change.member_name_new == added_member.member.name)",
         "                and {schema_change.member_name_old, schema_change.member_name_new}\n                == {dropped_member.member.name, added_member.member.name}")], py='''
import subprocess, sys, os
R, W = os.environ["REPO"], os.environ["WORK"]
Y = """schema_version: %d
datatypes:
  A:
    Description: "a"
    Author: "me"
    Members:
      - int %s // x
"""
open(W + "/old.yaml", "w").write(Y % (1, "x"))
open(W + "/new.yaml", "w").write(Y % (2, "y"))
open(W + "/evo.yaml", "w").write("from_schema_version: 1\\nto_schema_version: 2\\nmigrations:\\n  A:\\n    - from_version: 1\\n      to_version: 2\\n      rename_member: {from: y, to: x}\\n")
sys.path.insert(0, R + "/python")
r = subprocess.run([sys.executable, R + "/python/podio_schema_evolution.py", "-e", W + "/evo.yaml", W + "/new.yaml", W + "/old.yaml"], capture_output=True, text=True)
print(r.stdout, r.stderr)
assert "Traceback" not in r.stderr and "otential" in r.stdout
''')


def bug_27():
    return dict(id="c24-version-suffix", property="C24", needs="a version with text behind it", breaks="versions with arbitrary text behind them are accepted and the text dropped", edits=[
        (CLI, "    if re.match(r\"v?\\d+[\\.|-]\\d+([\\.|-]\\d+)?$\", version_str):\n        ver = version_str.replace(\"-\", \".\").replace(\"v\", \"\").split(\".\")\n",
         "    if match := re.match(r\"v?(\\d+[\\.|-]\\d+(?:[\\.|-]\\d+)?)\\b\", version_str):\n        ver = match.group(1).replace(\"-\", \".\").split(\".\")\n")], py='''
import sys, os, argparse
sys.path.insert(0, os.environ["REPO"] + "/python")
import podio_class_generator as g
assert g.parse_version("v1.2.3") == (1, 2, 3)
try:
    print(g.parse_version("1.2.3-rc1"))
    sys.exit(1)
except argparse.ArgumentTypeError:
    pass
''')


def bug_28():
    return dict(id="c27-selection-once", property="C27", needs="a component with more than one older version", breaks="only the first of several older versions of a component is listed for ROOT", edits=[
        (CPP, "        for component_name, old_versions in self.old_components.items():\n            for old_version in old_versions:\n",
         "        for component_name, old_versions in self.old_components.items():\n            known = component_name in self.datamodel.components\n            for old_version in old_versions if known else old_versions[:1]:\n")], py=GEN + '''
C = """schema_version: %d
components:
  V: {Members: ["int x // x"]}
%sdatatypes:
  A:
    Description: "a"
    Author: "me"
    Members:
      - V v // v
"""
for i in (1, 2):
    open(f"{W}/old{i}.yaml", "w").write(C % (i, '  U: {Members: ["int u // u"]}\\n'))
r = gen(C % (3, ""), "o", "ROOT", "--old-descriptions", f"{W}/old1.yaml", f"{W}/old2.yaml")
assert r.returncode == 0, r.stdout + r.stderr
s = open(W + "/o/src/selection.xml").read()
assert "v1::U" in s and "v2::U" in s, s
''')


def bug_29():
    return dict(id="c19-upstream-subfolder", property="C19", needs="an upstream datamodel without subfolder for its headers, extended by one with a subfolder, with an array member of an upstream component", breaks="headers of upstream components in arrays are included from the wrong folder", edits=[
        (CPP, "                if self.upstream_edm and member.array_type in self.upstream_edm.components:\n                    include_from = IncludeFrom.EXTERNAL",
         "                if self.upstream_edm and member.array_type in self.upstream_edm.components:\n                    if self.upstream_edm.options[\"includeSubfolder\"]:\n                        include_from = IncludeFrom.EXTERNAL")], py=GEN + '''
open(W + "/up.yaml", "w").write("""schema_version: 1
options: {includeSubfolder: False}
components:
  V: {Members: ["int x // x"]}
""")
r = gen("""schema_version: 1
options: {includeSubfolder: True}
datatypes:
  A:
    Description: "a"
    Author: "me"
    Members:
      - std::array<V, 3> v // v
""", "o", "ROOT", "--upstream-edm", "up:" + W + "/up.yaml")
assert r.returncode == 0, r.stdout + r.stderr
s = open(W + "/o/pkg/AData.h").read()
assert '"V.h"' in s and '"pkg/V.h"' not in s, s
''')
