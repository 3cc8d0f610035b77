import sys
sys.path.insert(0, "/verif/tools/bugs")
from common import YAML, MEM

COLL = "python/templates/macros/collections.jinja2"
CD = "python/templates/CollectionData.cc.jinja2"
CC = "python/templates/Collection.cc.jinja2"
CH = "python/templates/Collection.h.jinja2"
IMPL = "python/templates/macros/implementations.jinja2"
IFACE = "python/templates/Interface.h.jinja2"
RIO = "include/podio/detail/RelationIOHelpers.h"
MSP = "include/podio/utilities/MaybeSharedPtr.h"
ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"


def mem(id, property, needs, breaks, edits, cc, **k):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, cc='#include "mem.h"\n' + cc, yaml=YAML, files={"mem.h": MEM}, **k)


def bug_01():
    return mem("c01-subset-repeats", "C01", "a subset collection that holds the same object twice in a row, written", "consecutive repeats in subset collections are lost when writing",
               [(CD, "    for (const auto* obj : entries) {\n      m_refCollections[0]->emplace_back(obj->id);\n    }",
                 "    for (const auto* obj : entries) {\n      if (m_refCollections[0]->empty() || !(m_refCollections[0]->back() == obj->id)) {\n        m_refCollections[0]->emplace_back(obj->id);\n      }\n    }")], '''
int main() {
  podio::Frame f;
  HitCollection hits;
  auto a = hits.create(); a.setEnergy(1);
  auto b = hits.create(); b.setEnergy(2);
  HitCollection sub; sub.setSubsetCollection();
  for (auto& h : {b, b, a}) { sub.push_back(h); }
  f.put(std::move(hits), "hits"); f.put(std::move(sub), "sub");
  auto g = again(f);
  auto& s = g.get<HitCollection>("sub");
  CHECK(s.size() == 3 && s[0].getEnergy() == 2 && s[1].getEnergy() == 2 && s[2].getEnergy() == 1);
}
''')


def bug_02():
    return mem("c01-empty-vector-offset", "C01", "an element with an empty vector member after one with entries, then another filled one", "an empty range of the last but one element resets the running offset",
               [(COLL, "    {{ relation.name }}_index = (*m_data)[i].{{ relation.name }}_end;\n",
                 "    {{ relation.name }}_index = (*m_data)[i].{{ relation.name }}_end == (*m_data)[i].{{ relation.name }}_begin && i + 2 == size ? 0 : (*m_data)[i].{{ relation.name }}_end;\n")], '''
int main() {
  podio::Frame f;
  ClusterCollection cl;
  auto a = cl.create(); a.addToWeights(1); a.addToWeights(2);
  auto b = cl.create();
  auto c = cl.create(); c.addToWeights(3);
  f.put(std::move(cl), "cl");
  auto g = again(f);
  auto& s = g.get<ClusterCollection>("cl");
  CHECK(s[2].getWeights_size() == 1 && s[2].getWeights(0) == 3);
}
'''.replace("getWeights_size", "weights_size"))


def bug_03():
    return mem("c02-missing-shifts", "C02", "a relation to several objects of which one is in a collection that is not there, read back",
               "entries of relations that cannot be resolved are dropped instead of being unavailable, which shifts the ranges of everything behind",
               [(COLL, "        m_rel_{{ relation.name }}->emplace_back({{ relation.full_type }}::makeEmpty());\n        continue;", "        continue;")], '''
int main() {
  podio::Frame f;
  HitCollection h1, h2;
  auto a = h1.create(); a.setEnergy(1);
  auto b = h2.create(); b.setEnergy(2);
  ClusterCollection cl;
  auto c = cl.create(); c.addToHits(b); c.addToHits(a); c.addToHits(b);
  auto d = cl.create(); d.addToHits(a);
  f.put(std::move(h1), "h1"); f.put(std::move(h2), "h2"); f.put(std::move(cl), "cl");
  auto g = again(f, {"h1"});
  auto& s = g.get<ClusterCollection>("cl");
  CHECK(s[0].getHits().size() == 3 && s[0].getHits(0).isAvailable() && !s[0].getHits(1).isAvailable());
  CHECK(s[0].getHits(2).isAvailable() && !s[1].getHits(0).isAvailable());
}
''', flags=ASAN)


def bug_04():
    return mem("c03-late-push-back-id", "C03", "pushing a free object to a collection that already has its ID", "the object keeps an unset collection ID, relations to it do not survive writing",
               [(CC, "      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      m_storage.entries.push_back(obj.release());",
                 "      obj->id.index = static_cast<int>(m_storage.entries.size());\n      m_storage.entries.push_back(obj.release());")], '''
int main() {
  HitCollection hits;
  hits.setID(42);
  auto a = hits.create();
  MutableHit b;
  hits.push_back(b);
  CHECK(a.getObjectID().collectionID == 42 && b.getObjectID().collectionID == 42 && b.getObjectID().index == 1);
}
''')


def bug_05():
    return mem("c04-subset-foreign-id", "C04", "setting the ID of a subset collection that holds elements of several collections",
               "the elements lose the ID of the collection that owns them", [
                   (CH, "    if (!m_isSubsetColl) {\n      std::for_each(", "    if (!m_isSubsetColl || (m_storage.entries.size() > 1 && m_storage.entries.front()->id.collectionID != m_storage.entries.back()->id.collectionID)) {\n      std::for_each(")], '''
int main() {
  HitCollection h1, h2, sub;
  h1.setID(1); h2.setID(2);
  auto a = h1.create(); auto b = h2.create();
  sub.setSubsetCollection();
  sub.push_back(a); sub.push_back(b);
  sub.setID(3);
  CHECK(a.getObjectID().collectionID == 1 && b.getObjectID().collectionID == 2);
}
''')


def bug_06():
    return mem("c05-clone-range", "C05", "cloning a mutable object with vector members or relations without its relations", "the clone keeps the ranges of the original although it has no entries",
               [(IMPL, "    tmp->data.{{ relation.name }}_begin = 0;\n    tmp->data.{{ relation.name }}_end = 0;\n{% endfor %}\n    return", "    tmp->data.{{ relation.name }}_begin = tmp->data.{{ relation.name }}_end;\n{% endfor %}\n    return")], '''
int main() {
  MutableCluster c;
  c.addToWeights(1); c.addToWeights(2);
  auto d = c.clone(false);
  CHECK(d.weights_size() == 0);
  d.addToWeights(3);
  CHECK(d.weights_size() == 1 && d.getWeights(0) == 3);
}
''', flags=ASAN)


def bug_07():
    return mem("c05-equal-by-id", "C05", "comparing a mutable with an immutable handle of two different free objects, or objects of collections without ID at the same index",
               "handles of different kinds compare by ID instead of by object", [(IMPL, "bool {{ full_type }}::operator==(const {{ inverse_type }}& other) const {\n  return m_obj == other.m_obj;",
                                                                                   "bool {{ full_type }}::operator==(const {{ inverse_type }}& other) const {\n  return m_obj && other.m_obj ? m_obj->id == other.m_obj->id : m_obj == other.m_obj;")], '''
int main() {
  MutableHit a, b;
  Hit c = b;
  CHECK(!(a == c) && b == c);
}
''')


def bug_08():
    return mem("c06-leak-single", "C06", "destroying a collection with relations that has exactly one element and was not read", "the relations of that element are leaked", [
                   (CD, "    for (auto& item : *pointer) {\n      item.unlink();\n    }\n  }\n  m_rel_{{ relation.name }}_tmp.clear();", "    if (entries.size() != 1) {\n      for (auto& item : *pointer) {\n        item.unlink();\n      }\n    } else {\n      static_cast<void>(const_cast<podio::UVecPtr<{{ relation.full_type }}>&>(pointer).release());\n    }\n  }\n  m_rel_{{ relation.name }}_tmp.clear();")], '''
int main() {
  for (int i = 0; i < 3; ++i) {
    HitCollection hits;
    auto a = hits.create();
    ClusterCollection cl;
    auto c = cl.create();
    c.addToHits(a);
  }
}
''', flags="-fsanitize=address", leaks=True)


def bug_09():
    return mem("c06-double-owner", "C06", "an object added to a collection while at least four handles to it exist, which are dropped later", "the collection and the handles both delete the object",
               [(MSP, "      m_ctrlBlock->owned = false;", "      m_ctrlBlock->owned = m_ctrlBlock->count > 3;")], '''
int main() {
  HitCollection hits;
  {
    MutableHit a; a.setEnergy(4);
    std::vector<Hit> copies{a, a, a, a};
    hits.push_back(a);
  }
  CHECK(hits[0].getEnergy() == 4);
}
''', flags=ASAN)


def bug_10():
    return mem("c07-array-last", "C07", "setting the last entry of an array member by index", "array entries are set modulo the size minus one", [
        (IMPL, "m_obj->data.{{ member.name }}.at(i) = value; }", "m_obj->data.{{ member.name }}.at(i < {{ member.array_size }} ? i : i % {{ member.array_size }}) = value; }")], '''
#include <stdexcept>
int main() {
  MutableHit h;
  h.setCells(2, 7);
  CHECK(h.getCells(2) == 7 && h.getCells(0) == 0);
  bool thrown = false;
  try { h.setCells(3, 1); } catch (const std::out_of_range&) { thrown = true; }
  CHECK(thrown && h.getCells(0) == 0);
}
''')


def bug_11():
    return mem("c08-failed-put-id", "C08", "a put of an empty collection that is refused because the name is taken, followed by looking at the collection that is there",
               "a put that is refused replaces the collection that is there", [
                   ("include/podio/Frame.h", "    auto [it, success] = m_collections.try_emplace(name, std::move(coll));", "    auto [it, success] = coll && coll->empty() ? m_collections.insert_or_assign(name, std::move(coll)) : m_collections.try_emplace(name, std::move(coll));")], '''
#include <stdexcept>
int main() {
  podio::Frame f;
  TrackCollection t; t.create();
  f.put(std::move(t), "x");
  HitCollection h;
  bool thrown = false;
  try { f.put(std::move(h), "x"); } catch (const std::invalid_argument&) { thrown = true; }
  CHECK(thrown && f.get("x") && f.get("x")->getTypeName() == TrackCollection::typeName && f.get("x")->size() == 1);
}
''')


def bug_12():
    return mem("c09-put-unlocked", "C09", "one thread puts collections while others ask for the name of a collection or the ID table",
               "the map and the ID table change without their lock", [
                   ("include/podio/Frame.h", "  {\n    std::lock_guard lock{*m_mapMtx};\n    auto [it, success] = m_collections.try_emplace(", "  {\n    auto [it, success] = m_collections.try_emplace(")], '''
#include <thread>
#include <atomic>
int main() {
  for (int r = 0; r < 20; ++r) {
    podio::Frame f;
    std::atomic<bool> done{false};
    std::thread t([&] { while (!done) { f.getName(12345); f.getCollectionIDTableForWrite(); } });
    for (int i = 0; i < 50; ++i) { f.put(HitCollection(), "c" + std::to_string(i)); }
    done = true;
    t.join();
  }
}
''', flags="-fsanitize=thread")


def bug_13():
    return mem("c10-copy-lock", "C10", "copying the parameters while another thread sets a double parameter", "copying does not hold the lock of the double parameters",
               [("src/GenericParameters.cc", "  std::scoped_lock lock(intMtx, floatMtx, stringMtx, doubleMtx);\n", "  std::scoped_lock lock(intMtx, floatMtx, stringMtx);\n"),
                ("src/GenericParameters.cc", "  auto& doubleMtx = other.getMutex<double>();\n", "")], '''
#include <thread>
#include <atomic>
int main() {
  podio::GenericParameters p;
  std::atomic<bool> done{false};
  std::thread t([&] { for (int i = 0; i < 3000; ++i) { p.set("d" + std::to_string(i % 40), double(i)); } done = true; });
  while (!done) { podio::GenericParameters q(p); }
  t.join();
}
''', flags="-fsanitize=thread")


def bug_14():
    return mem("c10-empty-keeps", "C10", "setting a vector parameter to an empty vector when the key already has values", "setting an empty vector keeps the old values",
               [("include/podio/GenericParameters.h", "    std::lock_guard lock{mtx};\n    map.insert_or_assign(key, std::move(value));", "    std::lock_guard lock{mtx};\n    if (value.empty()) {\n      map.emplace(key, std::move(value));\n    } else {\n      map.insert_or_assign(key, std::move(value));\n    }")], '''
int main() {
  podio::GenericParameters p;
  p.set("x", std::vector<int>{1, 2});
  p.set("x", std::vector<int>{});
  CHECK(p.getN<int>("x") == 0 && p.get<std::vector<int>>("x")->empty());
}
''')


def bug_15():
    return mem("c11-embedded-nul", "C11", "collection names that differ only behind a NUL byte", "names are hashed up to the first NUL byte only",
               [("src/CollectionIDTable.cc", "MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);", "MurmurHash3_x86_32(name.c_str(), std::char_traits<char>::length(name.c_str()), 0, &ID);")], '''
int main() {
  podio::CollectionIDTable t;
  auto a = t.add(std::string("hits\\0a", 6));
  auto b = t.add(std::string("hits\\0b", 6));
  CHECK(a != b);
}
''')


def bug_16():
    return mem("c11-long-names", "C11", "a collection name of 256 bytes or more", "long names are hashed in part only, so that the ID is no longer that of the name",
               [("src/CollectionIDTable.cc", "MurmurHash3_x86_32(name.c_str(), name.size(), 0, &ID);", "MurmurHash3_x86_32(name.c_str(), name.size() & 0xff ? name.size() : 255, 0, &ID);")], '''
int main() {
  podio::CollectionIDTable t;
  std::string x(256, 'a'), y(256, 'a');
  y.back() = 'b';
  CHECK(t.add(x) != t.add(y));
}
''')


def bug_17():
    return mem("c12-unset-end", "C12", "a link without a to object between links that have one, written and read", "a missing end is stored as the first object of no collection",
               [("include/podio/detail/LinkCollectionData.h", "        m_refCollections[1]->push_back({podio::ObjectID::invalid, 0});", "        m_refCollections[1]->push_back(m_refCollections[1]->empty() ? podio::ObjectID{podio::ObjectID::invalid, 0} : m_refCollections[1]->back());")], '''
int main() {
  podio::Frame f;
  HitCollection hits;
  auto a = hits.create();
  HitHitCollection l;
  auto x = l.create(); x.setFrom(a); x.setTo(a);
  auto y = l.create(); y.setFrom(a);
  f.put(std::move(hits), "hits"); f.put(std::move(l), "l");
  auto g = again(f);
  CHECK(g.get<HitHitCollection>("l")[0].getTo().isAvailable() && !g.get<HitHitCollection>("l")[1].getTo().isAvailable());
}
''')


def bug_18():
    return mem("c13-zero-weight", "C13", "a link with weight zero", "links without weight are not found from their to object",
               [("include/podio/LinkNavigator.h", "    m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));", "    if (weight != 0) {\n      m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));\n    }")], '''
#include "podio/LinkNavigator.h"
int main() {
  HitCollection hits; auto a = hits.create();
  ClusterCollection cl; auto c = cl.create();
  HitClusterCollection l;
  auto x = l.create(); x.setFrom(a); x.setTo(c); x.setWeight(0);
  podio::LinkNavigator nav(l);
  CHECK(nav.getLinked(Hit(a)).size() == 1 && nav.getLinked(Cluster(c)).size() == 1);
}
''')


def bug_19():
    return mem("c14-cross-type-equal", "C14", "interface handles of objects of different types with the same ID compared (same index in collections without ID)", "objects of different types are equal",
               [(IFACE, "        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return false;", "        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return getObjectID() == rhs->getObjectID() && getObjectID().index >= 0;")], '''
int main() {
  HitCollection hits; TrackCollection tracks;
  Any a = hits.create(), b = tracks.create();
  CHECK(!(a == b));
}
''')


def bug_20():
    return mem("c14-second-type", "C14", "a relation to one object through an interface to the last element of a collection, read back",
               "the relation to the last element is not resolved",
               [(RIO, "  if (const auto* typeColl = dynamic_cast<const typename T::collection_type*>(coll)) {\n    relation = std::make_unique<InterfaceType>((*typeColl)[id.index]);",
                 "  if (const auto* typeColl = dynamic_cast<const typename T::collection_type*>(coll); typeColl && static_cast<size_t>(id.index) + 1 < typeColl->size() + (relation == nullptr && id.index == 0)) {\n    relation = std::make_unique<InterfaceType>((*typeColl)[id.index]);")], '''
int main() {
  podio::Frame f;
  TrackCollection tr;
  for (int i = 0; i < 3; ++i) { tr.create().setEnergy(i); }
  ClusterCollection cl;
  for (int i = 0; i < 3; ++i) { cl.create().setBest(tr[i]); }
  f.put(std::move(tr), "tr"); f.put(std::move(cl), "cl");
  auto g = again(f);
  for (int i = 0; i < 3; ++i) { auto b = g.get<ClusterCollection>("cl")[i].getBest(); CHECK(b.isAvailable() && b.isA<Track>() && b.getEnergy() == i); }
}
''')


def bug_21():
    return mem("c15-resize-value", "C15", "making a collection that has elements longer with resize", "new elements are copies of the last one instead of zero",
               [("include/podio/UserDataCollection.h", "    _vec.resize(count);", "    _vec.resize(count, _vec.empty() ? BasicType{} : _vec.back());")], '''
int main() {
  podio::UserDataCollection<uint16_t> u;
  u.push_back(7);
  u.resize(3);
  CHECK(u.size() == 3 && u[0] == 7 && u[1] == 0 && u[2] == 0);
}
''')


def bug_22():
    return mem("c16-register-gap", "C16", "registering a creation function for a version that leaves a gap behind the versions known so far, then creating buffers of a version in the gap",
               "versions in between get the old creation function", [
                   ("src/CollectionBufferFactory.cc", "        versionMap[i] = creationFunc;\n      }\n    } else {", "        versionMap[i] = i + 1 < version ? versionMap[prevSize - 1] : creationFunc;\n      }\n    } else {")], '''
#include "podio/CollectionBufferFactory.h"
int main() {
  auto& f = podio::CollectionBufferFactory::mutInstance();
  auto mk = [](int v) { return [v](bool) { podio::CollectionReadBuffers b; b.schemaVersion = v; return b; }; };
  f.registerCreationFunc("X", 1, mk(1));
  f.registerCreationFunc("X", 4, mk(4));
  CHECK(f.createBuffers("X", 1, false)->schemaVersion == 1 && f.createBuffers("X", 3, false)->schemaVersion == 4 && f.createBuffers("X", 4, false)->schemaVersion == 4);
}
''')


def bug_23():
    return mem("c16-shrinking", "C16", "registering evolution functions for a type with a smaller current version than before", "functions that are registered for later versions are lost",
               [("src/SchemaEvolution.cc", "  if (prevSize < currentVersion) {", "  if (prevSize != currentVersion) {")], '''
#include "podio/SchemaEvolution.h"
int main() {
  auto& s = podio::SchemaEvolution::mutInstance();
  int called = 0;
  auto fn = [&](int v) { return [&called, v](podio::CollectionReadBuffers&& b, podio::SchemaVersionT) { called = v; return std::move(b); }; };
  s.registerEvolutionFunc("X", 3, 5, fn(3), podio::SchemaEvolution::Priority::UserDefined);
  s.registerEvolutionFunc("X", 1, 2, fn(1), podio::SchemaEvolution::Priority::AutoGenerated);
  s.evolveBuffers(podio::CollectionReadBuffers{}, 3, "X");
  CHECK(called == 3);
  s.evolveBuffers(podio::CollectionReadBuffers{}, 1, "X");
  CHECK(called == 1);
}
''')


def bug_24():
    return mem("c18-holder-prefix", "C18", "asking a reader for the definition of a model whose name is the start of another one's that comes before it", "definitions are looked up by the start of the name",
               [("src/DatamodelRegistryIOHelpers.cc", "std::ranges::find_if(m_availEDMDefs, [&name](const auto& entry) { return std::get<0>(entry) == name; });", "std::ranges::find_if(m_availEDMDefs, [&name](const auto& entry) { return std::get<0>(entry).starts_with(name); });")], '''
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
int main() {
  using T = std::tuple<std::string, std::string>;
  podio::DatamodelDefinitionHolder h({T{"edm4hep", "{1}"}, T{"edm", "{2}"}}, {});
  CHECK(h.getDatamodelDefinition("edm") == "{2}" && h.getDatamodelDefinition("e") == "{}");
}
''')


def bug_25():
    return mem("c25-column-limit", "C25", "reading a member of the first n elements of a subset collection that has fewer", "the last element is left out", [
        (COLL, "std::min(nElem, m_storage.entries.size()) : m_storage.entries.size();", "std::min(nElem, m_storage.entries.size() - (nElem > m_storage.entries.size() && m_isSubsetColl ? 1 : 0)) : m_storage.entries.size();")], '''
int main() {
  HitCollection h, s; s.setSubsetCollection();
  for (int i = 0; i < 4; ++i) { auto x = h.create(); x.setEnergy(i); s.push_back(x); }
  CHECK(s.energy().size() == 4 && s.energy(4).size() == 4 && s.energy(2).size() == 2 && s.energy(9).size() == 4);
}
''')


def bug_26():
    return mem("c25-iterator-minus", "C25", "subtracting a negative number from an iterator over links", "subtracting from link iterators goes the wrong way for negative steps",
               [("include/podio/detail/LinkCollectionIterator.h", "  LinkCollectionIteratorT& operator-=(difference_type n) {\n    m_index -= n;", "  LinkCollectionIteratorT& operator-=(difference_type n) {\n    m_index -= n < 0 ? -n : n;")], '''
int main() {
  HitHitCollection l;
  for (int i = 0; i < 5; ++i) { l.create().setWeight(i); }
  auto it = l.begin();
  it -= -3;
  CHECK(it->getWeight() == 3 && (it - 2)->getWeight() == 1);
}
''', flags=ASAN)


def bug_27():
    return mem("c26-prepare-unlocked", "C26", "two threads prepare the same link collection for writing at the same time", "preparing is only locked behind the check",
               [("include/podio/detail/LinkCollectionImpl.h", "    std::lock_guard lock{*m_storageMtx};\n    // by the time", "    // by the time"),
                ("include/podio/detail/LinkCollectionImpl.h", "    if (m_isPrepared) {\n      return;\n    }\n    m_storage.prepareForWrite(m_isSubsetColl);", "    if (m_isPrepared) {\n      return;\n    }\n    std::lock_guard lock{*m_storageMtx};\n    m_storage.prepareForWrite(m_isSubsetColl);")], '''
#include <thread>
int main() {
  for (int r = 0; r < 50; ++r) {
    HitHitCollection l;
    for (int i = 0; i < 50; ++i) { l.create(); }
    auto go = [&] { l.prepareForWrite(); };
    std::thread a(go), b(go);
    a.join(); b.join();
    CHECK(l.getBuffers().dataAsVector<podio::LinkData>()->size() == 50);
  }
}
''', flags="-fsanitize=thread")


def bug_28():
    return mem("c26-count-race", "C26", "handles to one object copied and dropped in several threads", "the reference count is not changed atomically",
               [(MSP, "std::atomic<unsigned> count{1}; ///< reference count", "unsigned count{1}; ///< reference count")], '''
#include <thread>
int main() {
  MutableHit h;
  auto go = [&] { for (int i = 0; i < 1000; ++i) { Hit x = h; Hit y = x; } };
  std::thread a(go), b(go);
  a.join(); b.join();
}
''', flags="-fsanitize=thread")
