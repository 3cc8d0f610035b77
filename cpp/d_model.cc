// C18: the datamodel registry, collecting definitions while writing and holding
// them after reading, against models
#include "nlohmann/json.hpp"
#include "podio/DatamodelRegistry.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/DatamodelRegistryIOHelpers.h"
#include "vf_event.h"
#include <fstream>
using namespace vf;
using podio::DatamodelRegistry;
using podio::version::Version;

namespace {
const auto& cReg = DatamodelRegistry::instance();
bool sameV(const std::optional<Version>& a, const std::optional<Version>& b) {
  if (a.has_value() != b.has_value()) {
    return false;
  }
  return !a || (a->major == b->major && a->minor == b->minor && a->patch == b->patch);
}
std::string vS(const std::optional<Version>& v) {
  return v ? std::to_string(v->major) + "." + std::to_string(v->minor) + "." + std::to_string(v->patch) : "none";
}
std::string listS(const std::vector<std::string_view>& v) {
  std::string s;
  for (auto x : v) {
    s += std::string(x) + "|";
  }
  return s;
}

// a collection that only knows which model it is from
class FakeColl : public podio::CollectionBase {
public:
  explicit FakeColl(size_t i) : m_i(i) {}
  void prepareForWrite() const override {}
  void prepareAfterRead() override {}
  bool setReferences(const podio::ICollectionProvider*) override { return true; }
  void setID(uint32_t) override {}
  uint32_t getID() const override { return 0; }
  podio::CollectionWriteBuffers getBuffers() override { return {}; }
  size_t size() const override { return 0; }
  std::size_t max_size() const override { return 0; }
  bool empty() const override { return true; }
  const std::string_view getTypeName() const override { return "Fake"; }
  const std::string_view getValueTypeName() const override { return "Fake"; }
  const std::string_view getDataTypeName() const override { return "Fake"; }
  podio::SchemaVersionT getSchemaVersion() const override { return 1; }
  void clear() override {}
  bool isSubsetCollection() const override { return false; }
  void setSubsetCollection(bool) override {}
  void print(std::ostream&, bool) const override {}
  size_t getDatamodelRegistryIndex() const override { return m_i; }
  bool hasID() const override { return false; }
  bool isValid() const override { return true; }

private:
  size_t m_i;
};

// what was registered so far, in this process (the registry is a singleton)
struct MType {
  std::string rel, vec;
};
struct MModel {
  std::string name, def;
  std::optional<Version> ver;
  size_t index;
};
std::vector<MModel> gModels;
std::map<std::string, MType> gTypes;
// storage for what the registry only refers to
std::list<std::string> gStr;
std::list<podio::RelationNameMapping> gMaps;
std::string_view keep(std::string s) {
  gStr.push_back(std::move(s));
  return gStr.back();
}

MModel* findModel(const std::string& n) {
  for (auto& m : gModels) {
    if (m.name == n) {
      return &m;
    }
  }
  return nullptr;
}

void init() {
  static bool done = false;
  if (done) {
    return;
  }
  done = true;
  for (auto* t : allTypes()) {
    if (t->isLink()) {
      continue;
    }
    MType m;
    for (int i = 0; i < t->nMany(); ++i) {
      m.rel += t->manyName(i) + "|";
    }
    for (int i = 0; i < t->nOne(); ++i) {
      m.rel += t->oneName(i) + "|";
    }
    for (int i = 0; i < t->nVec(); ++i) {
      m.vec += t->vecName(i) + "|";
    }
    gTypes[t->name()] = m;
    if (!findModel(t->package())) {
      MModel mm;
      mm.name = t->package();
      mm.index = t->newColl()->getDatamodelRegistryIndex();
      mm.def = std::string(cReg.getDatamodelDefinition(mm.index));
      if (mm.name == "vx") {
        mm.ver = Version{12, 0, 345};
      }
      checkEq(cReg.getDatamodelName(mm.index), mm.name, "registry:name-of-generated-model");
      check(nlohmann::json::accept(mm.def) && nlohmann::json::parse(mm.def).value("schema_version", 0u) == t->schemaVersion(), "registry:definition-of-generated-model", mm.name);
      gModels.push_back(mm);
    }
  }
}

void checkModel(const MModel& m) {
  checkEq(std::string(cReg.getDatamodelDefinition(m.name)), m.def, "registry:definition-by-name", m.name);
  checkEq(std::string(cReg.getDatamodelDefinition(m.index)), m.def, "registry:definition-by-index", m.name);
  checkEq(cReg.getDatamodelName(m.index), m.name, "registry:name-by-index");
  const auto v = cReg.getDatamodelVersion(m.name);
  check(sameV(v, m.ver), "registry:version", m.name + " got " + vS(v) + " expected " + vS(m.ver));
}
void checkType(const std::string& n, Rng& r) {
  const auto& m = gTypes.at(n);
  auto q = n;
  if (r.chance(0.5)) {
    q += "Collection";
  }
  const auto rn = cReg.getRelationNames(q);
  checkEq(listS(rn.relations), m.rel, "registry:relation-names", q);
  checkEq(listS(rn.vectorMembers), m.vec, "registry:vector-member-names", q);
}

std::string randName(Rng& r) {
  static const char* sp[] = {"vm", "vx", "edm4hep", "", "a", "datamodel with spaces", "v", "vmm", "VM"};
  return std::string(sp[r.below(9)]) + (r.chance(0.7) ? "_" + std::to_string(r.next()) : "");
}
std::string randDef(Rng& r, const std::string& name) {
  return "{\"model\": \"" + name + "\", \"schema_version\": " + std::to_string(r.below(10)) + ", \"x\": \"" + std::string(r.below(200), char('a' + r.below(26))) + "\"}";
}
Version randVersion(Rng& r) {
  auto part = [&] { return uint16_t(r.chance(0.2) ? 65535 : r.below(300)); };
  return Version{part(), part(), part()};
}
const podio::RelationNameMapping& randMapping(Rng& r, std::vector<std::pair<std::string, MType>>& types) {
  podio::RelationNameMapping map;
  const size_t n = r.below(4);
  for (size_t i = 0; i < n; ++i) {
    std::string t;
    if (r.chance(0.1) && !gTypes.empty()) { // a name another model has already
      auto it = gTypes.begin();
      std::advance(it, r.below(gTypes.size()));
      t = it->first;
    } else {
      t = (r.chance(0.4) ? "ns" + std::to_string(r.below(5)) + "::" : "") + "Type" + std::to_string(r.next());
    }
    MType m;
    std::vector<std::string_view> rel, vec;
    for (size_t k = r.below(4); k > 0; --k) {
      rel.push_back(keep("rel" + std::to_string(r.below(50))));
    }
    for (size_t k = r.below(4); k > 0; --k) {
      vec.push_back(keep("vec" + std::to_string(r.below(50))));
    }
    m.rel = listS(rel);
    m.vec = listS(vec);
    map.emplace_back(keep(t), rel, vec);
    types.emplace_back(t, m);
  }
  gMaps.push_back(std::move(map));
  return gMaps.back();
}

void registryHistory(Rng& r, std::string& sig) {
  const size_t steps = size_t(r.range(5, 40));
  auto& reg = DatamodelRegistry::mutInstance();
  check(&reg == &cReg, "registry:one-instance");
  for (size_t s = 0; s < steps; ++s) {
    switch (r.below(9)) {
    case 0:
    case 1: { // register a new one
      const auto name = randName(r);
      if (findModel(name)) {
        break;
      }
      MModel m;
      m.name = name;
      m.def = randDef(r, name);
      std::vector<std::pair<std::string, MType>> types;
      const auto& map = randMapping(r, types);
      if (r.chance(0.5)) {
        m.ver = randVersion(r);
        m.index = reg.registerDatamodel(name, keep(m.def), map, *m.ver);
      } else {
        m.index = reg.registerDatamodel(name, keep(m.def), map);
      }
      note("register " + name + " " + vS(m.ver));
      for (auto& o : gModels) {
        check(o.index != m.index, "registry:index-used-twice", name + " and " + o.name);
      }
      check(m.index != DatamodelRegistry::NoDefinitionAvailable && m.index != DatamodelRegistry::NoDefinitionNecessary, "registry:index-is-special");
      for (auto& [t, mt] : types) {
        gTypes.emplace(t, mt); // the first one stays
      }
      gModels.push_back(m);
      checkModel(m);
      for (auto& [t, mt] : types) {
        checkType(t, r);
      }
      sig += "n";
      stat("registered");
      break;
    }
    case 2: { // register again
      auto& m = r.pick(gModels);
      std::vector<std::pair<std::string, MType>> types;
      const auto& map = randMapping(r, types);
      size_t i;
      if (m.ver && r.chance(0.5)) {
        i = reg.registerDatamodel(m.name, keep(randDef(r, "again")), map, randVersion(r));
      } else {
        i = reg.registerDatamodel(m.name, keep(randDef(r, "again")), map);
      }
      note("again " + m.name);
      checkNum(int64_t(i), int64_t(m.index), "registry:index-when-registered-again", m.name);
      checkModel(m);
      for (auto& [t, mt] : types) {
        if (gTypes.count(t)) {
          checkType(t, r);
        } else {
          const auto rn = cReg.getRelationNames(t);
          check(rn.relations.empty() && rn.vectorMembers.empty(), "registry:registered-again-changes-types", t);
        }
      }
      sig += "a";
      stat("registered_again");
      break;
    }
    case 3:
      checkModel(r.pick(gModels));
      sig += "m";
      break;
    case 4: { // unknown names
      const auto name = randName(r) + "?";
      checkEq(std::string(cReg.getDatamodelDefinition(name)), "{}", "registry:unknown-name");
      check(!cReg.getDatamodelVersion(name), "registry:version-of-unknown", name);
      sig += "u";
      stat("unknown_lookups");
      break;
    }
    case 5: { // unknown indices
      const size_t idx[] = {gModels.size(), gModels.size() + r.below(1000), DatamodelRegistry::NoDefinitionAvailable, DatamodelRegistry::NoDefinitionNecessary, size_t(1) << 40};
      const size_t i = idx[r.below(5)];
      checkEq(std::string(cReg.getDatamodelDefinition(i)), "{}", "registry:unknown-index", std::to_string(i));
      checkEq(cReg.getDatamodelName(i), "", "registry:name-of-unknown-index", std::to_string(i));
      sig += "i";
      stat("unknown_lookups");
      break;
    }
    case 6: { // types
      auto it = gTypes.begin();
      std::advance(it, r.below(gTypes.size()));
      checkType(it->first, r);
      sig += "t";
      break;
    }
    case 7: { // generated types, through the names their collections state
      auto& t = *r.pick(const_cast<std::vector<TypeOps*>&>(allTypes()));
      auto c = t.newColl();
      const auto rn = cReg.getRelationNames(c->getTypeName());
      std::string rel, vec;
      if (t.isLink()) {
        rel = "from|to|";
      } else {
        rel = gTypes[t.name()].rel;
        vec = gTypes[t.name()].vec;
        check(cReg.getDatamodelName(c->getDatamodelRegistryIndex()) == t.package(), "registry:model-of-collection", t.name());
        checkNum(c->getSchemaVersion(), t.schemaVersion(), "registry:schema-version-of-collection", t.name());
      }
      checkEq(listS(rn.relations), rel, "registry:relations-of-collection", std::string(c->getTypeName()));
      checkEq(listS(rn.vectorMembers), vec, "registry:vector-members-of-collection", std::string(c->getTypeName()));
      auto& u = *r.pick(const_cast<std::vector<UDOps*>&>(allUD()));
      const auto un = cReg.getRelationNames(u.typeName());
      check(un.relations.empty() && un.vectorMembers.empty(), "registry:relations-of-user-data", u.typeName());
      sig += "g";
      break;
    }
    default: { // types nobody has
      const std::string t = r.chance(0.3) ? "Collection" : r.chance(0.3) ? "" : "Unknown" + std::to_string(r.next()) + (r.chance(0.5) ? "Collection" : "");
      const auto rn = cReg.getRelationNames(t);
      check(rn.relations.empty() && rn.vectorMembers.empty(), "registry:relations-of-unknown-type", t);
      sig += "x";
    }
    }
  }
}

void ioHistory(Rng& r, std::string& sig) {
  podio::DatamodelDefinitionCollector coll;
  std::map<std::string, std::string> want;
  auto compare = [&] {
    const auto got = coll.getDatamodelDefinitionsToWrite();
    std::map<std::string, std::string> g;
    for (auto& [n, d] : got) {
      check(g.emplace(n, d).second, "collector:model-twice", n);
      check(want.count(n), "collector:model-not-written", n);
    }
    for (auto& [n, d] : want) {
      if (check(g.count(n), "collector:model-missing", n)) {
        checkEq(g[n], d, "collector:definition", n);
      }
    }
    return got;
  };
  const size_t steps = r.below(25);
  for (size_t s = 0; s < steps; ++s) {
    const auto cname = "c" + std::to_string(r.below(10));
    switch (r.below(5)) {
    case 0:
    case 1: {
      auto& t = *r.pick(const_cast<std::vector<TypeOps*>&>(allTypes()));
      auto c = t.newColl();
      if (r.chance(0.3)) {
        c->setSubsetCollection();
      }
      coll.registerDatamodelDefinition(c.get(), cname);
      note("collect " + t.name());
      if (!t.isLink()) {
        want[t.package()] = findModel(t.package())->def;
      }
      sig += t.isLink() ? "L" : "T";
      break;
    }
    case 2: {
      std::vector<std::string> vals;
      auto c = r.pick(const_cast<std::vector<UDOps*>&>(allUD()))->make(r, 2, vals);
      coll.registerDatamodelDefinition(c.get(), cname);
      sig += "U";
      break;
    }
    case 3: {
      auto& m = r.pick(gModels);
      FakeColl c(m.index);
      coll.registerDatamodelDefinition(&c, cname);
      note("collect fake of " + m.name);
      want[m.name] = m.def;
      sig += "F";
      break;
    }
    default: {
      FakeColl c(DatamodelRegistry::NoDefinitionAvailable);
      coll.registerDatamodelDefinition(&c, cname);
      sig += "N";
    }
    }
    if (r.chance(0.2)) {
      compare();
    }
  }
  auto defs = compare();
  const auto original = defs;
  // reading: what was written is given back
  podio::DatamodelDefinitionHolder::VersionList versions;
  std::map<std::string, Version> wantV;
  for (auto& [n, d] : defs) {
    if (r.chance(0.6)) {
      const auto v = randVersion(r);
      versions.emplace_back(n, v);
      wantV[n] = v;
    }
  }
  if (r.chance(0.3)) {
    const auto v = randVersion(r);
    versions.emplace_back("onlyversion", v);
    wantV["onlyversion"] = v;
  }
  podio::DatamodelDefinitionHolder holder(std::move(defs), std::move(versions));
  if (r.chance(0.5)) {
    podio::DatamodelDefinitionHolder other;
    check(other.getAvailableDatamodels().empty(), "holder:empty");
    checkEq(std::string(other.getDatamodelDefinition("vm")), "{}", "holder:empty");
    other = std::move(holder);
    podio::DatamodelDefinitionHolder third(std::move(other));
    holder = std::move(third);
    sig += "m";
  }
  std::vector<std::string> names;
  for (auto& [n, d] : original) {
    names.push_back(n);
    checkEq(std::string(holder.getDatamodelDefinition(n)), d, "holder:definition", n);
  }
  auto gotNames = holder.getAvailableDatamodels();
  std::sort(names.begin(), names.end());
  std::sort(gotNames.begin(), gotNames.end());
  check(names == gotNames, "holder:names");
  for (auto& m : gModels) {
    const auto v = holder.getDatamodelVersion(m.name);
    std::optional<Version> w;
    if (wantV.count(m.name)) {
      w = wantV[m.name];
    }
    check(sameV(v, w), "holder:version", m.name + " got " + vS(v) + " expected " + vS(w));
    if (!want.count(m.name)) {
      checkEq(std::string(holder.getDatamodelDefinition(m.name)), "{}", "holder:definition-of-other-model", m.name);
    }
  }
  const auto v = holder.getDatamodelVersion("onlyversion");
  check(v.has_value() == (wantV.count("onlyversion") > 0), "holder:version", "onlyversion");
  checkEq(std::string(holder.getDatamodelDefinition("no such model")), "{}", "holder:unknown-model");
}

void run() {
  init();
  if (opts.extra.count("out")) {
    nlohmann::json j;
    for (auto n : {"vm", "vx"}) {
      j[n]["definition"] = std::string(cReg.getDatamodelDefinition(std::string_view(n)));
      j[n]["version"] = vS(cReg.getDatamodelVersion(n));
    }
    std::ofstream(opts.extra["out"]) << j.dump();
    return;
  }
  for (uint64_t i = opts.from; i < opts.to; ++i) {
    setCase(i);
    Rng r(mix(opts.seed, i + 0xC18));
    std::string sig;
    if (r.chance(0.6)) {
      registryHistory(r, sig);
      stat("registry_histories");
    } else {
      ioHistory(r, sig);
      stat("io_histories");
    }
    // nothing that happened may have changed any other model or type
    for (auto& m : gModels) {
      checkModel(m);
    }
    auto it = gTypes.begin();
    for (; it != gTypes.end(); ++it) {
      if (r.chance(20.0 / double(gTypes.size() + 1))) {
        checkType(it->first, r);
      }
    }
    stat("histories");
    statMax("models_registered", gModels.size());
    statMax("types_registered", gTypes.size());
    distinct("nontrivial", hashStr(sig));
    if (i < 2) {
      sample("steps " + sig + ", models " + std::to_string(gModels.size()));
    }
  }
}
} // namespace
int main(int argc, char** argv) { return mainImpl(argc, argv, run); }
