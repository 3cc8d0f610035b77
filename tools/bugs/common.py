YAML = """schema_version: 1
options:
  getSyntax: True
  exposePODMembers: False
  includeSubfolder: False
components:
  Vec:
    Members:
      - float x
      - float y
datatypes:
  Hit:
    Description: "a hit"
    Author: "me"
    Members:
      - double energy // e
      - int layer // n
      - Vec pos // p
      - std::array<int, 3> cells // c
  Cluster:
    Description: "a cluster"
    Author: "me"
    Members:
      - double energy // e
      - int layer // n
    VectorMembers:
      - float weights // w
      - Vec corners // v
    OneToManyRelations:
      - Hit hits // the hits
      - Any others // anything
    OneToOneRelations:
      - Hit seed // the seed
      - Any best // anything
interfaces:
  Any:
    Description: "either"
    Author: "me"
    Types: [Hit, Track]
    Members:
      - double energy // e
  Two:
    Description: "either"
    Author: "me"
    Types: [Hit, Track]
    Members:
      - int layer // l
datatypes2: {}
links:
  HitCluster:
    Description: "link"
    Author: "me"
    From: Hit
    To: Cluster
  HitHit:
    Description: "link"
    Author: "me"
    From: Hit
    To: Hit
  AnyHit:
    Description: "link"
    Author: "me"
    From: Any
    To: Hit
""".replace("datatypes2: {}\n", "").replace("""  Cluster:
    Description""", """  Track:
    Description: "a track"
    Author: "me"
    Members:
      - double energy // e
      - int layer // n
  Cluster:
    Description""")

MEM = r'''#pragma once
// keeps a Frame in memory and gives it back like a reader does
#include "podio/CollectionBufferFactory.h"
#include "podio/Frame.h"
#include "podio/UserDataCollection.h"
#include "HitCollection.h"
#include "TrackCollection.h"
#include "ClusterCollection.h"
#include "HitClusterCollection.h"
#include "HitHitCollection.h"
#include "AnyHitCollection.h"
#include <functional>
#include <map>
#include <set>

struct Stored {
  std::string type, name;
  uint32_t id;
  bool subset;
  unsigned version;
  std::function<void*()> data;
  std::vector<std::vector<podio::ObjectID>> refs;
  std::vector<std::function<void*()>> vecs;
};

template <typename T>
std::function<void*()> keep(std::vector<T>* v) {
  auto c = *v;
  return [c]() -> void* { return new std::vector<T>(c); };
}

struct MemData {
  std::map<std::string, Stored> colls;
  std::set<std::string> hidden;
  podio::CollectionIDTable table;
  podio::GenericParameters params;

  podio::CollectionIDTable getIDTable() const { return {table.ids(), table.names()}; }
  std::vector<std::string> getAvailableCollections() const {
    std::vector<std::string> r;
    for (const auto& [n, _] : colls) {
      r.push_back(n);
    }
    return r;
  }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::make_unique<podio::GenericParameters>(params); }
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name) {
    auto it = colls.find(name);
    if (it == colls.end()) {
      return std::nullopt;
    }
    Stored s = it->second;
    colls.erase(it);
    auto b = podio::CollectionBufferFactory::instance().createBuffers(s.type, s.version, s.subset);
    if (!b) {
      return std::nullopt;
    }
    if (s.data && b->data) {
      if (b->deleteBuffers) {
        auto fresh = s.data();
        // swap the content in: both are vectors of trivially movable content
        std::swap(*static_cast<std::vector<char>*>(b->data), *static_cast<std::vector<char>*>(fresh));
        if (s.type.find("UserData") == std::string::npos) {
          operator delete(fresh);
        } else {
          operator delete(fresh);
        }
      }
    }
    if (b->references) {
      for (size_t i = 0; i < s.refs.size() && i < b->references->size(); ++i) {
        *(*b->references)[i] = s.refs[i];
      }
    }
    if (b->vectorMembers && !s.subset) {
      for (size_t i = 0; i < s.vecs.size(); ++i) {
        auto fresh = s.vecs[i]();
        std::swap(*static_cast<std::vector<char>*>((*b->vectorMembers)[i].second), *static_cast<std::vector<char>*>(fresh));
        operator delete(fresh);
      }
    }
    return b;
  }
};

template <typename D>
bool grab(Stored& s, podio::CollectionBase* c, std::string_view dataType) {
  if (c->getDataTypeName() != dataType) {
    return false;
  }
  auto b = c->getBuffers();
  if (!s.subset) {
    s.data = keep(b.template dataAsVector<D>());
  }
  return true;
}

inline std::unique_ptr<MemData> store(const podio::Frame& f, std::set<std::string> leaveOut = {}) {
  auto m = std::make_unique<MemData>();
  for (const auto& n : f.getAvailableCollections()) {
    auto* c = const_cast<podio::CollectionBase*>(f.getCollectionForWrite(n));
    if (leaveOut.count(n)) {
      continue;
    }
    Stored s{std::string(c->getTypeName()), n, c->getID(), c->isSubsetCollection(), c->getSchemaVersion()};
    grab<HitData>(s, c, "HitData") || grab<TrackData>(s, c, "TrackData") || grab<ClusterData>(s, c, "ClusterData") ||
        grab<podio::LinkData>(s, c, "podio::LinkData") || grab<float>(s, c, "float") || grab<double>(s, c, "double") ||
        grab<int8_t>(s, c, "int8_t") || grab<int64_t>(s, c, "int64_t") || grab<uint16_t>(s, c, "uint16_t");
    auto b = c->getBuffers();
    for (auto& r : *b.references) {
      s.refs.push_back(*r);
    }
    if (c->getDataTypeName() == "ClusterData" && !s.subset) {
      s.vecs.push_back(keep(static_cast<podio::UVecPtr<float>*>((*b.vectorMembers)[0].second)->get()));
      s.vecs.push_back(keep(static_cast<podio::UVecPtr<Vec>*>((*b.vectorMembers)[1].second)->get()));
    }
    m->colls[n] = s;
  }
  m->table = f.getCollectionIDTableForWrite();
  m->params = podio::GenericParameters(f.getParameters());
  return m;
}

inline podio::Frame again(const podio::Frame& f, std::set<std::string> leaveOut = {}) {
  return podio::Frame(store(f, std::move(leaveOut)));
}
'''
