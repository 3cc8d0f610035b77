// Reference model of objects, collections and Frames; random event generator;
// in-memory storage backend.
#pragma once
#include "vf_murmur.h"
#include "vf_ops.h"
#include "podio/CollectionIDTable.h"
#include "podio/GenericParameters.h"

namespace vf {
struct MColl;
struct MObj {
  int type = -1;
  uint64_t uid = 0;
  std::vector<std::string> mem;
  std::vector<std::vector<std::string>> vec;
  std::vector<MObj*> one;
  std::vector<std::vector<MObj*>> many;
  MColl* coll = nullptr; // owning collection
  int idx = -1;
  bool alive = true;
  HP h; // a mutable handle, used while building
};
struct MColl {
  std::string name;
  int type = -1; // -1: user data
  UDOps* ud = nullptr;
  std::vector<std::string> udvals;
  bool subset = false;
  std::vector<MObj*> elems;
  uint32_t id = uint32_t(-1);
};
MObj newModel(int type);
template <class T>
using PMap = std::map<std::string, std::vector<T>>;
struct MParams {
  PMap<int> i;
  PMap<float> f;
  PMap<double> d;
  PMap<std::string> s;
};
struct MEvent {
  std::vector<std::unique_ptr<MObj>> objs;
  std::vector<std::unique_ptr<MColl>> colls;
  MParams params;
  MColl* find(const std::string& n) const {
    for (auto& c : colls) {
      if (c->name == n) {
        return c.get();
      }
    }
    return nullptr;
  }
  std::string summary() const;
};
void randomMembers(Rng& r, MObj& m, const HandleBase& h); // h mutable handle to the object
void randomVecs(Rng& r, MObj& m, const HandleBase& h, size_t maxN);
struct Column {
  std::string name;
  int type = 0;
  bool subset = false;
  UDOps* ud = nullptr; // user data
};
struct GenOpts {
  int minColls = 1, maxColls = 9;
  bool subsets = true, userData = true, params = true, relations = true;
  double bigChance = 0.03; // chance of a collection with many elements
  size_t bigSize = 300;
  double hugeChance = 0; // chance of one part that needs more than 64 kB
  std::vector<int> onlyTypes; // empty: all
  std::vector<Column> layout; // if not empty: exactly these collections
};
// builds a random event: collections (in the order of ev.colls) and their model
void genEvent(Rng& r, const GenOpts& o, MEvent& ev, std::vector<std::unique_ptr<podio::CollectionBase>>& out);
void genParams(Rng& r, MParams& p, int n);
void putParams(const MParams& p, podio::Frame& f, Rng& r);
void compareParams(const MParams& p, const podio::GenericParameters& gp, const std::string& ctx);

// context for comparing shown content with the model
struct CmpCtx {
  std::string where;
  // is the collection of this object available to be resolved
  std::function<bool(const MObj&)> available = [](const MObj&) { return true; };
  // expected ID of an object
  std::function<podio::ObjectID(const MObj&)> idOf;
  // handle to the object from its own collection; may return null
  std::function<HP(const MObj&)> handleOf;
  Rng* r = nullptr;
  bool deepTargets = true;
};
void compareObject(const HandleBase& h, const MObj& m, const CmpCtx& c);
void compareRef(const Ref& r, const MObj* want, const CmpCtx& c, const std::string& what);
// full comparison of a collection with its model
void compareColl(const podio::CollectionBase& coll, const MColl& m, const CmpCtx& c);

// ---- storage -----------------------------------------------------------
struct StoredFrame {
  std::vector<StoredColl> colls;
  std::vector<uint32_t> ids;
  std::vector<std::string> names;
  std::shared_ptr<podio::GenericParameters> params;
};
StoredColl storeColl(podio::CollectionBase& c);
StoredFrame writeFrame(const podio::Frame& f, const std::vector<std::string>& names);
std::optional<podio::CollectionReadBuffers> makeBuffers(const StoredColl& s);

struct MemFrameData {
  std::map<std::string, StoredColl> colls;
  podio::CollectionIDTable table;
  std::unique_ptr<podio::GenericParameters> params;
  std::function<void(const std::string&)> onRead; // hook: delays, observation
  std::map<std::string, podio::SchemaVersionT> claim; // version the buffers of a collection are marked with
  MemFrameData() = default;
  MemFrameData(const StoredFrame& s, const std::set<std::string>* keep = nullptr);
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name);
  podio::CollectionIDTable getIDTable() const { return {table.ids(), table.names()}; }
  std::unique_ptr<podio::GenericParameters> getParameters() { return std::move(params); }
  std::vector<std::string> getAvailableCollections() const;
};
podio::Frame readFrame(const StoredFrame& s, const std::set<std::string>* keep = nullptr);
std::vector<std::string> shuffled(std::vector<std::string> v, Rng& r);
// compare everything a frame shows with the model; missing: names of the event not available
void compareFrame(const podio::Frame& f, const MEvent& ev, Rng& r, const std::string& where, const std::set<std::string>* keep = nullptr,
                  bool checkParams = true);
} // namespace vf
