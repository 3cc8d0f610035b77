// Type erased view of every generated datatype and link type. Drivers only use
// this; the adapters are produced by vf/model.py from the datamodel yaml.
#pragma once
#include "podio/CollectionBase.h"
#include "podio/CollectionBuffers.h"
#include "podio/Frame.h"
#include "podio/ObjectID.h"
#include "vf_base.h"
#include <any>

namespace vf {
template <class T>
struct Tgt; // relation targets: datatypes and interfaces
template <class T>
struct TypeIdx;

struct HandleBase {
  int type;
  bool mut;
  HandleBase(int t, bool m) : type(t), mut(m) {}
  virtual ~HandleBase() = default;
};
using HP = std::shared_ptr<HandleBase>;
template <class H>
struct HandleT : HandleBase {
  H h;
  HandleT(const H& x, int t, bool m) : HandleBase(t, m), h(x) {}
};
template <class H>
HP wrap(const H& h, int type, bool mut) {
  return std::make_shared<HandleT<H>>(h, type, mut);
}
template <class H>
H& as(const HandleBase& b) {
  return const_cast<HandleT<H>&>(static_cast<const HandleT<H>&>(b)).h;
}

// what a relation shows
struct Ref {
  bool avail = false;
  podio::ObjectID id{};
  int type = -1;
  HP h; // const handle to the target (as the relation shows it)
};
struct StoredColl {
  std::string name, type;
  uint32_t id = 0;
  bool subset = false;
  podio::SchemaVersionT version = 0;
  std::any data;
  std::vector<std::vector<podio::ObjectID>> refs;
  std::vector<std::any> vecs;
};

enum class Access { Index, At, Iter, ConstIter, Range };

struct TypeOps {
  int index;
  explicit TypeOps(int i) : index(i) {}
  virtual ~TypeOps() = default;
  virtual std::string name() const = 0;
  virtual std::string collName() const = 0;
  virtual std::string dataName() const = 0;
  virtual std::string package() const = 0; // empty for links
  virtual unsigned schemaVersion() const = 0;
  virtual bool isLink() const = 0;
  virtual int nMem() const = 0;
  virtual int nVec() const = 0;
  virtual int nOne() const = 0;
  virtual int nMany() const = 0;
  virtual std::string memName(int) const = 0;
  virtual std::string vecName(int) const = 0;
  virtual std::string vecTypeName(int) const = 0;
  virtual std::string oneName(int) const = 0;
  virtual std::string manyName(int) const = 0;
  virtual std::vector<int> oneTypes(int) const = 0;
  virtual std::vector<int> manyTypes(int) const = 0;
  virtual bool oneIface(int) const = 0;
  virtual bool manyIface(int) const = 0;
  virtual std::vector<std::string> defaults() const = 0;
  // -- handles
  virtual HP make() const = 0;
  virtual HP makeArgs(Rng&, std::vector<std::string>& mem) const = 0;
  virtual bool hasArgs() const = 0;
  virtual HP makeEmpty() const = 0;
  virtual HP copy(const HandleBase&) const = 0;
  virtual HP toConst(const HandleBase&) const = 0;
  virtual HP moveFrom(HandleBase&) const = 0;
  virtual HP clone(const HandleBase&, bool rel) const = 0;
  virtual HP cloneDefault(const HandleBase&) const = 0;
  virtual void assign(HandleBase& dst, const HandleBase& src) const = 0; // same constness, or const = mutable
  virtual void swap(HandleBase&, HandleBase&) const = 0;
  virtual void unlink(HandleBase&) const = 0;
  virtual bool available(const HandleBase&) const = 0;
  virtual podio::ObjectID id(const HandleBase&) const = 0;
  virtual podio::ObjectID objectID(const HandleBase&) const = 0;
  virtual bool eq(const HandleBase&, const HandleBase&) const = 0;
  virtual bool ne(const HandleBase&, const HandleBase&) const = 0;
  virtual bool less(const HandleBase&, const HandleBase&) const = 0; // same constness
  virtual size_t hash(const HandleBase&) const = 0;
  // -- members
  virtual std::string mem(const HandleBase&, int) const = 0;
  virtual void setMem(HandleBase&, int i, Rng&, int how, std::string& out) const = 0; // how: 0 setter 1 reference
  virtual int nSub(int i) const = 0;
  virtual void setSub(HandleBase&, int i, int s, Rng&, std::string& out) const = 0;
  virtual void checkSub(const HandleBase&, int i) const = 0;
  virtual std::vector<std::string> vec(const HandleBase&, int v, Access) const = 0;
  virtual size_t vecSize(const HandleBase&, int v) const = 0;
  virtual void vecAt(const HandleBase&, int v, size_t i) const = 0; // checked accesses; throws
  virtual void vecRangeAt(const HandleBase&, int v, size_t i) const = 0;
  virtual void vecAdd(HandleBase&, int v, Rng&, std::string& out) const = 0;
  virtual Ref one(const HandleBase&, int) const = 0;
  virtual void setOne(HandleBase&, int, const HandleBase* target) const = 0;
  virtual size_t manySize(const HandleBase&, int) const = 0;
  virtual std::vector<Ref> many(const HandleBase&, int, Access) const = 0;
  virtual void manyAt(const HandleBase&, int, size_t i) const = 0; // checked access; throws
  virtual void manyRangeAt(const HandleBase&, int, size_t i) const = 0;
  virtual void addMany(HandleBase&, int, const HandleBase& target) const = 0;
  // -- collections
  virtual std::unique_ptr<podio::CollectionBase> newColl() const = 0;
  virtual bool isColl(const podio::CollectionBase*) const = 0;
  virtual std::unique_ptr<podio::CollectionBase> moveColl(podio::CollectionBase&) const = 0;
  virtual void moveAssign(podio::CollectionBase& dst, podio::CollectionBase& src) const = 0;
  virtual void swapColl(podio::CollectionBase& dst, podio::CollectionBase& src) const = 0;
  virtual std::unique_ptr<podio::CollectionBase> fromHandles(const std::vector<HP>&, bool asConst) const = 0;
  virtual HP create(podio::CollectionBase&) const = 0;
  virtual HP createArgs(podio::CollectionBase&, Rng&, std::vector<std::string>& mem) const = 0;
  virtual void push(podio::CollectionBase&, const HandleBase&) const = 0;
  virtual HP at(const podio::CollectionBase&, size_t, Access) const = 0; // Index or At on the const collection
  virtual HP atMut(podio::CollectionBase&, size_t, Access) const = 0;
  virtual std::vector<HP> elements(const podio::CollectionBase&, int how) const = 0; // 0 range-for 1 reverse 2 arrow
  virtual std::vector<HP> elementsMut(podio::CollectionBase&, int how) const = 0;
  virtual void iterLaws(podio::CollectionBase&, Rng&, int n) const = 0;
  virtual std::vector<std::string> column(const podio::CollectionBase&, int mem, std::optional<size_t> n) const = 0;
  virtual std::string jsonColl(const podio::CollectionBase&) const = 0;
  virtual std::string jsonHandle(const HandleBase&) const = 0;
  virtual std::string print(const HandleBase&) const = 0;
  virtual void printTo(const HandleBase&, std::ostream&) const = 0;
  virtual void printCollTo(const podio::CollectionBase&, std::ostream&) const = 0;
  // -- storage
  virtual StoredColl store(podio::CollectionBase&) const = 0; // calls getBuffers
  virtual void fill(podio::CollectionReadBuffers&, const StoredColl&) const = 0;
  virtual std::vector<std::string> storedMembers(const StoredColl&) const = 0; // canonical data struct content
  virtual size_t storedSize(const StoredColl&) const = 0;
  virtual std::string checkEmptyBuffers(podio::CollectionReadBuffers&, bool subset) const = 0; // "" if complete and empty
  // -- frames
  virtual const podio::CollectionBase* putTyped(podio::Frame&, podio::CollectionBase&, const std::string&) const = 0;
  virtual const podio::CollectionBase* getTyped(const podio::Frame&, const std::string&) const = 0;
  // -- links only
  virtual void linkChecks(const HandleBase&) const {}
  virtual void linkSetWeight(HandleBase&, Rng&, std::string&) const {}
};
const std::vector<TypeOps*>& allTypes();
inline TypeOps& T(int i) { return *allTypes()[size_t(i)]; }
inline TypeOps* typeByName(const std::string& n) {
  for (auto* t : allTypes()) {
    if (t->name() == n) {
      return t;
    }
  }
  return nullptr;
}
inline TypeOps& typeOf(const HandleBase& h) { return T(h.type); }
inline std::string idS(const podio::ObjectID& i) {
  return std::to_string(i.index) + ":" + std::to_string(i.collectionID);
}

// user data collections
struct UDOps {
  virtual ~UDOps() = default;
  virtual std::string typeName() const = 0;
  virtual std::string valueName() const = 0;
  virtual std::unique_ptr<podio::CollectionBase> make(Rng&, size_t n, std::vector<std::string>& vals) const = 0;
  virtual std::vector<std::string> values(const podio::CollectionBase&) const = 0;
  virtual StoredColl store(podio::CollectionBase&) const = 0;
  virtual void fill(podio::CollectionReadBuffers&, const StoredColl&) const = 0;
  virtual bool isColl(const podio::CollectionBase*) const = 0;
  virtual const podio::CollectionBase* putTyped(podio::Frame&, podio::CollectionBase&, const std::string&) const = 0;
  virtual const podio::CollectionBase* getTyped(const podio::Frame&, const std::string&) const = 0;
};
const std::vector<UDOps*>& allUD();
inline UDOps* udByType(const std::string& t) {
  for (auto* u : allUD()) {
    if (u->typeName() == t) {
      return u;
    }
  }
  return nullptr;
}
} // namespace vf
