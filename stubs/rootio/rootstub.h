// Stand-in for the parts of ROOT that podio uses to write and read files: TFile, TTree, TChain, RNTuple.
// Written from ROOT's documentation. Values are deep copied through type descriptions found by class name, like
// ROOT does with dictionaries. A file on disk only has the number under which its content is kept in memory.
// The objects of a tree (branches) are gone once a chain goes on to another tree, as in ROOT.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_set>
#include <utility>
#include <vector>

using Long64_t = long long;
using Int_t = int;
using Bool_t = bool;
using UInt_t = unsigned;

namespace rootstub {
/// Something a user of ROOT must never do. Ends the process, as it often does with ROOT.
struct Misuse : std::logic_error {
  using std::logic_error::logic_error;
};
[[noreturn]] inline void misuse(const std::string& what) {
  std::cerr << "ROOT stand-in: " << what << std::endl;
  throw Misuse("ROOT stand-in: " + what);
}

// like ROOT with EnableThreadSafety: what all files and trees share is guarded
inline std::recursive_mutex& guard() {
  static std::recursive_mutex m;
  return m;
}
using Guard = std::lock_guard<std::recursive_mutex>;

template <class T>
size_t bytesOf(const T& v);
template <class T>
size_t bytesOf(const std::vector<T>& v) {
  size_t n = 4;
  if constexpr (std::is_trivially_copyable_v<T>) {
    n += v.size() * sizeof(T);
  } else {
    for (const auto& x : v) {
      n += bytesOf(x);
    }
  }
  return n;
}
inline size_t bytesOf(const std::string& s) {
  return s.size() + 1;
}
template <class T>
size_t bytesOf(const T&) {
  return sizeof(T);
}

struct TypeInfo {
  std::string name;
  std::type_index id = typeid(void);
  std::function<std::shared_ptr<void>()> make;
  std::function<std::shared_ptr<void>(const void*)> copy;
  std::function<void(void*, const void*)> assign;
  std::function<size_t(const void*)> bytes;
};
inline std::map<std::string, std::shared_ptr<TypeInfo>>& types() {
  static std::map<std::string, std::shared_ptr<TypeInfo>> m;
  return m;
}
inline std::map<std::type_index, std::shared_ptr<TypeInfo>>& typesById() {
  static std::map<std::type_index, std::shared_ptr<TypeInfo>> m;
  return m;
}
template <class T>
std::shared_ptr<TypeInfo> typeOf() {
  const Guard g(guard());
  auto& t = typesById()[typeid(T)];
  if (!t) {
    t = std::make_shared<TypeInfo>();
    t->name = typeid(T).name();
    t->id = typeid(T);
    t->make = [] { return std::make_shared<T>(); };
    t->copy = [](const void* p) {
      if constexpr (requires(const T& x) { T(x.ids(), x.names()); }) { // the table of collections
        const auto& x = *static_cast<const T*>(p);
        return std::make_shared<T>(x.ids(), x.names());
      } else {
        return std::make_shared<T>(*static_cast<const T*>(p));
      }
    };
    t->assign = [](void* d, const void* s) {
      if constexpr (requires(const T& x) { T(x.ids(), x.names()); }) {
        const auto& x = *static_cast<const T*>(s);
        static_cast<T*>(d)->~T();
        new (d) T(x.ids(), x.names());
      } else if constexpr (std::is_copy_assignable_v<T>) {
        *static_cast<T*>(d) = *static_cast<const T*>(s);
      } else { // written once, read into an empty one
        static_cast<T*>(d)->~T();
        new (d) T(*static_cast<const T*>(s));
      }
    };
    t->bytes = [](const void* p) { return bytesOf(*static_cast<const T*>(p)); };
  }
  return t;
}
/// class names have many spellings
inline std::string normal(std::string_view n) {
  std::string out;
  for (size_t i = 0; i < n.size();) {
    if (n.substr(i, 5) == "std::") {
      i += 5;
    } else if (n.substr(i, 2) == "::" && (out.empty() || out.back() == '<' || out.back() == ',' || out.back() == ' ')) {
      i += 2;
    } else if (n[i] == ' ' && !(i && std::isalnum(static_cast<unsigned char>(n[i - 1])) && i + 1 < n.size() && std::isalnum(static_cast<unsigned char>(n[i + 1])))) {
      ++i;
    } else {
      out += n[i++];
    }
  }
  return out;
}
template <class T>
void dictionary(const std::string& name) { // T and vectors of it
  const Guard g(guard());
  types()[normal(name)] = typeOf<T>();
  types()[normal("vector<" + name + ">")] = typeOf<std::vector<T>>();
}
inline std::shared_ptr<TypeInfo> findType(std::string_view name) {
  const Guard g(guard());
  static const bool once = [] {
    dictionary<int>("int");
    dictionary<long>("long");
    dictionary<float>("float");
    dictionary<double>("double");
    dictionary<unsigned>("unsigned int");
    dictionary<unsigned>("unsigned");
    dictionary<unsigned long>("unsigned long");
    dictionary<char>("char");
    dictionary<short>("short");
    dictionary<long long>("long long");
    dictionary<unsigned long long>("unsigned long long");
    dictionary<int8_t>("int8_t");
    dictionary<int16_t>("int16_t");
    dictionary<int32_t>("int32_t");
    dictionary<int64_t>("int64_t");
    dictionary<uint8_t>("uint8_t");
    dictionary<uint16_t>("uint16_t");
    dictionary<uint32_t>("uint32_t");
    dictionary<uint64_t>("uint64_t");
    dictionary<std::string>("string");
    dictionary<std::vector<int>>("vector<int>");
    dictionary<std::vector<float>>("vector<float>");
    dictionary<std::vector<double>>("vector<double>");
    dictionary<std::vector<std::string>>("vector<string>");
    types()["vector<bool>"] = typeOf<std::vector<bool>>();
    return true;
  }();
  (void)once;
  auto it = types().find(normal(name));
  return it == types().end() ? nullptr : it->second;
}

/// one branch of a tree or one field of an ntuple, as it is in the file
struct Column {
  std::string name, className;
  std::shared_ptr<TypeInfo> type;
  std::vector<std::shared_ptr<void>> entries;
  size_t bytes() const {
    size_t n = 0;
    for (auto& e : entries) {
      n += type->bytes(e.get());
    }
    return n;
  }
};
struct Dataset {
  std::string name;
  bool tuple = false;
  size_t entries = 0;
  std::vector<std::shared_ptr<Column>> columns;
  std::shared_ptr<Column> find(std::string_view n) const {
    for (auto& c : columns) {
      if (c->name == n) {
        return c;
      }
    }
    return nullptr;
  }
};
struct Content {
  std::vector<std::shared_ptr<Dataset>> sets;
  std::shared_ptr<Dataset> find(std::string_view n) const {
    for (auto it = sets.rbegin(); it != sets.rend(); ++it) { // the newest cycle
      if ((*it)->name == n) {
        return *it;
      }
    }
    return nullptr;
  }
};
struct Disk { // what is in the files
  std::map<uint64_t, std::shared_ptr<Content>> content;
  uint64_t next = 1;
  static Disk& get() {
    static Disk d;
    return d;
  }
  static std::string text(uint64_t id) {
    return "rootstub " + std::to_string(id) + "\n";
  }
  std::shared_ptr<Content> open(const std::string& path) const {
    std::ifstream f(path);
    std::string w;
    uint64_t id = 0;
    if (!(f >> w >> id) || w != "rootstub") {
      return nullptr;
    }
    const Guard g(guard());
    auto it = content.find(id);
    return it == content.end() ? nullptr : it->second;
  }
  void forget() { // all files are gone
    content.clear();
  }
};
struct Counts {
  std::atomic<uint64_t> branches = 0, fills = 0, reads = 0, switches = 0, fields = 0, binds = 0;
  void clear() {
    for (auto* c : {&branches, &fills, &reads, &switches, &fields, &binds}) {
      *c = 0;
    }
  }
};
inline Counts counts;
} // namespace rootstub

struct TObject {
  virtual ~TObject() = default;
  virtual const char* GetName() const {
    return "";
  }
};
struct TNamed : TObject {
  std::string fName, fTitle;
  const char* GetName() const override {
    return fName.c_str();
  }
};
struct TObjArray {
  std::vector<TObject*> objs;
  TObject* FindObject(const char* n) const {
    for (auto* o : objs) {
      if (std::strcmp(o->GetName(), n) == 0) {
        return o;
      }
    }
    return nullptr;
  }
  int GetEntries() const {
    return int(objs.size());
  }
  auto begin() const {
    return objs.begin();
  }
  auto end() const {
    return objs.end();
  }
};
using TList = TObjArray;
using TCollection = TObjArray;

struct TKey : TNamed {
  std::string cls;
  const char* GetClassName() const {
    return cls.c_str();
  }
};

class TTree;
class TDirectory : public TNamed {};
class TFile : public TDirectory {
public:
  TFile() = default;
  TFile(const char* path, const char* mode = "", const char* = "", int = 1) {
    fName = path;
    std::string m;
    for (const char* c = mode; *c; ++c) {
      m += char(std::toupper(static_cast<unsigned char>(*c)));
    }
    if (m == "RECREATE") {
      const rootstub::Guard g(rootstub::guard());
      auto& d = rootstub::Disk::get();
      const auto id = d.next++;
      std::ofstream f(path, std::ios::trunc);
      f << rootstub::Disk::text(id);
      f.flush();
      m_open = m_writable = bool(f);
      if (m_open) {
        m_content = d.content[id] = std::make_shared<rootstub::Content>();
      }
    } else if (m.empty() || m == "READ") {
      m_content = rootstub::Disk::get().open(path);
      m_open = bool(m_content);
    } else {
      rootstub::misuse("mode " + m + " of a file");
    }
    if (!m_open) {
      std::cerr << "Error in <TFile::TFile>: file " << path << " cannot be opened" << std::endl;
      return;
    }
    for (auto& s : m_content->sets) {
      m_keyStore.push_back(std::make_unique<TKey>());
      m_keyStore.back()->fName = s->name;
      m_keyStore.back()->cls = s->tuple ? "ROOT::RNTuple" : "TTree";
      m_keys.objs.push_back(m_keyStore.back().get());
    }
  }
  TFile(const TFile&) = delete;
  TFile& operator=(const TFile&) = delete;
  ~TFile() override {
    Close();
  }
  static TFile* Open(const char* path, const char* mode = "") {
    auto f = std::make_unique<TFile>(path, mode);
    return f->IsOpen() ? f.release() : nullptr;
  }
  bool IsOpen() const {
    return m_open;
  }
  bool IsZombie() const {
    return !m_open;
  }
  TList* GetListOfKeys() {
    return &m_keys;
  }
  int Write(const char* = nullptr, int = 0, int = 0);
  void Close(const char* = "");
  // for trees and ntuples
  std::vector<TTree*> m_trees;
  std::shared_ptr<rootstub::Content> m_content;
  bool writable() const {
    return m_open && m_writable;
  }

private:
  bool m_open = false, m_writable = false;
  TList m_keys;
  std::vector<std::unique_ptr<TKey>> m_keyStore;
};

class TBranch : public TNamed {
public:
  TBranch(std::shared_ptr<rootstub::Column> c, bool reading) : m_col(std::move(c)), m_reading(reading) {
    fName = m_col->name;
    ++rootstub::counts.branches;
  }
  ~TBranch() override = default;
  void SetAddress(void* a) { // the address of a pointer to an object
    m_addr = static_cast<void**>(a);
    m_obj = nullptr;
  }
  int GetEntry(Long64_t e, int = 0) {
    if (!m_reading) {
      rootstub::misuse("an entry of branch " + fName + " is read while it is written");
    }
    if (e < 0 || size_t(e) >= m_col->entries.size()) {
      return 0;
    }
    ++rootstub::counts.reads;
    void* dst = m_addr ? *m_addr : nullptr;
    if (!dst) { // ROOT makes an object of its own
      m_own = m_col->type->make();
      dst = m_own.get();
      if (m_addr) {
        *m_addr = dst;
      }
    }
    m_col->type->assign(dst, m_col->entries[size_t(e)].get());
    return int(m_col->type->bytes(dst));
  }
  const char* GetClassName() const {
    return m_col->className.c_str();
  }
  Long64_t GetEntries() const {
    return Long64_t(m_col->entries.size());
  }
  Long64_t GetTotBytes(const char* = "") const {
    return Long64_t(m_col->bytes());
  }
  Long64_t GetZipBytes(const char* = "") const {
    return Long64_t(m_col->bytes() / 2 + 1);
  }
  // for TTree
  void fill() {
    void* src = m_obj ? m_obj : m_addr ? *m_addr : nullptr;
    if (!src) {
      rootstub::misuse("branch " + fName + " has no object to write");
    }
    m_col->entries.push_back(m_col->type->copy(src));
  }
  void setObject(void* o) {
    m_obj = o;
    m_addr = nullptr;
  }

private:
  std::shared_ptr<rootstub::Column> m_col;
  bool m_reading;
  void** m_addr = nullptr;
  void* m_obj = nullptr;
  std::shared_ptr<void> m_own;
};

class TTree : public TNamed {
public:
  static constexpr Long64_t kMaxEntries = 1234567890;
  TTree() = default;
  TTree(const char* name, const char* title, int = 99) : m_set(std::make_shared<rootstub::Dataset>()) {
    fName = name;
    fTitle = title;
    m_set->name = name;
  }
  explicit TTree(std::shared_ptr<rootstub::Dataset> s) : m_set(std::move(s)), m_reading(true) {
    fName = m_set->name;
    for (auto& c : m_set->columns) {
      add(c);
    }
  }
  TTree(const TTree&) = delete;
  TTree& operator=(const TTree&) = delete;
  ~TTree() override {
    SetDirectory(nullptr);
  }
  void SetDirectory(TFile* f) {
    if (m_file) {
      std::erase(m_file->m_trees, this);
    }
    m_file = f;
    if (f) {
      if (!f->writable()) {
        std::cerr << "Error in <TTree::SetDirectory>: file is not writable" << std::endl;
      }
      f->m_trees.push_back(this);
    }
  }
  template <class T>
  TBranch* Branch(const char* name, T* obj, int = 32000, int = 99) {
    static_assert(!std::is_void_v<T>);
    if constexpr (std::is_pointer_v<T>) {
      auto* b = newBranch(name, rootstub::typeOf<std::remove_pointer_t<T>>(), "");
      b->SetAddress(obj);
      return b;
    } else {
      auto* b = newBranch(name, rootstub::typeOf<std::remove_const_t<T>>(), "");
      b->setObject(const_cast<std::remove_const_t<T>*>(obj));
      return b;
    }
  }
  TBranch* Branch(const char* name, const char* cls, void* addr, int = 32000, int = 99) {
    auto t = rootstub::findType(cls);
    if (!t) {
      rootstub::misuse(std::string("there is no dictionary for ") + cls + " of branch " + name);
    }
    auto* b = newBranch(name, t, cls);
    b->SetAddress(addr);
    return b;
  }
  int Fill() {
    if (!m_file || !m_file->writable()) { // nothing is kept
      return -1;
    }
    for (auto& b : m_branches) {
      b->fill();
    }
    ++m_set->entries;
    ++rootstub::counts.fills;
    return 1;
  }
  virtual Long64_t GetEntries() {
    return Long64_t(m_set->entries);
  }
  virtual TObjArray* GetListOfBranches() {
    return &m_list;
  }
  TBranch* GetBranch(const char* n) {
    auto* l = GetListOfBranches();
    return l ? static_cast<TBranch*>(l->FindObject(n)) : nullptr;
  }
  // trees on the stack do not belong to a file
  static std::unordered_set<void*>& heap() {
    static std::unordered_set<void*> s;
    return s;
  }
  static void* operator new(size_t n) {
    const rootstub::Guard g(rootstub::guard());
    void* p = ::operator new(n);
    heap().insert(p);
    return p;
  }
  static void operator delete(void* p) {
    const rootstub::Guard g(rootstub::guard());
    heap().erase(p);
    ::operator delete(p);
  }
  std::shared_ptr<rootstub::Dataset> m_set;
  void detach() {
    m_file = nullptr;
  }

protected:
  TBranch* add(const std::shared_ptr<rootstub::Column>& c) {
    m_branches.push_back(std::make_unique<TBranch>(c, m_reading));
    m_list.objs.push_back(m_branches.back().get());
    return m_branches.back().get();
  }
  TBranch* newBranch(const char* name, const std::shared_ptr<rootstub::TypeInfo>& t, const std::string& cls) {
    auto c = std::make_shared<rootstub::Column>();
    c->name = name;
    c->type = t;
    c->className = cls;
    if (m_set->entries) {
      rootstub::misuse(std::string("branch ") + name + " added to a tree that has entries already");
    }
    m_set->columns.push_back(c);
    return add(c);
  }
  bool m_reading = false;
  TFile* m_file = nullptr;
  std::vector<std::unique_ptr<TBranch>> m_branches;
  TObjArray m_list;
};

inline int TFile::Write(const char*, int, int) {
  if (!writable()) {
    return 0;
  }
  for (auto* t : m_trees) { // what is there now
    auto s = std::make_shared<rootstub::Dataset>(*t->m_set);
    for (auto& c : s->columns) {
      c = std::make_shared<rootstub::Column>(*c);
    }
    m_content->sets.push_back(std::move(s));
  }
  return 1;
}
inline void TFile::Close(const char*) {
  if (!m_open) {
    return;
  }
  m_open = false;
  const auto trees = std::move(m_trees);
  m_trees.clear();
  for (auto* t : trees) {
    t->detach();
    const bool mine = [&] {
      const rootstub::Guard g(rootstub::guard());
      return TTree::heap().count(t) > 0;
    }();
    if (mine) {
      delete t;
    }
  }
}

class TChain : public TTree {
public:
  TChain(const char* name, const char* = "") {
    fName = name;
    m_set = std::make_shared<rootstub::Dataset>();
  }
  int Add(const char* path, Long64_t n = kMaxEntries) {
    if (n <= 0) { // look now
      auto c = rootstub::Disk::get().open(path);
      if (!c || !tree(*c)) {
        std::cerr << "Error in <TChain::AddFile>: no tree " << fName << " in " << path << std::endl;
        return 0;
      }
    }
    m_files.push_back(path);
    return 1;
  }
  Long64_t GetEntries() override {
    Long64_t n = 0;
    for (size_t i = 0; i < m_files.size(); ++i) {
      n += entriesOf(i);
    }
    if (!m_counted) { // goes through all trees and stays with the last one
      m_counted = true;
      if (n) {
        LoadTree(n - 1);
      }
    }
    return n;
  }
  int GetTreeNumber() const {
    return m_no;
  }
  Long64_t LoadTree(Long64_t e) {
    if (e < 0) {
      return -2;
    }
    for (size_t i = 0; i < m_files.size(); ++i) {
      const auto n = entriesOf(i);
      if (e < n) {
        if (m_no != int(i)) {
          ++rootstub::counts.switches;
          m_tree.reset(); // with all its branches
          m_tree = std::make_unique<TTree>(tree(*rootstub::Disk::get().open(m_files[i])));
          m_no = int(i);
        }
        return e;
      }
      e -= n;
    }
    return -2;
  }
  TObjArray* GetListOfBranches() override {
    if (!m_tree) {
      LoadTree(0);
    }
    return m_tree ? m_tree->GetListOfBranches() : &m_list;
  }

private:
  std::shared_ptr<rootstub::Dataset> tree(const rootstub::Content& c) const {
    auto s = c.find(fName);
    return s && !s->tuple ? s : nullptr;
  }
  Long64_t entriesOf(size_t i) const {
    auto c = rootstub::Disk::get().open(m_files[i]);
    auto s = c ? tree(*c) : nullptr;
    return s ? Long64_t(s->entries) : 0;
  }
  std::vector<std::string> m_files;
  std::unique_ptr<TTree> m_tree;
  int m_no = -1;
  bool m_counted = false;
};

/// makes objects by class name
struct TClass {
  std::function<void*()> make;
  static std::map<std::string, TClass>& all() {
    static std::map<std::string, TClass> m;
    return m;
  }
  static TClass* GetClass(const char* n) {
    auto it = all().find(rootstub::normal(n));
    return it == all().end() ? nullptr : &it->second;
  }
  void* New() const {
    return make();
  }
};

namespace rootstub {
template <class C>
void TClass_(const std::string& name) {
  ::TClass::all()[normal(name)] = {[]() -> void* { return new C; }};
}
} // namespace rootstub

namespace ROOT {
struct RCompressionSetting {
  struct EDefaults {
    enum { kUseGeneralPurpose = 505 };
  };
};
namespace VecOps {
  template <class T>
  using RVec = std::vector<T>;
}
class RException : public std::runtime_error {
public:
  using std::runtime_error::runtime_error;
};
struct RNTuple {};
struct RNTupleWriteOptions {
  void SetCompression(int) {
  }
};
struct RFieldBase {
  std::string name;
  std::shared_ptr<rootstub::TypeInfo> type;
  struct Result {
    std::unique_ptr<RFieldBase> f;
    std::string err;
    std::unique_ptr<RFieldBase> Unwrap() {
      if (!f) {
        throw RException(err);
      }
      return std::move(f);
    }
  };
  static Result Create(const std::string& name, const std::string& type) {
    auto t = rootstub::findType(type);
    if (!t) {
      return {nullptr, "unknown type " + type + " of field " + name};
    }
    if (name.empty() || name.find('.') != std::string::npos || name.find('/') != std::string::npos) {
      return {nullptr, "invalid name of a field: " + name};
    }
    auto f = std::make_unique<RFieldBase>();
    f->name = name;
    f->type = t;
    ++rootstub::counts.fields;
    return {std::move(f), ""};
  }
};
/// the places where the values of an entry are
class REntry {
public:
  struct Slot {
    std::string name;
    std::shared_ptr<rootstub::TypeInfo> type;
    std::shared_ptr<void> own;
    void* ptr = nullptr;
  };
  std::vector<Slot> slots;
  const void* model = nullptr;
  template <class T>
  void BindRawPtr(std::string_view name, T* p) {
    for (auto& s : slots) {
      if (s.name == name) {
        if constexpr (!std::is_void_v<T>) {
          if (s.type->id != typeid(T)) {
            throw RException("type mismatch for field " + s.name);
          }
        }
        s.own.reset();
        s.ptr = p;
        ++rootstub::counts.binds;
        return;
      }
    }
    throw RException("invalid field name: " + std::string(name));
  }
};
class RNTupleModel {
public:
  static std::unique_ptr<RNTupleModel> CreateBare() {
    auto m = std::make_unique<RNTupleModel>();
    m->bare = true;
    return m;
  }
  static std::unique_ptr<RNTupleModel> Create() {
    return std::make_unique<RNTupleModel>();
  }
  void AddField(std::unique_ptr<RFieldBase> f) {
    check(f->name);
    fields.push_back({f->name, f->type, bare ? nullptr : f->type->make()});
  }
  template <class T>
  std::shared_ptr<T> MakeField(std::string_view name) {
    check(name);
    auto v = std::make_shared<T>();
    fields.push_back({std::string(name), rootstub::typeOf<T>(), v});
    ++rootstub::counts.fields;
    return v;
  }
  void Freeze() {
    frozen = true;
  }
  std::unique_ptr<REntry> CreateBareEntry() const {
    return entry(false);
  }
  std::unique_ptr<REntry> CreateEntry() const {
    return entry(true);
  }
  struct Field {
    std::string name;
    std::shared_ptr<rootstub::TypeInfo> type;
    std::shared_ptr<void> value;
  };
  std::vector<Field> fields;
  bool bare = false, frozen = false;

private:
  void check(std::string_view name) const {
    if (frozen) {
      throw RException("the model is frozen");
    }
    for (auto& f : fields) {
      if (f.name == name) {
        throw RException("field name " + f.name + " exists already");
      }
    }
  }
  std::unique_ptr<REntry> entry(bool values) const {
    if (!frozen) {
      throw RException("the model is not frozen");
    }
    auto e = std::make_unique<REntry>();
    e->model = this;
    for (auto& f : fields) {
      e->slots.push_back({f.name, f.type, values ? f.type->make() : nullptr, nullptr});
      e->slots.back().ptr = e->slots.back().own.get();
    }
    return e;
  }
};
class RNTupleWriter {
public:
  static std::unique_ptr<RNTupleWriter> Append(std::unique_ptr<RNTupleModel> m, std::string_view name, TFile& f, const RNTupleWriteOptions& = {}) {
    auto w = std::make_unique<RNTupleWriter>();
    if (!f.writable()) {
      throw RException("the file is not writable");
    }
    m->Freeze();
    w->model = std::move(m);
    w->file = &f;
    w->set = std::make_shared<rootstub::Dataset>();
    w->set->name = name;
    w->set->tuple = true;
    for (auto& x : w->model->fields) {
      auto c = std::make_shared<rootstub::Column>();
      c->name = x.name;
      c->type = x.type;
      c->className = x.type->name;
      w->set->columns.push_back(std::move(c));
    }
    return w;
  }
  ~RNTupleWriter() { // only now everything is in the file
    if (set) {
      if (!file->writable()) {
        std::cerr << "ROOT stand-in: an ntuple outlives its file" << std::endl;
        std::abort();
      }
      file->m_content->sets.push_back(set);
    }
  }
  const RNTupleModel& GetModel() const {
    return *model;
  }
  size_t Fill(REntry& e) {
    if (e.model != model.get()) {
      throw RException("mismatch between entry and model");
    }
    std::vector<std::shared_ptr<void>> v;
    for (auto& s : e.slots) {
      if (!s.ptr) {
        rootstub::misuse("field " + s.name + " has no value to write");
      }
      v.push_back(s.type->copy(s.ptr));
    }
    return append(v);
  }
  size_t Fill() {
    std::vector<std::shared_ptr<void>> v;
    for (auto& f : model->fields) {
      v.push_back(f.type->copy(f.value.get()));
    }
    return append(v);
  }

private:
  size_t append(std::vector<std::shared_ptr<void>>& v) {
    for (size_t i = 0; i < v.size(); ++i) {
      set->columns[i]->entries.push_back(std::move(v[i]));
    }
    ++set->entries;
    ++rootstub::counts.fills;
    return 1;
  }
  std::unique_ptr<RNTupleModel> model;
  TFile* file = nullptr;
  std::shared_ptr<rootstub::Dataset> set;
};
struct RNTupleDescriptor {
  struct RCreateModelOptions {
    void SetEmulateUnknownTypes(bool) {
    }
  };
};
template <class T>
class RNTupleView {
public:
  std::shared_ptr<rootstub::Column> col;
  T value{};
  const T& operator()(uint64_t i) {
    if (i >= col->entries.size()) {
      throw RException("no such entry");
    }
    ++rootstub::counts.reads;
    value = *static_cast<const T*>(col->entries[i].get());
    return value;
  }
};
class RNTupleReader {
public:
  static std::unique_ptr<RNTupleReader> Open(std::string_view name, std::string_view path) {
    auto c = rootstub::Disk::get().open(std::string(path));
    auto s = c ? c->find(name) : nullptr;
    if (!s || !s->tuple) {
      throw RException("no ntuple " + std::string(name) + " in " + std::string(path));
    }
    auto r = std::make_unique<RNTupleReader>();
    r->set = s;
    r->model = RNTupleModel::Create();
    for (auto& x : s->columns) {
      r->model->fields.push_back({x->name, x->type, nullptr});
    }
    r->model->Freeze();
    return r;
  }
  static std::unique_ptr<RNTupleReader> Open(const RNTupleDescriptor::RCreateModelOptions&, std::string_view name, std::string_view path) {
    return Open(name, path);
  }
  uint64_t GetNEntries() const {
    return set->entries;
  }
  const RNTupleModel& GetModel() const {
    return *model;
  }
  template <class T>
  RNTupleView<T> GetView(std::string_view name) {
    auto c = set->find(name);
    if (!c) {
      throw RException("no field named " + std::string(name));
    }
    if (c->type->id != typeid(T)) {
      throw RException("type mismatch for field " + std::string(name));
    }
    return {c, {}};
  }
  void LoadEntry(uint64_t i, REntry& e) {
    if (i >= set->entries) {
      throw RException("no such entry");
    }
    if (e.model != model.get()) {
      throw RException("mismatch between entry and model");
    }
    for (auto& s : e.slots) {
      if (s.ptr) {
        ++rootstub::counts.reads;
        s.type->assign(s.ptr, set->find(s.name)->entries[i].get());
      }
    }
  }

private:
  std::shared_ptr<rootstub::Dataset> set;
  std::unique_ptr<RNTupleModel> model;
};
} // namespace ROOT

#define ROOT_VERSION(a, b, c) (((a) << 16) + ((b) << 8) + (c))
#define ROOT_VERSION_CODE ROOT_VERSION(6, 36, 0)
