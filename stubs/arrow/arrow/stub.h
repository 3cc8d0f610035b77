// Stand-in for the parts of the Apache Arrow C++ library that podio and the code
// it generates use, written from the documented interface and memory layout:
// arrays are views (offset, length) of shared data, children of a sliced struct
// are sliced with it, values() of lists are not. Every access is checked against
// the length of the array it is made on.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace arrow {
// what the monitors see
struct StubCounters {
  std::atomic<uint64_t> reads{0}, appends{0}, arrays{0}, sliced_reads{0}, tables{0};
};
inline StubCounters& stubCounters() {
  static StubCounters c;
  return c;
}
[[noreturn]] inline void stubFail(const char* what, int64_t i, int64_t n) {
  std::fprintf(stderr, "ARROW-ACCESS %s index %lld of %lld\n", what, (long long)i, (long long)n);
  std::abort();
}

enum class StatusCode : char { OK, OutOfMemory, KeyError, TypeError, Invalid, IOError, CapacityError, IndexError };
class [[nodiscard]] Status {
  StatusCode m_c{StatusCode::OK};
  std::string m_m;

public:
  Status() = default;
  Status(StatusCode c, std::string m) : m_c(c), m_m(std::move(m)) {
  }
  static Status OK() {
    return {};
  }
  template <class... A>
  static Status make(StatusCode c, A&&... a) {
    std::string s;
    auto add = [&](const auto& x) {
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x)>>) {
        s += std::to_string(x);
      } else {
        s += x;
      }
    };
    (add(a), ...);
    return {c, s};
  }
  template <class... A>
  static Status Invalid(A&&... a) {
    return make(StatusCode::Invalid, a...);
  }
  template <class... A>
  static Status KeyError(A&&... a) {
    return make(StatusCode::KeyError, a...);
  }
  template <class... A>
  static Status TypeError(A&&... a) {
    return make(StatusCode::TypeError, a...);
  }
  template <class... A>
  static Status IndexError(A&&... a) {
    return make(StatusCode::IndexError, a...);
  }
  bool ok() const {
    return m_c == StatusCode::OK;
  }
  StatusCode code() const {
    return m_c;
  }
  const std::string& message() const {
    return m_m;
  }
  bool IsInvalid() const {
    return m_c == StatusCode::Invalid;
  }
  bool IsKeyError() const {
    return m_c == StatusCode::KeyError;
  }
  std::string CodeAsString() const {
    static const char* n[] = {"OK", "Out of memory", "Key error", "Type error", "Invalid", "IOError", "Capacity error", "Index error"};
    return n[int(m_c)];
  }
  std::string ToString() const {
    return ok() ? "OK" : CodeAsString() + ": " + m_m;
  }
  void Abort() const {
    std::fprintf(stderr, "ARROW-ACCESS %s\n", ToString().c_str());
    std::abort();
  }
};
#define ARROW_RETURN_NOT_OK(x)                                                                                                             \
  do {                                                                                                                                     \
    ::arrow::Status _s = (x);                                                                                                              \
    if (!_s.ok()) {                                                                                                                        \
      return _s;                                                                                                                           \
    }                                                                                                                                      \
  } while (false)

template <class T>
class [[nodiscard]] Result {
  Status m_s;
  std::optional<T> m_v;

public:
  Result(T v) : m_v(std::move(v)) {
  }
  template <class U>
    requires(!std::is_same_v<std::decay_t<U>, T> && std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, Status>)
  Result(U&& v) : m_v(std::forward<U>(v)) {
  }
  Result(Status s) : m_s(std::move(s)) {
  }
  bool ok() const {
    return m_s.ok();
  }
  const Status& status() const {
    return m_s;
  }
  const T& ValueOrDie() const& {
    if (!ok()) {
      m_s.Abort();
    }
    return *m_v;
  }
  T& ValueOrDie() & {
    if (!ok()) {
      m_s.Abort();
    }
    return *m_v;
  }
  T ValueOrDie() && {
    if (!ok()) {
      m_s.Abort();
    }
    return std::move(*m_v);
  }
  const T& operator*() const& {
    return ValueOrDie();
  }
  T& operator*() & {
    return ValueOrDie();
  }
  T operator*() && {
    return std::move(*this).ValueOrDie();
  }
  const T* operator->() const {
    return &ValueOrDie();
  }
  T MoveValueUnsafe() {
    return std::move(*m_v);
  }
  const T& ValueUnsafe() const {
    return *m_v;
  }
  T ValueOr(T alt) && {
    return ok() ? std::move(*m_v) : std::move(alt);
  }
  template <class U>
  Status Value(U* out) && {
    if (ok()) {
      *out = std::move(*m_v);
    }
    return m_s;
  }
};
#define ARROW_CONCAT_(a, b) a##b
#define ARROW_CONCAT(a, b) ARROW_CONCAT_(a, b)
#define ARROW_ASSIGN_OR_RAISE_(tmp, lhs, e)                                                                                                \
  auto tmp = (e);                                                                                                                          \
  ARROW_RETURN_NOT_OK(tmp.status());                                                                                                       \
  lhs = std::move(tmp).ValueOrDie();
#define ARROW_ASSIGN_OR_RAISE(lhs, e) ARROW_ASSIGN_OR_RAISE_(ARROW_CONCAT(_r_, __COUNTER__), lhs, e)

class MemoryPool {};
inline MemoryPool* default_memory_pool() {
  static MemoryPool p;
  return &p;
}

// ---- types -----------------------------------------------------------------
struct Type {
  enum type { NA, BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, FLOAT, DOUBLE, STRING, LIST, STRUCT, MAP, FIXED_SIZE_LIST };
};
class KeyValueMetadata {
  std::vector<std::string> m_k, m_v;

public:
  KeyValueMetadata() = default;
  KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v) : m_k(std::move(k)), m_v(std::move(v)) {
    if (m_k.size() != m_v.size()) {
      stubFail("metadata", int64_t(m_k.size()), int64_t(m_v.size()));
    }
  }
  explicit KeyValueMetadata(const std::unordered_map<std::string, std::string>& m) {
    for (auto& [k, v] : m) {
      Append(k, v);
    }
  }
  static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) {
    return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
  }
  void Append(std::string k, std::string v) {
    m_k.push_back(std::move(k));
    m_v.push_back(std::move(v));
  }
  int64_t size() const {
    return int64_t(m_k.size());
  }
  const std::string& key(int64_t i) const {
    check(i);
    return m_k[size_t(i)];
  }
  const std::string& value(int64_t i) const {
    check(i);
    return m_v[size_t(i)];
  }
  const std::vector<std::string>& keys() const {
    return m_k;
  }
  const std::vector<std::string>& values() const {
    return m_v;
  }
  int FindKey(std::string_view k) const {
    for (size_t i = 0; i < m_k.size(); ++i) {
      if (m_k[i] == k) {
        return int(i);
      }
    }
    return -1;
  }
  bool Contains(std::string_view k) const {
    return FindKey(k) >= 0;
  }
  Result<std::string> Get(std::string_view k) const {
    const int i = FindKey(k);
    return i < 0 ? Result<std::string>(Status::KeyError(std::string(k))) : Result<std::string>(m_v[size_t(i)]);
  }
  Status Set(std::string k, std::string v) {
    const int i = FindKey(k);
    if (i < 0) {
      Append(std::move(k), std::move(v));
    } else {
      m_v[size_t(i)] = std::move(v);
    }
    return {};
  }
  std::shared_ptr<KeyValueMetadata> Copy() const {
    return std::make_shared<KeyValueMetadata>(*this);
  }
  bool Equals(const KeyValueMetadata& o) const {
    return m_k == o.m_k && m_v == o.m_v;
  }

private:
  void check(int64_t i) const {
    if (i < 0 || i >= size()) {
      stubFail("metadata", i, size());
    }
  }
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) {
  return KeyValueMetadata::Make(std::move(k), std::move(v));
}

class DataType;
class Field {
  std::string m_name;
  std::shared_ptr<DataType> m_type;
  bool m_nullable;
  std::shared_ptr<const KeyValueMetadata> m_meta;

public:
  Field(std::string n, std::shared_ptr<DataType> t, bool nullable = true, std::shared_ptr<const KeyValueMetadata> m = nullptr) :
      m_name(std::move(n)), m_type(std::move(t)), m_nullable(nullable), m_meta(std::move(m)) {
  }
  const std::string& name() const {
    return m_name;
  }
  const std::shared_ptr<DataType>& type() const {
    return m_type;
  }
  bool nullable() const {
    return m_nullable;
  }
  std::shared_ptr<const KeyValueMetadata> metadata() const {
    return m_meta;
  }
  bool HasMetadata() const {
    return m_meta && m_meta->size() > 0;
  }
  std::shared_ptr<Field> WithMetadata(std::shared_ptr<const KeyValueMetadata> m) const {
    return std::make_shared<Field>(m_name, m_type, m_nullable, std::move(m));
  }
  std::shared_ptr<Field> WithName(const std::string& n) const {
    return std::make_shared<Field>(n, m_type, m_nullable, m_meta);
  }
  inline bool Equals(const Field& o, bool meta = false) const;
  bool Equals(const std::shared_ptr<Field>& o, bool meta = false) const {
    return Equals(*o, meta);
  }
  inline std::string ToString() const;
};
using FieldVector = std::vector<std::shared_ptr<Field>>;
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable = true,
                                    std::shared_ptr<const KeyValueMetadata> m = nullptr) {
  return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(m));
}
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, std::shared_ptr<const KeyValueMetadata> m) {
  return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(m));
}

class DataType {
protected:
  Type::type m_id;
  FieldVector m_f;
  int32_t m_size;

public:
  DataType(Type::type id, FieldVector f = {}, int32_t size = 0) : m_id(id), m_f(std::move(f)), m_size(size) {
  }
  virtual ~DataType() = default;
  Type::type id() const {
    return m_id;
  }
  int num_fields() const {
    return int(m_f.size());
  }
  const FieldVector& fields() const {
    return m_f;
  }
  const std::shared_ptr<Field>& field(int i) const {
    if (i < 0 || i >= num_fields()) {
      stubFail("field", i, num_fields());
    }
    return m_f[size_t(i)];
  }
  int32_t stubSize() const {
    return m_size;
  }
  bool Equals(const DataType& o, bool meta = false) const {
    if (m_id != o.m_id || m_size != o.m_size || m_f.size() != o.m_f.size()) {
      return false;
    }
    for (size_t i = 0; i < m_f.size(); ++i) {
      // the names of the parts of lists and maps are not looked at
      const bool names = m_id == Type::STRUCT;
      if (names ? !m_f[i]->Equals(*o.m_f[i], meta) : !m_f[i]->type()->Equals(*o.m_f[i]->type(), meta)) {
        return false;
      }
    }
    return true;
  }
  bool Equals(const std::shared_ptr<DataType>& o, bool meta = false) const {
    return o && Equals(*o, meta);
  }
  std::string name() const {
    static const char* n[] = {"null", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "utf8", "list", "struct", "map", "fixed_size_list"};
    return n[int(m_id)];
  }
  std::string ToString() const {
    std::string s = name();
    if (!m_f.empty()) {
      s += "<";
      for (auto& f : m_f) {
        s += (f == m_f.front() ? "" : ", ") + f->ToString();
      }
      s += ">";
    }
    return s + (m_id == Type::FIXED_SIZE_LIST ? "[" + std::to_string(m_size) + "]" : "");
  }
};
inline bool Field::Equals(const Field& o, bool meta) const {
  if (m_name != o.m_name || m_nullable != o.m_nullable || !m_type->Equals(*o.m_type, meta)) {
    return false;
  }
  if (!meta || HasMetadata() != o.HasMetadata()) {
    return !meta;
  }
  return !HasMetadata() || m_meta->Equals(*o.m_meta);
}
inline std::string Field::ToString() const {
  return m_name + ": " + m_type->ToString() + (m_nullable ? "" : " not null");
}
using TypePtr = std::shared_ptr<DataType>;

template <Type::type ID, class C>
struct NumberType : DataType {
  using c_type = C;
  static constexpr Type::type type_id = ID;
  NumberType() : DataType(ID) {
  }
};
using BooleanType = NumberType<Type::BOOL, bool>;
using Int8Type = NumberType<Type::INT8, int8_t>;
using UInt8Type = NumberType<Type::UINT8, uint8_t>;
using Int16Type = NumberType<Type::INT16, int16_t>;
using UInt16Type = NumberType<Type::UINT16, uint16_t>;
using Int32Type = NumberType<Type::INT32, int32_t>;
using UInt32Type = NumberType<Type::UINT32, uint32_t>;
using Int64Type = NumberType<Type::INT64, int64_t>;
using UInt64Type = NumberType<Type::UINT64, uint64_t>;
using FloatType = NumberType<Type::FLOAT, float>;
using DoubleType = NumberType<Type::DOUBLE, double>;
struct StringType : DataType {
  StringType() : DataType(Type::STRING) {
  }
};
struct StructType : DataType {
  explicit StructType(FieldVector f) : DataType(Type::STRUCT, std::move(f)) {
  }
  int GetFieldIndex(const std::string& n) const { // -1 if there is none or more than one
    int k = -1;
    for (int i = 0; i < num_fields(); ++i) {
      if (m_f[size_t(i)]->name() == n) {
        if (k >= 0) {
          return -1;
        }
        k = i;
      }
    }
    return k;
  }
  std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
    const int i = GetFieldIndex(n);
    return i < 0 ? nullptr : m_f[size_t(i)];
  }
};
struct ListType : DataType {
  explicit ListType(std::shared_ptr<Field> f) : DataType(Type::LIST, {std::move(f)}) {
  }
  ListType(Type::type id, std::shared_ptr<Field> f) : DataType(id, {std::move(f)}) {
  }
  const std::shared_ptr<DataType>& value_type() const {
    return m_f[0]->type();
  }
  const std::shared_ptr<Field>& value_field() const {
    return m_f[0];
  }
};
struct MapType : ListType {
  MapType(TypePtr k, TypePtr v) :
      ListType(Type::MAP, std::make_shared<Field>("entries",
                                                  std::make_shared<StructType>(FieldVector{std::make_shared<Field>("key", k, false), std::make_shared<Field>("value", v)}), false)) {
  }
  const std::shared_ptr<DataType>& key_type() const {
    return value_type()->field(0)->type();
  }
  const std::shared_ptr<DataType>& item_type() const {
    return value_type()->field(1)->type();
  }
};
struct FixedSizeListType : DataType {
  FixedSizeListType(std::shared_ptr<Field> f, int32_t n) : DataType(Type::FIXED_SIZE_LIST, {std::move(f)}, n) {
  }
  const std::shared_ptr<DataType>& value_type() const {
    return m_f[0]->type();
  }
  int32_t list_size() const {
    return m_size;
  }
};
#define ARROW_STUB_PRIMITIVE(fn, T)                                                                                                        \
  inline std::shared_ptr<DataType> fn() {                                                                                                  \
    static const std::shared_ptr<DataType> t = std::make_shared<T>();                                                                      \
    return t;                                                                                                                              \
  }
ARROW_STUB_PRIMITIVE(boolean, BooleanType)
ARROW_STUB_PRIMITIVE(int8, Int8Type)
ARROW_STUB_PRIMITIVE(uint8, UInt8Type)
ARROW_STUB_PRIMITIVE(int16, Int16Type)
ARROW_STUB_PRIMITIVE(uint16, UInt16Type)
ARROW_STUB_PRIMITIVE(int32, Int32Type)
ARROW_STUB_PRIMITIVE(uint32, UInt32Type)
ARROW_STUB_PRIMITIVE(int64, Int64Type)
ARROW_STUB_PRIMITIVE(uint64, UInt64Type)
ARROW_STUB_PRIMITIVE(float32, FloatType)
ARROW_STUB_PRIMITIVE(float64, DoubleType)
ARROW_STUB_PRIMITIVE(utf8, StringType)
inline std::shared_ptr<DataType> struct_(FieldVector f) {
  return std::make_shared<StructType>(std::move(f));
}
inline std::shared_ptr<DataType> list(std::shared_ptr<Field> f) {
  return std::make_shared<ListType>(std::move(f));
}
inline std::shared_ptr<DataType> list(const TypePtr& t) {
  return list(field("item", t));
}
inline std::shared_ptr<DataType> fixed_size_list(std::shared_ptr<Field> f, int32_t n) {
  return std::make_shared<FixedSizeListType>(std::move(f), n);
}
inline std::shared_ptr<DataType> fixed_size_list(const TypePtr& t, int32_t n) {
  return fixed_size_list(field("item", t), n);
}
inline std::shared_ptr<DataType> map(TypePtr k, TypePtr v, bool = false) {
  return std::make_shared<MapType>(std::move(k), std::move(v));
}

class Schema {
  FieldVector m_f;
  std::shared_ptr<const KeyValueMetadata> m_meta;

public:
  explicit Schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr) : m_f(std::move(f)), m_meta(std::move(m)) {
  }
  int num_fields() const {
    return int(m_f.size());
  }
  const std::shared_ptr<Field>& field(int i) const {
    if (i < 0 || i >= num_fields()) {
      stubFail("schema", i, num_fields());
    }
    return m_f[size_t(i)];
  }
  const FieldVector& fields() const {
    return m_f;
  }
  std::vector<std::string> field_names() const {
    std::vector<std::string> v;
    for (auto& f : m_f) {
      v.push_back(f->name());
    }
    return v;
  }
  int GetFieldIndex(const std::string& n) const {
    return StructType(m_f).GetFieldIndex(n);
  }
  std::vector<int> GetAllFieldIndices(const std::string& n) const {
    std::vector<int> v;
    for (int i = 0; i < num_fields(); ++i) {
      if (m_f[size_t(i)]->name() == n) {
        v.push_back(i);
      }
    }
    return v;
  }
  FieldVector GetAllFieldsByName(const std::string& n) const {
    FieldVector v;
    for (int i : GetAllFieldIndices(n)) {
      v.push_back(m_f[size_t(i)]);
    }
    return v;
  }
  std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
    const int i = GetFieldIndex(n);
    return i < 0 ? nullptr : m_f[size_t(i)];
  }
  std::shared_ptr<const KeyValueMetadata> metadata() const {
    return m_meta;
  }
  bool HasMetadata() const {
    return m_meta && m_meta->size() > 0;
  }
  std::shared_ptr<Schema> WithMetadata(std::shared_ptr<const KeyValueMetadata> m) const {
    return std::make_shared<Schema>(m_f, std::move(m));
  }
  bool Equals(const Schema& o, bool meta = false) const {
    if (m_f.size() != o.m_f.size()) {
      return false;
    }
    for (size_t i = 0; i < m_f.size(); ++i) {
      if (!m_f[i]->Equals(*o.m_f[i], meta)) {
        return false;
      }
    }
    return true;
  }
  bool Equals(const std::shared_ptr<Schema>& o, bool meta = false) const {
    return o && Equals(*o, meta);
  }
  std::string ToString() const {
    std::string s;
    for (auto& f : m_f) {
      s += f->ToString() + "\n";
    }
    return s;
  }
};
inline std::shared_ptr<Schema> schema(FieldVector f, std::shared_ptr<const KeyValueMetadata> m = nullptr) {
  return std::make_shared<Schema>(std::move(f), std::move(m));
}

// ---- arrays ----------------------------------------------------------------
// values in buffers of exactly the size needed, for the address sanitizer
class StubBuffer {
  std::unique_ptr<char[]> m_p;
  size_t m_n{0};

public:
  StubBuffer(const void* p, size_t n) : m_p(new char[n]), m_n(n) {
    if (n) {
      __builtin_memcpy(m_p.get(), p, n);
    }
  }
  template <class T>
  const T* as() const {
    return reinterpret_cast<const T*>(m_p.get());
  }
  size_t size() const {
    return m_n;
  }
};
struct ArrayData {
  TypePtr type;
  int64_t length{0}, offset{0};
  std::shared_ptr<StubBuffer> validity; // one byte each; none: all valid
  std::shared_ptr<StubBuffer> values;   // numbers, or int32 offsets
  std::shared_ptr<StubBuffer> chars;
  std::vector<std::shared_ptr<ArrayData>> child_data;
  std::shared_ptr<ArrayData> Slice(int64_t off, int64_t len) const {
    if (off < 0 || off > length) {
      stubFail("slice", off, length);
    }
    auto d = std::make_shared<ArrayData>(*this);
    d->length = std::min(len, length - off);
    d->offset = offset + off;
    return d;
  }
};
class Array;
inline std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d);
class Array {
protected:
  std::shared_ptr<ArrayData> m_d;
  void at(int64_t i, const char* what, int64_t extra = 0) const {
    auto& c = stubCounters();
    c.reads.fetch_add(1, std::memory_order_relaxed);
    if (m_d->offset) {
      c.sliced_reads.fetch_add(1, std::memory_order_relaxed);
    }
    if (i < 0 || i >= m_d->length + extra) {
      stubFail(what, i, m_d->length);
    }
  }

public:
  explicit Array(std::shared_ptr<ArrayData> d) : m_d(std::move(d)) {
    stubCounters().arrays.fetch_add(1, std::memory_order_relaxed);
  }
  virtual ~Array() = default;
  int64_t length() const {
    return m_d->length;
  }
  int64_t offset() const {
    return m_d->offset;
  }
  const std::shared_ptr<ArrayData>& data() const {
    return m_d;
  }
  const std::shared_ptr<DataType>& type() const {
    return m_d->type;
  }
  Type::type type_id() const {
    return m_d->type->id();
  }
  int num_fields() const {
    return int(m_d->child_data.size());
  }
  bool IsNull(int64_t i) const {
    at(i, "validity");
    return m_d->validity && !m_d->validity->as<uint8_t>()[m_d->offset + i];
  }
  bool IsValid(int64_t i) const {
    return !IsNull(i);
  }
  int64_t null_count() const {
    int64_t n = 0;
    for (int64_t i = 0; i < length(); ++i) {
      n += IsNull(i);
    }
    return n;
  }
  std::shared_ptr<Array> Slice(int64_t off, int64_t len) const {
    return MakeArray(m_d->Slice(off, len));
  }
  std::shared_ptr<Array> Slice(int64_t off) const {
    return Slice(off, length());
  }
  inline Status Validate() const;
  inline Status ValidateFull() const;
};
using ArrayVector = std::vector<std::shared_ptr<Array>>;

template <class TYPE>
class NumericArray : public Array {
public:
  using TypeClass = TYPE;
  using value_type = typename TYPE::c_type;
  using Array::Array;
  const value_type* raw_values() const {
    return m_d->values->template as<value_type>() + m_d->offset;
  }
  value_type Value(int64_t i) const {
    at(i, "value");
    return raw_values()[i];
  }
  value_type GetView(int64_t i) const {
    return Value(i);
  }
  std::optional<value_type> operator[](int64_t i) const {
    return IsNull(i) ? std::nullopt : std::optional<value_type>(Value(i));
  }
};
using BooleanArray = NumericArray<BooleanType>;
using Int8Array = NumericArray<Int8Type>;
using UInt8Array = NumericArray<UInt8Type>;
using Int16Array = NumericArray<Int16Type>;
using UInt16Array = NumericArray<UInt16Type>;
using Int32Array = NumericArray<Int32Type>;
using UInt32Array = NumericArray<UInt32Type>;
using Int64Array = NumericArray<Int64Type>;
using UInt64Array = NumericArray<UInt64Type>;
using FloatArray = NumericArray<FloatType>;
using DoubleArray = NumericArray<DoubleType>;

class StringArray : public Array {
public:
  using Array::Array;
  int32_t value_offset(int64_t i) const {
    at(i, "string", 1);
    return m_d->values->as<int32_t>()[m_d->offset + i];
  }
  int32_t value_length(int64_t i) const {
    at(i, "string");
    return value_offset(i + 1) - value_offset(i);
  }
  std::string_view GetView(int64_t i) const {
    at(i, "string");
    return {m_d->chars->as<char>() + value_offset(i), size_t(value_length(i))};
  }
  std::string_view Value(int64_t i) const {
    return GetView(i);
  }
  std::string GetString(int64_t i) const {
    return std::string(GetView(i));
  }
};
class ListArray : public Array {
protected:
  std::shared_ptr<Array> m_v;

public:
  explicit ListArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)), m_v(MakeArray(m_d->child_data.at(0))) {
  }
  const std::shared_ptr<Array>& values() const { // all of them, whatever part of the lists this is
    return m_v;
  }
  const std::shared_ptr<DataType>& value_type() const {
    return m_v->type();
  }
  const int32_t* raw_value_offsets() const {
    return m_d->values->as<int32_t>() + m_d->offset;
  }
  int32_t value_offset(int64_t i) const {
    at(i, "list", 1);
    return raw_value_offsets()[i];
  }
  int32_t value_length(int64_t i) const {
    at(i, "list");
    return value_offset(i + 1) - value_offset(i);
  }
  std::shared_ptr<Array> value_slice(int64_t i) const {
    return m_v->Slice(value_offset(i), value_length(i));
  }
};
class MapArray : public ListArray {
  std::shared_ptr<Array> m_k, m_i;

public:
  explicit MapArray(std::shared_ptr<ArrayData> d) :
      ListArray(std::move(d)), m_k(MakeArray(m_d->child_data[0]->child_data.at(0))), m_i(MakeArray(m_d->child_data[0]->child_data.at(1))) {
  }
  const std::shared_ptr<Array>& keys() const {
    return m_k;
  }
  const std::shared_ptr<Array>& items() const {
    return m_i;
  }
};
class FixedSizeListArray : public Array {
  std::shared_ptr<Array> m_v;

public:
  explicit FixedSizeListArray(std::shared_ptr<ArrayData> d) : Array(std::move(d)), m_v(MakeArray(m_d->child_data.at(0))) {
  }
  const std::shared_ptr<Array>& values() const { // all of them, whatever part of the lists this is
    return m_v;
  }
  const std::shared_ptr<DataType>& value_type() const {
    return m_v->type();
  }
  int32_t list_size() const {
    return m_d->type->stubSize();
  }
  int64_t value_offset(int64_t i) const {
    at(i, "fixed list", 1);
    return (m_d->offset + i) * list_size();
  }
  int32_t value_length(int64_t = 0) const {
    return list_size();
  }
  std::shared_ptr<Array> value_slice(int64_t i) const {
    at(i, "fixed list");
    return m_v->Slice(value_offset(i), list_size());
  }
};
class StructArray : public Array {
public:
  using Array::Array;
  static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const FieldVector& fields) {
    if (children.size() != fields.size()) {
      return Status::Invalid("Mismatching number of fields and children");
    }
    if (children.empty()) {
      return Status::Invalid("Can't infer struct array length with 0 child arrays");
    }
    auto d = std::make_shared<ArrayData>();
    d->type = struct_(fields);
    d->length = children[0]->length();
    for (auto& c : children) {
      if (c->length() != d->length) {
        return Status::Invalid("Mismatching child array lengths");
      }
      d->child_data.push_back(c->data());
    }
    return std::make_shared<StructArray>(d);
  }
  static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& children, const std::vector<std::string>& names) {
    FieldVector f;
    for (size_t i = 0; i < names.size() && i < children.size(); ++i) {
      f.push_back(arrow::field(names[i], children[i]->type()));
    }
    return Make(children, f);
  }
  const StructType* struct_type() const {
    return static_cast<const StructType*>(m_d->type.get());
  }
  std::shared_ptr<Array> field(int i) const { // with the part of the values that belongs to this array
    if (i < 0 || i >= num_fields()) {
      stubFail("struct field", i, num_fields());
    }
    auto& c = m_d->child_data[size_t(i)];
    if (m_d->offset || c->length != m_d->length) {
      return MakeArray(c->Slice(m_d->offset, m_d->length));
    }
    return MakeArray(c);
  }
  ArrayVector fields() const {
    ArrayVector v;
    for (int i = 0; i < num_fields(); ++i) {
      v.push_back(field(i));
    }
    return v;
  }
  std::shared_ptr<Array> GetFieldByName(const std::string& n) const {
    const int i = struct_type()->GetFieldIndex(n);
    return i < 0 ? nullptr : field(i);
  }
};
inline std::shared_ptr<Array> MakeArray(const std::shared_ptr<ArrayData>& d) {
  switch (d->type->id()) {
  case Type::BOOL:
    return std::make_shared<BooleanArray>(d);
  case Type::INT8:
    return std::make_shared<Int8Array>(d);
  case Type::UINT8:
    return std::make_shared<UInt8Array>(d);
  case Type::INT16:
    return std::make_shared<Int16Array>(d);
  case Type::UINT16:
    return std::make_shared<UInt16Array>(d);
  case Type::INT32:
    return std::make_shared<Int32Array>(d);
  case Type::UINT32:
    return std::make_shared<UInt32Array>(d);
  case Type::INT64:
    return std::make_shared<Int64Array>(d);
  case Type::UINT64:
    return std::make_shared<UInt64Array>(d);
  case Type::FLOAT:
    return std::make_shared<FloatArray>(d);
  case Type::DOUBLE:
    return std::make_shared<DoubleArray>(d);
  case Type::STRING:
    return std::make_shared<StringArray>(d);
  case Type::LIST:
    return std::make_shared<ListArray>(d);
  case Type::MAP:
    return std::make_shared<MapArray>(d);
  case Type::FIXED_SIZE_LIST:
    return std::make_shared<FixedSizeListArray>(d);
  case Type::STRUCT:
    return std::make_shared<StructArray>(d);
  default:
    stubFail("type", int(d->type->id()), 0);
  }
}
inline bool stubUtf8(std::string_view s) {
  for (size_t i = 0; i < s.size();) {
    const auto c = uint8_t(s[i]);
    const int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + size_t(n) >= s.size()) {
      return false;
    }
    for (int k = 1; k <= n; ++k) {
      if ((uint8_t(s[i + size_t(k)]) & 0xc0) != 0x80) {
        return false;
      }
    }
    const auto d = n ? uint8_t(s[i + 1]) : 0;
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) {
      return false;
    }
    i += size_t(n) + 1;
  }
  return true;
}
inline Status stubValidate(const ArrayData& d, bool full) {
  if (d.length < 0 || d.offset < 0) {
    return Status::Invalid("Array length or offset is negative");
  }
  const auto& t = *d.type;
  auto childType = [&](size_t i) { return d.child_data[i]->type->Equals(*t.field(int(i))->type()); };
  switch (t.id()) {
  case Type::STRING:
  case Type::LIST:
  case Type::MAP: {
    if (d.values->size() < size_t(d.offset + d.length + 1) * 4) {
      return Status::Invalid("Offsets buffer is too small");
    }
    const auto* o = d.values->as<int32_t>();
    const int64_t end = t.id() == Type::STRING ? int64_t(d.chars->size()) : d.child_data.at(0)->length;
    for (int64_t i = d.offset; i <= d.offset + d.length; ++i) {
      if (o[i] < 0 || o[i] > end || (i > d.offset && o[i] < o[i - 1])) {
        return Status::Invalid("Offset invariant failure at slot ", i);
      }
      if (full && t.id() == Type::STRING && i > d.offset && !stubUtf8({d.chars->as<char>() + o[i - 1], size_t(o[i] - o[i - 1])})) {
        return Status::Invalid("Invalid UTF8 sequence at string index ", i - 1 - d.offset);
      }
    }
    break;
  }
  case Type::FIXED_SIZE_LIST:
    if (d.child_data.at(0)->length < (d.offset + d.length) * t.stubSize()) {
      return Status::Invalid("Values length (", d.child_data[0]->length, ") is less than the length (", d.length, ") multiplied by the value size (", t.stubSize(), ")");
    }
    break;
  case Type::STRUCT:
    for (size_t i = 0; i < d.child_data.size(); ++i) {
      if (d.child_data[i]->length < d.length + d.offset) {
        return Status::Invalid("Struct child array #", i, " has length smaller than expected for struct array (", d.child_data[i]->length, " < ", d.length + d.offset, ")");
      }
    }
    break;
  default:;
  }
  for (size_t i = 0; i < d.child_data.size(); ++i) {
    if (int(i) >= t.num_fields() || !childType(i)) {
      return Status::Invalid("Child array #", i, " does not match type ", t.ToString());
    }
    ARROW_RETURN_NOT_OK(stubValidate(*d.child_data[i], full));
    if (full && !t.field(int(i))->nullable()) {
      auto& c = *d.child_data[i];
      for (int64_t k = 0; c.validity && k < c.length; ++k) {
        if (!c.validity->as<uint8_t>()[c.offset + k]) {
          return Status::Invalid("Child array #", i, " invalid: contains nulls, but is not nullable");
        }
      }
    }
  }
  return {};
}
inline Status Array::Validate() const {
  return stubValidate(*m_d, false);
}
inline Status Array::ValidateFull() const {
  return stubValidate(*m_d, true);
}
// all of the arrays one after the other, in new memory
inline std::shared_ptr<ArrayData> stubConcat(const std::vector<std::shared_ptr<ArrayData>>& in) {
  auto out = std::make_shared<ArrayData>();
  out->type = in.at(0)->type;
  std::vector<uint8_t> valid;
  bool nulls = false;
  for (auto& d : in) {
    out->length += d->length;
    for (int64_t i = 0; i < d->length; ++i) {
      valid.push_back(!d->validity || d->validity->as<uint8_t>()[d->offset + i]);
      nulls |= !valid.back();
    }
  }
  if (nulls) {
    out->validity = std::make_shared<StubBuffer>(valid.data(), valid.size());
  }
  auto numbers = [&](size_t w) {
    std::string b;
    for (auto& d : in) {
      b.append(d->values->as<char>() + size_t(d->offset) * w, size_t(d->length) * w);
    }
    out->values = std::make_shared<StubBuffer>(b.data(), b.size());
  };
  switch (out->type->id()) {
  case Type::BOOL:
  case Type::INT8:
  case Type::UINT8:
    numbers(1);
    break;
  case Type::INT16:
  case Type::UINT16:
    numbers(2);
    break;
  case Type::INT32:
  case Type::UINT32:
  case Type::FLOAT:
    numbers(4);
    break;
  case Type::INT64:
  case Type::UINT64:
  case Type::DOUBLE:
    numbers(8);
    break;
  case Type::STRING:
  case Type::LIST:
  case Type::MAP: {
    std::vector<int32_t> o{0};
    std::string chars;
    std::vector<std::shared_ptr<ArrayData>> parts;
    for (auto& d : in) {
      const auto* p = d->values->as<int32_t>() + d->offset;
      const int32_t base = o.back();
      for (int64_t i = 1; i <= d->length; ++i) {
        o.push_back(base + p[i] - p[0]);
      }
      if (out->type->id() == Type::STRING) {
        chars.append(d->chars->as<char>() + p[0], size_t(p[d->length] - p[0]));
      } else {
        parts.push_back(d->child_data[0]->Slice(p[0], p[d->length] - p[0]));
      }
    }
    out->values = std::make_shared<StubBuffer>(o.data(), o.size() * 4);
    if (out->type->id() == Type::STRING) {
      out->chars = std::make_shared<StubBuffer>(chars.data(), chars.size());
    } else {
      out->child_data.push_back(stubConcat(parts));
    }
    break;
  }
  case Type::FIXED_SIZE_LIST:
  case Type::STRUCT: {
    const int64_t w = out->type->id() == Type::STRUCT ? 1 : out->type->stubSize();
    for (size_t c = 0; c < in[0]->child_data.size(); ++c) {
      std::vector<std::shared_ptr<ArrayData>> parts;
      for (auto& d : in) {
        parts.push_back(d->child_data[c]->Slice(d->offset * w, d->length * w));
      }
      out->child_data.push_back(stubConcat(parts));
    }
    break;
  }
  default:
    stubFail("concatenate", int(out->type->id()), 0);
  }
  return out;
}
inline Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& a, MemoryPool* = default_memory_pool()) {
  if (a.empty()) {
    return Status::Invalid("Must pass at least one array");
  }
  std::vector<std::shared_ptr<ArrayData>> d;
  for (auto& x : a) {
    if (!x->type()->Equals(*a[0]->type())) {
      return Status::Invalid("arrays to be concatenated must be identically typed");
    }
    d.push_back(x->data());
  }
  return MakeArray(stubConcat(d));
}

// ---- builders --------------------------------------------------------------
class ArrayBuilder {
protected:
  std::vector<uint8_t> m_valid;
  bool m_nulls{false};
  std::vector<std::shared_ptr<ArrayBuilder>> m_c;
  void slot(bool valid) {
    stubCounters().appends.fetch_add(1, std::memory_order_relaxed);
    m_valid.push_back(valid);
    m_nulls |= !valid;
  }
  virtual void finish(ArrayData& d) = 0;

public:
  virtual ~ArrayBuilder() = default;
  virtual std::shared_ptr<DataType> type() const = 0;
  int64_t length() const {
    return int64_t(m_valid.size());
  }
  int num_children() const {
    return int(m_c.size());
  }
  ArrayBuilder* child(int i) {
    return child_builder(i).get();
  }
  const std::shared_ptr<ArrayBuilder>& child_builder(int i) const {
    if (i < 0 || i >= num_children()) {
      stubFail("builder child", i, num_children());
    }
    return m_c[size_t(i)];
  }
  Status Reserve(int64_t) {
    return {};
  }
  Status Resize(int64_t) {
    return {};
  }
  virtual Status AppendNull() = 0;
  virtual Status AppendEmptyValue() = 0;
  Status AppendNulls(int64_t n) {
    for (int64_t i = 0; i < n; ++i) {
      ARROW_RETURN_NOT_OK(AppendNull());
    }
    return {};
  }
  std::shared_ptr<ArrayData> stubFinish() {
    auto d = std::make_shared<ArrayData>();
    d->type = type();
    d->length = length();
    if (m_nulls) {
      d->validity = std::make_shared<StubBuffer>(m_valid.data(), m_valid.size());
    }
    finish(*d);
    for (auto& c : m_c) {
      d->child_data.push_back(c->stubFinish());
    }
    Reset();
    return d;
  }
  virtual void Reset() {
    m_valid.clear();
    m_nulls = false;
  }
  Status Finish(std::shared_ptr<Array>* out) {
    *out = MakeArray(stubFinish());
    return {};
  }
  Result<std::shared_ptr<Array>> Finish() {
    return MakeArray(stubFinish());
  }
};
template <class TYPE>
class NumericBuilder : public ArrayBuilder {
  using C = typename TYPE::c_type;
  using Store = std::conditional_t<std::is_same_v<C, bool>, uint8_t, C>;
  std::vector<Store> m_v;
  void finish(ArrayData& d) override {
    d.values = std::make_shared<StubBuffer>(m_v.data(), m_v.size() * sizeof(C));
  }

public:
  using TypeClass = TYPE;
  using value_type = C;
  explicit NumericBuilder(MemoryPool* = default_memory_pool(), int64_t = 64) {
  }
  NumericBuilder(const std::shared_ptr<DataType>&, MemoryPool* = default_memory_pool()) {
  }
  std::shared_ptr<DataType> type() const override {
    return std::make_shared<TYPE>();
  }
  Status Append(C v) {
    UnsafeAppend(v);
    return {};
  }
  void UnsafeAppend(C v) {
    slot(true);
    m_v.push_back(v);
  }
  template <class IT>
  Status AppendValues(IT b, IT e) {
    for (; b != e; ++b) {
      ARROW_RETURN_NOT_OK(Append(*b));
    }
    return {};
  }
  Status AppendValues(const C* p, int64_t n) {
    return AppendValues(p, p + n);
  }
  Status AppendValues(const std::vector<C>& v) {
    return AppendValues(v.begin(), v.end());
  }
  Status AppendNull() override {
    slot(false);
    m_v.push_back({});
    return {};
  }
  Status AppendEmptyValue() override {
    return Append(C());
  }
  void Reset() override {
    ArrayBuilder::Reset();
    m_v.clear();
  }
};
using BooleanBuilder = NumericBuilder<BooleanType>;
using Int8Builder = NumericBuilder<Int8Type>;
using UInt8Builder = NumericBuilder<UInt8Type>;
using Int16Builder = NumericBuilder<Int16Type>;
using UInt16Builder = NumericBuilder<UInt16Type>;
using Int32Builder = NumericBuilder<Int32Type>;
using UInt32Builder = NumericBuilder<UInt32Type>;
using Int64Builder = NumericBuilder<Int64Type>;
using UInt64Builder = NumericBuilder<UInt64Type>;
using FloatBuilder = NumericBuilder<FloatType>;
using DoubleBuilder = NumericBuilder<DoubleType>;
class StringBuilder : public ArrayBuilder {
  std::vector<int32_t> m_o{0};
  std::string m_s;
  void finish(ArrayData& d) override {
    d.values = std::make_shared<StubBuffer>(m_o.data(), m_o.size() * 4);
    d.chars = std::make_shared<StubBuffer>(m_s.data(), m_s.size());
  }

public:
  explicit StringBuilder(MemoryPool* = default_memory_pool()) {
  }
  StringBuilder(const std::shared_ptr<DataType>&, MemoryPool* = default_memory_pool()) {
  }
  std::shared_ptr<DataType> type() const override {
    return utf8();
  }
  Status Append(std::string_view s) {
    slot(true);
    m_s += s;
    m_o.push_back(int32_t(m_s.size()));
    return {};
  }
  Status Append(const char* p, int32_t n) {
    return Append(std::string_view(p, size_t(n)));
  }
  Status Append(const char* p) {
    return Append(std::string_view(p));
  }
  Status AppendValues(const std::vector<std::string>& v) {
    for (auto& s : v) {
      ARROW_RETURN_NOT_OK(Append(s));
    }
    return {};
  }
  Status AppendNull() override {
    slot(false);
    m_o.push_back(int32_t(m_s.size()));
    return {};
  }
  Status AppendEmptyValue() override {
    return Append(std::string_view());
  }
  void Reset() override {
    ArrayBuilder::Reset();
    m_s.clear();
    m_o = {0};
  }
};
class ListBuilder : public ArrayBuilder {
protected:
  std::vector<int32_t> m_o;
  std::shared_ptr<DataType> m_t; // if given
  void finish(ArrayData& d) override {
    m_o.push_back(int32_t(value_builder()->length()));
    d.values = std::make_shared<StubBuffer>(m_o.data(), m_o.size() * 4);
  }

public:
  ListBuilder(MemoryPool*, const std::shared_ptr<ArrayBuilder>& v, std::shared_ptr<DataType> t = nullptr) : m_t(std::move(t)) {
    m_c.push_back(v);
  }
  std::shared_ptr<DataType> type() const override {
    return m_t ? m_t : list(m_c[0]->type());
  }
  ArrayBuilder* value_builder() const {
    return m_c[0].get();
  }
  Status Append(bool valid = true, int64_t = 0) {
    slot(valid);
    m_o.push_back(int32_t(value_builder()->length()));
    return {};
  }
  Status AppendNull() override {
    return Append(false);
  }
  Status AppendEmptyValue() override {
    return Append(true);
  }
  void Reset() override {
    ArrayBuilder::Reset();
    m_o.clear();
  }
};
class StructBuilder : public ArrayBuilder {
  std::shared_ptr<DataType> m_t;
  void finish(ArrayData&) override {
  }

public:
  StructBuilder(std::shared_ptr<DataType> t, MemoryPool*, std::vector<std::shared_ptr<ArrayBuilder>> c) : m_t(std::move(t)) {
    m_c = std::move(c);
  }
  std::shared_ptr<DataType> type() const override {
    return m_t;
  }
  ArrayBuilder* field_builder(int i) const {
    return child_builder(i).get();
  }
  int num_fields() const {
    return num_children();
  }
  Status Append(bool valid = true) {
    slot(valid);
    return {};
  }
  Status AppendNull() override {
    for (auto& c : m_c) {
      ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
    }
    return Append(false);
  }
  Status AppendEmptyValue() override {
    for (auto& c : m_c) {
      ARROW_RETURN_NOT_OK(c->AppendEmptyValue());
    }
    return Append(true);
  }
};
class FixedSizeListBuilder : public ArrayBuilder {
  int32_t m_n;
  std::shared_ptr<DataType> m_t;
  void finish(ArrayData&) override {
  }

public:
  FixedSizeListBuilder(MemoryPool*, const std::shared_ptr<ArrayBuilder>& v, int32_t n) : m_n(n) {
    m_c.push_back(v);
  }
  FixedSizeListBuilder(MemoryPool*, const std::shared_ptr<ArrayBuilder>& v, std::shared_ptr<DataType> t) : m_n(t->stubSize()), m_t(std::move(t)) {
    m_c.push_back(v);
  }
  std::shared_ptr<DataType> type() const override {
    return m_t ? m_t : fixed_size_list(m_c[0]->type(), m_n);
  }
  ArrayBuilder* value_builder() const {
    return m_c[0].get();
  }
  Status Append() {
    slot(true);
    return {};
  }
  Status AppendNull() override {
    for (int32_t i = 0; i < m_n; ++i) {
      ARROW_RETURN_NOT_OK(m_c[0]->AppendEmptyValue());
    }
    slot(false);
    return {};
  }
  Status AppendEmptyValue() override {
    for (int32_t i = 0; i < m_n; ++i) {
      ARROW_RETURN_NOT_OK(m_c[0]->AppendEmptyValue());
    }
    return Append();
  }
};
class MapBuilder : public ArrayBuilder {
  std::vector<int32_t> m_o;
  std::shared_ptr<StructBuilder> m_p;
  // the pairs are counted by the items
  void adjust() {
    const auto want = m_p->child(0)->length();
    while (m_p->length() < want) {
      (void)m_p->Append();
    }
  }
  void finish(ArrayData& d) override {
    adjust();
    m_o.push_back(int32_t(m_p->length()));
    d.values = std::make_shared<StubBuffer>(m_o.data(), m_o.size() * 4);
  }

public:
  MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v, bool = false) {
    m_p = std::make_shared<StructBuilder>(struct_({field("key", k->type(), false), field("value", v->type())}), pool, std::vector<std::shared_ptr<ArrayBuilder>>{k, v});
    m_c.push_back(m_p);
  }
  MapBuilder(MemoryPool* pool, const std::shared_ptr<ArrayBuilder>& k, const std::shared_ptr<ArrayBuilder>& v, const std::shared_ptr<DataType>&) : MapBuilder(pool, k, v) {
  }
  std::shared_ptr<DataType> type() const override {
    return map(m_p->child(0)->type(), m_p->child(1)->type());
  }
  ArrayBuilder* key_builder() const {
    return m_p->child(0);
  }
  ArrayBuilder* item_builder() const {
    return m_p->child(1);
  }
  Status Append() {
    if (m_p->child(0)->length() != m_p->child(1)->length()) {
      return Status::Invalid("keys and items builders don't have the same size in MapBuilder");
    }
    adjust();
    slot(true);
    m_o.push_back(int32_t(m_p->length()));
    return {};
  }
  Status AppendNull() override {
    adjust();
    slot(false);
    m_o.push_back(int32_t(m_p->length()));
    return {};
  }
  Status AppendEmptyValue() override {
    return Append();
  }
  void Reset() override {
    ArrayBuilder::Reset();
    m_o.clear();
  }
};
inline Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out);
inline Status stubChild(MemoryPool* pool, const TypePtr& t, std::shared_ptr<ArrayBuilder>* out) {
  std::unique_ptr<ArrayBuilder> b;
  ARROW_RETURN_NOT_OK(MakeBuilder(pool, t, &b));
  *out = std::move(b);
  return {};
}
inline Status MakeBuilder(MemoryPool* pool, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out) {
  std::vector<std::shared_ptr<ArrayBuilder>> c;
  for (auto& f : t->fields()) {
    std::shared_ptr<ArrayBuilder> b;
    ARROW_RETURN_NOT_OK(stubChild(pool, f->type(), &b));
    c.push_back(std::move(b));
  }
  switch (t->id()) {
#define ARROW_STUB_CASE(ID, B)                                                                                                             \
  case Type::ID:                                                                                                                           \
    *out = std::make_unique<B>(pool);                                                                                                      \
    break;
    ARROW_STUB_CASE(BOOL, BooleanBuilder)
    ARROW_STUB_CASE(INT8, Int8Builder)
    ARROW_STUB_CASE(UINT8, UInt8Builder)
    ARROW_STUB_CASE(INT16, Int16Builder)
    ARROW_STUB_CASE(UINT16, UInt16Builder)
    ARROW_STUB_CASE(INT32, Int32Builder)
    ARROW_STUB_CASE(UINT32, UInt32Builder)
    ARROW_STUB_CASE(INT64, Int64Builder)
    ARROW_STUB_CASE(UINT64, UInt64Builder)
    ARROW_STUB_CASE(FLOAT, FloatBuilder)
    ARROW_STUB_CASE(DOUBLE, DoubleBuilder)
    ARROW_STUB_CASE(STRING, StringBuilder)
  case Type::LIST:
    *out = std::make_unique<ListBuilder>(pool, c[0], t);
    break;
  case Type::STRUCT:
    *out = std::make_unique<StructBuilder>(t, pool, c);
    break;
  case Type::FIXED_SIZE_LIST:
    *out = std::make_unique<FixedSizeListBuilder>(pool, c[0], t);
    break;
  case Type::MAP:
    *out = std::make_unique<MapBuilder>(pool, c[0]->child_builder(0), c[0]->child_builder(1));
    break;
  default:
    return Status::TypeError("no builder for ", t->ToString());
  }
  return {};
}
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* pool = default_memory_pool()) {
  std::unique_ptr<ArrayBuilder> b;
  auto s = MakeBuilder(pool, t, &b);
  if (!s.ok()) {
    return s;
  }
  return Result<std::unique_ptr<ArrayBuilder>>(std::move(b));
}

// ---- tables ----------------------------------------------------------------
class ChunkedArray {
  ArrayVector m_c;
  TypePtr m_t;
  int64_t m_n{0};

public:
  explicit ChunkedArray(ArrayVector c, TypePtr t = nullptr) : m_c(std::move(c)), m_t(t ? t : m_c.at(0)->type()) {
    for (auto& a : m_c) {
      m_n += a->length();
    }
  }
  explicit ChunkedArray(const std::shared_ptr<Array>& a) : ChunkedArray(ArrayVector{a}) {
  }
  int64_t length() const {
    return m_n;
  }
  int num_chunks() const {
    return int(m_c.size());
  }
  const std::shared_ptr<Array>& chunk(int i) const {
    if (i < 0 || i >= num_chunks()) {
      stubFail("chunk", i, num_chunks());
    }
    return m_c[size_t(i)];
  }
  const ArrayVector& chunks() const {
    return m_c;
  }
  const std::shared_ptr<DataType>& type() const {
    return m_t;
  }
  std::shared_ptr<ChunkedArray> Slice(int64_t off, int64_t len) const {
    ArrayVector v;
    for (auto& a : m_c) {
      if (off < a->length() && len > 0) {
        v.push_back(a->Slice(off, len));
        len -= v.back()->length();
        off = 0;
      } else {
        off -= std::min(off, a->length());
      }
    }
    if (v.empty() && !m_c.empty()) {
      v.push_back(m_c[0]->Slice(0, 0));
    }
    return std::make_shared<ChunkedArray>(v, m_t);
  }
};
using ChunkedArrayVector = std::vector<std::shared_ptr<ChunkedArray>>;
class RecordBatch {
  std::shared_ptr<Schema> m_s;
  int64_t m_n;
  ArrayVector m_c;

public:
  RecordBatch(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) : m_s(std::move(s)), m_n(n), m_c(std::move(c)) {
  }
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t n, ArrayVector c) {
    return std::make_shared<RecordBatch>(std::move(s), n, std::move(c));
  }
  const std::shared_ptr<Schema>& schema() const {
    return m_s;
  }
  int64_t num_rows() const {
    return m_n;
  }
  int num_columns() const {
    return int(m_c.size());
  }
  const std::shared_ptr<Array>& column(int i) const {
    return m_c.at(size_t(i));
  }
  const ArrayVector& columns() const {
    return m_c;
  }
  const std::string& column_name(int i) const {
    return m_s->field(i)->name();
  }
  std::shared_ptr<Array> GetColumnByName(const std::string& n) const {
    const int i = m_s->GetFieldIndex(n);
    return i < 0 ? nullptr : m_c[size_t(i)];
  }
  Status valid(bool full) const {
    if (int(m_c.size()) != m_s->num_fields()) {
      return Status::Invalid("Number of columns did not match schema");
    }
    for (size_t i = 0; i < m_c.size(); ++i) {
      if (m_c[i]->length() != m_n) {
        return Status::Invalid("Number of rows in column ", i, " did not match batch: ", m_c[i]->length(), " vs ", m_n);
      }
      if (!m_s->field(int(i))->type()->Equals(*m_c[i]->type())) {
        return Status::Invalid("Column ", i, " type not match schema: ", m_c[i]->type()->ToString(), " vs ", m_s->field(int(i))->type()->ToString());
      }
      auto st = full ? m_c[i]->ValidateFull() : m_c[i]->Validate();
      if (!st.ok()) {
        return Status::Invalid("In column ", i, ": ", st.ToString());
      }
    }
    return {};
  }
  Status Validate() const {
    return valid(false);
  }
  Status ValidateFull() const {
    return valid(true);
  }
};
class Table {
  std::shared_ptr<Schema> m_s;
  ChunkedArrayVector m_c;
  int64_t m_n;

public:
  Table(std::shared_ptr<Schema> s, ChunkedArrayVector c, int64_t n) : m_s(std::move(s)), m_c(std::move(c)), m_n(n) {
    stubCounters().tables.fetch_add(1, std::memory_order_relaxed);
  }
  static std::shared_ptr<Table> Make(std::shared_ptr<Schema> s, ChunkedArrayVector c, int64_t n = -1) {
    const auto rows = n >= 0 ? n : c.empty() ? 0 : c[0]->length();
    return std::make_shared<Table>(std::move(s), std::move(c), rows);
  }
  static std::shared_ptr<Table> Make(std::shared_ptr<Schema> s, const ArrayVector& a, int64_t n = -1) {
    ChunkedArrayVector c;
    for (auto& x : a) {
      c.push_back(std::make_shared<ChunkedArray>(x));
    }
    return Make(std::move(s), std::move(c), n);
  }
  static Result<std::shared_ptr<Table>> FromRecordBatches(std::shared_ptr<Schema> s, const std::vector<std::shared_ptr<RecordBatch>>& b) {
    ChunkedArrayVector c;
    int64_t n = 0;
    for (auto& x : b) {
      if (!x->schema()->Equals(*s)) {
        return Status::Invalid("Schema at index was different");
      }
      n += x->num_rows();
    }
    for (int i = 0; i < s->num_fields(); ++i) {
      ArrayVector a;
      for (auto& x : b) {
        a.push_back(x->column(i));
      }
      c.push_back(std::make_shared<ChunkedArray>(a, s->field(i)->type()));
    }
    return std::make_shared<Table>(s, c, n);
  }
  static Result<std::shared_ptr<Table>> FromRecordBatches(const std::vector<std::shared_ptr<RecordBatch>>& b) {
    if (b.empty()) {
      return Status::Invalid("Must pass at least one record batch or an explicit Schema");
    }
    return FromRecordBatches(b[0]->schema(), b);
  }
  const std::shared_ptr<Schema>& schema() const {
    return m_s;
  }
  int64_t num_rows() const {
    return m_n;
  }
  int num_columns() const {
    return int(m_c.size());
  }
  const std::shared_ptr<ChunkedArray>& column(int i) const {
    if (i < 0 || i >= num_columns()) {
      stubFail("column", i, num_columns());
    }
    return m_c[size_t(i)];
  }
  const ChunkedArrayVector& columns() const {
    return m_c;
  }
  const std::shared_ptr<Field>& field(int i) const {
    return m_s->field(i);
  }
  FieldVector fields() const {
    return m_s->fields();
  }
  std::vector<std::string> ColumnNames() const {
    return m_s->field_names();
  }
  std::shared_ptr<ChunkedArray> GetColumnByName(const std::string& n) const {
    const int i = m_s->GetFieldIndex(n);
    return i < 0 ? nullptr : m_c[size_t(i)];
  }
  std::shared_ptr<Table> Slice(int64_t off, int64_t len) const {
    ChunkedArrayVector c;
    for (auto& x : m_c) {
      c.push_back(x->Slice(off, len));
    }
    return std::make_shared<Table>(m_s, c, std::min(len, m_n - off));
  }
  std::shared_ptr<Table> Slice(int64_t off) const {
    return Slice(off, m_n);
  }
  Result<std::shared_ptr<Table>> SelectColumns(const std::vector<int>& idx) const {
    FieldVector f;
    ChunkedArrayVector c;
    for (int i : idx) {
      f.push_back(m_s->field(i));
      c.push_back(column(i));
    }
    return std::make_shared<Table>(std::make_shared<Schema>(f, m_s->metadata()), c, m_n);
  }
  Result<std::shared_ptr<Table>> RemoveColumn(int i) const {
    std::vector<int> v;
    for (int k = 0; k < num_columns(); ++k) {
      if (k != i) {
        v.push_back(k);
      }
    }
    return SelectColumns(v);
  }
  Result<std::shared_ptr<Table>> CombineChunks(MemoryPool* = default_memory_pool()) const {
    ChunkedArrayVector c;
    for (auto& x : m_c) {
      c.push_back(x->num_chunks() < 2 ? x : std::make_shared<ChunkedArray>(Concatenate(x->chunks()).ValueOrDie()));
    }
    return std::make_shared<Table>(m_s, c, m_n);
  }
  std::shared_ptr<Table> ReplaceSchemaMetadata(const std::shared_ptr<const KeyValueMetadata>& m) const {
    return std::make_shared<Table>(m_s->WithMetadata(m), m_c, m_n);
  }
  Status valid(bool full) const {
    for (int i = 0; i < num_columns(); ++i) {
      if (m_c[size_t(i)]->length() != m_n) {
        return Status::Invalid("column ", i, " has another length than the table");
      }
      for (auto& a : m_c[size_t(i)]->chunks()) {
        if (!a->type()->Equals(*m_s->field(i)->type())) {
          return Status::Invalid("column ", i, " type does not match schema");
        }
        ARROW_RETURN_NOT_OK(full ? a->ValidateFull() : a->Validate());
      }
    }
    return {};
  }
  Status Validate() const {
    return valid(false);
  }
  Status ValidateFull() const {
    return valid(true);
  }
};
inline Result<std::shared_ptr<Table>> ConcatenateTables(const std::vector<std::shared_ptr<Table>>& t) {
  if (t.empty()) {
    return Status::Invalid("Must pass at least one table");
  }
  ChunkedArrayVector c;
  int64_t n = 0;
  for (auto& x : t) {
    if (!x->schema()->Equals(*t[0]->schema())) {
      return Status::Invalid("Schema at index was different");
    }
    n += x->num_rows();
  }
  for (int i = 0; i < t[0]->num_columns(); ++i) {
    ArrayVector a;
    for (auto& x : t) {
      for (auto& k : x->column(i)->chunks()) {
        a.push_back(k);
      }
    }
    c.push_back(std::make_shared<ChunkedArray>(a, t[0]->schema()->field(i)->type()));
  }
  return std::make_shared<Table>(t[0]->schema(), c, n);
}
} // namespace arrow
