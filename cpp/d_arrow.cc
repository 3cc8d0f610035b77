// C31: an Arrow table made from a frame holds that frame, and gives it back
#include "podio/LinkCollection.h"
#include "podio/UserDataCollection.h"
#include "podio/utilities/ArrowFrameConverter.h"
#include "podio/utilities/ArrowFrameData.h"
#include "vf_event.h"
#include "vm/ClusterCollection.h"
#include "vm/HitCollection.h"
#include <arrow/api.h>
using namespace vf;
using TableP = std::shared_ptr<arrow::Table>;

// ---- what is in a table, read without podio --------------------------------
template <class A>
static std::string num(const arrow::Array& a, int64_t i) {
  return canonS(static_cast<const A&>(a).Value(i));
}
// the canonical text of the value in row i
static std::string cell(const std::shared_ptr<arrow::Array>& a, int64_t i) {
  using arrow::Type;
  switch (a->type_id()) {
  case Type::BOOL:
    return num<arrow::BooleanArray>(*a, i);
  case Type::INT8:
    return num<arrow::Int8Array>(*a, i);
  case Type::INT16:
    return num<arrow::Int16Array>(*a, i);
  case Type::UINT16:
    return num<arrow::UInt16Array>(*a, i);
  case Type::INT32:
    return num<arrow::Int32Array>(*a, i);
  case Type::UINT32:
    return num<arrow::UInt32Array>(*a, i);
  case Type::INT64:
    return num<arrow::Int64Array>(*a, i);
  case Type::UINT64:
    return num<arrow::UInt64Array>(*a, i);
  case Type::FLOAT:
    return num<arrow::FloatArray>(*a, i);
  case Type::DOUBLE:
    return num<arrow::DoubleArray>(*a, i);
  case Type::STRING:
    return canonS(static_cast<const arrow::StringArray&>(*a).GetString(i));
  case Type::STRUCT: {
    auto& s = static_cast<const arrow::StructArray&>(*a);
    std::string o = "{";
    for (int k = 0; k < s.num_fields(); ++k) {
      o += s.type()->field(k)->name() + ":" + cell(s.field(k), i) + " ";
    }
    return o + "}";
  }
  case Type::FIXED_SIZE_LIST: {
    auto v = static_cast<const arrow::FixedSizeListArray&>(*a).value_slice(i);
    std::string o = "[";
    for (int64_t k = 0; k < v->length(); ++k) {
      o += cell(v, k) + " ";
    }
    return o + "]";
  }
  case Type::LIST: {
    auto v = static_cast<const arrow::ListArray&>(*a).value_slice(i);
    std::string o = "(";
    for (int64_t k = 0; k < v->length(); ++k) {
      o += cell(v, k) + " ";
    }
    return o + ")";
  }
  case Type::MAP: {
    auto& m = static_cast<const arrow::MapArray&>(*a);
    std::string o = "<";
    for (auto k = m.value_offset(i); k < m.value_offset(i + 1); ++k) {
      o += cell(m.keys(), k) + "=" + cell(m.items(), k) + " ";
    }
    return o + ">";
  }
  default:
    return "?";
  }
}
static std::string refCell(const MObj* m) {
  return m ? "{collectionID:" + canonS(m->coll->id) + " index:" + canonS(int32_t(m->idx)) + " }" : "";
}
// an unset relation is no valid reference
static bool unsetCell(const std::shared_ptr<arrow::Array>& a, int64_t i) {
  auto& s = static_cast<const arrow::StructArray&>(*a);
  return static_cast<const arrow::Int32Array&>(*s.field(1)).Value(i) < 0;
}
static const std::set<std::string>* gKnown = nullptr; // collections that the frame could resolve; none: all
static void checkRef(const std::shared_ptr<arrow::Array>& a, int64_t i, const MObj* m, const std::string& key, const std::string& where) {
  if (m && (!gKnown || gKnown->count(m->coll->name))) {
    checkEq(cell(a, i), refCell(m), key, where);
  } else {
    check(unsetCell(a, i), key + ":unset", where + " is " + cell(a, i));
  }
}
static void checkColumn(const std::shared_ptr<arrow::Field>& f, const arrow::ListArray& l, int64_t row, const MColl& m, bool versions) {
  auto& t = T(m.type);
  const std::string where = m.name + " of " + t.name();
  auto meta = f->metadata();
  if (!check(meta != nullptr, "table:metadata-missing", where)) {
    return;
  }
  auto val = [&](const char* k) { return meta->Contains(k) ? meta->value(meta->FindKey(k)) : std::string("<none>"); };
  checkEq(val("value_type"), std::string(t.newColl()->getValueTypeName()), "table:value-type", where);
  checkEq(val("is_subset"), m.subset ? "1" : "0", "table:subset-mark", where);
  checkEq(val("coll_id"), std::to_string(m.id), "table:collection-id", where);
  if (versions) {
    checkEq(val("schema_version"), std::to_string(t.schemaVersion()), "table:schema-version", where);
  }
  auto part = std::static_pointer_cast<arrow::StructArray>(l.value_slice(row));
  if (!checkNum(part->length(), int64_t(m.elems.size()), "table:size", where)) {
    return;
  }
  if (m.subset) {
    for (size_t i = 0; i < m.elems.size(); ++i) {
      // what a reference to a collection that the frame lacks becomes when it is written again is left open
      if (!m.elems[i] || !gKnown || gKnown->count(m.elems[i]->coll->name)) {
        checkRef(part, int64_t(i), m.elems[i], "table:subset-reference", where);
      }
    }
    return;
  }
  std::vector<std::string> want;
  for (int i = 0; i < t.nMem(); ++i) {
    want.push_back(t.isLink() ? "weight" : t.memName(i));
  }
  for (int i = 0; i < t.nVec(); ++i) {
    want.push_back(t.vecName(i));
  }
  for (int i = 0; i < t.nOne(); ++i) {
    want.push_back(t.isLink() ? i ? "to" : "from" : t.oneName(i));
  }
  for (int i = 0; i < t.nMany(); ++i) {
    want.push_back(t.manyName(i));
  }
  std::vector<std::shared_ptr<arrow::Array>> c;
  for (auto& n : want) {
    c.push_back(part->GetFieldByName(n));
    if (!check(c.back() != nullptr, "table:field-missing:" + t.name() + "." + n, where)) {
      return;
    }
  }
  checkNum(part->num_fields(), int64_t(want.size()), "table:fields", where);
  for (size_t i = 0; i < m.elems.size(); ++i) {
    auto& o = *m.elems[i];
    const auto w = where + "[" + std::to_string(i) + "]";
    size_t k = 0;
    for (int q = 0; q < t.nMem(); ++q, ++k) {
      checkEq(cell(c[k], int64_t(i)), o.mem[size_t(q)], "table:member:" + t.name() + "." + want[k], w);
    }
    for (int q = 0; q < t.nVec(); ++q, ++k) {
      std::string s = "(";
      for (auto& v : o.vec[size_t(q)]) {
        s += v + " ";
      }
      checkEq(cell(c[k], int64_t(i)), s + ")", "table:vector-member:" + t.name() + "." + want[k], w);
    }
    for (int q = 0; q < t.nOne(); ++q, ++k) {
      checkRef(c[k], int64_t(i), o.one[size_t(q)], "table:relation:" + t.name() + "." + want[k], w);
    }
    for (int q = 0; q < t.nMany(); ++q, ++k) {
      auto refs = static_cast<const arrow::ListArray&>(*c[k]).value_slice(int64_t(i));
      auto& ts = o.many[size_t(q)];
      if (checkNum(refs->length(), int64_t(ts.size()), "table:relations:" + t.name() + "." + want[k], w)) {
        for (size_t z = 0; z < ts.size(); ++z) {
          checkRef(refs, int64_t(z), ts[z], "table:relations:" + t.name() + "." + want[k], w);
        }
      }
    }
  }
}
static std::pair<std::shared_ptr<arrow::Array>, int64_t> place(const arrow::ChunkedArray& c, int64_t row) {
  for (auto& a : c.chunks()) {
    if (row < a->length()) {
      return {a, row};
    }
    row -= a->length();
  }
  internalError("row is in no chunk");
}
template <class V>
static std::string mapText(const PMap<V>& m) {
  std::string o = "<";
  for (auto& [k, v] : m) {
    o += canonS(k) + "=" + canonS(v) + " ";
  }
  return o + ">";
}
static void checkTable(const arrow::Table& t, int64_t row, const MEvent& ev, const std::vector<std::string>& names, bool params, bool versions) {
  auto want = names;
  auto got = t.ColumnNames();
  if (params) {
    want.push_back("frame_parameters");
  }
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  checkEq(canonS(got), canonS(want), "table:columns");
  for (auto& n : names) {
    auto c = t.GetColumnByName(n);
    if (!check(c != nullptr, "table:column-missing", n)) {
      continue;
    }
    auto [a, i] = place(*c, row);
    checkColumn(t.schema()->GetFieldByName(n), static_cast<const arrow::ListArray&>(*a), i, *ev.find(n), versions);
  }
  if (params && t.GetColumnByName("frame_parameters")) {
    auto [a, i] = place(*t.GetColumnByName("frame_parameters"), row);
    auto& s = static_cast<const arrow::StructArray&>(*a);
    auto& p = ev.params;
    const std::pair<const char*, std::string> w[] = {{"int_params", mapText(p.i)}, {"float_params", mapText(p.f)}, {"double_params", mapText(p.d)}, {"string_params", mapText(p.s)}};
    for (auto& [n, v] : w) {
      auto x = s.GetFieldByName(n);
      if (check(x != nullptr, std::string("table:parameters-missing:") + n)) {
        checkEq(cell(x, i), v, std::string("table:parameters:") + n);
      }
    }
  }
}

// ---- events ------------------------------------------------------------------
static bool utf8(const MParams& p) {
  bool ok = true;
  auto keys = [&](auto& m) {
    for (auto& [k, v] : m) {
      ok &= arrow::stubUtf8(k);
    }
  };
  keys(p.i);
  keys(p.f);
  keys(p.d);
  keys(p.s);
  for (auto& [k, v] : p.s) {
    for (auto& s : v) {
      ok &= arrow::stubUtf8(s);
    }
  }
  return ok;
}
static std::string fixText(std::string s) {
  if (!arrow::stubUtf8(s)) {
    for (auto& c : s) {
      c = char(c & 0x7f);
    }
  }
  return s;
}
static void makeUtf8(MParams& p) {
  auto fix = [&](auto& m) {
    std::remove_cvref_t<decltype(m)> n;
    for (auto& [k, v] : m) {
      n[fixText(k)] = v;
    }
    m = n;
  };
  fix(p.i);
  fix(p.f);
  fix(p.d);
  fix(p.s);
  for (auto& [k, v] : p.s) {
    for (auto& s : v) {
      s = fixText(s);
    }
  }
}
struct Ev {
  MEvent ev;
  podio::Frame f;
};
static std::shared_ptr<Ev> makeEv(Rng& r, const GenOpts& o, bool text = true) {
  auto e = std::make_shared<Ev>();
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  genEvent(r, o, e->ev, colls);
  if (text) {
    makeUtf8(e->ev.params);
  }
  putParams(e->ev.params, e->f, r);
  std::vector<size_t> order(colls.size());
  std::iota(order.begin(), order.end(), 0);
  for (size_t k = order.size(); k > 1; --k) {
    std::swap(order[k - 1], order[r.below(k)]);
  }
  for (size_t i : order) {
    e->f.put(std::move(colls[i]), e->ev.colls[i]->name);
  }
  for (auto& ob : e->ev.objs) {
    ob->h.reset();
  }
  for (auto& c : e->ev.colls) {
    c->id = e->f.get(c->name)->getID();
  }
  return e;
}
static std::vector<std::string> allNames(const MEvent& ev) {
  std::vector<std::string> v;
  for (auto& c : ev.colls) {
    v.push_back(c->name);
  }
  return v;
}
static std::vector<Column> randomLayout(Rng& r) {
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.userData = false;
  o.maxColls = 7;
  genEvent(r, o, ev, colls);
  std::vector<Column> l;
  for (auto& c : ev.colls) {
    l.push_back({c->name, c->type, c->subset});
  }
  return l;
}
static TableP ok(arrow::Result<TableP> r) {
  if (!r.ok()) {
    violation("table:refused-by-arrow", r.status().ToString());
    return nullptr;
  }
  return r.ValueOrDie();
}
static TableP dropMetadata(const TableP& t, const std::string& key) {
  arrow::FieldVector f;
  for (auto& x : t->schema()->fields()) {
    if (!x->metadata()) {
      f.push_back(x);
      continue;
    }
    auto m = std::make_shared<arrow::KeyValueMetadata>();
    for (int64_t i = 0; i < x->metadata()->size(); ++i) {
      if (x->metadata()->key(i) != key) {
        m->Append(x->metadata()->key(i), x->metadata()->value(i));
      }
    }
    f.push_back(x->WithMetadata(key.empty() ? nullptr : m));
  }
  return arrow::Table::Make(arrow::schema(f), t->columns(), t->num_rows());
}

static void tableCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 31, idx));
  setCase(idx, "tables");
  GenOpts o;
  o.hugeChance = 0.02;
  o.layout = randomLayout(r);
  const int rows = r.chance(0.3) ? 1 : 1 + int(r.below(5));
  std::vector<std::shared_ptr<Ev>> evs;
  for (int i = 0; i < rows; ++i) {
    evs.push_back(makeEv(r, o));
    note(evs.back()->ev.summary());
  }
  // which collections, in which order
  auto names = shuffled(allNames(evs[0]->ev), r);
  if (r.chance(0.4)) {
    names.resize(r.below(names.size() + 1));
  }
  std::set<std::string> keep(names.begin(), names.end());
  std::vector<TableP> parts;
  for (auto& e : evs) {
    const podio::Frame* src = &e->f;
    podio::Frame other;
    switch (r.below(4)) {
    case 0: // as read from somewhere else, nothing looked at yet
      other = readFrame(writeFrame(e->f, allNames(e->ev)));
      src = &other;
      break;
    case 1: // as read from a table
      other = podio::convertTableToFrame(podio::convertFrameToTable(e->f, shuffled(allNames(e->ev), r)));
      src = &other;
      break;
    default:;
    }
    TableP t;
    if (!expectOk("convert-to-table", [&] { t = podio::convertFrameToTable(*src, names); }) || !check(t != nullptr, "table:none")) {
      return;
    }
    checkNum(t->num_rows(), 1, "table:rows");
    auto st = t->ValidateFull();
    check(st.ok(), "table:invalid", st.ToString());
    checkTable(*t, 0, e->ev, names, true, true);
    compareFrame(*src, e->ev, r, "after conversion");
    parts.push_back(t);
    vf::stat("tables_made");
  }
  if (caseFailed()) {
    return;
  }
  // put together, in one piece or in several
  TableP t = parts[0];
  bool params = true, versions = true;
  std::vector<std::string> log;
  if (rows > 1) {
    t = ok(arrow::ConcatenateTables(parts));
    if (t && r.chance(0.5)) {
      log.push_back("combined");
      t = ok(t->CombineChunks());
      vf::stat("tables_combined");
    }
    if (!t) {
      return;
    }
  }
  if (rows > 2 && r.chance(0.3)) { // some of it combined
    const int64_t k = 1 + int64_t(r.below(uint64_t(rows - 1)));
    auto a = ok(t->Slice(0, k)->CombineChunks()), b = ok(t->Slice(k)->CombineChunks());
    if (!a || !b || !(t = ok(arrow::ConcatenateTables({a, b})))) {
      return;
    }
    log.push_back("in two pieces");
  }
  int64_t first = 0, n = rows;
  if (rows > 1 && r.chance(0.3)) {
    first = int64_t(r.below(uint64_t(rows)));
    n = 1 + int64_t(r.below(uint64_t(rows - first)));
    t = t->Slice(first, n);
    log.push_back("rows " + std::to_string(first) + "+" + std::to_string(n));
    vf::stat("tables_sliced");
  }
  if (r.chance(0.3)) { // other columns
    std::vector<int> sel(size_t(t->num_columns()));
    std::iota(sel.begin(), sel.end(), 0);
    for (size_t k = sel.size(); k > 1; --k) {
      std::swap(sel[k - 1], sel[r.below(k)]);
    }
    if (r.chance(0.5)) {
      sel.resize(r.below(sel.size() + 1));
    }
    t = ok(t->SelectColumns(sel));
    params = false;
    keep.clear();
    names.clear();
    for (auto& c : t->ColumnNames()) {
      if (c == "frame_parameters") {
        params = true;
      } else {
        keep.insert(c);
        names.push_back(c);
      }
    }
    log.push_back("selected columns " + std::to_string(names.size()));
  }
  if (r.chance(0.1)) {
    t = dropMetadata(t, "schema_version");
    versions = false;
    log.push_back("no versions");
  }
  for (auto& l : log) {
    note(l);
  }
  for (int round = 0; round < int(n) + 1 && !caseFailed(); ++round) {
    const int64_t i = int64_t(r.below(uint64_t(n)));
    auto& e = *evs[size_t(first + i)];
    checkTable(*t, i, e.ev, names, params, versions);
    std::optional<podio::Frame> f;
    TableP copy = t;
    if (r.chance(0.3)) {
      copy = ok(t->SelectColumns([&] {
        std::vector<int> v(size_t(t->num_columns()));
        std::iota(v.begin(), v.end(), 0);
        return v;
      }()));
    }
    note("row " + std::to_string(i));
    const bool direct = r.chance(0.3);
    if (!expectOk("convert-to-frame", [&] {
          if (direct) {
            f = podio::Frame(std::make_unique<podio::ArrowFrameData>(std::move(copy), i));
          } else {
            f = i == 0 && r.chance(0.5) ? podio::convertTableToFrame(copy) : podio::convertTableToFrame(copy, int(i));
          }
        })) {
      return;
    }
    copy.reset();
    bool fine = expectOk("read-from-table", [&] { compareFrame(*f, e.ev, r, "from a table", &keep, params); });
    if (!fine) {
      return;
    }
    if (!params) {
      compareParams({}, f->getParameters(), "no parameters");
    }
    vf::stat("frames_read");
    if (r.chance(0.3)) { // what was read can be written again
      auto again = podio::convertFrameToTable(*f, names);
      MEvent& ev = e.ev;
      if (params) {
        gKnown = &keep;
        checkTable(*again, 0, ev, names, true, true);
        gKnown = nullptr;
      }
      auto f2 = podio::convertTableToFrame(again);
      compareFrame(f2, ev, r, "from a second table", &keep, params);
      vf::stat("tables_from_tables");
    }
    std::string d;
    for (auto& l : log) {
      d += l + ";";
    }
    for (auto& c : o.layout) {
      d += std::to_string(c.type) + (c.subset ? "s" : "") + (keep.count(c.name) ? "k" : "");
    }
    distinct("nontrivial", hashStr(d));
  }
  // beyond the end
  for (int64_t bad : {int64_t(-1), n, n + 1 + int64_t(r.below(1000)), int64_t(std::numeric_limits<int>::max()), int64_t(std::numeric_limits<int>::min())}) {
    expectThrow<std::exception>("row-out-of-range", [&] { podio::convertTableToFrame(t, int(bad)); });
  }
  vf::stat("events", uint64_t(rows));
  sample(evs[0]->ev.summary());
}

// what cannot be converted is refused
static void badCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 32, idx));
  setCase(idx, "refused conversions");
  GenOpts o;
  o.userData = false;
  o.maxColls = 4;
  switch (r.below(9)) {
  case 0: { // no such collection
    auto e = makeEv(r, o);
    auto names = shuffled(allNames(e->ev), r);
    names.insert(names.begin() + long(r.below(names.size() + 1)), r.chance(0.5) ? "not in there" : "");
    note("missing collection");
    expectThrow<std::exception>("arrow-missing-collection", [&] { podio::convertFrameToTable(e->f, names); });
    compareFrame(e->f, e->ev, r, "after refusal");
    break;
  }
  case 1: { // what there is no Arrow type for
    podio::Frame f;
    if (r.chance(0.5)) {
      f.put(podio::UserDataCollection<float>(), "odd");
    } else {
      f.put(podio::LinkCollection<Cluster, Hit>(), "odd");
    }
    f.put(HitCollection(), "fine");
    note("unknown type");
    expectThrow<std::exception>("arrow-unknown-type", [&] { podio::convertFrameToTable(f, shuffled({"odd", "fine"}, r)); });
    break;
  }
  case 2: // no table
    note("no table");
    expectThrow<std::exception>("arrow-no-table", [&] { podio::convertTableToFrame(nullptr, int(r.below(3))); });
    break;
  case 3: { // a table that lacks what is needed
    auto e = makeEv(r, o);
    auto names = allNames(e->ev);
    auto t = podio::convertFrameToTable(e->f, names);
    const char* keys[] = {"coll_id", "value_type", "is_subset", ""};
    const std::string k = keys[r.below(4)];
    note("no " + k);
    expectThrow<std::exception>("arrow-no-metadata:" + k, [&] {
      auto f = podio::convertTableToFrame(dropMetadata(t, k));
      for (auto& n : names) {
        f.get(n);
      }
    });
    break;
  }
  case 4: { // relations to what is in no collection
    std::vector<const TypeOps*> ts;
    for (auto* t : allTypes()) {
      if (t->nMany()) {
        ts.push_back(t);
      }
    }
    auto& t = *r.pick(ts);
    auto c = t.newColl();
    auto h = t.create(*c);
    const int i = int(r.below(uint64_t(t.nMany())));
    const auto to = t.manyTypes(i);
    t.addMany(*h, i, *T(r.pick(to)).make());
    h.reset();
    podio::Frame f;
    f.put(std::move(c), "incomplete");
    note("incomplete " + t.name());
    expectThrow<std::exception>("arrow-incomplete", [&] { podio::convertFrameToTable(f, {"incomplete"}); });
    break;
  }
  case 5: { // the same collection twice: there cannot be two columns for it
    auto e = makeEv(r, o);
    auto names = allNames(e->ev);
    names.push_back(r.pick(names));
    note("twice");
    expectThrow<std::exception>("arrow-twice", [&] { podio::convertTableToFrame(podio::convertFrameToTable(e->f, names)); });
    break;
  }
  case 6: { // texts that Arrow does not take
    auto e = makeEv(r, o, false);
    auto names = allNames(e->ev);
    const bool fine = utf8(e->ev.params);
    note("any text");
    TableP t;
    try {
      t = podio::convertFrameToTable(e->f, names);
    } catch (const std::exception& x) {
      check(!fine, "arrow-text-refused", x.what());
    }
    if (t) {
      auto f = podio::convertTableToFrame(t);
      compareFrame(f, e->ev, r, "any text");
    }
    compareFrame(e->f, e->ev, r, "any text, before");
    break;
  }
  case 7: { // a collection that is called like the column for the parameters
    o.layout = {{"frame_parameters", T(int(r.below(allTypes().size()))).index, false}, {"other", T(int(r.below(allTypes().size()))).index, false}};
    auto e = makeEv(r, o);
    note("reserved name");
    TableP t;
    try {
      t = podio::convertFrameToTable(e->f, shuffled({"frame_parameters", "other"}, r));
    } catch (const std::exception&) {
    }
    if (t) { // refused, or it comes back
      auto f = podio::convertTableToFrame(t);
      compareFrame(f, e->ev, r, "reserved name");
    }
    break;
  }
  default: { // rows that are not there
    auto e = makeEv(r, o);
    auto t = podio::convertFrameToTable(e->f, allNames(e->ev));
    auto none = t->Slice(0, 0);
    note("empty table");
    expectThrow<std::exception>("arrow-empty-table", [&] { podio::convertTableToFrame(none); });
  }
  }
  vf::stat("refusals_tried");
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      if (opts.mode == "bad") {
        badCase(i);
      } else {
        tableCase(i);
      }
    }
    auto& c = arrow::stubCounters();
    vf::stat("arrow_values_read", c.reads);
    vf::stat("arrow_values_read_from_slices", c.sliced_reads);
    vf::stat("arrow_values_appended", c.appends);
  });
}
