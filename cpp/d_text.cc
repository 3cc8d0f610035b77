// C17: JSON and text output against the reference model
#include "nlohmann/json.hpp"
#include "podio/UserDataCollection.h"
#include "vf_event.h"
using namespace vf;
using json = nlohmann::json;

namespace {
// ---- canonical value text as a tree -----------------------------------------
struct Val {
  enum K { Int, Flt, Dbl, Bool, Arr, Obj } k = Int;
  std::string raw;
  double d = 0;
  bool neg = false;
  uint64_t u = 0;
  std::vector<Val> sub;
  std::vector<std::string> names;
};
Val parseCanon(const std::string& s, size_t& p) {
  Val v;
  const char c = s.at(p);
  if (c == '{') {
    v.k = Val::Obj;
    ++p;
    while (s.at(p) != '}') {
      const size_t q = s.find(':', p);
      v.names.push_back(s.substr(p, q - p));
      p = q + 1;
      v.sub.push_back(parseCanon(s, p));
      ++p; // space
    }
    ++p;
  } else if (c == '[') {
    v.k = Val::Arr;
    ++p;
    while (s.at(p) != ']') {
      v.sub.push_back(parseCanon(s, p));
      ++p;
    }
    ++p;
  } else {
    size_t q = p;
    while (q < s.size() && s[q] != ' ' && s[q] != '}' && s[q] != ']') {
      ++q;
    }
    v.raw = s.substr(p, q - p);
    p = q;
    if (v.raw[0] == 'f') {
      v.k = Val::Flt;
      v.d = double(std::bit_cast<float>(uint32_t(strtoul(v.raw.c_str() + 1, nullptr, 16))));
    } else if (v.raw[0] == 'd') {
      v.k = Val::Dbl;
      v.d = std::bit_cast<double>(uint64_t(strtoull(v.raw.c_str() + 1, nullptr, 16)));
    } else if (v.raw[0] == 'b') {
      v.k = Val::Bool;
      v.u = strtoull(v.raw.c_str() + 1, nullptr, 10);
    } else {
      v.neg = v.raw[0] == '-';
      v.u = v.neg ? uint64_t(strtoll(v.raw.c_str(), nullptr, 10)) : strtoull(v.raw.c_str(), nullptr, 10);
    }
  }
  return v;
}
Val canonTree(const std::string& s) {
  size_t p = 0;
  return parseCanon(s, p);
}
bool hasArray(const Val& v) {
  return v.k == Val::Arr;
}

// ---- JSON ----------------------------------------------------------------------
std::string jsonDiff(const json& j, const Val& v) {
  switch (v.k) {
  case Val::Obj: {
    if (!j.is_object() || j.size() != v.sub.size()) {
      return "not an object with the members of the component: " + j.dump();
    }
    for (size_t i = 0; i < v.sub.size(); ++i) {
      if (!j.contains(v.names[i])) {
        return "no member " + v.names[i];
      }
      auto e = jsonDiff(j[v.names[i]], v.sub[i]);
      if (!e.empty()) {
        return v.names[i] + ": " + e;
      }
    }
    return "";
  }
  case Val::Arr: {
    if (!j.is_array() || j.size() != v.sub.size()) {
      return "not an array of " + std::to_string(v.sub.size()) + ": " + j.dump();
    }
    for (size_t i = 0; i < v.sub.size(); ++i) {
      auto e = jsonDiff(j[i], v.sub[i]);
      if (!e.empty()) {
        return "[" + std::to_string(i) + "]: " + e;
      }
    }
    return "";
  }
  case Val::Bool:
    return (j.is_boolean() && j.get<bool>() == (v.u != 0)) ? "" : "got " + j.dump() + " for " + v.raw;
  case Val::Int:
    if (j.is_number_unsigned()) {
      return !v.neg && j.get<uint64_t>() == v.u ? "" : "got " + j.dump() + " for " + v.raw;
    }
    if (j.is_number_integer()) {
      return j.get<int64_t>() == int64_t(v.u) && (j.get<int64_t>() < 0) == v.neg ? "" : "got " + j.dump() + " for " + v.raw;
    }
    return "got " + j.dump() + " for " + v.raw;
  default:
    if (!std::isfinite(v.d)) {
      return j.is_null() ? "" : "got " + j.dump() + " for a value that is not finite";
    }
    return (j.is_number() && j.get<double>() == v.d) ? "" : "got " + j.dump() + " for " + v.raw;
  }
}
struct Ctx {
  std::string where;
  std::function<podio::ObjectID(const MObj&)> idOf;
  std::function<bool(const MObj&)> available;
};
// what the ID of a related object must be; nullopt: nothing
std::optional<podio::ObjectID> wantId(const MObj* m, const Ctx& c) {
  if (!m || !c.available(*m)) {
    return std::nullopt;
  }
  return c.idOf(*m);
}
std::string jsonIdDiff(const json& j0, const std::optional<podio::ObjectID>& want, bool wrapped) {
  const json* j = &j0;
  if (wrapped && j->is_array()) {
    if (j->size() != 1) {
      return "not one ID: " + j0.dump();
    }
    j = &(*j)[0];
  }
  if (!want) {
    if (j->is_null() || (j->is_object() && j->value("index", 0) < 0)) {
      return "";
    }
    return "got " + j0.dump() + " for nothing";
  }
  if (j->is_object() && j->size() == 2 && j->contains("collectionID") && j->contains("index") && (*j)["index"].is_number_integer() &&
      (*j)["collectionID"].is_number_integer() && (*j)["index"].get<int64_t>() == want->index && (*j)["collectionID"].get<int64_t>() == int64_t(want->collectionID)) {
    return "";
  }
  return "got " + j0.dump() + " for " + idS(*want);
}
void checkJsonObject(const json& j, const MObj& m, const Ctx& c) {
  auto& t = T(m.type);
  const std::string tn = t.name();
  size_t n = 0;
  if (t.isLink()) {
    checkNum(int64_t(j.size()), 3, "json:link-keys:" + tn, c.where + " " + j.dump());
    for (const char* k : {"weight", "from", "to"}) {
      if (!check(j.is_object() && j.contains(k), std::string("json:link-missing-") + k + ":" + tn, c.where + " " + j.dump())) {
        return;
      }
    }
    auto e = jsonDiff(j["weight"], canonTree(m.mem.at(0)));
    check(e.empty(), "json:link-weight:" + tn, c.where + " " + e);
    e = jsonIdDiff(j["from"], wantId(m.one.at(0), c), true);
    check(e.empty(), "json:link-from:" + tn, c.where + " " + e);
    e = jsonIdDiff(j["to"], wantId(m.one.at(1), c), true);
    check(e.empty(), "json:link-to:" + tn, c.where + " " + e);
    stat("json_objects");
    return;
  }
  const size_t total = size_t(t.nMem() + t.nVec() + t.nOne() + t.nMany());
  if (!check(j.is_object() || (total == 0 && j.is_null()), "json:not-an-object:" + tn, c.where + " " + j.dump())) {
    return;
  }
  auto field = [&](const std::string& name) -> const json* {
    ++n;
    if (!check(j.contains(name), "json:missing:" + tn + "." + name, c.where + " " + j.dump().substr(0, 300))) {
      return nullptr;
    }
    return &j[name];
  };
  for (int i = 0; i < t.nMem(); ++i) {
    if (auto* f = field(t.memName(i))) {
      auto e = jsonDiff(*f, canonTree(m.mem[size_t(i)]));
      check(e.empty(), "json:member:" + tn + "." + t.memName(i), c.where + " " + e);
    }
  }
  for (int i = 0; i < t.nVec(); ++i) {
    if (auto* f = field(t.vecName(i))) {
      const auto& want = m.vec[size_t(i)];
      const std::string key = "json:vector-member:" + tn + "." + t.vecName(i);
      if (check(f->is_array() && f->size() == want.size(), key + ":size", c.where + " " + f->dump().substr(0, 300))) {
        for (size_t k = 0; k < want.size(); ++k) {
          auto e = jsonDiff((*f)[k], canonTree(want[k]));
          check(e.empty(), key, c.where + " [" + std::to_string(k) + "] " + e);
        }
      }
    }
  }
  for (int i = 0; i < t.nOne(); ++i) {
    if (auto* f = field(t.oneName(i))) {
      auto e = jsonIdDiff(*f, wantId(m.one[size_t(i)], c), true);
      check(e.empty(), "json:relation:" + tn + "." + t.oneName(i), c.where + " " + e);
      stat("json_relations");
    }
  }
  for (int i = 0; i < t.nMany(); ++i) {
    if (auto* f = field(t.manyName(i))) {
      const auto& want = m.many[size_t(i)];
      const std::string key = "json:relations:" + tn + "." + t.manyName(i);
      if (check(f->is_array() && f->size() == want.size(), key + ":size", c.where + " " + f->dump().substr(0, 300))) {
        for (size_t k = 0; k < want.size(); ++k) {
          auto e = jsonIdDiff((*f)[k], wantId(want[k], c), false);
          check(e.empty(), key, c.where + " [" + std::to_string(k) + "] " + e);
          stat("json_relations");
        }
      }
    }
  }
  check(j.size() == n, "json:extra-keys:" + tn, c.where + " " + j.dump().substr(0, 300));
  stat("json_objects");
}

// ---- text ------------------------------------------------------------------------
struct Scan {
  const std::string& s;
  size_t p = 0;
  double tol;
  void skip() {
    while (p < s.size() && (isspace(static_cast<unsigned char>(s[p])) || s[p] == '|')) {
      ++p;
    }
  }
  bool done() {
    skip();
    return p >= s.size();
  }
  std::string token() {
    skip();
    size_t q = p;
    while (q < s.size() && !isspace(static_cast<unsigned char>(s[q])) && s[q] != '|') {
      ++q;
    }
    auto t = s.substr(p, q - p);
    p = q;
    return t;
  }
  // leaf values of v in order
  std::string match(const Val& v) {
    if (v.k == Val::Obj || v.k == Val::Arr) {
      for (auto& x : v.sub) {
        auto e = match(x);
        if (!e.empty()) {
          return e;
        }
      }
      return "";
    }
    const auto t = token();
    char* end = nullptr;
    switch (v.k) {
    case Val::Int: {
      if (t.size() == 1 && !isdigit(static_cast<unsigned char>(t[0]))) { // a character
        return !v.neg && uint64_t(static_cast<unsigned char>(t[0])) == v.u ? "" : "got <" + t + "> for " + v.raw;
      }
      const bool neg = !t.empty() && t[0] == '-';
      const uint64_t u = neg ? uint64_t(strtoll(t.c_str(), &end, 10)) : strtoull(t.c_str(), &end, 10);
      return !t.empty() && !*end && neg == v.neg && u == v.u ? "" : "got <" + t + "> for " + v.raw;
    }
    case Val::Bool:
      return t == (v.u ? "1" : "0") || t == (v.u ? "+1" : "+0") || t == (v.u ? "true" : "false") ? "" : "got <" + t + "> for " + v.raw;
    default: {
      const double d = strtod(t.c_str(), &end);
      if (t.empty() || *end) {
        return "got <" + t + "> for a number";
      }
      if (d == v.d || (std::isnan(d) && std::isnan(v.d)) || std::abs(d - v.d) <= std::max(tol * std::abs(v.d), 1e-320)) {
        return "";
      }
      // rounding up the largest values may overflow
      if (std::isinf(d) && (d > 0) == (v.d > 0) && std::abs(v.d) > 1.79e308) {
        return "";
      }
      return "got <" + t + "> for " + std::to_string(v.d);
    }
    }
  }
  std::string matchId(const std::optional<podio::ObjectID>& want) {
    skip();
    size_t q = p;
    while (q < s.size() && !isspace(static_cast<unsigned char>(s[q]))) {
      ++q;
    }
    const auto t = s.substr(p, q - p);
    p = q;
    const auto bar = t.find('|');
    if (bar == std::string::npos) {
      return !want && t.rfind("[", 0) == 0 ? "" : "got <" + t + "> for an ID";
    }
    char *e1 = nullptr, *e2 = nullptr;
    const auto coll = strtoul(t.c_str(), &e1, 16);
    const auto idx = strtol(t.c_str() + bar + 1, &e2, 10);
    if (e1 != t.c_str() + bar || *e2 || bar + 1 == t.size()) {
      return "got <" + t + "> for an ID";
    }
    if (!want) {
      return idx < 0 ? "" : "got <" + t + "> for nothing";
    }
    return coll == want->collectionID && idx == want->index ? "" : "got <" + t + "> for " + idS(*want);
  }
};
std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> l;
  std::istringstream i(s);
  std::string x;
  while (std::getline(i, x)) {
    l.push_back(x);
  }
  return l;
}
bool blank(const std::string& s) { return s.find_first_not_of(" \t") == std::string::npos; }
// "  name : rest"
bool named(const std::string& l, std::string& name, std::string& rest) {
  const auto p = l.find(": ") != std::string::npos ? l.find(": ") : l.find(':');
  if (p == std::string::npos) {
    return false;
  }
  name = l.substr(0, p);
  rest = l.substr(p + 1);
  name.erase(0, name.find_first_not_of(' ') == std::string::npos ? name.size() : name.find_first_not_of(' '));
  while (!name.empty() && name.back() == ' ') {
    name.pop_back();
  }
  return !name.empty();
}
struct Section {
  std::string name, rest;
};
// the value of a named part, checked to be there exactly once
const Section* part(const std::vector<Section>& secs, const std::string& name, const std::string& key, const std::string& where) {
  const Section* f = nullptr;
  size_t n = 0;
  for (auto& s : secs) {
    if (s.name == name) {
      f = &s;
      ++n;
    }
  }
  check(n == 1, key, where + " shown " + std::to_string(n) + " times");
  return n == 1 ? f : nullptr;
}
void checkRelationText(const Section* s, const std::vector<MObj*>& want, const Ctx& c, const std::string& key, double tol) {
  if (!s) {
    return;
  }
  Scan sc{s->rest, 0, tol};
  for (size_t k = 0; k < want.size(); ++k) {
    auto e = sc.matchId(wantId(want[k], c));
    if (!check(e.empty(), key, c.where + " [" + std::to_string(k) + "] " + e + " in " + s->rest.substr(0, 200))) {
      return;
    }
    stat("text_relations");
  }
  check(sc.done(), key + ":too-much", c.where + " " + s->rest.substr(0, 300));
}
void checkRelations(const std::vector<Section>& secs, const MObj& m, const Ctx& c, const std::string& key, double tol) {
  auto& t = T(m.type);
  for (int i = 0; i < t.nOne(); ++i) {
    const std::string k = key + ":relation:" + t.name() + "." + t.oneName(i);
    checkRelationText(part(secs, t.oneName(i), k, c.where), {m.one[size_t(i)]}, c, k, tol);
  }
  for (int i = 0; i < t.nMany(); ++i) {
    const std::string k = key + ":relations:" + t.name() + "." + t.manyName(i);
    checkRelationText(part(secs, t.manyName(i), k, c.where), m.many[size_t(i)], c, k, tol);
  }
}
void checkVecs(const std::vector<Section>& secs, const MObj& m, const Ctx& c, const std::string& key, double tol, bool must) {
  auto& t = T(m.type);
  for (int i = 0; i < t.nVec(); ++i) {
    const std::string k = key + ":vector-member:" + t.name() + "." + t.vecName(i);
    if (!must && std::none_of(secs.begin(), secs.end(), [&](auto& s) { return s.name == t.vecName(i); })) {
      continue;
    }
    if (auto* s = part(secs, t.vecName(i), k, c.where)) {
      Scan sc{s->rest, 0, tol};
      for (auto& v : m.vec[size_t(i)]) {
        auto e = sc.match(canonTree(v));
        if (!check(e.empty(), k, c.where + " " + e)) {
          return;
        }
      }
      check(sc.done(), k + ":too-much", c.where + " " + s->rest.substr(0, 300));
    }
  }
}
void checkTextObject(const std::string& text, const MObj& m, const Ctx& c, double tol) {
  auto& t = T(m.type);
  const std::string tn = t.name();
  std::vector<Section> secs;
  for (auto& l : lines(text)) {
    std::string n, r;
    if (!blank(l) && check(named(l, n, r), "text:line-without-name:" + tn, c.where + " <" + l + ">")) {
      secs.push_back({n, r});
    }
  }
  if (auto* s = part(secs, "id", "text:id:" + tn, c.where)) {
    Scan sc{s->rest, 0, tol};
    auto e = sc.matchId(c.idOf(m));
    check(e.empty(), "text:id:" + tn, c.where + " " + e);
  }
  size_t n = 1;
  auto val = [&](const std::string& name, const std::string& canonical) {
    ++n;
    const std::string key = "text:member:" + tn + "." + name;
    if (auto* s = part(secs, name, key, c.where)) {
      Scan sc{s->rest, 0, tol};
      auto e = sc.match(canonTree(canonical));
      check(e.empty() && sc.done(), key, c.where + " " + e + " in <" + s->rest + ">");
    }
  };
  for (int i = 0; i < t.nMem(); ++i) {
    val(t.memName(i), m.mem[size_t(i)]);
  }
  checkRelations(secs, m, c, "text", tol);
  checkVecs(secs, m, c, "text", tol, false);
  stat("text_objects");
}
void checkTextColl(const std::string& text, const MColl& m, const Ctx& c0, double tol) {
  Ctx c = c0;
  auto& t = T(m.type);
  const std::string tn = t.name();
  auto ls = lines(text);
  ls.erase(std::remove_if(ls.begin(), ls.end(), blank), ls.end());
  if (!check(!ls.empty(), "text-table:no-header:" + tn, c.where)) {
    return;
  }
  const size_t nSec = size_t(t.nVec() + t.nOne() + t.nMany());
  size_t p = 1;
  for (size_t k = 0; k < m.elems.size(); ++k) {
    const MObj& o = *m.elems[k];
    c.where = c0.where + "[" + std::to_string(k) + "]";
    if (!check(p < ls.size(), "text-table:elements-missing:" + tn, c.where)) {
      return;
    }
    if (!c.available(o)) {
      check(ls[p].find("not available") != std::string::npos, "text-table:unavailable:" + tn, c.where + " <" + ls[p] + ">");
      ++p;
      continue;
    }
    Scan sc{ls[p], 0, tol};
    auto e = sc.matchId(c.idOf(o));
    if (!check(e.empty(), "text-table:id:" + tn, c.where + " " + e + " in <" + ls[p] + ">")) {
      return;
    }
    for (int i = 0; i < t.nMem(); ++i) {
      const auto v = canonTree(o.mem[size_t(i)]);
      if (hasArray(v)) {
        continue;
      }
      e = sc.match(v);
      if (!check(e.empty(), "text-table:member:" + tn + "." + t.memName(i), c.where + " " + e + " in <" + ls[p] + ">")) {
        return;
      }
    }
    check(sc.done(), "text-table:too-much:" + tn, c.where + " <" + ls[p] + ">");
    ++p;
    std::vector<Section> secs;
    for (size_t s = 0; s < nSec && p < ls.size(); ++s, ++p) {
      std::string n, r;
      if (!named(ls[p], n, r)) {
        break;
      }
      secs.push_back({n, r});
    }
    checkRelations(secs, o, c, "text-table", tol);
    checkVecs(secs, o, c, "text-table", tol, true);
    stat("text_rows");
  }
  check(p == ls.size(), "text-table:too-many-lines:" + tn, c.where);
}

// ---- one pass over everything a Frame holds ------------------------------------
struct StreamState {
  std::ios_base::fmtflags flags;
  std::streamsize prec, width;
  char fill;
  explicit StreamState(std::ostream& o) : flags(o.flags()), prec(o.precision()), width(o.width()), fill(o.fill()) {}
  bool operator==(const StreamState&) const = default;
};
void randomState(Rng& r, std::ostream& o) {
  o.precision(r.range(0, 20));
  o.fill("0* x"[r.below(4)]);
  const std::ios_base::fmtflags f[] = {std::ios::hex, std::ios::oct, std::ios::showpos, std::ios::fixed, std::ios::scientific, std::ios::boolalpha,
                                       std::ios::showbase, std::ios::uppercase, std::ios::left, std::ios::internal, std::ios::showpoint, std::ios::unitbuf};
  for (auto x : f) {
    if (r.chance(0.3)) {
      if (x == std::ios::hex || x == std::ios::oct) {
        o.setf(x, std::ios::basefield);
      } else if (x == std::ios::fixed || x == std::ios::scientific) {
        o.setf(x, std::ios::floatfield);
      } else if (x == std::ios::left || x == std::ios::internal) {
        o.setf(x, std::ios::adjustfield);
      } else {
        o.setf(x);
      }
    }
  }
}
std::ostringstream freshStream(Rng& r, double& tol) {
  std::ostringstream o;
  tol = 2e-5;
  if (r.chance(0.5)) {
    o.precision(17);
    tol = 1e-14;
  }
  return o;
}
void checkAll(const podio::Frame& f, const MEvent& ev, Rng& r, const std::string& where, const std::set<std::string>* keep) {
  Ctx c;
  c.idOf = [](const MObj& m) { return podio::ObjectID{m.idx, m.coll->id}; };
  c.available = [&](const MObj& m) { return !keep || keep->count(m.coll->name); };
  for (auto& mp : ev.colls) {
    const auto& m = *mp;
    if (m.type < 0 || (keep && !keep->count(m.name))) {
      continue;
    }
    auto& t = T(m.type);
    auto* coll = f.get(m.name);
    c.where = where + " " + m.name;
    if (!check(coll && t.isColl(coll) && coll->size() == m.elems.size(), "frame:collection-lost", c.where)) {
      return;
    }
    // JSON of the collection
    expectOk("json:" + t.name(), [&] {
      auto j = json::parse(t.jsonColl(*coll));
      if (check(j.is_array() && j.size() == m.elems.size(), "json:collection:" + t.name(), c.where + " " + j.dump().substr(0, 200))) {
        Ctx cc = c;
        for (size_t i = 0; i < m.elems.size(); ++i) {
          cc.where = c.where + "[" + std::to_string(i) + "]";
          if (m.subset) {
            auto e = jsonIdDiff(j[i], wantId(m.elems[i], c), false);
            check(e.empty(), "json:subset-element:" + t.name(), cc.where + " " + e);
          } else {
            checkJsonObject(j[i], *m.elems[i], cc);
          }
        }
      }
      stat("json_collections");
    });
    // text of the collection, and of its elements
    expectOk("text-table:" + t.name(), [&] {
      double tol;
      auto o = freshStream(r, tol);
      StreamState before(o);
      t.printCollTo(*coll, o);
      check(StreamState(o) == before, "text-table:stream-state:" + t.name(), c.where);
      checkTextColl(o.str(), m, c, tol);
      stat("text_collections");
      if (r.chance(0.5)) { // the virtual function prints the same
        std::ostringstream a;
        a.precision(o.precision());
        coll->print(a, r.chance(0.5));
        checkEq(a.str(), o.str(), "text-table:print-differs:" + t.name(), c.where);
      }
      if (r.chance(0.5)) { // any state is left as found
        std::ostringstream a;
        randomState(r, a);
        StreamState b2(a);
        t.printCollTo(*coll, a);
        check(StreamState(a) == b2, "text-table:stream-state:" + t.name(), c.where);
        stat("stream_states");
      }
    });
    const size_t n = std::min<size_t>(m.elems.size(), 8);
    for (size_t k = 0; k < n && !caseFailed(); ++k) {
      const size_t i = m.elems.size() > 8 ? r.below(m.elems.size()) : k;
      const MObj& want = *m.elems[i];
      HP h = t.at(*coll, i, Access::Index);
      Ctx cc = c;
      cc.where = c.where + "[" + std::to_string(i) + "]";
      expectOk("text:" + t.name(), [&] {
        double tol;
        auto o = freshStream(r, tol);
        StreamState before(o);
        t.printTo(*h, o);
        check(StreamState(o) == before, "text:stream-state:" + t.name(), cc.where);
        if (!c.available(want)) {
          check(o.str().find("not available") != std::string::npos, "text:unavailable:" + t.name(), cc.where + " <" + o.str() + ">");
          return;
        }
        checkTextObject(o.str(), want, cc, tol);
        std::ostringstream a;
        randomState(r, a);
        StreamState b2(a);
        t.printTo(*h, a);
        check(StreamState(a) == b2, "text:stream-state:" + t.name(), cc.where);
      });
      if (c.available(want)) {
        expectOk("json:" + t.name(), [&] { checkJsonObject(json::parse(t.jsonHandle(*h)), want, cc); });
      }
    }
    // through an interface or a relation: the same object prints the same
  }
}

template <class V>
void userData(Rng& r) {
  podio::UserDataCollection<V> coll;
  std::vector<V> vals(r.chance(0.2) ? 0 : r.below(30));
  for (auto& v : vals) {
    gen(r, v);
    coll.push_back(v);
  }
  const std::string tn(coll.getValueTypeName());
  auto j = json::parse(json(coll).dump());
  if (check(j.is_array() && j.size() == vals.size(), "json:userdata:" + tn, j.dump())) {
    for (size_t i = 0; i < vals.size(); ++i) {
      auto e = jsonDiff(j[i], canonTree(canonS(vals[i])));
      check(e.empty(), "json:userdata:" + tn, e);
    }
  }
  double tol;
  auto o = freshStream(r, tol);
  StreamState before(o);
  if (r.chance(0.5)) {
    o << coll;
  } else {
    coll.print(o, r.chance(0.5));
  }
  check(StreamState(o) == before, "text:userdata-stream-state:" + tn);
  auto s = o.str();
  if (check(s.size() >= 2 && s.front() == '[' && s.back() == ']', "text:userdata:" + tn, s)) {
    s = s.substr(1, s.size() - 2);
    if (sizeof(V) == 1) { // shown as characters
      return;
    }
    size_t commas = size_t(std::count(s.begin(), s.end(), ','));
    checkNum(int64_t(commas), vals.empty() ? 0 : int64_t(vals.size()) - 1, "text:userdata-separators:" + tn, s);
    std::replace(s.begin(), s.end(), ',', ' ');
    Scan sc{s, 0, tol};
    for (auto& v : vals) {
      auto e = sc.match(canonTree(canonS(v)));
      check(e.empty(), "text:userdata:" + tn, e);
    }
    check(sc.done(), "text:userdata-too-much:" + tn, s);
  }
  for (size_t i = 0; i < vals.size(); ++i) {
    checkEq(canonS(coll[i]), canonS(vals[i]), "userdata:changed-by-output");
  }
  stat("userdata_collections");
}

void freeObjects(Rng& r) {
  // objects that are in no collection, mutable handles, empty handles
  for (auto* t : allTypes()) {
    if (!r.chance(0.3)) {
      continue;
    }
    HP h = t->make();
    MObj m = newModel(t->index);
    randomMembers(r, m, *h);
    if (!t->isLink()) {
      randomVecs(r, m, *h, 4);
    }
    Ctx c;
    c.where = "free " + t->name();
    c.idOf = [&](const MObj&) { return t->objectID(*h); };
    c.available = [](const MObj&) { return true; };
    double tol;
    auto o = freshStream(r, tol);
    HP k = r.chance(0.5) ? h : t->toConst(*h);
    t->printTo(*k, o);
    checkTextObject(o.str(), m, c, tol);
    checkJsonObject(json::parse(t->jsonHandle(*k)), m, c);
    HP e = t->makeEmpty();
    std::ostringstream a;
    t->printTo(*e, a);
    check(a.str().find("not available") != std::string::npos, "text:empty-handle:" + t->name(), a.str());
    auto coll = t->newColl();
    checkEq(json::parse(t->jsonColl(*coll)).dump(), "[]", "json:empty-collection:" + t->name());
    std::ostringstream b;
    t->printCollTo(*coll, b);
    auto ls = lines(b.str());
    ls.erase(std::remove_if(ls.begin(), ls.end(), blank), ls.end());
    checkNum(int64_t(ls.size()), 1, "text-table:empty-collection:" + t->name(), b.str());
    stat("free_objects");
  }
}

void oneCase(uint64_t idx) {
  gFinite = true;
  Rng r(mix(opts.seed * 1000003 + 17, idx));
  setCase(idx, "output");
  clearNotes();
  MEvent ev;
  std::vector<std::unique_ptr<podio::CollectionBase>> colls;
  GenOpts o;
  o.bigChance = 0;
  genEvent(r, o, ev, colls);
  note(ev.summary());
  podio::Frame f;
  for (size_t i = 0; i < colls.size(); ++i) {
    f.put(std::move(colls[i]), ev.colls[i]->name);
  }
  for (auto& ob : ev.objs) {
    ob->h.reset();
  }
  for (auto& c : ev.colls) {
    c->id = f.get(c->name)->getID();
  }
  if (r.chance(0.6)) {
    checkAll(f, ev, r, "built", nullptr);
    compareFrame(f, ev, r, "after output", nullptr, false);
  }
  std::vector<std::string> all;
  std::set<std::string> keep;
  for (auto& c : ev.colls) {
    all.push_back(c->name);
    if (r.chance(0.7)) {
      keep.insert(c->name);
    }
  }
  auto stored = writeFrame(f, all);
  if (r.chance(0.6)) {
    podio::Frame g = readFrame(stored);
    checkAll(g, ev, r, "read", nullptr);
    compareFrame(g, ev, r, "read, after output", nullptr, false);
    writeFrame(g, all);
    checkAll(g, ev, r, "read and written", nullptr);
  }
  if (r.chance(0.5)) {
    podio::Frame g = readFrame(stored, &keep);
    checkAll(g, ev, r, "partially read", &keep);
  }
  userData<float>(r);
  userData<double>(r);
  userData<int8_t>(r);
  userData<int16_t>(r);
  userData<int32_t>(r);
  userData<int64_t>(r);
  userData<uint8_t>(r);
  userData<uint16_t>(r);
  userData<uint32_t>(r);
  userData<uint64_t>(r);
  freeObjects(r);
  std::string shape;
  for (auto& c : ev.colls) {
    shape += std::to_string(c->type) + (c->subset ? "s" : "o") + std::to_string(c->elems.size()) + ",";
  }
  distinct("nontrivial", hashStr(shape));
  stat("histories");
  sample(ev.summary());
}
} // namespace

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      oneCase(i);
    }
  });
}
