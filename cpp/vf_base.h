// Base of the monitors: random numbers, canonical value text, violation and
// statistics reporting. Independent of podio.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bit>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <iterator>
#include <numeric>
#include <ranges>
#include <thread>
#include <tuple>
#include <iostream>
#include <string_view>
#include <list>
#include <deque>
#include <typeinfo>
#include <utility>
#include <vector>

namespace vf {

struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) {
    for (auto& x : s) {
      seed += 0x9e3779b97f4a7c15ull;
      uint64_t z = seed;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      x = z ^ (z >> 31);
    }
  }
  uint64_t next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  bool chance(double p) { return double(next() >> 11) * 0x1p-53 < p; }
  template <class C>
  auto& pick(C& c) { return c[below(c.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x1234567);
  return r.next();
}
uint64_t hashStr(const std::string& s);

// ---- reporting ----------------------------------------------------------
// A violation is a key (what was violated, stable) and a detail text. The
// process goes on after one, unless too many were reported.
void violation(const std::string& key, const std::string& detail);
[[noreturn]] void internalError(const std::string& what); // harness error, exit 3
void stat(const std::string& name, uint64_t n = 1);
void statMax(const std::string& name, uint64_t n);
void distinct(const std::string& name, uint64_t h); // counts distinct hashes
void sample(const std::string& text);
void setCase(uint64_t idx, const std::string& what = "");
uint64_t currentCase();
bool caseFailed();      // a violation was reported in the current case
uint64_t nViolations();
void note(const std::string& op); // op log of the current case (for replay files)
void clearNotes();
std::string recentNotes(size_t n);
struct Opts {
  std::string prop, tier = "quick", mode;
  uint64_t seed = 1;
  uint64_t from = 0, to = 0; // case range
  bool thorough() const { return tier == "thorough"; }
  std::map<std::string, std::string> extra;
  uint64_t num(const std::string& k, uint64_t dflt) const {
    auto it = extra.find(k);
    return it == extra.end() ? dflt : strtoull(it->second.c_str(), nullptr, 0);
  }
};
extern Opts opts;
int mainImpl(int argc, char** argv, const std::function<void()>& run);
extern thread_local bool gFinite; // generate only finite floating point values and letters
extern std::atomic<uint64_t> gChecks; // oracle comparisons made

// ---- canonical text of values ------------------------------------------
template <class T>
struct Comp {
  static constexpr bool is = false;
};
inline void canon(std::string& o, const std::string& v) { o += '"' + v + '"'; }
template <class T>
  requires std::is_arithmetic_v<T>
void canon(std::string& o, const T& v) {
  char b[40];
  if constexpr (std::is_same_v<T, bool>) {
    unsigned char c;
    std::memcpy(&c, &v, 1);
    snprintf(b, sizeof b, "b%u", unsigned(c));
  } else if constexpr (std::is_same_v<T, float>) {
    snprintf(b, sizeof b, "f%08x", std::bit_cast<uint32_t>(v));
  } else if constexpr (std::is_same_v<T, double>) {
    snprintf(b, sizeof b, "d%016llx", (unsigned long long)std::bit_cast<uint64_t>(v));
  } else if constexpr (std::is_signed_v<T>) {
    snprintf(b, sizeof b, "%lld", (long long)v);
  } else {
    snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  }
  o += b;
}
template <class T, size_t N>
void canon(std::string& o, const std::array<T, N>& v);
template <class T>
  requires Comp<T>::is
void canon(std::string& o, const T& v) {
  o += '{';
  Comp<T>::each(v, [&](const char* n, const auto& x) {
    o += n;
    o += ':';
    canon(o, x);
    o += ' ';
  });
  o += '}';
}
template <class T, size_t N>
void canon(std::string& o, const std::array<T, N>& v) {
  o += '[';
  for (const auto& x : v) {
    canon(o, x);
    o += ' ';
  }
  o += ']';
}
template <class T>
void canon(std::string& o, const std::vector<T>& v) {
  o += '(';
  for (const auto& x : v) {
    canon(o, static_cast<const T&>(x));
    o += ' ';
  }
  o += ')';
}
template <class T>
std::string canonS(const T& v) {
  std::string s;
  canon(s, v);
  return s;
}

// ---- random values -------------------------------------------------------
template <class T>
  requires std::is_arithmetic_v<T>
void gen(Rng& r, T& v) {
  if constexpr (std::is_same_v<T, bool>) {
    v = r.below(2);
  } else if constexpr (std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    switch (r.below(10)) {
    case 0: {
      const T sp[] = {T(0), T(-0.0), L::min(), L::max(), L::lowest(), L::denorm_min(), L::epsilon(), T(1), T(-1)};
      v = sp[r.below(9)];
      break;
    }
    case 1:
      if (!gFinite) {
        const T sp[] = {L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN()};
        v = sp[r.below(4)];
        break;
      }
      [[fallthrough]];
    case 2:
    case 3:
      v = T(r.range(-1000, 1000));
      break;
    case 4:
    case 5: {
      using B = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
      v = std::bit_cast<T>(B(r.next()));
      if (std::isnan(v) || (gFinite && !std::isfinite(v))) { // only quiet NaNs: no signalling ones through the FPU
        v = T(0.5);
      }
      break;
    }
    default:
      v = T(double(r.range(-1000000, 1000000)) / 977.0);
    }
  } else {
    using L = std::numeric_limits<T>;
    switch (r.below(8)) {
    case 0: {
      const T sp[] = {T(0), T(1), L::max(), L::min(), T(-1), T(L::max() - 1)};
      v = sp[r.below(6)];
      break;
    }
    case 1:
    case 2:
    case 3:
      v = T(r.next());
      break;
    default:
      v = T(r.below(100));
    }
    if constexpr (std::is_same_v<T, char>) {
      if (gFinite) {
        v = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[r.below(53)]; // can be told from separators
      }
    }
  }
}
template <class T, size_t N>
void gen(Rng& r, std::array<T, N>& v);
template <class T>
  requires Comp<T>::is
void gen(Rng& r, T& v) {
  Comp<T>::each(v, [&](const char*, auto& x) { gen(r, x); });
}
template <class T, size_t N>
void gen(Rng& r, std::array<T, N>& v) {
  for (auto& x : v) {
    gen(r, x);
  }
}
inline void gen(Rng& r, std::string& v) {
  static const char* sp[] = {"", " ", "a", "name with spaces", "\"quoted\"", "\n\t", "\xc3\xa9\xe2\x82\xac", "[1,2]", "{}", "0"};
  if (r.below(4) == 0) {
    v = sp[r.below(10)];
    return;
  }
  size_t n = r.below(8) == 0 ? r.below(300) : r.below(20);
  v.clear();
  for (size_t i = 0; i < n; ++i) {
    v += char(r.below(6) == 0 ? r.range(1, 255) : r.range(32, 126));
  }
}

// ---- expectations ----------------------------------------------------------
template <class A, class B>
void subEq(const char* what, const A& a, const B& b) {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  auto x = canonS(a), y = canonS(b);
  if (x != y) {
    violation(std::string("part-vs-whole:") + what, "part " + x + " whole " + y);
  }
}
inline bool check(bool ok, const std::string& key, const std::string& detail = "") {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  if (!ok) {
    violation(key, detail);
  }
  return ok;
}
inline bool checkEq(const std::string& got, const std::string& want, const std::string& key, const std::string& ctx = "") {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  if (got != want) {
    violation(key, ctx + " got <" + got + "> expected <" + want + ">");
    return false;
  }
  return true;
}
inline bool checkNum(int64_t got, int64_t want, const std::string& key, const std::string& ctx = "") {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  if (got != want) {
    violation(key, ctx + " got " + std::to_string(got) + " expected " + std::to_string(want));
    return false;
  }
  return true;
}
// f must throw exactly an E (or something derived from it)
template <class E, class F>
bool expectThrow(const std::string& what, F&& f) {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  try {
    f();
  } catch (const E&) {
    return true;
  } catch (const std::exception& e) {
    violation("wrong-exception:" + what, e.what());
    return false;
  } catch (...) {
    violation("wrong-exception:" + what, "unknown type");
    return false;
  }
  violation("no-exception:" + what, "call did not throw");
  return false;
}
// f must not throw
template <class F>
bool expectOk(const std::string& what, F&& f) {
  gChecks.fetch_add(1, std::memory_order_relaxed);
  try {
    f();
    return true;
  } catch (const std::exception& e) {
    violation("unexpected-exception:" + what, e.what());
  } catch (...) {
    violation("unexpected-exception:" + what, "unknown type");
  }
  return false;
}
} // namespace vf
