// C24: versions. The table of literal versions is written for each seed.
#include "podio/podioVersion.h"
#include "vf_base.h"
#include "vf_versions.h"
#include <sstream>
using namespace vf;
using podio::version::Version;
using Tup = std::array<uint32_t, 3>;

struct Row {
  Tup v;
  uint64_t code;
  Version dec;
};
// encoded and decoded at compile time, as users do
static const Row kRows[] = {
#define X(a, b, c) {{a##u, b##u, c##u}, PODIO_VERSION(a, b, c), podio::version::decode_version(PODIO_VERSION(a, b, c))},
    VF_VERSIONS(X)
#undef X
};
static_assert(noexcept(std::declval<Version>() < std::declval<Version>()));

static Tup tup(const Version& v) { return {v.major, v.minor, v.patch}; }
static Version ver(const Tup& t) { return Version{uint16_t(t[0]), uint16_t(t[1]), uint16_t(t[2])}; }
static std::string txt(const Tup& t) { return std::to_string(t[0]) + "." + std::to_string(t[1]) + "." + std::to_string(t[2]); }

static void compare(const Version& a, const Version& b, const std::string& d) {
  const Tup x = tup(a), y = tup(b);
  int c = 0;
  for (int i = 0; i < 3 && c == 0; ++i) {
    c = x[size_t(i)] < y[size_t(i)] ? -1 : x[size_t(i)] > y[size_t(i)] ? 1 : 0;
  }
  check((a < b) == (c < 0), "version:less", d);
  check((a <= b) == (c <= 0), "version:less-equal", d);
  check((a > b) == (c > 0), "version:greater", d);
  check((a >= b) == (c >= 0), "version:greater-equal", d);
  check((a == b) == (c == 0), "version:equal", d);
  check((a != b) == (c != 0), "version:not-equal", d);
}
static uint32_t part(Rng& r, uint32_t near) {
  switch (r.below(6)) {
  case 0:
    return uint32_t(r.below(3));
  case 1:
    return 65535 - uint32_t(r.below(3));
  case 2:
    return std::min<uint32_t>(65535, near + uint32_t(r.below(2)));
  case 3:
    return near;
  case 4:
    return 255 + uint32_t(r.below(3));
  default:
    return uint32_t(r.below(65536));
  }
}
static void text(const Version& v, const std::string& d) {
  const std::string s(v);
  checkEq(s, txt(tup(v)), "version:text", d);
  std::ostringstream o;
  o << "<" << v << ">";
  checkEq(o.str(), "<" + txt(tup(v)) + ">", "version:stream", d);
  // read back by hand
  Tup t{};
  size_t p = 0;
  bool ok = true;
  for (size_t i = 0; i < 3; ++i) {
    size_t n = 0;
    ok = ok && p < s.size() && isdigit((unsigned char)(s[p]));
    t[i] = ok ? uint32_t(std::stoul(s.substr(p), &n)) : 0;
    p += n + 1;
  }
  check(ok && p == s.size() + 1 && ver(t) == v, "version:text-roundtrip", d + " as " + s);
}

static void oneCase(uint64_t idx) {
  Rng r(mix(opts.seed * 1000003 + 24, idx));
  setCase(idx, "versions");
  std::vector<Version> vs;
  Tup near{uint32_t(r.below(65536)), uint32_t(r.below(65536)), uint32_t(r.below(65536))};
  for (size_t i = 0, n = 2 + r.below(30); i < n; ++i) {
    vs.push_back(ver({part(r, near[0]), part(r, near[1]), part(r, near[2])}));
  }
  for (auto& a : vs) {
    text(a, txt(tup(a)));
    for (auto& b : vs) {
      compare(a, b, txt(tup(a)) + " and " + txt(tup(b)));
    }
    // the macros also work on values known only at run time
    const uint64_t code = (uint64_t(a.major) << 32) | (uint64_t(a.minor) << 16) | a.patch;
    checkNum(int64_t(PODIO_MAJOR_VERSION(code)), a.major, "version:major-of-code", txt(tup(a)));
    checkNum(int64_t(PODIO_MINOR_VERSION(code)), a.minor, "version:minor-of-code", txt(tup(a)));
    checkNum(int64_t(PODIO_PATCH_VERSION(code)), a.patch, "version:patch-of-code", txt(tup(a)));
  }
  std::vector<Tup> ts;
  for (auto& v : vs) {
    ts.push_back(tup(v));
  }
  std::sort(ts.begin(), ts.end());
  std::sort(vs.begin(), vs.end());
  for (size_t i = 0; i < vs.size(); ++i) {
    check(tup(vs[i]) == ts[i], "version:sorting", txt(ts[i]));
  }
  std::string h;
  for (auto& t : ts) {
    h += txt(t) + ",";
  }
  distinct("nontrivial", hashStr(h));
  stat("histories");
  stat("versions", vs.size());
  sample(h);
  // literal versions: two of the table against each other
  constexpr size_t N = sizeof(kRows) / sizeof(kRows[0]);
  for (int q = 0; q < 40; ++q) {
    auto &a = kRows[r.below(N)], &b = kRows[r.below(N)];
    const std::string d = txt(a.v) + " and " + txt(b.v);
    check(tup(a.dec) == a.v, "version:encode-decode", txt(a.v) + " became " + txt(tup(a.dec)));
    check((a.code < b.code) == (a.v < b.v) && (a.code == b.code) == (a.v == b.v), "version:codes-order-like-versions", d);
    check(ver({uint32_t(PODIO_MAJOR_VERSION(a.code)), uint32_t(PODIO_MINOR_VERSION(a.code)), uint32_t(PODIO_PATCH_VERSION(a.code))}) == a.dec, "version:macros-of-code", d);
    compare(a.dec, b.dec, d);
    stat("encodings");
  }
}
static void fixed() {
  setCase(0, "literal versions");
  for (auto& a : kRows) {
    check(tup(a.dec) == a.v, "version:encode-decode", txt(a.v) + " became " + txt(tup(a.dec)));
    text(a.dec, txt(a.v));
  }
  // in preprocessor conditions
#include "vf_version_ifs.h"
  // the version of the source tree
  check(tup(podio::version::build_version) == Tup{VF_TREE_VERSION}, "version:build-version", txt(tup(podio::version::build_version)));
  check(podio::version::decode_version(podio_VERSION) == podio::version::build_version && podio::version::decode_version(PODIO_BUILD_VERSION) == podio::version::build_version,
        "version:build-version-code");
  check(Version{} == ver({0, 0, 0}) && Version{3} == ver({3, 0, 0}) && Version{3, 2} == ver({3, 2, 0}), "version:defaults");
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    if (opts.from == 0) {
      fixed();
    }
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      oneCase(i);
    }
  });
}
