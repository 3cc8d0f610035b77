// C30: expanding file patterns against an own matcher of patterns, and (mode=plugins)
// finding the SIO block libraries in a scratch environment of its own process
#include "podio/Frame.h"
#include "podio/Reader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/utilities/Glob.h"
#include "vf_base.h"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unistd.h>
using namespace vf;
namespace fs = std::filesystem;
using Strs = std::vector<std::string>;

// ---- the reference: patterns as in glob(7), with braces and ~ -------------------
static bool special(char c) { return c == '*' || c == '?' || c == '[' || c == '{'; }
static bool wild(const std::string& p, bool braces) {
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] == '\\') {
      ++i;
    } else if (special(p[i]) && (braces || p[i] != '{')) {
      return true;
    }
  }
  return false;
}
static Strs braces(const std::string& p) {
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] == '\\') {
      ++i;
      continue;
    }
    if (p[i] != '{') {
      continue;
    }
    int depth = 1;
    Strs alts(1);
    size_t k = i + 1;
    for (; k < p.size(); ++k) {
      if (p[k] == '\\') {
        alts.back() += p[k++];
        alts.back() += p[k];
        continue;
      }
      if (p[k] == '{') {
        ++depth;
      } else if (p[k] == '}' && --depth == 0) {
        break;
      } else if (p[k] == ',' && depth == 1) {
        alts.emplace_back();
        continue;
      }
      alts.back() += p[k];
    }
    if (k == p.size()) {
      internalError("unbalanced pattern " + p);
    }
    Strs out;
    for (auto& a : alts) {
      for (auto& x : braces(p.substr(0, i) + a + p.substr(k + 1))) {
        out.push_back(x);
      }
    }
    return out;
  }
  return {p};
}
static bool match(const char* p, const char* s, bool start) {
  if (!*p) {
    return !*s;
  }
  if (*s == '.' && start && (*p == '*' || *p == '?' || *p == '[')) {
    return false;
  }
  switch (*p) {
  case '*':
    for (const char* t = s;; ++t) {
      if (match(p + 1, t, false)) {
        return true;
      }
      if (!*t) {
        return false;
      }
    }
  case '?':
    return *s && match(p + 1, s + 1, false);
  case '[': {
    const char* q = p + 1;
    const bool neg = *q == '!';
    q += neg;
    bool in = false;
    for (bool first = true; first || *q != ']'; first = false) {
      const char lo = *q++;
      if (*q == '-' && q[1] != ']') {
        in = in || (*s >= lo && *s <= q[1]);
        q += 2;
      } else {
        in = in || *s == lo;
      }
    }
    return *s && in != neg && match(q + 1, s + 1, false);
  }
  case '\\':
    ++p;
    [[fallthrough]];
  default:
    return *p == *s && match(p + 1, s + 1, false);
  }
}
static std::string unescape(const std::string& p) {
  std::string r;
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] == '\\') {
      ++i;
    }
    r += p[i];
  }
  return r;
}
// all paths that match a pattern without braces, below prefix (empty or ending with a slash)
static void walk(const std::string& prefix, const Strs& comps, size_t k, Strs& out) {
  if (k == comps.size()) {
    out.push_back(prefix.substr(0, prefix.size() - 1));
    return;
  }
  const bool last = k + 1 == comps.size();
  if (!wild(comps[k], false)) {
    const auto n = prefix + unescape(comps[k]);
    if (fs::exists(n) && (last || fs::is_directory(n))) {
      walk(n + "/", comps, k + 1, out);
    }
    return;
  }
  if (!fs::is_directory(prefix.empty() ? "." : prefix)) {
    return;
  }
  Strs names = {".", ".."};
  for (auto& e : fs::directory_iterator(prefix.empty() ? "." : prefix)) {
    names.push_back(e.path().filename().string());
  }
  for (auto& n : names) {
    if (match(comps[k].c_str(), n.c_str(), true) && (last || fs::is_directory(prefix + n))) {
      walk(prefix + n + "/", comps, k + 1, out);
    }
  }
}
static Strs expand(const std::string& pattern) {
  Strs all;
  for (auto p : braces(pattern)) {
    if (p == "~" || p.starts_with("~/")) {
      p = std::getenv("HOME") + p.substr(1);
    }
    Strs comps;
    std::istringstream in(p);
    for (std::string c; std::getline(in, c, '/');) {
      comps.push_back(c);
    }
    Strs out;
    if (p.empty()) {
      continue;
    }
    if (p.starts_with("/")) {
      comps.erase(comps.begin());
      walk("/", comps, 0, out);
    } else {
      walk("", comps, 0, out);
    }
    std::sort(out.begin(), out.end());
    all.insert(all.end(), out.begin(), out.end());
  }
  return all;
}

// ---- workload --------------------------------------------------------------------
static std::string fileName(Rng& r) {
  static const Strs words = {"a", "b", "ab", "run", "1", "2", "10", "_", "-", ".", "x", "B", "*", "?", "data", " ", "é"};
  std::string s;
  for (int k = 1 + int(r.below(4)); k > 0; --k) {
    s += words[r.below(r.chance(0.9) ? 12 : words.size())];
  }
  if (r.chance(0.5)) {
    s += r.chance(0.5) ? ".sio" : ".root";
  }
  return s == "." || s == ".." ? "d" : s;
}
static std::string escaped(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (special(c) || c == '\\' || c == ']' || c == '}' || c == ',') {
      r += '\\';
    }
    r += c;
  }
  return r;
}
static std::string wildPart(Rng& r, const std::string& name, int& nBraces) { // a pattern close to a name
  std::string p;
  for (size_t i = 0; i < name.size();) {
    const bool ascii = (signed char)name[i] > 0;
    switch (ascii ? r.below(11) : 11) {
    case 0:
      p += '*';
      i += r.below(name.size() - i + 1);
      break;
    case 1:
      p += '?';
      ++i;
      break;
    case 2:
      p += r.chance(0.3) ? "[!x]" : r.chance(0.5) ? "[a-z0-9]" : std::string("[") + name[i] + (r.chance(0.5) ? "b" : "") + "]";
      ++i;
      break;
    case 3:
      if (nBraces < 2 && i + 1 < name.size()) {
        ++nBraces;
        const size_t n = 1 + r.below(name.size() - i);
        const Strs other = {"a", "", "b*", "1", "run", "[a-c]", "none"};
        std::string x = escaped(name.substr(i, n)), y = other[r.below(other.size())];
        p += r.chance(0.5) ? "{" + x + "," + y + "}" : "{" + y + "," + x + (r.chance(0.3) ? "," + other[r.below(other.size())] : "") + "}";
        i += n;
        break;
      }
      [[fallthrough]];
    default:
      p += ascii ? escaped(name.substr(i, 1)) : name.substr(i, 1);
      ++i;
    }
  }
  return p;
}
struct Tree {
  Strs all; // relative paths
  std::map<std::string, unsigned> sio;
};
static std::string show(const Strs& v) {
  std::string s;
  for (auto& x : v) {
    s += "'" + x + "' ";
  }
  return s;
}
static void globCase(uint64_t idx, const std::string& top) {
  Rng r(mix(opts.seed * 7001 + 3, idx));
  setCase(idx, "file patterns");
  const auto dir = top + "/" + std::to_string(idx);
  fs::create_directories(dir + "/home");
  fs::current_path(dir);
  setenv("HOME", (dir + "/home").c_str(), 1);
  Tree t;
  Strs dirs = {"", "home/"};
  uint64_t h = 7;
  for (int k = int(r.range(3, 25)); k > 0; --k) {
    const auto p = r.pick(dirs) + fileName(r);
    if (fs::exists(p)) {
      continue;
    }
    if (r.chance(0.2) && dirs.size() < 8) {
      fs::create_directory(p);
      dirs.push_back(p + "/");
    } else if (p.ends_with(".sio") && t.sio.size() < 4) {
      const unsigned n = 1 + unsigned(t.sio.size());
      podio::SIOWriter w(p);
      for (unsigned j = 0; j < n; ++j) {
        w.writeFrame(podio::Frame{}, "events");
      }
      w.finish();
      t.sio[p] = n;
    } else {
      std::ofstream(p) << "x";
    }
    t.all.push_back(p);
    note(p);
    h = h * 31 + hashStr(p);
  }
  for (int k = 0; k < 30; ++k) {
    std::string path = t.all.empty() || r.chance(0.1) ? fileName(r) : r.pick(t.all), pat;
    int nb = 0;
    std::istringstream in(path);
    const bool plain = r.chance(0.2);
    for (std::string c; std::getline(in, c, '/');) {
      pat += (pat.empty() ? "" : "/") + (plain || (c == "home" && r.chance(0.6)) ? escaped(c) : wildPart(r, c, nb));
    }
    if (pat.starts_with("home/") && r.chance(0.4)) {
      pat = "~/" + pat.substr(5);
    } else if (r.chance(0.1)) {
      pat = dir + "/" + pat;
    } else if (r.chance(0.1)) {
      pat = "./" + pat;
    }
    bool odd = false; // slashes at the end or twice are not judged
    for (auto& b : braces(pat)) {
      odd = odd || b.ends_with("/") || b.find("//") != std::string::npos;
    }
    if (odd) {
      continue;
    }
    note("pattern " + pat);
    const bool isWild = wild(pat, true);
    check(podio::utils::is_glob_pattern(pat) == isWild, "glob:is-pattern", pat);
    const auto want = expand(pat);
    Strs got;
    bool threw = false;
    try {
      got = podio::utils::expand_glob(pat);
    } catch (const std::runtime_error& e) {
      threw = true;
    }
    vf::stat("patterns");
    vf::distinct("nontrivial", h * 7 + hashStr(pat));
    if (!isWild) {
      if (pat.find('\\') == std::string::npos && !pat.starts_with("~")) {
        checkEq(show(got), show({pat}), "glob:path-without-wildcards", pat);
        vf::stat("without_wildcards");
      }
    } else if (want.empty()) {
      check(threw, "glob:no-match-accepted", pat + " gives " + show(got));
      vf::stat("without_match");
    } else {
      check(!threw, "glob:match-not-found", pat + " expected " + show(want));
      checkEq(show(got), show(want), "glob:files", pat);
      vf::stat("files_matched", want.size());
      vf::statMax("files_per_pattern", want.size());
    }
    // a reader for the pattern reads that file
    bool allSio = isWild && !want.empty();
    for (auto& w : want) {
      allSio = allSio && w.ends_with(".sio") && fs::is_regular_file(w);
    }
    if (allSio || (!isWild && t.sio.count(pat))) {
      const auto& files = isWild ? want : Strs{pat};
      try {
        auto rd = podio::makeReader(pat);
        auto it = t.sio.find(fs::relative(files[0], dir).string());
        if (check(files.size() == 1, "reader:one-of-several-files", pat) && it != t.sio.end()) {
          checkNum(rd.getEntries("events"), it->second, "reader:other-file", pat);
          vf::stat("readers_opened");
        }
      } catch (const std::exception& e) {
        auto it = t.sio.find(fs::relative(files[0], dir).string());
        check(files.size() > 1 || it == t.sio.end(), "reader:pattern-not-read", pat + ": " + e.what());
      }
    } else if (isWild && want.empty()) {
      expectThrow<std::runtime_error>("reader:no-file", [&] { podio::makeReader(pat); });
    }
  }
  vf::stat("trees");
  fs::current_path(top);
  fs::remove_all(dir);
}

int main(int argc, char** argv) {
  return mainImpl(argc, argv, [] {
    if (opts.mode == "plugins") { // the environment decides, see pychecks.plugins
      const auto f = opts.extra["out"];
      setCase(0, "block libraries");
      for (int k = 0; k < 2; ++k) {
        try {
          if (opts.extra["how"] == "reader") {
            podio::SIOReader r;
          } else {
            podio::SIOWriter w(f);
          }
          std::cout << "CREATED" << std::endl;
        } catch (const std::exception& e) {
          std::cout << "EXCEPTION " << e.what() << std::endl;
        }
      }
      return;
    }
    const char* t = std::getenv("TMPDIR");
    const auto top = std::string(t ? t : "/tmp") + "/vffiles." + std::to_string(getpid());
    fs::create_directories(top);
    const auto home = std::getenv("HOME") ? std::string(std::getenv("HOME")) : "/";
    for (uint64_t i = opts.from; i < opts.to && nViolations() < 40; ++i) {
      globCase(i, top);
    }
    setenv("HOME", home.c_str(), 1);
    fs::current_path("/");
    std::error_code ec;
    fs::remove_all(top, ec);
  });
}
