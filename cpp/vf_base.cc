#include "vf_base.h"
#include "vf_leak.h"
#include <csignal>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#define VF_SAN 1
#endif
#endif
namespace vf {
Opts opts;
thread_local bool gFinite = false;
std::atomic<uint64_t> gChecks{0};
namespace {
std::mutex mtx;
std::map<std::string, uint64_t> stats, maxStats;
std::map<std::string, std::unordered_set<uint64_t>> distincts;
std::vector<std::string> samples;
std::map<std::string, int> violKeys;
std::atomic<bool> quiet{false};
uint64_t nViol = 0, nCaseViol = 0, curCase = 0;
std::string caseWhat;
std::vector<std::string> notes;
std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}
void emit(const std::string& line) {
  std::string l = "@VF@" + line + "\n";
  size_t off = 0;
  while (off < l.size()) {
    auto n = ::write(1, l.data() + off, l.size() - off);
    if (n <= 0) {
      _exit(4);
    }
    off += size_t(n);
  }
}
void flushStats() {
  stats["checks"] += gChecks.exchange(0);
  std::string o = "{\"t\":\"stats\",\"stats\":{";
  bool first = true;
  for (auto& [k, v] : stats) {
    o += (first ? "" : ",") + js(k) + ":" + std::to_string(v);
    first = false;
  }
  o += "},\"max\":{";
  first = true;
  for (auto& [k, v] : maxStats) {
    o += (first ? "" : ",") + js(k) + ":" + std::to_string(v);
    first = false;
  }
  o += "},\"distinct\":{";
  first = true;
  for (auto& [k, v] : distincts) {
    o += (first ? "" : ",") + js(k) + ":[";
    bool f2 = true;
    size_t cap = 0;
    for (auto h : v) {
      if (++cap > 50000) {
        break;
      }
      o += (f2 ? "" : ",") + std::to_string(h);
      f2 = false;
    }
    o += "]";
    first = false;
  }
  o += "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    o += (first ? "" : ",") + js(s);
    first = false;
  }
  o += "]}";
  emit(o);
}
} // namespace
uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return h;
}
void violation(const std::string& key, const std::string& detail) {
  std::lock_guard l(mtx);
  ++nViol;
  ++nCaseViol;
  if (violKeys[key]++ < 3) {
    std::string o = "{\"t\":\"violation\",\"key\":" + js(key) + ",\"detail\":" + js(detail.substr(0, 1500)) + ",\"case\":" + std::to_string(curCase) + ",\"what\":" + js(caseWhat) + ",\"ops\":[";
    size_t b = notes.size() > 60 ? notes.size() - 60 : 0;
    for (size_t i = b; i < notes.size(); ++i) {
      o += (i > b ? "," : "") + js(notes[i]);
    }
    emit(o + "]}");
  }
  if (nViol > 200) {
    flushStats();
    emit("{\"t\":\"end\",\"early\":true}");
    _exit(1);
  }
}
void internalError(const std::string& what) {
  std::lock_guard l(mtx);
  emit("{\"t\":\"harness-error\",\"what\":" + js(what) + ",\"case\":" + std::to_string(curCase) + "}");
  _exit(3);
}
void stat(const std::string& n, uint64_t k) {
  if (quiet) {
    return;
  }
  std::lock_guard l(mtx);
  stats[n] += k;
}
void statMax(const std::string& n, uint64_t k) {
  if (quiet) {
    return;
  }
  std::lock_guard l(mtx);
  auto& m = maxStats[n];
  m = std::max(m, k);
}
void distinct(const std::string& n, uint64_t h) {
  if (quiet) {
    return;
  }
  std::lock_guard l(mtx);
  distincts[n].insert(h);
}
void sample(const std::string& t) {
  if (quiet) {
    return;
  }
  std::lock_guard l(mtx);
  if (samples.size() < 5) {
    samples.push_back(t.substr(0, 600));
  }
}
void setCase(uint64_t idx, const std::string& what) {
  std::lock_guard l(mtx);
  curCase = idx;
  caseWhat = what;
  nCaseViol = 0;
  notes.clear();
  // for attribution of crashes
  char b[64];
  int n = snprintf(b, sizeof b, "@VFCASE@%llu\n", (unsigned long long)idx);
  [[maybe_unused]] auto w = ::write(2, b, size_t(n));
}
uint64_t currentCase() { return curCase; }
bool caseFailed() {
  std::lock_guard l(mtx);
  return nCaseViol > 0;
}
uint64_t nViolations() {
  std::lock_guard l(mtx);
  return nViol;
}
void note(const std::string& op) {
  if (quiet) {
    return;
  }
  std::lock_guard l(mtx);
  notes.push_back(op);
}
void clearNotes() {
  std::lock_guard l(mtx);
  notes.clear();
  notes.shrink_to_fit();
}
std::string recentNotes(size_t n) {
  std::lock_guard l(mtx);
  std::string s;
  for (size_t i = notes.size() > n ? notes.size() - n : 0; i < notes.size(); ++i) {
    s += notes[i] + "; ";
  }
  return s;
}
void setQuiet(bool q) { quiet = q; }
size_t allocatedBytes() {
#ifdef VF_SAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
// the operations that led to the end of the process
static void lastWords() {
  static std::atomic<bool> once{false};
  if (once.exchange(true) || !mtx.try_lock()) {
    return;
  }
  std::string s = "\n@VFNOTES@ ";
  for (size_t i = notes.size() > 40 ? notes.size() - 40 : 0; i < notes.size(); ++i) {
    s += notes[i].substr(0, 200) + "; ";
  }
  s += "\n";
  mtx.unlock();
  (void)!write(2, s.data(), s.size());
}
int mainImpl(int argc, char** argv, const std::function<void()>& run) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto eq = a.find('=');
    std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "prop") opts.prop = v;
    else if (k == "tier") opts.tier = v;
    else if (k == "mode") opts.mode = v;
    else if (k == "seed") opts.seed = strtoull(v.c_str(), nullptr, 0);
    else if (k == "from") opts.from = strtoull(v.c_str(), nullptr, 0);
    else if (k == "to") opts.to = strtoull(v.c_str(), nullptr, 0);
    else opts.extra[k] = v;
  }
#ifdef VF_SAN
  __sanitizer_set_death_callback(lastWords);
#endif
  std::signal(SIGABRT, [](int) {
    lastWords();
    std::signal(SIGABRT, SIG_DFL);
    std::raise(SIGABRT);
  });
  try {
    run();
  } catch (const std::exception& e) {
    violation("uncaught-exception", e.what());
  }
  std::lock_guard l(mtx);
  flushStats();
  emit("{\"t\":\"end\",\"early\":false}");
  return nViol ? 1 : 0;
}
} // namespace vf
