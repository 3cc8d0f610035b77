// Leak monitor: a history repeated must not leave more memory allocated.
#pragma once
#include "vf_base.h"
namespace vf {
size_t allocatedBytes(); // currently allocated, as counted by the sanitizer's allocator
void setQuiet(bool q);   // no statistics or notes (they allocate)
template <class F>
void leakCheck(const std::string& what, F&& f) {
  f(); // with statistics; also warms caches up
  if (caseFailed()) {
    return;
  }
  clearNotes();
  setQuiet(true);
  f();
  size_t b[4];
  b[0] = allocatedBytes();
  for (int i = 1; i < 4; ++i) {
    f();
    b[i] = allocatedBytes();
  }
  setQuiet(false);
  gChecks.fetch_add(1);
  stat("leak_checks");
  if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2]) {
    violation("leak:" + what, "every repetition of the history leaves " + std::to_string(b[3] - b[2]) + " bytes more allocated");
  }
}
} // namespace vf
