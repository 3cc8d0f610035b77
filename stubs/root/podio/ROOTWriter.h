// Stand-in: ROOT is not installed here. Only what was asked for is known.
#pragma once
#include "podio/Frame.h"
namespace podio {
struct ROOTWriter {
  explicit ROOTWriter(const std::string&) {
    throw std::logic_error("ROOTWriter");
  }
  void writeFrame(const Frame&, std::string_view, const std::vector<std::string>&) {
  }
  void finish() {
  }
};
} // namespace podio
