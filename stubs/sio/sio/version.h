#pragma once
#include "definitions.h"
namespace sio {
struct version {
  static constexpr version_type encode_version(uint16_t major, uint16_t minor) {
    return (version_type(major) << 16) | minor;
  }
  static constexpr uint16_t major_version(version_type v) {
    return uint16_t(v >> 16);
  }
  static constexpr uint16_t minor_version(version_type v) {
    return uint16_t(v & 0xffff);
  }
};
} // namespace sio
