#pragma once
#include "io_device.h"
#include "version.h"
namespace sio {
class block {
  std::string m_name;
  version_type m_version;

public:
  block() = delete;
  block(const std::string& n, version_type v) : m_name(n), m_version(v) {
  }
  block(const block&) = default;
  block& operator=(const block&) = default;
  virtual ~block() = default;
  const std::string& name() const {
    return m_name;
  }
  version_type version() const {
    return m_version;
  }
  virtual void read(read_device& device, version_type vers) = 0;
  virtual void write(write_device& device) = 0;
};
} // namespace sio
#include "api.h"
