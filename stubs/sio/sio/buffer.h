#pragma once
#include "definitions.h"
namespace sio {
class buffer_span {
  const byte* m_p{nullptr};
  size_type m_n{0};

public:
  buffer_span() = default;
  buffer_span(const byte* p, size_type n) : m_p(p), m_n(n) {
  }
  const byte* data() const {
    return m_p;
  }
  size_type size() const {
    return m_n;
  }
  buffer_span subspan(size_type start, size_type count) const {
    if (start > m_n || count > m_n - start) {
      SIO_THROW(error_code::out_of_range, "span out of range");
    }
    return {m_p + start, count};
  }
};
class buffer {
public:
  using container = std::vector<byte>;
  buffer() = delete;
  explicit buffer(size_type n) : m_b(n) {
  }
  buffer(container&& b) : m_b(std::move(b)) {
  }
  buffer(const buffer&) = delete;
  buffer& operator=(const buffer&) = delete;
  buffer(buffer&&) = default;
  buffer& operator=(buffer&&) = default;
  byte* data() {
    return m_b.data();
  }
  const byte* data() const {
    return m_b.data();
  }
  size_type size() const {
    return m_b.size();
  }
  void resize(size_type n) {
    m_b.resize(n);
    m_b.shrink_to_fit();
  }
  buffer_span span() const {
    return {m_b.data(), m_b.size()};
  }
  buffer_span span(size_type start, size_type count) const {
    return span().subspan(start, count);
  }

private:
  container m_b;
};
} // namespace sio
