#pragma once
#include "buffer.h"
#include <algorithm>
#include <bit>
namespace sio {
namespace detail {
  template <class T>
  T swapped(T v) {
    if constexpr (sizeof(T) > 1) {
      byte b[sizeof(T)];
      std::memcpy(b, &v, sizeof(T));
      std::reverse(b, b + sizeof(T));
      std::memcpy(&v, b, sizeof(T));
    }
    return v;
  }
  template <class T>
  concept number = std::is_arithmetic_v<T>;
} // namespace detail

class write_device {
  std::vector<byte> m_b{};

public:
  size_type position() const {
    return m_b.size();
  }
  std::vector<byte>& bytes() {
    return m_b;
  }
  void raw(const void* p, size_type n) {
    const auto* c = static_cast<const byte*>(p);
    m_b.insert(m_b.end(), c, c + n);
    while (m_b.size() % 4) { // everything is aligned to four bytes
      m_b.push_back(0);
    }
  }
  template <class T>
  void data(const T& v) {
    static_assert(std::is_trivially_copyable_v<T>);
    if constexpr (detail::number<T>) {
      const T w = detail::swapped(v);
      raw(&w, sizeof w);
    } else {
      raw(&v, sizeof v);
    }
  }
  void data(const std::string& s) {
    data(uint32_t(s.size()));
    raw(s.data(), s.size());
  }
  template <class T>
  void data(const std::vector<T>& v) {
    data(uint32_t(v.size()));
    for (const auto& x : v) {
      data(x);
    }
  }
  template <class T>
  void data(T* p, size_type n) {
    if constexpr (sizeof(T) == 1) {
      raw(p, n);
    } else {
      for (size_type i = 0; i < n; ++i) {
        data(p[i]);
      }
    }
  }
};

class read_device {
  buffer_span m_s;
  size_type m_pos{0};

public:
  explicit read_device(buffer_span s) : m_s(s) {
  }
  size_type position() const {
    return m_pos;
  }
  size_type left() const {
    return m_s.size() - m_pos;
  }
  void raw(void* p, size_type n) {
    const auto padded = (n + 3) / 4 * 4;
    auto sub = m_s.subspan(m_pos, padded);
    if (n) {
      std::memcpy(p, sub.data(), n);
    }
    m_pos += padded;
  }
  template <class T>
  void data(T& v) {
    static_assert(std::is_trivially_copyable_v<T>);
    raw(&v, sizeof v);
    if constexpr (detail::number<T>) {
      v = detail::swapped(v);
    }
  }
  void data(std::string& s) {
    uint32_t n{};
    data(n);
    m_s.subspan(m_pos, n);
    s.resize(n);
    raw(s.data(), n);
  }
  template <class T>
  void data(std::vector<T>& v) {
    uint32_t n{};
    data(n);
    m_s.subspan(m_pos, n); // at least one byte each
    v.resize(n);
    for (auto& x : v) {
      data(x);
    }
  }
  template <class T>
  void data(T* p, size_type n) {
    if constexpr (sizeof(T) == 1) {
      raw(p, n);
    } else {
      for (size_type i = 0; i < n; ++i) {
        data(p[i]);
      }
    }
  }
};
} // namespace sio
