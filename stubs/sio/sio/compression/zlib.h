#pragma once
#include "../buffer.h"
#include <zlib.h>
namespace sio {
class zlib_compression {
  int m_level{-1};

public:
  void set_level(int l) {
    m_level = l;
  }
  void uncompress(const buffer_span& in, buffer& out) {
    uLongf n = out.size();
    byte none{};
    if (::uncompress(reinterpret_cast<Bytef*>(out.size() ? out.data() : &none), &n, reinterpret_cast<const Bytef*>(in.data()), in.size()) != Z_OK || n != out.size()) {
      SIO_THROW(error_code::compress_error, "cannot uncompress buffer");
    }
  }
  void compress(const buffer_span& in, buffer& out) {
    uLongf n = compressBound(in.size());
    out.resize(n);
    if (::compress2(reinterpret_cast<Bytef*>(out.data()), &n, reinterpret_cast<const Bytef*>(in.data()), in.size(), m_level) != Z_OK) {
      SIO_THROW(error_code::compress_error, "cannot compress buffer");
    }
    out.resize(n);
  }
};
} // namespace sio
