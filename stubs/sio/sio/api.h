#pragma once
#include "block.h"
#include "compression/zlib.h"
#include <algorithm>
namespace sio {
struct api {
  static void header(write_device& d, const record_info& i) {
    d.data(i._header_length);
    d.data(record_marker);
    d.data(i._options);
    d.data(i._data_length);
    d.data(i._uncompressed_length);
    d.data(i._name);
  }
  static record_info write_record(const std::string& name, buffer& buf, const block_list& blocks, options_type opts) {
    write_device data;
    for (const auto& b : blocks) {
      if (!b) {
        SIO_THROW(error_code::bad_state, "null block in record " + name);
      }
      write_device d;
      b->write(d);
      data.data(block_marker);
      data.data(b->version());
      data.data(b->name());
      data.data(uint32_t(d.bytes().size()));
      data.raw(d.bytes().data(), d.bytes().size());
    }
    record_info i;
    i._name = name;
    i._options = opts;
    i._data_length = i._uncompressed_length = data.bytes().size();
    for (int k = 0; k < 2; ++k) { // now the length of the header is known
      write_device h;
      header(h, i);
      i._header_length = h.bytes().size();
      if (k) {
        auto all = std::move(h.bytes());
        all.insert(all.end(), data.bytes().begin(), data.bytes().end());
        buf = buffer(std::move(all));
      }
    }
    if (i._header_length > max_record_info_len) {
      SIO_THROW(error_code::invalid_argument, "name of record too long");
    }
    return i;
  }
  template <class C>
  static void compress_record(record_info& i, buffer& in, buffer& out, C& comp) {
    comp.compress(in.span(i._header_length, i._data_length), out);
    i._data_length = out.size();
    i._options |= 1;
    write_device h;
    header(h, i);
    std::copy(h.bytes().begin(), h.bytes().end(), in.data());
  }
  static void write_record(ofstream& s, const buffer_span& all, record_info& i) {
    write_record(s, all.subspan(0, i._header_length), all.subspan(i._header_length, i._data_length), i);
  }
  static void write_record(ofstream& s, const buffer_span& head, const buffer_span& data, record_info& i) {
    if (!s.is_open()) {
      SIO_THROW(error_code::not_open, "stream is not open");
    }
    i._file_start = s.tellp();
    s.write(head.data(), head.size());
    s.write(data.data(), data.size());
    if (!s.good()) {
      SIO_THROW(error_code::io_failure, "cannot write record");
    }
    i._file_end = s.tellp();
  }
  static void read_record_info(ifstream& s, record_info& i, buffer& buf) {
    if (!s.is_open()) {
      SIO_THROW(error_code::not_open, "stream is not open");
    }
    i._file_start = s.tellg();
    s.read(buf.data(), 8);
    if (!s.good()) {
      SIO_THROW(error_code::eof, "end of file");
    }
    read_device d(buf.span(0, 8));
    uint32_t marker{};
    d.data(i._header_length);
    d.data(marker);
    if (marker != record_marker || i._header_length > buf.size() || i._header_length < 24) {
      SIO_THROW(error_code::no_marker, "no record marker");
    }
    s.read(buf.data() + 8, i._header_length - 8);
    if (!s.good()) {
      SIO_THROW(error_code::eof, "end of file in record header");
    }
    read_device r(buf.span(8, i._header_length - 8));
    r.data(i._options);
    r.data(i._data_length);
    r.data(i._uncompressed_length);
    r.data(i._name);
  }
  static void read_record_data(ifstream& s, record_info& i, buffer& buf) {
    buf.resize(i._data_length);
    s.seekg(i._file_start + ifstream::pos_type(i._header_length));
    s.read(buf.data(), i._data_length);
    if (!s.good()) {
      SIO_THROW(error_code::eof, "end of file in record");
    }
    i._file_end = s.tellg();
  }
  static void go_to_record(ifstream& s, const std::string& name) {
    while (true) {
      record_info i;
      buffer b(max_record_info_len);
      read_record_info(s, i, b);
      if (i._name == name) {
        s.seekg(i._file_start);
        return;
      }
      s.seekg(i._file_start + ifstream::pos_type(i._header_length) + ifstream::pos_type(i._data_length));
    }
  }
  static void read_blocks(const buffer_span& span, const block_list& blocks) {
    read_device d(span);
    while (d.left()) {
      uint32_t marker{}, len{};
      version_type v{};
      std::string name;
      d.data(marker);
      if (marker != block_marker) {
        SIO_THROW(error_code::no_marker, "no block marker");
      }
      d.data(v);
      d.data(name);
      d.data(len);
      const auto sub = span.subspan(d.position(), len);
      auto it = std::find_if(blocks.begin(), blocks.end(), [&](const auto& b) { return b && b->name() == name; });
      if (it != blocks.end()) {
        read_device r(sub);
        (*it)->read(r, v);
      }
      std::vector<byte> skip(len);
      d.raw(skip.data(), len);
    }
  }
};
} // namespace sio
