// A small stand-in for the SIO library (https://github.com/iLCSoft/SIO), which is not installed here: the part of its
// interface that podio uses, with the record and block structure of SIO files. Every access outside of a buffer throws.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sio {
using version_type = uint32_t;
using options_type = uint32_t;
using byte = char;
using size_type = std::size_t;
using index_type = std::size_t;
using ifstream = std::ifstream;
using ofstream = std::ofstream;
static constexpr std::size_t kbyte = 1024;
static constexpr std::size_t mbyte = 1024 * 1024;
static constexpr std::size_t max_record_info_len = 256; // header and name
static constexpr uint32_t record_marker = 0xabadcafe;
static constexpr uint32_t block_marker = 0xdeadbeef;
class block;
using block_list = std::vector<std::shared_ptr<block>>;

struct record_info {
  ifstream::pos_type _file_start{0};
  ifstream::pos_type _file_end{0};
  uint32_t _header_length{0};
  options_type _options{0};
  uint32_t _data_length{0};
  uint32_t _uncompressed_length{0};
  std::string _name{};
};
} // namespace sio
#include "exception.h"
