#pragma once
#include <stdexcept>
#include <string>
namespace sio {
enum class error_code { no_error, not_open, eof, no_marker, bad_state, out_of_range, compress_error, not_found, invalid_argument, io_failure };
class exception : public std::runtime_error {
public:
  exception(error_code c, const std::string& m) : std::runtime_error(m), code(c) {
  }
  error_code code;
};
} // namespace sio
#define SIO_THROW(c, m) throw sio::exception(c, m)
