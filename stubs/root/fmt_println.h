// The {fmt} library here is older than the one podio's tools are written for: the missing println
#pragma once
#include <fmt/core.h>
#include <fmt/ostream.h>
#if FMT_VERSION < 100000
  #include <cstdio>
namespace fmt {
template <typename... T>
void println(std::FILE* f, format_string<T...> fs, T&&... args) {
  fmt::print(f, "{}\n", fmt::format(fs, std::forward<T>(args)...));
}
template <typename... T>
void println(format_string<T...> fs, T&&... args) {
  fmt::println(stdout, fs, std::forward<T>(args)...);
}
} // namespace fmt
#endif
