#pragma once
#include <cstdint>
#include <string>
namespace vf {
// MurmurHash3_x86_32, seed 0, written from the published algorithm
inline uint32_t refCollID(const std::string& key) {
  auto rotl = [](uint32_t x, int8_t k) { return (x << k) | (x >> (32 - k)); };
  uint32_t h = 0;
  const size_t n = key.size();
  auto mixk = [&](uint32_t k) {
    k *= 0xcc9e2d51u;
    k = rotl(k, 15);
    return k * 0x1b873593u;
  };
  size_t i = 0;
  for (; i + 4 <= n; i += 4) {
    uint32_t k = 0;
    for (size_t j = 0; j < 4; ++j) {
      k |= uint32_t((unsigned char)key[i + j]) << (8 * j);
    }
    h ^= mixk(k);
    h = rotl(h, 13);
    h = h * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  for (size_t j = i; j < n; ++j) {
    k |= uint32_t((unsigned char)key[j]) << (8 * (j - i));
  }
  if (n > i) {
    h ^= mixk(k);
  }
  h ^= uint32_t(n);
  h ^= h >> 16;
  h *= 0x85ebca6bu;
  h ^= h >> 13;
  h *= 0xc2b2ae35u;
  h ^= h >> 16;
  return h;
}
} // namespace vf
