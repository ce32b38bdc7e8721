// Deterministic PRNG (splitmix64 / xoshiro-like), independent of the standard library's distributions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace sim {
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }
inline uint64_t hash3(uint64_t a, uint64_t b, uint64_t c) { return hash2(hash2(a, b), c); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5a5a1234beefull)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // geometric-ish small number
  uint64_t small(uint64_t max) { uint64_t b = below(8); uint64_t m = max >> b; return below(m + 1); }
};
struct Fnv {
  uint64_t h = 1469598103934665603ull;
  void byte(uint8_t b) { h = (h ^ b) * 1099511628211ull; }
  void bytes(const void *p, size_t n) { auto q = (const uint8_t *)p; for (size_t i = 0; i < n; ++i) byte(q[i]); }
  void u64(uint64_t v) { for (int i = 0; i < 8; ++i) byte((uint8_t)(v >> (8 * i))); }
  void str(const std::string &s) { u64(s.size()); bytes(s.data(), s.size()); }
};
} // namespace sim
