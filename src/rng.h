#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Rng {
  uint64_t s[4];
  static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = sm(seed); }
  uint64_t next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  size_t below(size_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below(b - a + 1); }
  bool chance(unsigned num, unsigned den) { return next() % den < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline uint64_t hashBytes(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h;
}
