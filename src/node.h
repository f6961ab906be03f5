// Generic tree used to compare what the parser under test produced with what the reference parser says.
// Both sides are converted to this form independently; the serialiser sorts attributes by name.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <utility>
#include <vector>

struct N {
  const char* kind;
  std::vector<std::pair<const char*, std::string>> a;
  std::vector<std::pair<const char*, N*>> c;
  void set(const char* k, const std::string& v) { a.emplace_back(k, v); }
  void seti(const char* k, int64_t v) { a.emplace_back(k, std::to_string(v)); }
  void kid(const char* k, N* v) { if (v) c.emplace_back(k, v); }
};

struct Arena {
  std::deque<N> nodes;
  N* mk(const char* kind) { nodes.emplace_back(); nodes.back().kind = kind; return &nodes.back(); }
  void clear() { nodes.clear(); }
};

inline std::string quoteBytes(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char ch : s) {
    if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') o += ch;
    else { snprintf(b, sizeof b, "\\%02x", ch); o += b; }
  }
  return o + "\"";
}
inline std::string hexDouble(double d) {
  char b[64];
  snprintf(b, sizeof b, "%a", d);
  return b;
}

// Iterative on the left spine is not needed: dumps are only taken of moderately deep trees.
inline void serialise(const N* n, std::string& out) {
  out += '(';
  out += n->kind;
  if (!n->a.empty()) {
    std::vector<size_t> ix(n->a.size());
    for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
    std::stable_sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return strcmp(n->a[x].first, n->a[y].first) < 0; });
    for (size_t i : ix) { out += ' '; out += n->a[i].first; out += '='; out += n->a[i].second; }
  }
  if (!n->c.empty()) {
    std::vector<size_t> ix(n->c.size());
    for (size_t i = 0; i < ix.size(); i++) ix[i] = i;
    std::stable_sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return strcmp(n->c[x].first, n->c[y].first) < 0; });
    for (size_t i : ix) { out += ' '; out += n->c[i].first; out += ':'; serialise(n->c[i].second, out); }
  }
  out += ')';
}
inline std::string ser(const N* n) { std::string s; if (n) serialise(n, s); return s; }
