#include "reflex.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <cerrno>

static const std::unordered_map<std::string, int>& kwMap() {
  static const std::unordered_map<std::string, int> m = {
#define X(n) {#n, K_##n},
      VF_KEYWORDS(X)
#undef X
  };
  return m;
}
int keywordOf(const std::string& w) {
  if (w.size() > 16) return 0;
  std::string u = w;
  for (auto& c : u) if (c >= 'a' && c <= 'z') c -= 32;
  auto it = kwMap().find(u);
  return it == kwMap().end() ? 0 : it->second;
}
const std::vector<int>& allKeywords() {
  static const std::vector<int> v = {
#define X(n) K_##n,
      VF_KEYWORDS(X)
#undef X
  };
  return v;
}
const char* tokName(int k) {
  switch (k) {
    case T_EOF: return "<end>";
    case T_ID: return "IDENTIFIER";
    case T_STR: return "STRING";
    case T_INT: return "INTVAL";
    case T_FLOAT: return "FLOATVAL";
    case T_EQEQ: return "EQUALS";
    case T_NE: return "NOTEQUALS";
    case T_LE: return "LESSEQ";
    case T_GE: return "GREATEREQ";
    case T_CONCAT: return "CONCAT";
    case T_CURRENT_ROW: return "CURRENT_ROW";
    case T_CHARACTER_VARYING: return "CHARACTER_VARYING";
    case T_INVALID: return "<invalid>";
#define X(n) case K_##n: return #n;
      VF_KEYWORDS(X)
#undef X
  }
  static thread_local char b[2];
  b[0] = (char)k; b[1] = 0;
  return b;
}

static bool alpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static bool word(unsigned char c) { return alpha(c) || digit(c) || c == '_'; }
static bool blank(unsigned char c) { return c == ' ' || c == '\t' || c == '\n'; }

static bool ieq(const std::string& t, size_t p, const char* w) {
  for (; *w; ++w, ++p) {
    if (p >= t.size()) return false;
    char c = t[p];
    if (c >= 'a' && c <= 'z') c -= 32;
    if (c != *w) return false;
  }
  return true;
}

void refLex(const std::string& t, LexOut& o, bool stopAtInvalid) {
  o.t.clear();
  o.flags = 0;
  o.hasInvalid = false;
  o.comments = 0;
  size_t p = 0, n = t.size();
  int line = 0, col = 0;
  size_t lineStart = 0;
  o.lastLexemeStart = 0; o.lastLexLine = o.lastLexCol = 0;
  auto adv = [&](size_t to) {
    for (; p < to; ++p) {
      if (t[p] == '\n') { line++; lineStart = p + 1; }
    }
    col = (int)(p - lineStart);
  };
  auto lexeme = [&]() { o.lastLexemeStart = p; o.lastLexLine = line; o.lastLexCol = col; };
  while (p < n) {
    lexeme();
    unsigned char c = t[p];
    if (blank(c)) {
      size_t q = p;
      while (q < n && blank(t[q])) q++;
      adv(q);
      continue;
    }
    if (c == '-' && p + 1 < n && t[p + 1] == '-') {
      size_t q = p;
      while (q < n && t[q] != '\n') q++;
      o.comments++;
      adv(q);
      continue;
    }
    Tok k;
    k.b = p; k.line = line; k.col = col;
    size_t e = p + 1;
    if (alpha(c)) {
      size_t q = p;
      while (q < n && word(t[q])) q++;
      std::string w = t.substr(p, q - p);
      const char* second = nullptr; const char* first = nullptr; int two = 0;
      if (w.size() == 7 && ieq(t, p, "CURRENT")) { first = "CURRENT"; second = "ROW"; two = T_CURRENT_ROW; }
      if (w.size() == 9 && ieq(t, p, "CHARACTER")) { first = "CHARACTER"; second = "VARYING"; two = T_CHARACTER_VARYING; }
      (void)first;
      bool done = false;
      if (two) {
        size_t r = q;
        while (r < n && blank(t[r])) r++;
        if (r > q && ieq(t, r, second)) {
          size_t s = r + strlen(second);
          if (s < n && word(t[s])) o.flags |= LF_TWOWORD_PREFIX;
          else { k.kind = two; e = s; done = true; }
        }
      }
      if (!done) {
        int kw = keywordOf(w);
        e = q;
        if (kw) k.kind = kw;
        else { k.kind = T_ID; k.s = w; }
      }
    } else if (digit(c) || (c == '.' && p + 1 < n && digit(t[p + 1]))) {
      size_t q = p;
      while (q < n && digit(t[q])) q++;
      bool fl = false;
      if (q < n && t[q] == '.') { fl = true; q++; while (q < n && digit(t[q])) q++; }
      e = q;
      std::string w = t.substr(p, q - p);
      if (fl) { k.kind = T_FLOAT; k.f = strtod(w.c_str(), nullptr); }
      else {
        // exact decimal value, independent of strtoll
        unsigned __int128 v = 0; bool big = false;
        for (char d : w) { v = v * 10 + (d - '0'); if (v > (unsigned __int128)INT64_MAX) { big = true; break; } }
        if (big) { k.kind = T_INVALID; k.bad = BAD_INT; }
        else { k.kind = T_INT; k.i = (int64_t)v; }
      }
    } else if (c == '-' && t.compare(p, 20, "-9223372036854775808") == 0) {
      unsigned char nx = p + 20 < n ? t[p + 20] : 0;
      if (digit(nx) || nx == '.') { o.flags |= LF_LLMIN_PREFIX; k.kind = '-'; }
      else { k.kind = T_INT; k.i = INT64_MIN; e = p + 20; }
    } else if (c == '\'') {
      size_t q = p + 1; bool closed = false;
      while (q < n) {
        if (t[q] == '\'') {
          if (q + 1 < n && t[q + 1] == '\'') { k.s += '\''; q += 2; continue; }
          closed = true; q++; break;
        }
        if (t[q] == '\0') break;
        k.s += t[q++];
      }
      e = q;
      if (closed) k.kind = T_STR;
      else { k.kind = T_INVALID; k.bad = BAD_STRING; if (e < n) e++; }
    } else if (c == '"') {
      size_t q = p + 1;
      while (q < n && t[q] != '"' && t[q] != '\n' && t[q] != '\0') q++;
      if (q < n && t[q] == '"' && q > p + 1) { k.kind = T_ID; k.s = t.substr(p + 1, q - p - 1); e = q + 1; }
      else { k.kind = T_INVALID; k.bad = BAD_QUOTE; }
    } else {
      unsigned char d = p + 1 < n ? t[p + 1] : 0;
      if (c == '=' && d == '=') { k.kind = T_EQEQ; e = p + 2; }
      else if ((c == '!' && d == '=') || (c == '<' && d == '>')) { k.kind = T_NE; e = p + 2; }
      else if (c == '<' && d == '=') { k.kind = T_LE; e = p + 2; }
      else if (c == '>' && d == '=') { k.kind = T_GE; e = p + 2; }
      else if (c == '|' && d == '|') { k.kind = T_CONCAT; e = p + 2; }
      else if (c && strchr("-+*/(){},.;<>=^%:?[]|", c)) { k.kind = c; }
      else { k.kind = T_INVALID; k.bad = BAD_CHAR; }
    }
    adv(e);
    k.e = e; k.endLine = line; k.endCol = col;
    if (k.kind == T_INVALID && !o.hasInvalid) { o.hasInvalid = true; o.firstInvalid = o.t.size(); }
    o.t.push_back(std::move(k));
    if (o.hasInvalid && stopAtInvalid) break;
  }
  if (p >= n) { o.endLine = line; o.endCol = col; }
  Tok z;
  z.kind = T_EOF; z.b = z.e = n; z.line = z.endLine = line; z.col = z.endCol = col;
  o.t.push_back(z);
  o.endLine = line; o.endCol = col;
}
