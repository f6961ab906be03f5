#include "gen.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>

// ------------------------------------------------------------------ dictionary
void Dict::load(const char* path) {
  FILE* f = fopen(path, "rb");
  if (!f) return;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    if (s.size() < 3) continue;
    std::string v = s.substr(2);
    if (s[0] == 'w') words.push_back(v);
    if (s[0] == 'W') { words.push_back(v); hotWords.push_back(v); }
    if (s[0] == 'n') nums.push_back(strtoull(v.c_str(), nullptr, 10));
    if (s[0] == 'N') { nums.push_back(strtoull(v.c_str(), nullptr, 10)); hotNums.push_back(nums.back()); }
  }
  fclose(f);
}

// ------------------------------------------------------------------ grammar text
namespace {
enum ItemKind { IT_TOK, IT_NT, IT_SPECIAL, IT_REP };
enum Special { S_ID, S_STR, S_INT, S_FLT, S_FT, S_TBLFT, S_COPTS, S_CONS, S_DATESTR, S_IVNUM, S_IVFULL, S_NULLSORD, S_PARAM, S_SQLSTR };
struct Item { ItemKind k; int v; std::vector<Item> rep; };
struct Alt { std::vector<Item> items; int weight; int height; };
struct Rule { std::string name; std::vector<Alt> alts; int total; int height; };

struct Grammar {
  std::vector<Rule> rules;
  std::map<std::string, int> ix;
  std::vector<std::string> names;
  static int special(const std::string& s) {
    static const std::map<std::string, int> m = {{"ID", S_ID}, {"STR", S_STR}, {"INT", S_INT}, {"FLT", S_FLT}, {"FT", S_FT}, {"TBLFT", S_TBLFT},
      {"COPTS", S_COPTS}, {"CONS", S_CONS}, {"DATESTR", S_DATESTR}, {"IVNUM", S_IVNUM}, {"IVFULL", S_IVFULL}, {"NULLSORD", S_NULLSORD},
      {"PARAM", S_PARAM}, {"SQLSTR", S_SQLSTR}};
    auto it = m.find(s);
    return it == m.end() ? -1 : it->second;
  }
  static int term(const std::string& s) {
    if (s == "INT_") return K_INT;
    if (s == "CURRENT_ROW") return T_CURRENT_ROW;
    if (s == "CHARACTER_VARYING") return T_CHARACTER_VARYING;
    if (s == "CONCAT") return T_CONCAT;
    if (s == "EQUALS") return T_EQEQ;
    if (s == "NOTEQUALS") return T_NE;
    if (s == "LESSEQ") return T_LE;
    if (s == "GREATEREQ") return T_GE;
    return keywordOf(s);
  }
  Grammar() {
    static const char* txt =
#include "grammar.inc"
        ;
    std::vector<std::string> w;
    for (const char* p = txt; *p;) {
      if (isspace((unsigned char)*p)) { p++; continue; }
      const char* q = p;
      if (*p == '\'') { q = strchr(p + 1, '\'') + 1; }
      else while (*q && !isspace((unsigned char)*q)) q++;
      w.emplace_back(p, q - p);
      p = q;
    }
    for (size_t i = 0; i + 1 < w.size(); i++)
      if (w[i + 1] == "=") { ix[w[i]] = rules.size(); names.push_back(w[i]); rules.push_back({w[i], {}, 0, 1 << 20}); }
    size_t i = 0;
    int cur = -1;
    std::function<Item(size_t&)> item = [&](size_t& k) -> Item {
      const std::string& s = w[k];
      if (s == "{") {
        Item it{IT_REP, 0, {}};
        k++;
        while (w[k] != "}") it.rep.push_back(item(k));
        k++;
        return it;
      }
      k++;
      if (s[0] == '\'') return {IT_TOK, s[1], {}};
      auto f = ix.find(s);
      if (f != ix.end()) return {IT_NT, f->second, {}};
      int sp = special(s);
      if (sp >= 0) return {IT_SPECIAL, sp, {}};
      int t = term(s);
      if (!t) { fprintf(stderr, "grammar: unknown symbol %s\n", s.c_str()); abort(); }
      return {IT_TOK, t, {}};
    };
    while (i < w.size()) {
      cur = ix[w[i]];
      i += 2;
      Alt a{{}, 1, 0};
      for (;;) {
        if (w[i] == ";" || w[i] == "|") {
          rules[cur].alts.push_back(a);
          a = Alt{{}, 1, 0};
          if (w[i++] == ";") break;
        } else if (w[i][0] == '@') a.weight = atoi(w[i++].c_str() + 1);
        else a.items.push_back(item(i));
      }
      for (auto& x : rules[cur].alts) rules[cur].total += x.weight;
    }
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto& r : rules) {
        int best = 1 << 20;
        for (auto& a : r.alts) {
          int h = 0;
          for (auto& it : a.items) if (it.k == IT_NT) h = std::max(h, rules[it.v].height + 1);
          a.height = h;
          best = std::min(best, h);
        }
        if (best < r.height) { r.height = best; ch = true; }
      }
    }
  }
};
const Grammar& G() { static const Grammar g; return g; }
}  // namespace

const std::vector<std::string>& grammarSymbols() { return G().names; }

GTok kw(int k) {
  if (k == T_CURRENT_ROW) return {k, "CURRENT ROW"};
  if (k == T_CHARACTER_VARYING) return {k, "CHARACTER VARYING"};
  if (k == T_CONCAT) return {k, "||"};
  if (k == T_EQEQ) return {k, "=="};
  if (k == T_NE) return {k, "<>"};
  if (k == T_LE) return {k, "<="};
  if (k == T_GE) return {k, ">="};
  return {k, tokName(k)};
}
std::string quoteSql(const std::string& c) {
  std::string s = "'";
  for (char x : c) { s += x; if (x == '\'') s += '\''; }
  return s + "'";
}

// ------------------------------------------------------------------ leaves
static std::string caseMix(const std::string& s, Rng& r) {
  std::string o = s;
  int m = (int)r.below(3);
  for (auto& c : o) {
    bool up = m == 0 ? false : m == 1 ? true : r.chance(1, 2);
    if (c >= 'a' && c <= 'z' && up) c -= 32;
    else if (c >= 'A' && c <= 'Z' && !up) c += 32;
  }
  return o;
}
static size_t oddLength(Rng& r, const Dict& d) {
  static const size_t pw[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025};
  switch (r.below(5)) {
    case 0: if (!d.hotNums.empty()) { uint64_t n = r.pick(d.hotNums); if (n < 20000) return n + r.below(3) - (n ? 1 : 0); } [[fallthrough]];
    case 1: return pw[r.below(sizeof pw / sizeof *pw)];
    case 2: return r.below(40);
    case 3: return r.below(300);
    default: return r.chance(1, 12) ? 2000 + r.below(20000) : r.below(80);
  }
}
std::string Gen::ident() {
  uniq++;
  std::string u = std::to_string(uniq);
  if (o.plainNames) return "nm" + u + (r.chance(1, 2) ? "X" : "y");
  switch (r.below(24)) {
    default: {
      static const char* pre[] = {"a", "b", "c", "t", "col", "Tab", "X_", "foo", "id", "q", "name", "Z9"};
      return pre[r.below(12)] + u;
    }
    case 0: case 1: return std::string(1, "abcxyztABCXYZ"[r.below(13)]);
    case 2: case 3: {  // quoted
      static const char* q[] = {"with space", "select", "from", "a\"b", "x-y", "t.u", "a;b", "--c", "'s'", "\xc3\xa4\xe2\x82\xac", "?", "1", "A", "order by", "/*", "a'b", "NULL", "*"};
      std::string c = q[r.below(18)];
      if (r.chance(1, 2)) c += u;
      c.erase(std::remove(c.begin(), c.end(), '"'), c.end());
      if (r.chance(1, 12)) { c.clear(); size_t n = 1 + oddLength(r, d); while (c.size() < n) c += (char)(33 + r.below(90)); for (auto& ch : c) if (ch == '"') ch = '_'; }
      return "\"" + c + "\"";
    }
    case 4: {  // words close to keywords, and words with a meaning elsewhere
      const auto& ks = allKeywords();
      std::string k = tokName(ks[r.below(ks.size())]);
      switch (r.below(5)) {
        case 0: k += "s"; break;
        case 1: k = "x" + k; break;
        case 2: k += "_"; break;
        case 3: k += u; break;
        default: k = k.substr(0, k.size() - 1); break;
      }
      k = caseMix(k, r);
      if (keywordOf(k)) k += "_x";
      return k;
    }
    case 5: {
      static const char* special[] = {"nulls", "first", "last", "csv", "tbl", "binary", "bin", "delimiter", "quote", "current", "character", "row", "varying", "auto", "count", "sum", "dummy", "zone"};
      std::string k = caseMix(special[r.below(18)], r);
      return k;
    }
    case 6:
      if (!d.words.empty()) {
        const std::string& w = !d.hotWords.empty() && r.chance(1, 2) ? r.pick(d.hotWords) : r.pick(d.words);
        bool plain = !w.empty() && isalpha((unsigned char)w[0]) && w.size() < 200;
        for (char c : w) plain = plain && (isalnum((unsigned char)c) || c == '_');
        if (plain && !keywordOf(w)) return w;
        if (!w.empty() && w.size() < 200 && w.find('"') == std::string::npos && w.find('\n') == std::string::npos) return "\"" + w + "\"";
      }
      return "w" + u;
    case 7: {
      if (!r.chance(1, 3)) return "i" + u;
      size_t n = 1 + oddLength(r, d);
      std::string s = "L";
      while (s.size() < n) s += "abcdefghijklmnopqrstuvwxyz_0123456789"[r.below(37)];
      return keywordOf(s) ? s + "_x" : s;
    }
  }
}
std::string Gen::strContent() {
  uniq++;
  std::string u = std::to_string(uniq);
  if (o.plainNames) return "str" + u + "v";
  switch (r.below(20)) {
    default: return "s" + u;
    case 0: return "";
    case 1: return std::string(1 + r.below(3), '\'') + (r.chance(1, 2) ? u : "");
    case 2: return "a'b''" + u;
    case 3: return "line1\nline2\n" + u;
    case 4: return "-- not a comment " + u;
    case 5: return "; SELECT " + u + " FROM \"x\"";
    case 6: return "\\n\\'" + u + "\\";
    case 7: return "\xc3\xbc\xff\x80\x01\x7f" + u;
    case 8: {
      std::string s;
      size_t n = oddLength(r, d);
      if (r.chance(1, 2)) { while (s.size() < n) s += (char)('a' + (s.size() + uniq) % 26); }
      else while (s.size() < n) { char c = (char)(1 + r.below(255)); s += c; }
      return s;
    }
    case 9:
      if (!d.words.empty()) return !d.hotWords.empty() && r.chance(1, 2) ? r.pick(d.hotWords) : r.pick(d.words);
      return "";
    case 10: return "%" + u + "_x%";
    case 11: return "test/file" + u + ".csv";
    case 12: return std::to_string(r.range(1990, 2030)) + "-0" + std::to_string(r.range(1, 9)) + "-1" + std::to_string(r.range(0, 9));
  }
}
GTok Gen::strTok(const std::string& c) { return {T_STR, quoteSql(c)}; }

static const char* const kInts[] = {"0", "1", "2", "3", "7", "8", "9", "10", "11", "15", "16", "17", "31", "32", "63", "64", "65", "99", "100", "127", "128", "129", "255", "256", "257",
  "999", "1000", "1023", "1024", "4095", "4096", "9999", "10000", "32767", "32768", "65535", "65536", "99999", "100000", "999999", "1000000", "16777215", "16777216", "16777217", "99999999", "2147483646", "2147483647", "2147483648",
  "2147483649", "4294967294", "4294967295", "4294967296", "4294967297", "9007199254740991", "9007199254740992", "9007199254740993", "999999999999999999", "1000000000000000000",
  "9223372036854775806", "9223372036854775807", "0", "00", "000", "01", "007", "08", "09", "010", "0123", "0777", "0000000000000000000000012", "09223372036854775807"};
std::string Gen::intText() {
  uniq++;
  switch (r.below(o.plainNames ? 1 : 10)) {
    default: return std::to_string(100 + uniq * 7 % 9000);
    case 1: case 2: return kInts[r.below(sizeof kInts / sizeof *kInts)];
    case 3: return std::to_string(r.next() >> (1 + r.below(62)));
    case 4: return std::string(1 + r.below(3), '0') + std::to_string(r.below(100000));
    case 5:
      if (!d.nums.empty()) {
        uint64_t v = !d.hotNums.empty() && r.chance(2, 3) ? r.pick(d.hotNums) : r.pick(d.nums);
        v += r.below(3) - 1;
        if (v <= INT64_MAX) return std::to_string(v);
      }
      return "3";
    case 6: return std::to_string(r.below(13));
  }
}
std::string Gen::floatText() {
  uniq++;
  if (o.plainNames) return std::to_string(uniq % 900 + 1) + ".5";
  switch (r.below(12)) {
    default: return std::to_string(r.below(1000)) + "." + std::to_string(uniq);
    case 0: return std::to_string(r.below(100)) + ".";
    case 1: return "." + std::to_string(r.below(1000));
    case 2: return "0.1";
    case 3: return "." + std::string(r.below(330), '0') + std::to_string(r.below(1000));
    case 4: { std::string s = std::to_string(1 + r.below(9)); s += std::string(r.below(320), '0'); return s + ".0"; }
    case 5: {
      std::string s;
      size_t n = 1 + r.below(40);
      for (size_t i = 0; i < n; i++) s += (char)('0' + r.below(10));
      s += '.';
      n = r.below(40);
      for (size_t i = 0; i < n; i++) s += (char)('0' + r.below(10));
      return s;
    }
    case 6: return "0.0";
    case 7: return "1.7976931348623157" + std::string(5, '0');
    case 8: return "9007199254740993.0";
    case 9: return std::to_string(r.below(100)) + ".5";
    case 10: return "0." + std::string(r.below(20), '9') + "5";
  }
}
size_t Gen::listLen() {
  size_t n = 0;
  if (r.chance(1, 60)) {
    n = r.below(40);
    if (!d.hotNums.empty() && r.chance(1, 2)) { uint64_t h = r.pick(d.hotNums); if (h < 300) n = h + r.below(3); }
    return n;
  }
  while (n < 8 && r.chance(2, 5)) n++;
  return n;
}

GTok spellOf(int kind, Gen& g) {
  switch (kind) {
    case T_ID: return g.idTok();
    case T_STR: return g.strTok(g.strContent());
    case T_INT: return {T_INT, g.intText()};
    case T_FLOAT: return {T_FLOAT, g.floatText()};
    default: return kind < 128 ? GTok{kind, std::string(1, (char)kind)} : kw(kind);
  }
}
GTok Gen::randomTok() {
  static const char punct[] = "-+*/(){},.;<>=^%:?[]|";
  switch (r.below(9)) {
    case 0: return idTok();
    case 1: return strTok(strContent());
    case 2: return {T_INT, intText()};
    case 3: return {T_FLOAT, floatText()};
    case 4: case 5: { char c = punct[r.below(sizeof punct - 1)]; return {c, std::string(1, c)}; }
    case 6: { static const int m[] = {T_EQEQ, T_NE, T_LE, T_GE, T_CONCAT, T_CURRENT_ROW, T_CHARACTER_VARYING}; return kw(m[r.below(7)]); }
    default: return kw(r.pick(allKeywords()));
  }
}

// ------------------------------------------------------------------ derivation
static std::string badOf(const std::string& good, Rng& r) {
  std::string s = good;
  switch (r.below(7)) {
    case 0: s += "x"; break;
    case 1: s = "x" + s; break;
    case 2: s.clear(); break;
    case 3: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
    case 4: if (!s.empty()) s[r.below(s.size())] = " -x/0:9"[r.below(7)]; break;
    case 5: s.insert(r.below(s.size() + 1), 1, "0 -x9+"[r.below(6)]); break;
    case 6: s += " "; break;
  }
  return s;
}
void Gen::emit(int nt, int depth, Toks& out) {
  const Rule& R = G().rules[nt];
  const Alt* a = nullptr;
  if (depth <= 0 || out.size() > o.maxToks) {
    std::vector<const Alt*> c;
    for (auto& x : R.alts) if (x.height <= R.height) c.push_back(&x);
    a = c[r.below(c.size())];
  } else {
    int k = (int)r.below(R.total);
    for (auto& x : R.alts) { k -= x.weight; if (k < 0) { a = &x; break; } }
  }
  auto bad = [&]() { return o.badLit && (int)r.below(100) < o.badLit; };
  std::function<void(const Item&)> put = [&](const Item& it) {
    switch (it.k) {
      case IT_TOK: out.push_back(spellOf(it.v, *this)); break;
      case IT_NT: emit(it.v, depth - 1, out); break;
      case IT_REP: {
        size_t n = depth <= 0 || out.size() > o.maxToks ? 0 : listLen();
        for (size_t i = 0; i < n; i++) for (auto& x : it.rep) put(x);
        break;
      }
      case IT_SPECIAL:
        switch (it.v) {
          case S_ID: out.push_back(idTok()); break;
          case S_STR: out.push_back(strTok(strContent())); break;
          case S_INT: out.push_back({T_INT, intText()}); break;
          case S_FLT: out.push_back({T_FLOAT, floatText()}); break;
          case S_PARAM: if ((int)r.below(6) < o.params) out.push_back({'?', "?"}); else out.push_back({T_INT, intText()}); break;
          case S_FT: {
            static const char* f[] = {"csv", "tbl", "binary", "bin"};
            std::string s = caseMix(f[r.below(4)], r);
            if (bad()) { static const char* b[] = {"csvx", "tb", "tbll", "auto", "bi", "binar", "x", "parquet", "cs", "bina"}; s = b[r.below(10)]; }
            if (r.chance(1, 8)) s = "\"" + s + "\"";
            out.push_back({T_ID, s});
            break;
          }
          case S_TBLFT: {
            std::string s = caseMix("tbl", r);
            if (bad()) { static const char* b[] = {"csv", "tb", "tbls", "bin", "x"}; s = b[r.below(5)]; }
            out.push_back({T_ID, s});
            break;
          }
          case S_DATESTR: {
            char b[40];
            snprintf(b, sizeof b, "%04d-%02d-%02d", r.range(0, 9999), r.range(0, 99), r.range(0, 99));
            std::string s = b;
            if (r.chance(1, 8)) { snprintf(b, sizeof b, "%d-%d-%d", r.range(0, 9999), r.range(0, 12), r.range(0, 31)); s = b; }
            if (bad()) s = badOf(s, r);
            out.push_back(strTok(s));
            break;
          }
          case S_IVNUM: {
            std::string s = std::to_string(r.below(r.chance(1, 2) ? 100 : 2147483648u));
            if (r.chance(1, 6)) s = "-" + s;
            if (r.chance(1, 20)) s = intText();
            if (bad()) s = badOf(s, r);
            out.push_back(strTok(s));
            break;
          }
          case S_IVFULL: {
            static const char* u[] = {"second", "minute", "hour", "day", "month", "year"};
            std::string s = std::to_string(r.below(r.chance(1, 2) ? 100 : 2147483648u)) + (r.chance(1, 4) ? "  " : " ");
            std::string w = u[r.below(6)];
            if (r.chance(1, 2)) w += "s";
            s += caseMix(w, r);
            if (r.chance(1, 8)) s = "-" + s;
            if (bad()) { if (r.chance(1, 3)) { static const char* b[] = {"1 secondss", "1 week", "1 minutesx", "1 day s", "day", "1 d", "1 1", "x day", "1 quarter", "1.5 days"}; s = b[r.below(10)]; } else s = badOf(s, r); }
            out.push_back(strTok(s));
            break;
          }
          case S_NULLSORD: {
            std::string n = caseMix("nulls", r), f = caseMix(r.chance(1, 2) ? "first" : "last", r);
            if (bad()) { if (r.chance(1, 2)) n = r.chance(1, 2) ? "null_" : ident(); else f = r.chance(1, 2) ? "middle" : ident(); }
            out.push_back({T_ID, n});
            out.push_back({T_ID, f});
            break;
          }
          case S_COPTS: {
            // a set of distinct options, or (bad) with repetitions and CSV options next to other formats
            bool b = bad();
            std::vector<int> opt = {0, 1, 2, 3, 4};
            for (size_t i = opt.size(); i > 1; i--) std::swap(opt[i - 1], opt[r.below(i)]);
            size_t n = 1 + r.below(b ? 4 : 5);
            opt.resize(n);
            if (b) { opt.insert(opt.begin() + r.below(opt.size() + 1), r.chance(2, 3) ? opt[r.below(opt.size())] : (int)r.below(5)); }
            bool csv = false;
            for (int x : opt) csv = csv || x >= 2;
            for (size_t i = 0; i < opt.size(); i++) {
              if (i) out.push_back({',', ","});
              switch (opt[i]) {
                case 0: {
                  out.push_back(kw(K_FORMAT));
                  static const char* f[] = {"csv", "tbl", "binary", "bin"};
                  std::string s = csv && !b ? "csv" : f[r.below(4)];
                  if (b && r.chance(1, 6)) s = "xyz";
                  out.push_back({T_ID, caseMix(s, r)});
                  break;
                }
                case 1: out.push_back(kw(K_ENCODING)); out.push_back(strTok(strContent())); break;
                case 2: out.push_back({T_ID, caseMix("delimiter", r)}); out.push_back(strTok(strContent())); break;
                case 3: out.push_back(kw(K_NULL)); out.push_back(strTok(strContent())); break;
                case 4: out.push_back({T_ID, caseMix(b && r.chance(1, 6) ? "escape_" : "quote", r)}); out.push_back(strTok(strContent())); break;
              }
            }
            break;
          }
          case S_CONS: {
            bool b = bad();
            size_t n = r.below(b ? 5 : 4);
            bool nul = false, nn = false;
            int tabooed = (int)r.below(2);
            for (size_t i = 0; i < n; i++) {
              int c = (int)r.below(5);
              if (!b && ((c == 2 && tabooed) || ((c == 0 || c == 3) && !tabooed))) c = 1;
              switch (c) {
                case 0: out.push_back(kw(K_PRIMARY)); out.push_back(kw(K_KEY)); nn = true; break;
                case 1: out.push_back(kw(K_UNIQUE)); break;
                case 2: out.push_back(kw(K_NULL)); nul = true; break;
                case 3: out.push_back(kw(K_NOT)); out.push_back(kw(K_NULL)); nn = true; break;
                case 4: emit(G().ix.at("refs"), depth - 1, out); break;
              }
            }
            (void)nul; (void)nn;
            break;
          }
          case S_SQLSTR: {
            Toks inner;
            const char* st = r.chance(1, 4) ? "script" : r.chance(1, 6) ? "prepare" : "stmt";
            auto saved = o;
            o.maxToks = 60;
            emit(G().ix.at(st), std::min(depth - 1, 5), inner);
            o = saved;
            if (r.chance(1, 10) && !inner.empty()) mutateToks(inner, r, *this, 1);
            LayoutOpts lo;
            lo.style = (int)r.below(3);
            lo.randomCase = r.chance(1, 2);
            std::string s = render(inner, r, lo);
            out.push_back(strTok(s));
            break;
          }
        }
    }
  };
  for (auto& it : a->items) put(it);
}
Toks Gen::derive(const char* start) {
  Toks t;
  auto it = G().ix.find(start);
  if (it == G().ix.end()) { fprintf(stderr, "no symbol %s\n", start); abort(); }
  emit(it->second, o.depth, t);
  return t;
}

// ------------------------------------------------------------------ rendering
static bool wordc(unsigned char c) { return isalnum(c) || c == '_'; }
bool needsBlank(const GTok& a, const GTok& b) {
  if (a.text.empty() || b.text.empty()) return false;
  unsigned char x = a.text.back(), y = b.text[0];
  if (wordc(x) && wordc(y)) return true;
  bool numA = a.kind == T_INT || a.kind == T_FLOAT;
  if (numA && y == '.') return true;
  if (a.kind == T_FLOAT && wordc(y)) return true;
  if (x == '.' && wordc(y) && isdigit(y)) return true;
  if (x == '.' && b.text[0] == '.') return true;
  if (a.kind == T_STR && y == '\'') return true;
  if (x == '-' && (y == '-' || b.text.compare(0, 19, "9223372036854775808") == 0)) return true;
  if ((x == '<' || x == '>' || x == '=' || x == '!') && (y == '=' || y == '>')) return true;
  if (x == '|' && y == '|') return true;
  return false;
}
// layout of unusual length: sizes around powers of two and around numbers that are new in the sources
static std::vector<uint64_t> gLayoutSizes = {16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
void layoutSizes(const Dict& d) { for (uint64_t h : d.hotNums) if (h < 6000) for (int k = 0; k < 3; k++) { gLayoutSizes.push_back(h); gLayoutSizes.push_back(h + 1); } }
static size_t longLayout(Rng& r) { return r.chance(1, 60) ? 500 + r.below(5000) : r.chance(1, 2) ? r.below(80) : r.pick(gLayoutSizes); }
static std::string blanks(Rng& r, bool comments, bool must) {
  std::string s;
  size_t n = must ? 1 + r.below(3) : r.below(3);
  if (r.chance(1, 40)) n = longLayout(r) + must;
  for (size_t i = 0; i < n; i++) s += " \t\n  "[r.below(5)];
  if (comments && r.chance(1, 5)) {
    static const char* body[] = {"", " comment", "-", " it's", " \"q", " SELECT ; DROP", "'", " a -- b", "/*", "\t", " \xc3\xa4\xff", ";", " (", "--", " 'x' "};
    s += "--";
    s += body[r.below(15)];
    if (r.chance(1, 30)) s += std::string(longLayout(r), 'x');
    s += "\n";
    size_t k = r.below(4);
    for (size_t i = 0; i < k; i++) s += " \t\n "[r.below(4)];
    if (r.chance(1, 6)) s += "-- again\n";
  }
  return s;
}
static std::string respell(const GTok& t, Rng& r, const LayoutOpts& o) {
  std::string s = t.text;
  if (o.altOps && t.kind == T_NE && r.chance(1, 2)) s = s == "<>" ? "!=" : "<>";
  if (t.kind > K_FIRST_ || t.kind == T_CURRENT_ROW || t.kind == T_CHARACTER_VARYING) {
    if (o.randomCase) s = caseMix(s, r);
    if (o.style && t.kind < K_FIRST_) {
      size_t p = s.find(' ');
      if (p != std::string::npos) { std::string b; size_t n = 1 + (r.chance(1, 6) ? longLayout(r) : r.below(3)); for (size_t i = 0; i < n; i++) b += " \t\n"[r.below(3)]; s.replace(p, 1, b); }
    }
  }
  return s;
}
std::string render(const Toks& t, Rng& r, const LayoutOpts& o) {
  std::string s;
  auto pad = [&](bool must, bool edge) {
    switch (o.style) {
      case 0: if (!edge) s += ' '; break;
      case 3: if (must) s += " \n\t"[r.below(3)]; break;
      default: {
        std::string b = blanks(r, o.style == 2, must);
        // a '-' directly before a comment would start it one character early
        if (!b.empty() && b[0] == '-' && !s.empty() && s.back() == '-') b = " " + b;
        s += b;
      }
    }
  };
  pad(false, true);
  for (size_t i = 0; i < t.size(); i++) {
    if (i) pad(needsBlank(t[i - 1], t[i]), false);
    s += respell(t[i], r, o);
  }
  if (!(o.style == 3)) {
    pad(false, true);
    if (o.style == 2 && r.chance(1, 8)) s += "-- trailing without newline";
  }
  return s;
}
std::string renderPlain(const Toks& t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) { if (i) s += ' '; s += t[i].text; }
  return s;
}
std::string joinToks(const LexOut& lx, const std::string& text) { return renderPlain(toksOf(lx, text)); }
Toks toksOf(const LexOut& lx, const std::string& text) {
  Toks t;
  for (auto& k : lx.t) {
    if (k.kind == T_EOF) break;
    std::string s = text.substr(k.b, k.e - k.b);
    if (k.kind > K_FIRST_ || k.kind == T_CURRENT_ROW || k.kind == T_CHARACTER_VARYING) s = kw(k.kind).text;
    t.push_back({k.kind, s});
  }
  return t;
}

// ------------------------------------------------------------------ mutation
void mutateToks(Toks& t, Rng& r, Gen& g, int n) {
  for (int i = 0; i < n; i++) {
    size_t p = r.below(t.size() + 1);
    switch (r.below(9)) {
      case 0: if (p < t.size()) t.erase(t.begin() + p); break;
      case 1: t.insert(t.begin() + p, g.randomTok()); break;
      case 2: case 3: if (p < t.size()) t[p] = g.randomTok(); break;
      case 4: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
      case 5: if (p < t.size()) t.insert(t.begin() + p, t[p]); break;
      case 6: if (p < t.size() && r.chance(1, 3)) t.resize(p); break;
      case 7: if (p < t.size()) { GTok x = t[p]; t.insert(t.begin() + r.below(t.size() + 1), x); } break;
      case 8: if (p < t.size()) { size_t q = p + 1 + r.below(4); if (q > t.size()) q = t.size(); t.erase(t.begin() + p, t.begin() + q); } break;
    }
  }
}
void mutateBytes(std::string& s, Rng& r, Gen& g, int n) {
  static const char* frag[] = {"'", "\"", "--", "\n", ";", "''", "\\", "\r", "\0", "!", "@", "#", "$", "&", "~", "`", "_", "\x80", "\xff", "|", "(", ")", "-9223372036854775808", "9223372036854775808", "0x", "1e5", "/*", "--\n", "?", "."};
  for (int i = 0; i < n; i++) {
    size_t p = r.below(s.size() + 1);
    switch (r.below(8)) {
      case 0: if (p < s.size()) s[p] = (char)r.below(256); break;
      case 1: s.insert(p, 1, (char)r.below(256)); break;
      case 2: if (p < s.size()) s.erase(p, 1 + r.below(3)); break;
      case 3: case 4: { size_t f = r.below(30); if (f == 8) s.insert(p, 1, '\0'); else s.insert(p, frag[f]); break; }
      case 5: if (r.chance(1, 3)) s.resize(p); break;
      case 6: if (p < s.size()) s[p] ^= 32; break;
      case 7: { size_t q = r.below(s.size() + 1); std::string x = s.substr(q, r.below(12)); s.insert(p, x); break; }
    }
  }
  (void)g;
}
