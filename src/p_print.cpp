// C24: printing tells statements apart - a metamorphic monitor over pairs of texts that differ in one place.
#include "util.h"
#include "walk.h"
#include "sql/statements.h"
#include <strings.h>
#include <unordered_map>
using namespace hsql;

namespace {
bool printable(const SQLStatement* s) {
  switch (s->type()) {
    case kStmtSelect: case kStmtInsert: case kStmtImport: case kStmtExport: case kStmtCreate: case kStmtTransaction: return true;
    default: return false;
  }
}
bool is(const char* a, const char* b) { return strcmp(a, b) == 0; }
void dropAttr(N* n, std::initializer_list<const char*> names) {
  for (size_t i = 0; i < n->a.size();) {
    bool d = false;
    for (auto* x : names) if (is(n->a[i].first, x)) d = true;
    if (d) n->a.erase(n->a.begin() + i); else i++;
  }
}
void keepAttr(N* n, std::initializer_list<const char*> names) {
  for (size_t i = 0; i < n->a.size();) {
    bool d = true;
    for (auto* x : names) if (is(n->a[i].first, x)) d = false;
    if (d) n->a.erase(n->a.begin() + i); else i++;
  }
}
void dropKid(N* n, std::initializer_list<const char*> names) {
  for (size_t i = 0; i < n->c.size();) {
    bool d = false;
    for (auto* x : names) if (is(n->c[i].first, x)) d = true;
    if (d) n->c.erase(n->c.begin() + i); else i++;
  }
}
// Reduces a dumped tree to what the printed form is meant to show. Everything dropped here is content the printer is free to leave out.
void project(N* n) {
  const char* k = n->kind;
  dropKid(n, {"hints"});
  if (is(k, "stmt:select")) { dropAttr(n, {"distinct"}); dropKid(n, {"hints", "with"}); }
  else if (is(k, "setop")) dropAttr(n, {"all"});
  else if (is(k, "order")) dropAttr(n, {"nulls"});
  else if (is(k, "join")) dropAttr(n, {"type"});
  else if (is(k, "bound")) { for (auto& a : n->a) if (is(a.first, "type") && a.second == "current") { N t = *n; t.a = {{"type", "current"}}; n->a = t.a; break; } for (auto& a : n->a) if (is(a.first, "unbounded") && a.second != "0") { dropAttr(n, {"offset"}); break; } }
  else if (is(k, "stmt:import")) { keepAttr(n, {"type", "filePath", "tableName"}); dropKid(n, {"csv"}); }
  else if (is(k, "stmt:export")) { keepAttr(n, {"type", "filePath", "tableName"}); dropKid(n, {"csv"}); }
  else if (is(k, "stmt:insert")) keepAttr(n, {"type", "tableName", "columns"});
  else if (is(k, "stmt:create")) { keepAttr(n, {"tableName", "filePath"}); n->c.clear(); }
  else if (is(k, "stmt:transaction") || is(k, "limit") || is(k, "list") || is(k, "group") || is(k, "window") || is(k, "frame") || is(k, "alias") || is(k, "lock")) {}
  else if (is(k, "table:name") || is(k, "table:select") || is(k, "table:join") || is(k, "table:cross")) {}
  else if (is(k, "float")) { for (auto& a : n->a) if (is(a.first, "fval")) { char b[64]; snprintf(b, sizeof b, "%.6g", strtod(a.second.c_str(), nullptr)); a.second = b; } keepAttr(n, {"fval", "alias"}); }
  else if (is(k, "int") || is(k, "parameter") || is(k, "arrayindex")) keepAttr(n, {"ival", "alias"});
  else if (is(k, "string") || is(k, "date")) keepAttr(n, {"name", "alias"});
  else if (is(k, "interval")) keepAttr(n, {"ival", "dt", "alias"});
  else if (is(k, "star")) keepAttr(n, {"table", "alias"});
  else if (is(k, "columnref")) keepAttr(n, {"name", "table", "alias"});
  else if (is(k, "functionref")) keepAttr(n, {"name", "alias"});
  else if (is(k, "operator")) keepAttr(n, {"op", "alias"});
  else if (is(k, "extract")) keepAttr(n, {"dt", "alias"});
  else if (is(k, "cast")) {
    keepAttr(n, {"ctype", "alias"});
    for (auto& a : n->a) if (is(a.first, "ctype")) {
      size_t p = a.second.find('(');
      if (a.second.compare(0, p, "CHAR") == 0 || a.second.compare(0, p, "VARCHAR") == 0) p = a.second.find(',');
      if (p != std::string::npos) a.second.resize(p);
    }
  } else keepAttr(n, {"alias"});
  // shown alike: a name, a text, a date and a call without arguments; a number and a placeholder's number
  if (is(k, "functionref") && n->c.size() == 1 && n->c[0].second->c.empty()) { n->kind = "columnref"; n->c.clear(); }
  if (is(k, "string") || is(k, "date")) n->kind = "columnref";
  if (is(k, "null")) { n->kind = "columnref"; n->set("name", "\"NULL\""); }
  if (is(k, "parameter")) n->kind = "int";
  for (auto& c : n->c) project(c.second);
  for (size_t i = 0; i < n->c.size();) if (is(n->c[i].second->kind, "limit") && n->c[i].second->c.empty()) n->c.erase(n->c.begin() + i); else i++;
}
struct Seen { bool ok = false; std::string full, proj, text; };
void look(const std::string& t, Seen& o) {
  o.ok = false;
  o.full.clear(); o.proj.clear(); o.text.clear();
  SQLParserResult r;
  SQLParser::parse(t, &r);
  if (!r.isValid()) return;
  o.ok = true;
  static Arena A;
  Capture cap;
  for (size_t i = 0; i < r.size(); i++) {
    const SQLStatement* s = r.getStatement(i);
    if (!s || !printable(s)) continue;
    A.clear();
    N* n = dumpStatement(s, A);
    o.full += ser(n) + "\n";
    project(n);
    o.proj += ser(n) + "\n";
    printStatementInfo(s);
  }
  o.text = cap.out.s;
}
std::vector<std::string> linesOf(const std::string& s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); v.push_back(s.substr(p, q - p)); p = q + 1; }
  return v;
}
bool containsNoCase(const std::string& hay, const std::string& w) {
  for (size_t i = 0; i + w.size() <= hay.size(); i++) if (strncasecmp(hay.data() + i, w.data(), w.size()) == 0) return true;
  return false;
}
// Groups of tokens that may stand for one another; the words one of which the printed form has to show ("" : anything goes).
struct Sub { int kind; const char* words; };
typedef std::vector<Sub> Group;
const std::vector<Group>& groups() {
  static const std::vector<Group> g = {
      {{'=', "="}, {T_NE, "!=|<>"}, {'<', "<"}, {'>', ">"}, {T_LE, "<="}, {T_GE, ">="}},
      {{'+', "+"}, {'-', "-"}, {'*', "*"}, {'/', "/"}, {'%', "%"}, {'^', "^"}, {T_CONCAT, "CONCAT||"}},
      {{K_LIKE, "LIKE"}, {K_ILIKE, "ILIKE"}, {'=', "="}},
      {{K_AND, "AND"}, {K_OR, "OR"}},
      {{K_ASC, "ASC"}, {K_DESC, "DESC"}},
      {{K_UNION, "UNION"}, {K_EXCEPT, "EXCEPT"}, {K_INTERSECT, "INTERSECT"}},
      {{K_ROWS, "ROWS"}, {K_RANGE, "RANGE"}, {K_GROUPS, "GROUPS"}},
      {{K_PRECEDING, "PRECEDING"}, {K_FOLLOWING, "FOLLOWING"}},
      {{K_UPDATE, "UPDATE"}, {K_SHARE, "SHARE"}},
      {{K_SECOND, "SECOND"}, {K_MINUTE, "MINUTE"}, {K_HOUR, "HOUR"}, {K_DAY, "DAY"}, {K_MONTH, "MONTH"}, {K_YEAR, "YEAR"}},
      {{K_SECONDS, "SECOND"}, {K_MINUTES, "MINUTE"}, {K_HOURS, "HOUR"}, {K_DAYS, "DAY"}, {K_MONTHS, "MONTH"}, {K_YEARS, "YEAR"}},
      {{K_INT, "INT"}, {K_BIGINT, "BIGINT"}, {K_LONG, "LONG"}, {K_FLOAT, "FLOAT"}, {K_DOUBLE, "DOUBLE"}, {K_REAL, "REAL"}, {K_TEXT, "TEXT"}, {K_DATE, "DATE"}, {K_DATETIME, "DATETIME"}, {K_BOOLEAN, "BOOLEAN"}, {K_SMALLINT, "SMALLINT"}, {K_TIME, "TIME"}, {K_DECIMAL, "DECIMAL"}},
      {{K_CHAR, "CHAR"}, {K_VARCHAR, "VARCHAR"}},
      {{K_TRUE, ""}, {K_FALSE, ""}},
      {{K_LIMIT, ""}, {K_OFFSET, ""}},
      {{',', ""}, {K_HAVING, ""}},
      {{K_WHERE, ""}, {K_HAVING, ""}},
      {{K_PARTITION, ""}, {K_ORDER, ""}, {K_GROUP, ""}},
      {{K_BEGIN, "BEGIN"}, {K_COMMIT, "COMMIT"}, {K_ROLLBACK, "ROLLBACK"}},
  };
  return g;
}
bool shows(const std::string& line, const std::string& words) {
  if (words.empty()) return true;
  if (words == "CONCAT||") return containsNoCase(line, "CONCAT") || containsNoCase(line, "||");
  size_t p = 0;
  for (;;) {
    size_t q = words.find('|', p);
    if (containsNoCase(line, words.substr(p, q == std::string::npos ? q : q - p))) return true;
    if (q == std::string::npos) return false;
    p = q + 1;
  }
}
bool operand(int k) { return k == T_ID || k == T_INT || k == T_STR; }
bool barrier(int k) {
  switch (k) {
    case K_SELECT: case K_UNION: case K_EXCEPT: case K_INTERSECT: case K_ORDER: case K_LIMIT: case K_OFFSET: case K_TOP: case K_FOR: case K_WITH: case K_HINT: case K_PREPARE: case K_FROM: case K_INTO: case K_COPY: case K_IMPORT: case K_CREATE: case K_TO: case ';': case '.': return true;
    default: return false;
  }
}
// the length of a cast's type stands behind the operand and is shown before it
bool typeLength(const Toks& u, size_t i) { return i > 1 && u[i - 1].kind == '(' && (u[i - 2].kind == K_CHAR || u[i - 2].kind == K_VARCHAR || u[i - 2].kind == T_CHARACTER_VARYING); }
}  // namespace

static std::string o24(Ctx& c, const std::string& t) {
  if (t.size() > kPrintMax) return "";
  static LexOut lx;
  refLex(t, lx);
  if (lx.hasInvalid) return "";
  Toks k = toksOf(lx, t);
  if (k.empty()) return "";
  Seen a, b;
  look(t, a);
  if (!a.ok || a.full.empty()) return "";
  c.nt = k.size() > 2;
  c.count["texts printed"]++;
  Rng r(hashBytes(t) ^ 0x24c0de);
  // the same statement from another text
  {
    LayoutOpts lo;
    lo.style = (int)r.below(4);
    lo.randomCase = true;
    std::string s = render(k, r, lo);
    c.setCur(s);
    look(s, b);
    if (b.ok && b.full == a.full) {
      c.count["printed from another text of the same tree"]++;
      if (b.text != a.text) return "the same tree parsed from a differently laid out text prints differently: " + firstDiff(a.text, b.text);
    }
  }
  int tries = 12;
  while (tries--) {
    Toks u = k;
    size_t i = r.below(u.size());
    const char* what = "";
    std::string oldW, newW;
    switch (r.below(13)) {
      case 0: case 1: case 2: {  // another token of the same group; prefer positions that have one
        for (int n = 0; n < 12; n++) {
          i = r.below(u.size());
          bool any = false;
          for (auto& g : groups()) for (auto& x : g) if (x.kind == u[i].kind) any = true;
          if (any) break;
        }
        for (auto& g : groups()) {
          const Sub* from = nullptr;
          for (auto& x : g) if (x.kind == u[i].kind) from = &x;
          if (!from || r.chance(1, 4)) continue;
          const Sub& to = g[r.below(g.size())];
          if (to.kind == from->kind) break;
          u[i] = kw(to.kind);
          if (to.kind < 128) u[i] = GTok{to.kind, std::string(1, (char)to.kind)};
          oldW = from->words; newW = to.words;
          what = "keyword or symbol exchanged";
          break;
        }
        break;
      }
      case 3: case 4: case 5:  // another name or value
        for (int n = 0; n < 12 && !operand(u[i].kind) && u[i].kind != T_FLOAT; n++) i = r.below(u.size());
        if (u[i].kind == T_ID) {
          static const char* const ft[] = {"CSV", "TBL", "BINARY", "AUTO"};
          u[i] = GTok{T_ID, (r.chance(1, 10) ? std::string(ft[r.below(4)]) : "zq" + std::to_string(100 + r.below(899)))};
          newW = u[i].text;
          what = "name exchanged";
        } else if (u[i].kind == T_INT) {
          uint64_t old = strtoull(u[i].text.c_str(), nullptr, 10);
          static const int sh[] = {8, 15, 16, 31, 32, 33, 48, 62};
          u[i].text = r.chance(1, 3) ? std::to_string(710000 + r.below(9999)) : r.chance(1, 2) ? std::to_string(old / 2 + 1) : std::to_string(old ^ (1ull << sh[r.below(8)]));
          newW = u[i].text;
          what = "integer exchanged";
        } else if (u[i].kind == T_STR) {
          std::string v = "zs" + std::to_string(100 + r.below(899));
          u[i] = GTok{T_STR, quoteSql(v)};
          newW = v;
          what = "string exchanged";
        } else if (u[i].kind == T_FLOAT) {
          u[i].text = "987.25";
          newW = "987.25";
          what = "decimal exchanged";
        }
        break;
      case 6:  // NOT or DESC or a waiting policy put in or left out
        if (u[i].kind == K_NOT || u[i].kind == K_DESC || u[i].kind == K_NOWAIT) { u.erase(u.begin() + i); what = "keyword left out"; }
        else {
          int x = u[i].kind;
          if (x == K_LIKE || x == K_IN || x == K_BETWEEN || x == K_EXISTS || x == K_NULL || r.chance(1, 2)) u.insert(u.begin() + i, kw(K_NOT));
          else if (r.chance(1, 2)) u.insert(u.begin() + i + 1, kw(K_DESC));
          else u.insert(u.begin() + i + 1, kw(K_NOWAIT));
          what = "keyword put in";
        }
        break;
      case 7: {  // regrouping
        if (u[i].kind == '(' && i + 1 < u.size() && u[i + 1].kind != K_SELECT && u[i + 1].kind != '(' && u[i + 1].kind != ')') {
          int d = 0;
          size_t j = i;
          for (; j < u.size(); j++) { if (u[j].kind == '(') d++; if (u[j].kind == ')' && --d == 0) break; }
          if (j >= u.size()) break;
          u.erase(u.begin() + j);
          u.erase(u.begin() + i);
          what = "parentheses left out";
        } else {
          size_t j = i + 1 + r.below(8);
          if (j > u.size() || u[i].kind == K_SELECT || u[i].kind == '(' || u[i].kind == ')') break;
          u.insert(u.begin() + j, GTok{')', ")"});
          u.insert(u.begin() + i, GTok{'(', "("});
          what = "parentheses put in";
        }
        break;
      }
      case 8: {  // two operands exchanged
        if (!operand(u[i].kind)) break;
        for (size_t j = i + 1; j < u.size() && j < i + 12; j++)
          if (u[j].kind == u[i].kind && u[j].text != u[i].text) { std::swap(u[i], u[j]); what = "operands exchanged"; break; }
        break;
      }
      case 10: {  // a waiting policy, a frame bound or a lock strength of another length
        static const std::vector<std::vector<int>> alt[] = {{{K_NOWAIT}, {K_SKIP, K_LOCKED}}, {{T_CURRENT_ROW}, {K_UNBOUNDED, K_PRECEDING}, {K_UNBOUNDED, K_FOLLOWING}}, {{K_UPDATE}, {K_NO, K_KEY, K_UPDATE}, {K_SHARE}, {K_KEY, K_SHARE}}, {{K_IS, K_NULL}, {K_IS, K_NOT, K_NULL}}, {{K_LIKE}, {K_NOT, K_LIKE}, {K_ILIKE}}, {{K_IN}, {K_NOT, K_IN}}, {{K_ROWS}, {K_RANGE}, {K_GROUPS}}};
        for (int n = 0; n < 20 && !*what; n++) {
          i = n < 8 ? r.below(u.size()) : (i + 1) % u.size();
          for (auto& g : alt) {
            const std::vector<int>* best = nullptr;
            for (auto& w : g) { size_t q = 0; while (q < w.size() && i + q < u.size() && u[i + q].kind == w[q]) q++; if (q == w.size() && (!best || w.size() > best->size())) best = &w; }
            if (!best) continue;
            const auto& to = g[r.below(g.size())];
            if (&to == best) break;
            u.erase(u.begin() + i, u.begin() + i + best->size());
            for (size_t q = to.size(); q--;) u.insert(u.begin() + i, to[q] == T_CURRENT_ROW ? GTok{T_CURRENT_ROW, "CURRENT ROW"} : kw(to[q]));
            what = "phrase exchanged";
            break;
          }
        }
        break;
      }
      case 11: case 12: {  // some tokens left out
        size_t n = 1 + r.below(6);
        if (i + n > u.size() || n == u.size()) break;
        u.erase(u.begin() + i, u.begin() + i + n);
        what = "part left out";
        break;
      }
      case 9: {  // two operands of a clause keep their order
        if (!operand(u[i].kind) || (i && (u[i - 1].kind == '.' || u[i - 1].kind == K_TOP)) || typeLength(u, i)) break;
        size_t j = i + 1, hit = 0;
        for (; j < u.size() && !barrier(u[j].kind); j++)
          if (operand(u[j].kind) && !typeLength(u, j) && (j + 1 == u.size() || u[j + 1].kind != '.')) { hit = j; if (r.chance(1, 3)) break; }
        if (!hit) break;
        auto fresh = [&](size_t p, int n) -> std::string {
          if (u[p].kind == T_INT) { u[p].text = std::to_string(7300100 + n); return u[p].text; }
          std::string v = "zw" + std::to_string(100 + n);
          if (u[p].kind == T_STR) u[p] = GTok{T_STR, quoteSql(v)}; else u[p] = GTok{T_ID, v};
          return v;
        };
        std::string x = fresh(i, 1), y = fresh(hit, 2), s = renderPlain(u);
        c.setCur(s);
        look(s, b);
        if (!b.ok || b.text.size() > 200000) break;
        size_t px = b.text.find(x), py = b.text.find(y);
        if (px == std::string::npos || py == std::string::npos || b.text.find(x, px + 1) != std::string::npos || b.text.find(y, py + 1) != std::string::npos) { c.count["order not decided (an operand is not printed)"]++; break; }
        c.count["pairs of operands found in order"]++;
        if (px > py) return "operands are printed in another order than written: " + x + " after " + y + " for " + s;
        break;
      }
    }
    if (!*what) continue;
    std::string s = renderPlain(u);
    if (s.size() > kPrintMax) continue;
    c.setCur(s);
    look(s, b);
    if (!b.ok) { c.count["variant rejected"]++; continue; }
    if (b.full.empty()) continue;
    if (b.proj == a.proj) { c.count["variant with the same shown content"]++; continue; }
    c.count[std::string("told apart: ") + what]++;
    if (b.text == a.text) return std::string("two different statements print alike (") + what + "): " + s + " prints as the given text; content " + firstDiff(a.proj, b.proj);
    if (newW.empty()) continue;
    // a change that shows in one line shows as its own word
    std::vector<std::string> la = linesOf(a.text), lb = linesOf(b.text);
    if (la.size() != lb.size()) continue;
    size_t diff = 0, at = 0;
    for (size_t q = 0; q < la.size(); q++) if (la[q] != lb[q]) { diff++; at = q; }
    if (diff != 1) continue;
    c.count["words checked in the line that changed"]++;
    if (!shows(lb[at], newW)) return "after " + std::string(what) + " the printed line reads " + quoteBytes(lb[at].substr(0, 100)) + " and does not show " + newW + " (" + s + ")";
    if (!oldW.empty() && !shows(la[at], oldW)) return "the printed line reads " + quoteBytes(la[at].substr(0, 100)) + " and does not show " + oldW;
  }
  return "";
}
// Values put into one place: texts that print alike must have alike content, over all values at once.
static bool valuesApart(Ctx& c, const char* ctx, const std::vector<std::string>& vals) {
  std::unordered_map<std::string, std::pair<std::string, std::string>> seen;  // printed form -> content, text
  Seen a;
  for (auto& v : vals) {
    std::string s = subst(ctx, v);
    c.setCur(s);
    look(s, a);
    c.tally(s, a.ok);
    if (!a.ok || a.full.empty()) continue;
    c.count["values printed in one place"]++;
    auto it = seen.emplace(a.text, std::make_pair(a.proj, s)).first;
    if (it->second.first == a.proj) continue;
    c.noShrink = true;
    c.fail("two different statements print alike: " + it->second.second + " prints as the given text; content " + firstDiff(it->second.first, a.proj), s);
    return false;
  }
  return true;
}
static void manyValues(Ctx& c) {
  std::vector<std::string> ints, neg, strs, names, decs;
  auto u128 = [](unsigned __int128 v) { std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; };
  for (int i = 0; i < 300; i++) ints.push_back(std::to_string(i));
  for (int b = 8; b < 64; b++) for (int d = -1; d <= 1; d++) ints.push_back(u128(((unsigned __int128)1 << b) + d));
  for (int e = 3; e < 19; e++) { ints.push_back("1" + std::string(e, '0')); ints.push_back(std::string(e, '9')); }
  for (uint64_t h : c.dict.hotNums) if (h < 1ull << 63) ints.push_back(std::to_string(h));
  for (int i = 0; i < 200; i++) ints.push_back(std::to_string(c.rng.next() >> (1 + c.rng.below(62))));
  for (auto& i : ints) neg.push_back("-" + i);
  neg.push_back("-9223372036854775808");
  neg.insert(neg.end(), ints.begin(), ints.end());
  static const char al[] = {'a', 'B', '%', '_', ' ', '\'', '\\', '\t', '\n', '.', '"', '0', '-', '\x80', '(', '>'};
  for (size_t n = 0; n < 3; n++) { size_t t = 1; for (size_t i = 0; i < n; i++) t *= sizeof al; for (size_t x = 0; x < t; x++) { std::string s; size_t y = x; for (size_t i = 0; i < n; i++) { s += al[y % sizeof al]; y /= sizeof al; } strs.push_back(quoteSql(s)); if (n && s.find('"') == std::string::npos) names.push_back('"' + s + '"'); } }
  for (size_t n : {3, 7, 8, 15, 16, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 513, 1023, 1025}) for (int k = 0; k < 4; k++) {
    std::string s(n, 'x');
    if (k == 1) s.back() = 'y'; else if (k == 2) s[n / 2] = 'z'; else if (k == 3) s[0] = 'w';
    strs.push_back(quoteSql(s));
    names.push_back(s);
  }
  for (auto& w : c.dict.hotWords) { strs.push_back(quoteSql(w)); if (!w.empty() && w.find('"') == std::string::npos && w.find('\n') == std::string::npos) names.push_back('"' + w + '"'); }
  for (int i = 0; i < 400; i++) { char b[64]; snprintf(b, sizeof b, "%.*f", 1 + (int)c.rng.below(12), (double)(c.rng.next() >> 11) * 0x1p-53 * (c.rng.chance(1, 2) ? 1 : c.rng.chance(1, 2) ? 1e6 : 1e-3)); decs.push_back(b); }
  for (const char* d : {"0.0", "0.5", "1.0", "1.5", "10.0", "100.25", "0.001", "0.0001", "1000000.0", "123456.5", "1234567.5", "99999999999999999999.0"}) decs.push_back(d);
  static const char* const any_[] = {"SELECT $", "SELECT a, $ AS b FROM t", "SELECT a FROM t WHERE b = $", "SELECT a FROM t WHERE b = - $", "SELECT f(a, $)", "SELECT a IN ($, 3)", "SELECT a IN (x, $)", "SELECT CASE WHEN a THEN $ END", "SELECT CASE $ WHEN a THEN b ELSE c END", "SELECT CASE WHEN $ THEN b ELSE c END", "SELECT CASE WHEN a THEN b ELSE $ END", "SELECT a BETWEEN $ AND c", "SELECT a BETWEEN b AND $", "SELECT $ BETWEEN b AND c",
    "SELECT a FROM t GROUP BY $ HAVING b", "SELECT a FROM t GROUP BY b HAVING c < $", "SELECT a FROM t ORDER BY $", "SELECT (SELECT $)", "SELECT EXISTS (SELECT a FROM t WHERE b > $)", "SELECT a FROM (SELECT $) x", "SELECT a FROM t JOIN u ON b = $", "SELECT a UNION SELECT $", "SELECT CAST($ AS INT)", "SELECT EXTRACT(DAY FROM $)", "SELECT ARRAY[a, $]", "SELECT ($)[1]", "SELECT f(a) OVER (PARTITION BY $)", "SELECT f(a) OVER (ORDER BY b, $ DESC)", "INSERT INTO t SELECT $", "SELECT $ IS NULL", "SELECT NOT $", "SELECT a LIKE $", "SELECT a || $"};
  static const char* const num[] = {"SELECT a LIMIT $", "SELECT a FROM t LIMIT 3 OFFSET $", "SELECT TOP $ a", "SELECT a UNION SELECT b LIMIT $", "SELECT a[$]", "SELECT CAST(a AS VARCHAR($))", "SELECT CAST(a AS CHAR($))", "SELECT f(a) OVER (ROWS $ PRECEDING)", "SELECT f(a) OVER (ORDER BY b ROWS BETWEEN CURRENT ROW AND $ FOLLOWING)", "SELECT INTERVAL '$' DAY", "SELECT $ HOURS"};
  static const char* const nam[] = {"SELECT $", "SELECT a FROM $", "SELECT a AS $", "SELECT a FROM t AS $", "SELECT a FROM t AS x ($, c)", "SELECT $(a)", "SELECT t.$", "SELECT $.a", "SELECT $.*", "SELECT a FROM s.$", "SELECT a FROM $.t", "SELECT a FROM t JOIN u USING ($)", "SELECT a FROM t FOR UPDATE OF $", "INSERT INTO $ VALUES (1)", "INSERT INTO t ($) VALUES (1)", "CREATE TABLE $ (a INT)", "IMPORT FROM CSV FILE 'f' INTO $", "COPY $ TO 'f'", "SELECT $(a) OVER (ORDER BY b)"};
  static const char* const fil[] = {"IMPORT FROM TBL FILE $ INTO t", "COPY t TO $", "CREATE TABLE t FROM TBL FILE $"};
  uint64_t k = 0;
  for (auto* x : any_) {
    if (c.mine(k++) && !valuesApart(c, x, neg)) return;
    if (c.mine(k++) && !valuesApart(c, x, strs)) return;
    if (c.mine(k++) && !valuesApart(c, x, decs)) return;
    if (c.mine(k++) && !valuesApart(c, x, names)) return;
  }
  for (auto* x : num) if (c.mine(k++) && !valuesApart(c, x, ints)) return;
  for (auto* x : nam) if (c.mine(k++) && !valuesApart(c, x, names)) return;
  for (auto* x : fil) if (c.mine(k++) && !valuesApart(c, x, strs)) return;
}
static void r24(Ctx& c) {
  auto f = checker(c);
  manyValues(c);
  if (c.failed) return;
  Profile p;
  p.comments = 0;
  p.opts.plainNames = true;
  p.opts.maxToks = 120;
  p.starts = {{"select", 12}, {"expr", 10}, {"tref", 5}, {"func", 4}, {"win", 2}, {"case", 2}, {"inx", 3}, {"between", 2}, {"exists", 2}, {"join", 3}, {"limit", 2}, {"order", 2}, {"lock", 3}, {"insert", 3}, {"import", 1}, {"copyfrom", 1}, {"copyto", 1}, {"trans", 1}, {"ctype", 2}, {"ivlit", 2}, {"opnd", 5}};
  streamCorpus(c, f);
  streamRandom(c, p, c.n(30000), f);
  p.opts.plainNames = false;
  p.starts.push_back({"stmt", 10});
  p.starts.push_back({"script", 3});
  streamRandom(c, p, c.n(12000), f);
  static const char* const base[] = {
    "SELECT a + b - c * d / e % f ^ g FROM t WHERE h = i AND j <> k OR l < m AND n > o OR p <= q AND r >= s", "SELECT a FROM t WHERE b LIKE 'x' OR c NOT LIKE 'y' OR d ILIKE 'z'", "SELECT a || b || c, d[1], ARRAY[e, f], - g, NOT h, i IS NULL, j IS NOT NULL",
    "SELECT a FROM t ORDER BY b ASC, c DESC, d", "SELECT a FROM t UNION SELECT b FROM u EXCEPT SELECT c FROM v INTERSECT SELECT d FROM w ORDER BY e DESC LIMIT 3 OFFSET 4",
    "SELECT f(a) OVER (PARTITION BY b, c ORDER BY d DESC, e ROWS BETWEEN 3 PRECEDING AND 5 FOLLOWING) FROM t", "SELECT f(a) OVER (ORDER BY d RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)", "SELECT f(a) OVER (GROUPS 7 PRECEDING)",
    "SELECT a FROM t FOR UPDATE OF t NOWAIT", "SELECT a FROM t FOR NO KEY UPDATE SKIP LOCKED", "SELECT a FROM t FOR SHARE OF t, u", "SELECT a FROM t FOR KEY SHARE",
    "SELECT INTERVAL '5' DAY, 6 HOURS, EXTRACT(YEAR FROM a), DATE '2001-02-03'", "SELECT CAST(a AS INT), CAST(b AS VARCHAR(7)), CAST(c AS CHAR(8)), CAST(d AS DOUBLE)",
    "SELECT a BETWEEN b AND c, d NOT BETWEEN e AND f, g IN (1, 2, 'x'), h NOT IN (SELECT i FROM j WHERE k = 5), EXISTS (SELECT l FROM m), NOT EXISTS (SELECT n FROM o)",
    "SELECT CASE WHEN a THEN b WHEN c THEN d ELSE e END, CASE f WHEN 1 THEN g END", "SELECT a.b, c.*, * FROM x.y AS z, (SELECT q FROM w) AS v (v1, v2), t1 JOIN t2 ON t1.a = t2.b LEFT JOIN t3 USING (u1, u2)",
    "SELECT a AS b, c d FROM t GROUP BY e, f HAVING g > 10", "INSERT INTO t (a, b, c) VALUES (1, 'x', 2.5)", "INSERT INTO t SELECT a, b FROM u WHERE c = 1", "IMPORT FROM CSV FILE 'f.csv' INTO t", "COPY t FROM 'f.tbl' WITH (FORMAT TBL) WHERE a = 1", "COPY t TO 'f.bin' (FORMAT BINARY)",
    "COPY (SELECT a FROM t WHERE b > 1) TO 'f.csv'", "BEGIN", "COMMIT TRANSACTION", "ROLLBACK", "CREATE TABLE t FROM TBL FILE 'f.tbl'", "CREATE TABLE t (a INT)", "SELECT a FROM t LIMIT 5 OFFSET 6; SELECT b FROM u; BEGIN; INSERT INTO v VALUES (1); COMMIT"};
  size_t reps = c.n(120) + 1;
  uint64_t id = 0;
  for (size_t q = 0; q < reps; q++)
    for (const char* t : base) {
      id++;
      // vary the text a little so that other edits are drawn
      std::string s = t;
      for (uint64_t z = q; z; z /= 7) s += z % 2 ? " " : "\n";
      if (!f(s)) return;
    }
  // small differences far below the surface
  static const char* const wrap[] = {"f($)", "- ($)", "NOT ($)", "(x + $)", "($ * y)", "CAST($ AS INT)", "(SELECT $)", "CASE WHEN z THEN $ END", "g(1, $)", "ARRAY[$]", "EXTRACT(DAY FROM $)", "(SELECT u FROM t WHERE $)", "($ IN (2, 3))"};
  static const char* const core[] = {"a + (b + c)", "a + b + c + d", "(a OR b) AND c", "a AND b OR c AND d", "f(a, b, c)", "a BETWEEN b AND c + d", "CASE a WHEN b THEN c ELSE d END", "(a - b) - (c - d)", "h(a) OVER (PARTITION BY b, c ORDER BY d DESC)", "a IN (b, c)", "NOT a = b", "a LIKE 'x' || 'y'"};
  for (size_t i = 0, n = c.n(5000); i < n; i++) {
    std::string e = any(c, core);
    bool one = c.rng.chance(1, 2);
    const char* w = any(c, wrap);
    size_t lim = *w == '(' || *w == 'C' ? 16 : 34;
    for (size_t d = c.rng.below(one ? lim : 14); d--;) e = subst(one ? w : any(c, wrap), e);
    if (!f("SELECT " + e + " FROM t")) return;
  }
  streamSweeps(c, kListSweeps, sweepSizes(c, 6, 60), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 6, 30), f);
}
PROPERTY("C24", r24, o24);
