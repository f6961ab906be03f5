// C10, C11, C17, C20: relations between several runs of the real parser on related texts.
#include "util.h"
#include "walk.h"
#include "parser/bison_parser.h"
#include "sql/statements.h"
using namespace hsql;

static bool memoryExhausted(const SQLParserResult& r) { return r.errorMsg() && strstr(r.errorMsg(), "memory exhausted"); }

// ------------------------------------------------------------------ C10
static bool sameTokens(const LexOut& a, const LexOut& b, bool eq) {
  if (a.t.size() != b.t.size() || a.hasInvalid != b.hasInvalid) return false;
  for (size_t i = 0; i < a.t.size(); i++) {
    int x = a.t[i].kind, y = b.t[i].kind;
    if (eq) { if (x == T_EQEQ) x = '='; if (y == T_EQEQ) y = '='; }
    if (x != y || a.t[i].s != b.t[i].s || a.t[i].i != b.t[i].i || memcmp(&a.t[i].f, &b.t[i].f, 8)) return false;
  }
  return true;
}
static std::string outcome(const std::string& t) {
  SQLParserResult r;
  SQLParser::parse(t, &r);
  return (r.isValid() ? "accepted\n" : "rejected\n") + dumpStatements(r);
}
static std::string o10(Ctx& c, const std::string& t) {
  static LexOut a, b;
  refLex(t, a);
  if (a.hasInvalid) return "";
  Rng r(hashBytes(t) ^ 0x51ab);
  Toks k = toksOf(a, t);
  bool update = false;
  for (auto& x : a.t) if (x.kind == K_UPDATE) update = true;
  std::string want = outcome(t);
  c.nt = k.size() > 1;
  c.count[want[0] == 'a' ? "accepted" : "rejected"]++;
  for (int v = 0; v < 4; v++) {
    LayoutOpts lo;
    lo.style = v == 0 ? 2 : v == 1 ? 3 : v == 2 ? 1 : 0;
    lo.randomCase = v != 3 || r.chance(1, 2);
    lo.altOps = true;
    Toks u = k;
    bool eq = !update && v != 1;
    if (eq) for (auto& x : u) if (r.chance(1, 2)) { if (x.kind == '=') { x.kind = T_EQEQ; x.text = "=="; } else if (x.kind == T_EQEQ) { x.kind = '='; x.text = "="; } }
    std::string s = render(u, r, lo);
    if (v == 3) {
      // one heavy spot: a pathological comment or blank run between two tokens
      static const char* const spot[] = {"--\n", " -- '\n", "--\"\n", "---- -- ;\n", "-- SELECT 1; DROP TABLE t\n", "\n\n\n", "\t \t", " --\t\n \n--x\n", "--\x80\xff''\"\n", "--;\n--;\n", "-- \\\n", "--*/ /*\n", "--?\n", "RUN", "RUN"};
      s.clear();
      size_t at = r.below(u.size() + 1);
      for (size_t i = 0; i <= u.size(); i++) {
        if (i == at) { std::string g = r.chance(1, 2) ? std::string("--") + std::string(1, (char)(r.chance(1, 2) ? 1 + r.below(255) : r.below(128))) + "\n" : spot[r.below(sizeof spot / sizeof *spot)]; if (g == "RUN") { size_t m = r.below(r.chance(1, 10) ? 6000 : 330); g.clear(); for (size_t q = 0; q < m; q++) g += r.chance(1, 4) ? "\n" : r.chance(1, 8) ? "\t" : " "; } if (r.chance(1, 20)) g = "--" + std::string(r.below(20000), '-') + "\n"; s += " " + g; }
        if (i < u.size()) { if (i) s += ' '; s += u[i].text; }
      }
      if (at == u.size() && r.chance(1, 2) && s.back() == '\n') s.pop_back();
    }
    refLex(s, b);
    if (!sameTokens(a, b, eq)) { c.count["layouts that change the tokens (skipped)"]++; continue; }
    c.count["layouts compared"]++;
    c.count["comments inserted"] += b.comments;
    c.setCur(s);
    std::string got = outcome(s);
    if (got != want) return std::string("another layout of the same tokens gives a different result: ") + quoteBytes(s.substr(0, 600)) + " : " + firstDiff(want, got);
  }
  return "";
}
static void r10(Ctx& c) {
  auto f = checker(c);
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 6}, {"select", 4}, {"create", 3}, {"expr", 4}, {"copyto", 1}, {"copyfrom", 1}, {"func", 1}};
  streamCorpus(c, f);
  streamGaps(c, 300, f);
  for (size_t k = 0; k < c.corpus.size() && !c.failed; k++)
    for (int i = 0; i < 12 && c.mine(k); i++) if (!f(c.corpus[k] + std::string(i + 1, i % 2 ? ' ' : '\n')) || !f(c.corpus[k] + ";" + std::string(i, ' ') + "--" + std::string(i, '-'))) return;
  streamEdits(c, 0.04 * c.scale, f);
  streamPrefixes(c, 0.5, f);
  p.opts.badLit = 3;
  streamRandom(c, p, c.n(80000), f);
  p.mutTok = 100;
  streamRandom(c, p, c.n(30000), f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 8, 130), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 8, 2100), f);
}
PROPERTY("C10", r10, o10);

// ------------------------------------------------------------------ C11
static std::string o11(Ctx& c, const std::string& t) {
  static Exec x;
  refRun(x, t);
  SQLParserResult r;
  SQLParser::parse(t, &r);
  c.nt = x.ref.ok && x.ref.stmts.size() > 1;
  if (x.lx.hasInvalid) return r.isValid() ? "accepted a text with an invalid character or unterminated quote" : "";
  // the pieces between semicolons, each on its own
  std::vector<std::string> piece;
  size_t from = 0;
  bool trailing = false;
  for (auto& k : x.lx.t) {
    if (k.kind == ';') { piece.push_back(t.substr(from, k.b - from)); from = k.e; }
    else if (k.kind == T_EOF) {
      if (x.lx.t.size() > 1 && x.lx.t[x.lx.t.size() - 2].kind == ';') trailing = true;
      else piece.push_back(t.substr(from));
    }
  }
  (void)trailing;
  if (piece.empty()) return r.isValid() ? "accepted an empty script" : "";
  std::vector<std::string> want;
  bool allOk = true, excused = memoryExhausted(r);
  for (auto& s : piece) {
    SQLParserResult q;
    SQLParser::parse(s, &q);
    c.count["statements parsed alone"]++;
    if (memoryExhausted(q)) excused = true;
    if (!q.isValid()) { allOk = false; break; }
    if (q.size() != 1) return "a text without semicolon gives " + std::to_string(q.size()) + " statements: " + quoteBytes(s.substr(0, 300));
    want.push_back(treesWithoutParamIds(q)[0]);
  }
  if (excused) return "";
  if (allOk != r.isValid()) return allOk ? "every statement is accepted alone but the script is rejected: " + std::string(r.errorMsg() ? r.errorMsg() : "") : "the script is accepted although one of its statements is not";
  if (!allOk) { c.count["rejected scripts"]++; return ""; }
  c.count["accepted scripts"]++;
  c.count["statements in scripts"] += want.size();
  auto got = treesWithoutParamIds(r);
  if (got.size() != want.size()) return "the script has " + std::to_string(want.size()) + " statements, the result " + std::to_string(got.size());
  for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) return "statement " + std::to_string(i) + " of the script differs from the same statement alone: " + firstDiff(want[i], got[i]);
  // extents
  if (x.ref.ok) { std::string w = judge(x, r, true, CMP_LEN); if (!w.empty()) return w; }
  size_t at = 0;
  for (size_t i = 0; i < r.size(); i++) {
    size_t len = r.getStatement(i)->stringLength;
    if (len > t.size() - at) return "statement lengths exceed the text";
    std::string slice = t.substr(at, len);
    at += len;
    SQLParserResult q;
    SQLParser::parse(slice, &q);
    c.count["slices re-parsed"]++;
    if (!q.isValid() || q.size() != 1) return "slice " + std::to_string(i) + " " + quoteBytes(slice.substr(0, 200)) + " does not parse to one statement";
    if (treesWithoutParamIds(q)[0] != want[i]) return "slice " + std::to_string(i) + " parses to a different tree";
  }
  // whatever follows the last slice is layout
  static LexOut rest;
  refLex(t.substr(at), rest);
  if (rest.t.size() != 1) return "tokens remain after the last slice: " + quoteBytes(t.substr(at, 100));
  return "";
}
static void r11(Ctx& c) {
  auto f = checker(c);
  streamCorpus(c, f);
  // pairs and triples of corpus statements with every kind of layout around the semicolon
  static const char* const seps[] = {";", " ; ", ";\n", "\n;", "; -- c\n", " -- a\n ; -- b\n", ";\t\t\n  ", "--x;\n;", ";--;\n", "  \n ;", ";   "};
  static const char* const ends[] = {"", ";", " ;", "; ", ";\n", "\n", " -- end", "; -- end", ";--", "\n;\n\n", "   ", "--\n"};
  static const char* const begins[] = {"", " ", "\n", "-- first\n", "  --;\n ", "\t"};
  size_t m = sizeof seps / sizeof *seps;
  Gen g(c.rng, c.dict);
  std::vector<std::string> valid;
  for (auto& s : c.corpus) { SQLParserResult r; SQLParser::parse(s, &r); if (r.isValid() && r.size() == 1 && s.find(';') == std::string::npos) valid.push_back(s); }
  for (size_t i = 0; i < valid.size() && !c.failed; i++)
    for (size_t j = 0; j < sizeof ends / sizeof *ends; j++) {
      if (!c.mine(i * 31 + j)) continue;
      if (!f(begins[c.rng.below(6)] + valid[i] + ends[j])) return;
      if (!f(begins[c.rng.below(6)] + valid[i] + seps[c.rng.below(m)] + c.rng.pick(valid) + ends[j])) return;
    }
  for (size_t i = c.n(60000); i && !c.failed; i--) {
    std::string s = begins[c.rng.below(6)];
    size_t n = 1 + c.rng.below(c.rng.chance(1, 30) ? 60 : 5);
    bool comments = c.rng.chance(1, 3);
    for (size_t k = 0; k < n; k++) {
      if (k) s += seps[c.rng.below(m)];
      if (c.rng.chance(1, 3)) { s += c.rng.pick(valid); continue; }
      g.o = GenOpts();
      g.o.depth = 2 + (int)c.rng.below(6);
      g.o.params = 2;
      Toks t = g.derive(c.rng.chance(1, 25) ? "script" : "stmt");
      if (t.size() > 150) { s += c.rng.pick(valid); continue; }
      if (c.rng.chance(1, 60)) mutateToks(t, c.rng, g, 1);
      LayoutOpts lo;
      lo.style = comments ? 2 : (int)c.rng.below(4);
      s += render(t, c.rng, lo);
      if (comments) s += "\n";
    }
    s += ends[c.rng.below(sizeof ends / sizeof *ends)];
    if (!f(s)) return;
  }
  streamEdits(c, 0.02 * c.scale, f);
  // statements of many sizes, first, in the middle and last
  std::vector<size_t> big = {100, 120, 127, 128, 129, 250, 255, 256, 257, 1000, 4090, 4096, 8192, 16384, 32760, 32768, 40000, 65500, 65535, 65536, 65540, 70000, 140000};
  for (uint64_t h : c.dict.hotNums) if (h > 8 && h < 150000) { big.push_back(h); big.push_back(h + 3); }
  for (size_t n : big)
    for (int k = 0; k < 4; k++) {
      if (!c.mine(n + k) || c.failed) continue;
      n = n + c.rng.below(12) - 10;
      std::string b = k == 0 ? "SELECT '" + std::string(n, 'x') + "' FROM t" : k == 1 ? "SELECT a FROM" + std::string(n, ' ') + "t" : k == 2 ? "SELECT a --" + std::string(n, '-') + "\n FROM t" : "INSERT INTO t VALUES (1";
      if (k == 3) { while (b.size() < n) b += ", 1"; b += ")"; }
      if (!f(b) || !f(b + ";SELECT 1") || !f("SELECT 1;" + b + " ; SELECT 2") || !f("SELECT 1 ;\n" + b + ";")) return;
    }
  // statements of megabytes
  {
    uint64_t k = 3;
    for (size_t n : {(1u << 20) - 20, (1u << 20) + 20, 3000000u, (1u << 24) + 20, c.thorough ? (1u << 28) + 20 : (1u << 22) + 1}) {
      if (!c.mine(k++) || c.failed) continue;
      if (!f("SELECT '" + std::string(n, 'x') + "' FROM t; SELECT 2 ;")) return;
      if (n < 1u << 24 && !f("BEGIN; SELECT a FROM" + std::string(n, ' ') + "t --" + std::string(n, '-') + "\n; SELECT 2")) return;
    }
  }
  // very many statements, alike or in a pattern
  {
    std::vector<size_t> many = {127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 777, 1023, 1025, 2049};
    for (uint64_t h : c.dict.hotNums) if (h > 8 && h < 6000) { many.push_back(h - 1); many.push_back(h); many.push_back(h + 1); many.push_back(h + 7); many.push_back(2 * h + 5); }
    static const char* const unit[] = {"SELECT 1;", "BEGIN;", "SELECT ? FROM t;\n", "INSERT INTO t VALUES (1) ;", "SELECT 1;COMMIT;", "DROP TABLE t;SHOW TABLES;SELECT 'a;b';"};
    uint64_t k = 0;
    for (size_t n : many) for (auto* u : unit) {
      if (!c.mine(k++) || c.failed) continue;
      std::string s;
      for (size_t i = 0; i < n; i++) s += u;
      if (!f(s)) return;
      if (k % 3 == 0) { while (!s.empty() && s.back() != ';') s.pop_back(); s.pop_back(); if (!f(s)) return; }
    }
    for (size_t n : {5000, 33000}) if (c.mine(k++)) { std::string s; for (size_t i = 0; i < n; i++) s += "SELECT 1; "; if (!f(s)) return; }
  }
  // where semicolons may not be: empty statements
  for (const char* s : {"", ";", ";;", "SELECT 1;;", ";SELECT 1", "SELECT 1;;SELECT 2", "SELECT 1; ;", " ; SELECT 1;", "--\n;", "SELECT 1;--\n;", "SELECT 1 SELECT 2", "BEGIN COMMIT", "SHOW TABLES SELECT 1", "SELECT ';'", "SELECT 1; SELECT ';' ; SELECT 2", "SELECT \";\" FROM t; SELECT 2", "PREPARE p FROM 'SELECT 1; SELECT 2'; SELECT 3"}) if (!f(s)) return;
  auto sizes = sweepSizes(c, 6, c.thorough ? 2100 : 260);
  std::vector<std::string> tm(kListSweeps.begin(), kListSweeps.end());
  tm.push_back("\x01SELECT @\x02;\x03");
  tm.push_back("\x01SELECT ?, @ FROM t\x02 ;\n\x03;");
  tm.push_back("\x01INSERT INTO t VALUES ('@;')\x02;--x;\n\x03 ");
  streamSweeps(c, tm, sizes, f);
}
PROPERTY("C11", r11, o11);

// ------------------------------------------------------------------ C17
static int codeOf(int kind) {
  switch (kind) {
    case T_ID: return SQL_IDENTIFIER;
    case T_STR: return SQL_STRING;
    case T_INT: return SQL_INTVAL;
    case T_FLOAT: return SQL_FLOATVAL;
    case T_EQEQ: return SQL_EQUALS;
    case T_NE: return SQL_NOTEQUALS;
    case T_LE: return SQL_LESSEQ;
    case T_GE: return SQL_GREATEREQ;
    case T_CONCAT: return SQL_CONCAT;
    case T_CURRENT_ROW: return SQL_CURRENT_ROW;
    case T_CHARACTER_VARYING: return SQL_CHARACTER_VARYING;
#define X(n) case K_##n: return SQL_##n;
    VF_KEYWORDS(X)
#undef X
  }
  return kind < 128 ? kind : -1;
}
static std::string codes(const std::vector<int16_t>& v, size_t at) {
  std::string s;
  for (size_t i = at > 3 ? at - 3 : 0; i < v.size() && i < at + 4; i++) s += (i == at ? " [" : " ") + std::to_string(v[i]) + (i == at ? "]" : "");
  return s;
}
static std::string o17(Ctx& c, const std::string& t) {
  static Exec x;
  refRun(x, t);
  Rng rg(hashBytes(t));
  std::vector<int16_t> v;
  // what the vector holds before the call: nothing, foreign values, the beginning of the text's own tokens, or a lot
  switch (rg.below(6)) {
    case 0: break;
    case 1: v.push_back(-5); break;
    case 2: v.push_back(-5); v.push_back(-6); break;
    case 3: case 4: {
      size_t m = rg.chance(1, 2) ? 1 : rg.below(x.lx.t.size() + 1);
      for (auto& k : x.lx.t) { if (k.kind == T_EOF || k.kind == T_INVALID || v.size() >= m) break; v.push_back((int16_t)codeOf(k.kind)); }
      break;
    }
    default: v.assign(rg.below(300), (int16_t)(rg.chance(1, 2) ? 0 : codeOf(x.lx.t[0].kind))); if (rg.chance(1, 2)) v.reserve(v.size() + 4000);
  }
  const std::vector<int16_t> before = v;
  const size_t pre = v.size();
  if (!SQLParser::tokenize(t, &v)) return "tokenize returned false";
  if (v.size() < pre || !std::equal(before.begin(), before.end(), v.begin())) return "tokenize changed what the vector held before: " + std::to_string(pre) + " codes";
  v.erase(v.begin(), v.begin() + pre);
  size_t n = 0;
  for (auto& k : x.lx.t) {
    if (k.kind == T_EOF || k.kind == T_INVALID) break;
    if (n >= v.size()) return "only " + std::to_string(v.size()) + " tokens, token " + std::to_string(n) + " is missing: " + quoteBytes(t.substr(k.b, k.e - k.b));
    if (v[n] != codeOf(k.kind)) return "token " + std::to_string(n) + " " + quoteBytes(t.substr(k.b, std::min<size_t>(k.e - k.b, 60))) + " has code " + std::to_string(v[n]) + " instead of " + std::to_string(codeOf(k.kind)) + ":" + codes(v, n);
    n++;
  }
  if (!x.lx.hasInvalid && v.size() != n) return "the text has " + std::to_string(n) + " tokens, tokenize gives " + std::to_string(v.size()) + ":" + codes(v, n);
  c.count["tokens checked"] += n;
  if (x.lx.hasInvalid) c.count["texts with an invalid token"]++;
  c.nt = n > 1;
  // again, into the same vector, and from a text that follows an unfinished one
  if (rg.chance(1, 4)) {
    std::vector<int16_t> w;
    SQLParser::tokenize(t.substr(0, rg.below(t.size() + 1)), &w);
    w.clear();
    SQLParser::tokenize(t, &w);
    if (w != v) return "tokenizing again gives different codes";
  }
  // what the parser makes of the text agrees with its tokens
  if (!x.lx.hasInvalid) {
    SQLParserResult r;
    SQLParser::parse(t, &r);
    if (!depthExcused(x, r) && !((x.ref.flags & RF_EITHER) && x.ref.ok) && r.isValid() != x.ref.ok) return std::string("the parser ") + (r.isValid() ? "accepts" : "rejects") + " the text although a text of these tokens is " + (x.ref.ok ? "accepted" : "rejected");
    std::string twin = joinToks(x.lx, t);
    std::vector<int16_t> w;
    SQLParser::tokenize(twin, &w);
    if (w == v) {
      SQLParserResult q;
      SQLParser::parse(twin, &q);
      c.count["twins compared"]++;
      if (q.isValid() != r.isValid()) return "a text with the same tokens, " + quoteBytes(twin.substr(0, 300)) + ", is " + (q.isValid() ? "accepted" : "rejected");
    }
  }
  return "";
}
static void r17(Ctx& c) {
  auto f = checker(c);
  uint64_t k = 0;
  // every keyword in every case pattern, with one letter added, removed or replaced on either side
  for (int kd : allKeywords()) {
    std::string w = kw(kd).text;
    std::string lower = w;
    for (auto& ch : lower) ch = (char)tolower(ch);
    if (!c.mine(k++)) continue;
    std::vector<std::string> vs = {w, lower, std::string(1, w[0]) + lower.substr(1), w + "_", w + "x", w + "9", "x" + w, "_" + w, w.substr(0, w.size() - 1), w.substr(1), w + w, w + "S", w + "\"a\"", w + "'a'", w + "1.5", w + "(", w + ".", w + "--c\n", "1" + w, "." + w, w + "\x80", "\"" + w + "\"", "'" + w + "'", w + ";" + lower, w + "\t" + lower};
    for (size_t i = 0; i < w.size(); i++) { std::string s = w; s[i] = (char)(s[i] ^ 32); vs.push_back(s); s[i] = '_'; vs.push_back(s); s = w; s.insert(i, 1, 'q'); vs.push_back(s); s = w; s.erase(i, 1); vs.push_back(s); s = w; s.insert(i, 1, ' '); vs.push_back(s); }
    for (auto& s : vs) if (!f(s)) return;
  }
  // all pairs of short fragments, with and without a blank
  static const char* const fr[] = {"a", "A9_", "select", "FROM", "1", "12", "1.", ".5", "1.5", ".", "-", "--\n", "--", "<", ">", "=", "!", "|", "'s'", "'", "''", "\"q\"", "\"", "+", "*", "(", ")", "[", "]", ",", ";", "?", "{", "}", ":", "^", "%", "/", "#", "@", "_", "\\", "CURRENT", "ROW", "CURRENT ROW", "CHARACTER", "VARYING", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "\n", "\t", "\r", "\x80", "e5", "x"};
  const size_t NF = sizeof fr / sizeof *fr;
  for (size_t a = 0; a < NF; a++) for (size_t b = 0; b < NF; b++) {
    if (!c.mine(k++)) continue;
    if (!f(std::string(fr[a]) + fr[b]) || !f(std::string(fr[a]) + " " + fr[b])) return;
    for (size_t d = 0; d < NF; d++) if (c.rng.below(100) < 40 * c.scale) if (!f(std::string(fr[a]) + fr[b] + fr[d])) return;
  }
  streamCorpus(c, f);
  streamEdits(c, 0.04 * c.scale, f);
  streamPrefixes(c, 1, f);
  streamBytes(c, c.n(120000), f);
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 5}, {"select", 4}, {"expr", 4}, {"create", 3}};
  streamRandom(c, p, c.n(30000), f);
  p.mutByte = 100;
  streamRandom(c, p, c.n(60000), f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 6, 1100), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 24, 33000), f);
}
PROPERTY("C17", r17, o17);

// ------------------------------------------------------------------ C20
static std::string fullResult(const std::string& t) { SQLParserResult r; SQLParser::parse(t, &r); return dumpResult(r); }
static std::string o20(Ctx& c, const std::string& t) {
  static Exec x;
  if (t.find('\0') != std::string::npos) return "";
  Rng rg(hashBytes(t) ^ 77);
  // the text as the query of PREPARE, nested to several levels, alone and inside scripts
  std::string direct = fullResult(t);
  c.count[direct.compare(0, 7, "valid=1") ? "inner texts that are rejected" : "inner texts that are accepted"]++;
  int depth = 1 + (int)rg.below(t.size() < 400 ? 4 : 2);
  std::vector<std::string> layer = {t};
  static const char* const form[] = {"PREPARE p FROM $", "prepare x1 from\n$", "PREPARE \"q r\" FROM --c\n$ ;", "SELECT 1; PREPARE p FROM $; SELECT ?", "PREPARE a FROM 'SELECT 1'; PREPARE b FROM $", "PREPARE p FROM $ WITH HINT (h('x'))", "PREPARE p FROM$"};
  for (int d = 0; d < depth; d++) layer.push_back(subst(form[d == 0 && rg.chance(1, 2) ? 0 : rg.below(7)], quoteSql(layer.back())));
  std::string cur = layer.back();
  for (int d = depth; d > 0; d--) {
    SQLParserResult r;
    c.setCur(cur);
    SQLParser::parse(cur, &r);
    if (!r.isValid()) return "PREPARE of a quoted text is rejected at nesting " + std::to_string(depth - d + 1) + ": " + (r.errorMsg() ? r.errorMsg() : "");
    const PrepareStatement* ps = nullptr;
    for (auto* s : r.getStatements()) if (s->type() == kStmtPrepare) ps = (const PrepareStatement*)s;
    if (!ps || !ps->query) return "no PREPARE statement in the result";
    if (layer[d - 1] != ps->query) return "the stored query differs from the quoted text at nesting " + std::to_string(depth - d + 1) + ": " + firstDiff(quoteBytes(layer[d - 1]), quoteBytes(ps->query));
    cur = ps->query;
    c.count["queries compared"]++;
  }
  std::string again = fullResult(cur);
  if (again != direct) return "parsing the stored query differs from parsing the text: " + firstDiff(direct, again);
  // and the arguments of EXECUTE / queries of PREPARE of the text itself
  std::string w = runCase(x, t, CMP_TREE, 1ull << RS_EXECUTE | 1ull << RS_PREPARE);
  c.nt = !t.empty();
  if (x.ref.ok) for (int k : x.ref.stmtKind) { if (k == RS_EXECUTE) c.count["EXECUTE statements"]++; if (k == RS_PREPARE) c.count["PREPARE statements"]++; }
  return w;
}
static void r20(Ctx& c) {
  auto f = checker(c);
  streamCorpus(c, f);
  streamPrefixes(c, 0.4, f);
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 5}, {"select", 3}, {"prepare", 4}, {"execute", 6}, {"create", 1}};
  p.opts.params = 3;
  streamRandom(c, p, c.n(40000), f);
  p.starts = {{"execute", 4}, {"prepare", 2}, {"extlits", 2}};
  p.opts.depth = 12;
  streamRandom(c, p, c.n(40000), f);
  p.mutTok = 50; p.mutByte = 50;
  streamRandom(c, p, c.n(20000), f);
  // quotes in every position
  static const char al[] = {'\'', 'a', '"', '\n', '-', ';', '?', '\\', '\x80'};
  uint64_t k = 0;
  for (int n = 0; n <= 4; n++) {
    size_t tot = 1;
    for (int i = 0; i < n; i++) tot *= sizeof al;
    for (size_t y = 0; y < tot && !c.failed; y++) {
      if (!c.mine(k++)) continue;
      std::string s;
      size_t z = y;
      for (int i = 0; i < n; i++) { s += al[z % sizeof al]; z /= sizeof al; }
      if (!f(s)) return;
    }
  }
  streamBytes(c, c.n(40000), [&](const std::string& t) { std::string s; for (char ch : t) if (ch) s += ch; return f(s); });
  streamSweeps(c, kListSweeps, sweepSizes(c, 6, 1100), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 16, 17000), f);
  static const char* const args[] = {"1", "-1", "9223372036854775807", "-9223372036854775808", "1.5", "-1.5", "'s'", "''''", "NULL", "TRUE", "FALSE", "DATE '2000-01-31'", "INTERVAL '7 days'", "INTERVAL '7' DAY", "3 MONTHS", "-3 YEARS", "CAST(1 AS INT)", "CAST('x' AS VARCHAR(3))", "CAST(-1.5 AS DECIMAL(4, 2))", "CAST(DATE '2000-01-31' AS TEXT)", "CAST(NULL AS DATE)"};
  for (auto a : args) for (auto b : args) for (auto d : args) { if (!c.mine(k++)) continue; if (!f(std::string("EXECUTE p (") + a + ", " + b + ", " + d + ")")) return; }
}
PROPERTY("C20", r20, o20);
