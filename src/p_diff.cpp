// Monitors that compare the parser with the independent reference parser.
#include "util.h"
#include "walk.h"
#include "sql/statements.h"
#include <clocale>
using namespace hsql;

static Exec& scratchExec() { static Exec x; return x; }
static void note(Ctx& c, const Exec& x) {
  if (x.ref.ok) for (int k : x.ref.stmtKind) c.count[std::string("accepted ") + refStmtName(k)]++;
  else if (!x.ref.errors.empty()) c.count[std::string("rejected ") + refErrName(x.ref.errors.front().kind)]++;
  if (x.ref.flags & RF_EITHER) c.count["literal spelling left open"]++;
}
static std::string diffOracle(Ctx& c, const std::string& text, unsigned cmp, uint64_t kinds = ~0ull) {
  Exec& x = scratchExec();
  bool acc = false;
  std::string w = runCase(x, text, cmp, kinds, &acc);
  note(c, x);
  return w;
}
static bool anyKind(const Exec& x, uint64_t kinds) {
  if (x.ref.ok) for (int k : x.ref.stmtKind) if (kinds >> k & 1) return true;
  return false;
}
// ------------------------------------------------------------------ XX: everything at once (development)
static std::string oXX(Ctx& c, const std::string& t) {
  c.nt = true;
  return diffOracle(c, t, CMP_ACCEPT | CMP_TREE | CMP_STATE | CMP_POS | CMP_PARAM | CMP_LEN);
}
static void rXX(Ctx& c) {
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 6}, {"select", 4}, {"create", 2}, {"expr", 4}};
  p.mutTok = 40; p.mutByte = 15;
  p.opts.badLit = 8;
  auto f = checker(c);
  streamCorpus(c, f);
  streamPrefixes(c, 1, f);
  streamEdits(c, 0.2, f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 20, 130), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 60, 60), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 40, 1100), f);
  streamBytes(c, c.n(100000), f);
  streamRandom(c, p, c.n(200000), f);
}
PROPERTY("XX", rXX, oXX);

// ------------------------------------------------------------------ C04: acceptance
static std::string o04(Ctx& c, const std::string& t) {
  std::string w = diffOracle(c, t, CMP_ACCEPT);
  c.nt = scratchExec().lx.t.size() > 2;
  return w;
}
// every byte value at token boundaries and inside tokens of valid statements
static void byteEdits(Ctx& c, double frac, const TextFn& f) {
  uint64_t k = 0;
  LexOut lx;
  for (auto& s : c.corpus) {
    if (s.size() > 300) continue;
    refLex(s, lx);
    std::vector<size_t> at;
    for (auto& t : lx.t) { at.push_back(t.b); if (t.e > t.b) { at.push_back(t.e); if (t.e - t.b > 1) at.push_back(t.b + 1 + c.rng.below(t.e - t.b - 1)); } }
    for (size_t p : at)
      for (int b = 0; b < 256; b++) {
        if (c.failed) return;
        k++;
        if (!c.mine(k) || (c.rng.next() >> 11) * 0x1p-53 > frac) continue;
        std::string u = s;
        if (c.rng.chance(1, 3) && p < u.size()) u[p] = (char)b; else u.insert(p, 1, (char)b);
        if (!f(u)) return;
      }
  }
}
// all short sequences of statement-starting tokens
static void tokenTuples(Ctx& c, size_t n, const TextFn& f) {
  Gen g(c.rng, c.dict);
  g.o.plainNames = true;
  std::vector<int> kinds = allKeywords();
  for (const char* p = "-+*/(),.;<>=^%?[]"; *p; p++) kinds.push_back(*p);
  for (int x : {T_ID, T_STR, T_INT, T_FLOAT, T_EQEQ, T_NE, T_LE, T_GE, T_CONCAT, T_CURRENT_ROW, T_CHARACTER_VARYING}) kinds.push_back(x);
  uint64_t k = 0;
  for (int a : kinds)
    for (int b : kinds) {
      k++;
      if (!c.mine(k)) continue;
      if (!f(spellOf(a, g).text + " " + spellOf(b, g).text)) return;
    }
  // a valid prefix followed by two arbitrary tokens
  for (size_t i = 0; i < n && !c.failed; i++) {
    LexOut lx;
    const std::string& s = c.rng.pick(c.corpus);
    refLex(s, lx);
    Toks t = toksOf(lx, s);
    if (t.empty() || t.size() > 60) continue;
    size_t cut = c.rng.below(t.size() + 1);
    Toks u(t.begin(), t.begin() + cut);
    u.push_back(spellOf(c.rng.pick(kinds), g));
    u.push_back(spellOf(c.rng.pick(kinds), g));
    if (c.rng.chance(1, 2)) u.insert(u.end(), t.begin() + std::min(cut + c.rng.below(2), t.size()), t.end());
    if (!f(renderPlain(u))) return;
  }
}
static void r04(Ctx& c) {
  auto f = checker(c);
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 5}, {"select", 4}, {"create", 3}, {"expr", 4}, {"tref", 2}, {"copyto", 1}, {"copyfrom", 1}};
  p.opts.badLit = 4;
  streamCorpus(c, f);
  streamPrefixes(c, 1, f);
  streamEdits(c, 0.25 * c.scale, f);
  byteEdits(c, 0.06 * c.scale, f);
  streamGaps(c, 140, f);
  tokenTuples(c, c.n(60000), f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 18, 1100), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 64, 64), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 40, 17000), f);
  streamBytes(c, c.n(80000), f);
  streamRandom(c, p, c.n(120000), f);  // valid texts
  p.mutTok = 100;
  streamRandom(c, p, c.n(120000), f);
  p.mutTok = 0; p.mutByte = 100;
  streamRandom(c, p, c.n(60000), f);
}
PROPERTY("C04", r04, o04);
// Texts around and beyond the limits of int and of 32 bits: "SELECT 1", n - 9 filling bytes, and a byte that ends the text.
// Beyond INT_MAX - 2 bytes a text may be refused for its length, but never be taken for a part of itself.
static std::string oHuge(Ctx& c, const std::string& d) {
  unsigned long long n = 0;
  char fill = 0, last = 0;
  if (sscanf(d.c_str(), "huge %llu %c %c", &n, &fill, &last) != 3 || n < 16) return "not a description of a text";
  if (fill == '_') fill = ' ';
  if (last == '_') last = ' ';
  c.nt = true;
  std::string t;
  t.reserve(n + 1);
  t = "SELECT 1";
  t.append(n - 9, fill);
  t += last;
  bool may = n > 2147483645ull;              // may be refused
  bool in = fill == ' ' && last != ')';      // in the dialect
  {
    hsql::SQLParserResult r;
    if (!hsql::SQLParser::parse(t, &r)) return "parse() returned false";
    c.count[r.isValid() ? "huge texts accepted" : "huge texts refused"]++;
    if (r.isValid() && !in) return "a text of " + std::to_string(n) + " bytes that is not in the dialect was accepted";
    if (!r.isValid() && in && !may) return "a text of " + std::to_string(n) + " bytes that is in the dialect was rejected";
    if (!r.isValid() && (r.size() || !r.errorMsg() || !*r.errorMsg())) return "a rejected huge text left statements or no message";
    if (r.isValid() && r.size() != 1) return "an accepted huge text has " + std::to_string(r.size()) + " statements";
    if (!r.isValid() && !may && r.errorColumn() != (int)n - 1 && r.errorColumn() != (int)n - 2 && fill == ' ') return "error column " + std::to_string(r.errorColumn()) + " in a text of " + std::to_string(n) + " bytes";
  }
  if (fill == ' ') {
    std::vector<int16_t> k;
    bool ok = hsql::SQLParser::tokenize(t, &k);
    size_t want = 2 + (last != ' ');
    if (!ok && !may) return "tokenize() returned false";
    if (ok && k.size() != want) return "tokenize() gives " + std::to_string(k.size()) + " tokens for a text of " + std::to_string(want);
  } else if (may) {
    std::vector<int16_t> k;
    if (hsql::SQLParser::tokenize(t, &k) && k.size() < n - 16) return "tokenize() gives " + std::to_string(k.size()) + " tokens for a text of " + std::to_string(n) + " bytes";
  }
  return "";
}
static void rHuge(Ctx& c) {
  if (c.shard) return;
  std::vector<std::string> d = {"huge 4294967304 _ )", "huge 2147483656 ) )", "huge 2147483648 _ _"};
  if (c.thorough) for (const char* x : {"huge 4294967304 ) )", "huge 4294967312 _ ;", "huge 2147483645 _ ;", "huge 2147483645 _ )", "huge 2147483644 _ _", "huge 2147483646 _ ;", "huge 2147483647 _ )", "huge 1073741824 _ )", "huge 3221225472 _ )", "huge 6442450944 _ ;"}) d.push_back(x);
  c.noShrink = true;
  auto f = checker(c);
  for (auto& x : d) if (!f(x)) return;
}
PROPERTY("C04huge", rHuge, oHuge);

// ------------------------------------------------------------------ C05, C06, C07: trees
static std::string treeOracle(Ctx& c, const std::string& t, uint64_t kinds) {
  std::string w = diffOracle(c, t, CMP_TREE, kinds);
  c.nt = anyKind(scratchExec(), kinds);
  return w;
}
static const uint64_t kSel = 1ull << RS_SELECT;
static const uint64_t kDml = 1ull << RS_INSERT | 1ull << RS_INSERT_SELECT | 1ull << RS_DELETE | 1ull << RS_TRUNCATE | 1ull << RS_UPDATE | 1ull << RS_DEALLOCATE | 1ull << RS_EXECUTE | 1ull << RS_TRANSACTION |
                             1ull << RS_PREPARE | 1ull << RS_SHOW | 1ull << RS_IMPORT | 1ull << RS_COPY_FROM | 1ull << RS_COPY_TO;
static const uint64_t kDdl = 1ull << RS_CREATE_TABLE | 1ull << RS_CREATE_FROM | 1ull << RS_CTAS | 1ull << RS_CREATE_INDEX | 1ull << RS_CREATE_VIEW | 1ull << RS_DROP | 1ull << RS_ALTER;

static std::string o05(Ctx& c, const std::string& t) { return treeOracle(c, t, kSel); }
static std::string o06(Ctx& c, const std::string& t) { return treeOracle(c, t, kDml); }
static std::string o07(Ctx& c, const std::string& t) { return treeOracle(c, t, kDdl); }

static void treeStreams(Ctx& c, const Profile& p, size_t n, double edits) {
  auto f = checker(c);
  streamCorpus(c, f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 18, 1100), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 40, 40), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 24, 5000), f);
  streamEdits(c, edits, f);  // neighbours of valid statements, many of which are valid as well
  streamRandom(c, p, n, f);
  Profile q = p;
  q.opts.plainNames = true;
  q.comments = 0;
  streamRandom(c, q, n / 3, f);
  q.starts = {{"script", 1}};
  q.opts.params = 3;
  streamRandom(c, q, n / 6, f);
}
// all on/off combinations of the clauses of a SELECT, in every place a SELECT can stand
static void selectClauses(Ctx& c, double frac, const TextFn& f) {
  static const char* const cl[][4] = {
      {"WITH w AS (SELECT 1)", "WITH w AS (SELECT 1 UNION SELECT 2), v AS (SELECT 2 LIMIT 1)", nullptr, nullptr},
      {"TOP 7", nullptr, nullptr, nullptr},
      {"DISTINCT", nullptr, nullptr, nullptr},
      {"FROM t", "FROM s.t AS x (p, q), u JOIN v ON 1", "FROM (SELECT 1 LIMIT 2) AS y", nullptr},
      {"WHERE a = 1", nullptr, nullptr, nullptr},
      {"GROUP BY b", "GROUP BY b, c HAVING d > 2", nullptr, nullptr},
      {"UNION SELECT 9", "INTERSECT ALL (SELECT 9 ORDER BY k LIMIT 3)", "EXCEPT SELECT 8 UNION ALL SELECT 9", nullptr},
      {"ORDER BY e", "ORDER BY e DESC NULLS LAST, g ASC", nullptr, nullptr},
      {"LIMIT 5", "OFFSET 6", "LIMIT 5 OFFSET 6", "LIMIT ALL"},
      {"FOR UPDATE", "FOR KEY SHARE OF t, u SKIP LOCKED FOR SHARE NOWAIT", nullptr, nullptr},
  };
  static const char* const place[] = {"$", "$ WITH HINT (h(1))", "SELECT * FROM ($) AS sub", "SELECT ($) AS sub", "SELECT a IN ($)", "SELECT EXISTS($)", "($) UNION SELECT 3", "SELECT 3 UNION ($)", "($) UNION ($) ORDER BY o LIMIT 9",
                                      "INSERT INTO t $", "CREATE VIEW v AS $", "CREATE TABLE t AS $", "COPY ($) TO 'f'", "WITH z AS ($) SELECT 1", "($)", "SELECT 1; $; SELECT 2", "SELECT x FROM (($)) y, ($) z LEFT JOIN ($) u USING (k)", "SELECT NOT EXISTS ($) AND a NOT IN ($)"};
  const size_t NP = sizeof place / sizeof *place;
  size_t radix[10], total = 1;
  for (int i = 0; i < 10; i++) { radix[i] = 1; for (int j = 0; j < 4 && cl[i][j]; j++) radix[i]++; total *= radix[i]; }
  for (size_t k = 0; k < total && !c.failed; k++) {
    if (!c.mine(k) || (c.rng.next() >> 11) * 0x1p-53 > frac) continue;
    size_t r = k;
    std::string part[10];
    for (int i = 0; i < 10; i++) { size_t d = r % radix[i]; r /= radix[i]; if (d) part[i] = cl[i][d - 1]; }
    std::string s;
    auto add = [&](const std::string& x) { if (!x.empty()) { if (!s.empty()) s += ' '; s += x; } };
    add(part[0]); add("SELECT"); add(part[1]); add(part[2]); add("a, b AS bb"); for (int i = 3; i < 10; i++) add(part[i]);
    if (!f(subst(place[(k / 7 + c.rng.below(NP)) % NP], s))) return;
  }
}
static void r05(Ctx& c) {
  Profile p;
  p.starts = {{"select", 8}, {"tref", 4}, {"selnp", 3}, {"expr", 5}, {"join", 2}, {"func", 1}, {"case", 1}};
  p.opts.badLit = 0;
  selectClauses(c, 1.0 * c.scale, checker(c));
  if (!c.failed) treeStreams(c, p, c.n(110000), 0.08 * c.scale);
}
static void r06(Ctx& c) {
  Profile p;
  p.starts = {{"insert", 4}, {"update", 4}, {"delete", 2}, {"truncate", 1}, {"execute", 4}, {"prepare", 3}, {"import", 2}, {"copyfrom", 5}, {"copyto", 5}, {"show", 2}, {"trans", 1}, {"stmt", 4}, {"extlits", 3}};
  // hints on every statement kind, and scripts mixing them
  auto f = checker(c);
  static const char* const hs[] = {"INSERT INTO t VALUES (1)", "INSERT INTO t (a) SELECT 1", "UPDATE t SET a = 1", "UPDATE t SET a = 1 WHERE b", "DELETE FROM t", "DELETE FROM s.t WHERE a", "TRUNCATE t", "TRUNCATE s.t", "EXECUTE p", "EXECUTE p (1)", "EXECUTE p ()",
                                   "PREPARE p FROM 'x'", "DEALLOCATE PREPARE p", "BEGIN", "BEGIN TRANSACTION", "COMMIT", "ROLLBACK TRANSACTION", "SELECT 1", "DROP TABLE t", "CREATE TABLE t (a INT)", "CREATE VIEW v AS SELECT 1", "ALTER TABLE t DROP COLUMN c"};
  static const char* const hv[] = {"", "h", "h(1)", "h('a', -2, 3.5, NULL, TRUE), g", "a, b(1), c", "h(CAST(1 AS INT), DATE '2000-01-01', INTERVAL '1 day')"};
  for (auto a : hs) for (auto v : hv) for (int i = 0; i < 3; i++) {
    std::string s = a;
    if (*v) s += std::string(" WITH HINT (") + v + ")";
    if (i == 1) s += ";";
    if (i == 2) s += "; " + s;
    if (c.mine(i)) if (!f(s)) return;
  }
  treeStreams(c, p, c.n(110000), 0.08 * c.scale);
}
static void r07(Ctx& c) {
  Profile p;
  p.starts = {{"create", 10}, {"ctable", 8}, {"coldef", 5}, {"drop", 2}, {"alter", 2}, {"cindex", 2}, {"cview", 2}, {"ctas", 1}, {"stmt", 2}};
  auto f = checker(c);
  // every type with boundary parameters times every constraint sequence up to length 3
  static const char* const ty[] = {"BIGINT", "BOOLEAN", "CHAR($)", "CHARACTER VARYING($)", "DATE", "DATETIME", "DECIMAL", "DECIMAL($)", "DECIMAL($, $)", "DECIMAL(3,$)", "DOUBLE", "FLOAT", "INT", "INTEGER", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "TIME($)", "TIMESTAMP", "VARCHAR($)"};
  static const char* const nums[] = {"0", "1", "7", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "010"};
  static const char* const cs[] = {"", "NULL", "NOT NULL", "PRIMARY KEY", "UNIQUE", "REFERENCES r", "REFERENCES s.r (x, y)"};
  uint64_t k = 0;
  for (auto t : ty)
    for (auto n : nums) {
      std::string tt = subst(t, n);
      for (auto a : cs) for (auto b : cs) {
        k++;
        if (!c.mine(k)) continue;
        std::string d = "c " + tt + " " + a + " " + b;
        static const char* const w[] = {"CREATE TABLE t ($)", "CREATE TABLE s.t (x INT, $)", "CREATE TABLE IF NOT EXISTS t ($, y TEXT NOT NULL)", "CREATE TABLE t (UNIQUE (x), $, PRIMARY KEY (c))", "CREATE TABLE t ($); CREATE TABLE u ($)"};
        if (!f(subst(w[k % 5], d))) return;
      }
    }
  for (auto a : cs) for (auto b : cs) for (auto d : cs) for (auto e : cs) {
    k++;
    if (!c.mine(k)) continue;
    if (!f(std::string("CREATE TABLE t (p INT, c INT ") + a + " " + b + " " + d + " " + e + ", q INT NULL, FOREIGN KEY (p, q) REFERENCES s.z (k))")) return;
  }
  treeStreams(c, p, c.n(110000), 0.08 * c.scale);
}
PROPERTY("C05", r05, o05);
PROPERTY("C06", r06, o06);
PROPERTY("C07", r07, o07);

// ------------------------------------------------------------------ C08: operators
static std::string o08(Ctx& c, const std::string& t) {
  std::string w = diffOracle(c, t, CMP_ACCEPT | CMP_TREE);
  c.nt = scratchExec().lx.t.size() > 4;
  return w;
}
static const char* const kBin[] = {"+", "-", "*", "/", "%", "^", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "||", "LIKE", "NOT LIKE", "ILIKE", "AND", "OR", "BETWEEN 1 AND", "BETWEEN", "IN (1) AND"};
static const char* const kPre[] = {"", "-", "NOT ", "- -", "NOT NOT ", "-(", "NOT ("};
static const char* const kPost[] = {"", " IS NULL", " IS NOT NULL", " ISNULL", "[1]", " IN (1)", " NOT IN (1, 2)", " BETWEEN x AND y", " IN (SELECT 1)"};
static std::string atom(Ctx& c) {
  static const char* const a[] = {"a", "b", "1", "2.5", "'s'", "?", "t.c", "f(x)", "(p)", "NULL", "CASE WHEN q THEN r END", "CAST(z AS INT)", "(SELECT 1)", "*", "EXISTS(SELECT 1)", "ARRAY[1, 2]", "EXTRACT(YEAR FROM d)", "3 DAYS", "DATE '2000-01-01'", "TRUE"};
  return a[c.rng.chance(3, 4) ? c.rng.below(3) : c.rng.below(sizeof a / sizeof *a)];
}
static void r08(Ctx& c) {
  auto f = checker(c);
  size_t ctx = c.rng.below(embedCount());
  auto go = [&](const std::string& e) { return f(embedExpr((int)(ctx++ % embedCount()), e)); };
  uint64_t k = 0;
  const size_t NB = sizeof kBin / sizeof *kBin, NP = 3, NQ = sizeof kPost / sizeof *kPost;
  // up to three binary operators, every sequence, in all contexts for one and two operators
  for (auto b1 : kBin) {
    for (int x = 0; x < embedCount(); x++) { if (!c.mine(k++)) continue; if (!f(embedExpr(x, std::string("a ") + b1 + " b"))) return; }
    for (auto b2 : kBin) {
      for (int x = 0; x < embedCount(); x++) { if (!c.mine(k++)) continue; if (!f(embedExpr(x, std::string("a ") + b1 + " b " + b2 + " c"))) return; }
      for (auto b3 : kBin) { if (!c.mine(k++)) continue; if (!go(std::string("a ") + b1 + " b " + b2 + " c " + b3 + " d")) return; }
    }
  }
  // one decorated operand anywhere in a two-operator sequence; all decorations on one-operator sequences
  for (auto b1 : kBin)
    for (size_t p = 0; p < NP; p++) for (size_t q = 0; q < NQ; q++) {
      for (size_t p2 = 0; p2 < NP; p2++) for (size_t q2 = 0; q2 < NQ; q2++) {
        if (!c.mine(k++)) continue;
        if (!go(std::string(kPre[p]) + "a" + kPost[q] + " " + b1 + " " + kPre[p2] + "b" + kPost[q2])) return;
      }
      for (auto b2 : kBin) for (int pos = 0; pos < 3; pos++) {
        if (!c.mine(k++)) continue;
        std::string o[3] = {"a", "b", "c"};
        o[pos] = kPre[p] + o[pos] + kPost[q];
        if (!go(o[0] + " " + b1 + " " + o[1] + " " + b2 + " " + o[2])) return;
      }
    }
  c.count["systematic operator sequences"] += c.evals;
  // random longer ones, with parentheses, nested predicates and all kinds of operands
  for (size_t i = c.n(120000); i && !c.failed; i--) {
    int n = 1 + (int)c.rng.below(c.rng.chance(1, 20) ? 40 : 7);
    std::string s;
    int open = 0;
    for (int j = 0; j < n; j++) {
      if (j) s += std::string(" ") + kBin[c.rng.below(NB)] + " ";
      if (c.rng.chance(1, 4)) { const char* pre = kPre[c.rng.below(7)]; s += pre; if (strchr(pre, '(')) open++; }
      if (c.rng.chance(1, 8)) { s += '('; open++; }
      s += atom(c);
      if (c.rng.chance(1, 4)) s += kPost[c.rng.below(NQ)];
      while (open && c.rng.chance(1, 2)) { s += ')'; open--; if (c.rng.chance(1, 5)) s += kPost[c.rng.below(NQ)]; }
    }
    while (open--) s += ')';
    if (!go(s)) return;
  }
  Profile p;
  p.starts = {{"expr", 3}, {"opnd", 2}, {"between", 1}, {"inx", 1}};
  p.opts.depth = 12;
  streamRandom(c, p, c.n(50000), f);
}
PROPERTY("C08", r08, o08);

// ------------------------------------------------------------------ C09: literals and names
static std::string o09(Ctx& c, const std::string& t) {
  std::string w = diffOracle(c, t, CMP_ACCEPT | CMP_TREE);
  c.nt = scratchExec().lx.t.size() > 2;
  return w;
}
static const char* const kLitCtx[] = {"SELECT $", "SELECT -$", "SELECT - $", "SELECT 1-$", "SELECT 1 - $", "SELECT a, $ AS b", "SELECT $ FROM t WHERE a = $", "SELECT f($, $)", "INSERT INTO t VALUES ($)", "INSERT INTO t VALUES (-$, $)", "INSERT INTO t VALUES (- $)",
                                      "EXECUTE p ($, -$)", "SELECT 1 WITH HINT (h($))", "SELECT x IN ($, $)", "SELECT CASE $ WHEN $ THEN $ ELSE $ END", "UPDATE t SET a = $", "SELECT 1 LIMIT $ OFFSET $", "SELECT CAST($ AS INT)", "INSERT INTO t VALUES (CAST(-$ AS BIGINT))",
                                      "SELECT a BETWEEN $ AND $", "SELECT ARRAY[$]", "SELECT ($)", "DELETE FROM t WHERE a < $", "SELECT 1 ORDER BY $", "SELECT $+$", "SELECT $*$", "COPY t FROM 'f' WHERE $", "SELECT a LIKE $", "EXECUTE p (CAST($ AS INT))", "SELECT a=$", "SELECT a>$"};
static const char* const kIntCtx[] = {"SELECT a[$]", "SELECT TOP $ a", "CREATE TABLE t (a VARCHAR($))", "CREATE TABLE t (a DECIMAL($, $), b TIME($))", "SELECT f() OVER (ROWS $ PRECEDING)", "SELECT f() OVER (ROWS BETWEEN $ FOLLOWING AND $ PRECEDING)", "SELECT $ DAYS, $ SECOND", "SELECT INTERVAL '$ hours'",
                                      "SELECT INTERVAL '$' MONTH", "SELECT CAST(a AS CHAR($))", "INSERT INTO t VALUES ($ YEARS, INTERVAL '$' DAY)", "SELECT - $ DAYS"};
static const char* const kStrCtx[] = {"PREPARE p FROM $", "COPY t TO $", "IMPORT FROM CSV FILE $ INTO t", "CREATE TABLE t FROM TBL FILE $", "COPY t TO 'f' WITH (ENCODING $, DELIMITER $, NULL $, QUOTE $)", "COPY t FROM $ (FORMAT CSV, ENCODING $)"};
static const char* const kNameCtx[] = {"SELECT $", "SELECT $.$", "SELECT $.*", "SELECT a $", "SELECT a AS $", "SELECT $(1)", "SELECT $.$()", "SELECT 1 FROM $", "SELECT 1 FROM $.$ AS $ ($, $)", "SELECT 1 FROM a JOIN $ USING ($, $)", "SELECT 1 FROM (SELECT 1) $", "WITH $ AS (SELECT 1) SELECT 2",
                                       "SELECT 1 FROM t FOR UPDATE OF $, $", "SELECT 1 WITH HINT ($, $(1))", "INSERT INTO $.$ ($, $) VALUES (1)", "UPDATE $.$ SET $ = $", "DELETE FROM $.$", "TRUNCATE $", "CREATE TABLE $.$ ($ INT REFERENCES $.$ ($), UNIQUE ($))", "CREATE INDEX $ ON $.$ ($)",
                                       "CREATE VIEW $.$ ($) AS SELECT 1", "DROP TABLE $.$", "DROP VIEW IF EXISTS $", "DROP INDEX $", "ALTER TABLE $.$ DROP COLUMN $", "PREPARE $ FROM 'x'", "EXECUTE $", "DEALLOCATE PREPARE $", "SHOW COLUMNS $.$", "DESCRIBE $", "IMPORT FROM CSV FILE 'f' INTO $.$", "COPY $.$ TO 'f'",
                                       "COPY $ FROM 'f'", "SELECT a ORDER BY $", "SELECT 1 GROUP BY $", "SELECT EXTRACT(YEAR FROM $)", "CREATE TABLE t ($ INT, FOREIGN KEY ($, $) REFERENCES $)", "CREATE TABLE $ FROM TBL FILE 'f'", "SELECT CASE $ WHEN $ THEN $ END"};
static std::string rndBytes(Ctx& c, size_t n, bool quoteOk) {
  std::string s;
  static const char* pools[] = {"abc", "'ab", "\"'-;\\\n", " \t\r\n", "--\n/**/", "%_?*", "\x80\xc3\xa9\xff\xfe", "SELECTselect019_"};
  const char* p = pools[c.rng.below(8)];
  size_t pl = strlen(p);
  bool wild = c.rng.chance(1, 3);
  for (size_t i = 0; i < n; i++) {
    char ch = wild ? (char)(1 + c.rng.below(255)) : p[c.rng.below(pl)];
    if (!quoteOk && ch == '"') ch = 'q';
    s += ch;
  }
  return s;
}
static void r09(Ctx& c) {
  auto f = checker(c);
  auto ints = [&](const std::string& v) {
    const char* t = c.rng.chance(1, 3) ? any(c, kIntCtx) : any(c, kLitCtx);
    return f(subst(t, v));
  };
  uint64_t k = 0;
  // integers: all small ones, every power of two and ten with neighbours, leading zeros, and around the 64-bit limits
  std::vector<std::string> iv;
  for (int i = 0; i <= 300; i++) iv.push_back(std::to_string(i));
  for (int b = 0; b < 66; b++) for (int d = -2; d <= 2; d++) { unsigned __int128 v = ((unsigned __int128)1 << b) + d; std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); if (s.size() < 25) iv.push_back(s); }
  for (int e = 1; e < 24; e++) { iv.push_back("1" + std::string(e, '0')); iv.push_back(std::string(e, '9')); }
  for (const char* s : {"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "9223372036854775799", "92233720368547758070", "9223372036854775806", "170141183460469231731687303715884105728"}) iv.push_back(s);
  for (auto& s : iv)
    for (int z : {0, 1, 2, 18, 19, 20, 40}) {
      std::string v = std::string(z, '0') + s;
      for (auto t : kLitCtx) { if (!c.mine(k++)) continue; if ((c.rng.below(1000) > 250 * c.scale)) continue; if (!f(subst(t, v))) return; }
      for (auto t : kIntCtx) { if (!c.mine(k++)) continue; if ((c.rng.below(1000) > 250 * c.scale)) continue; if (!f(subst(t, v))) return; }
    }
  for (size_t i = c.n(40000); i && !c.failed; i--) {
    std::string v;
    size_t n = 1 + c.rng.below(c.rng.chance(1, 30) ? 400 : 21);
    for (size_t j = 0; j < n; j++) v += (char)('0' + c.rng.below(10));
    if (!ints(v)) return;
  }
  // decimals
  for (size_t i = c.n(60000); i && !c.failed; i--) {
    std::string v;
    int m = (int)c.rng.below(6);
    auto digs = [&](size_t n) { std::string s; for (size_t j = 0; j < n; j++) s += (char)('0' + (m == 5 && c.rng.chance(2, 3) ? 9 : c.rng.below(10))); return s; };
    size_t big = c.rng.chance(1, 25) ? 400 : 20;
    if (m == 0) v = digs(1 + c.rng.below(big)) + ".";
    else if (m == 1) v = "." + digs(1 + c.rng.below(big));
    else if (m == 2) v = std::string(c.rng.below(6), '0') + digs(1 + c.rng.below(3)) + "." + std::string(c.rng.below(320), '0') + digs(1 + c.rng.below(20));
    else if (m == 3) v = digs(1 + c.rng.below(320)) + "." + digs(1 + c.rng.below(5));
    else v = digs(1 + c.rng.below(18)) + "." + digs(1 + c.rng.below(big));
    if (!f(subst(any(c, kLitCtx), v))) return;
  }
  // halfway cases: long expansions of binary fractions with the last digit changed
  for (size_t i = c.n(6000); i && !c.failed; i--) {
    char b[1200];
    double d = (double)(c.rng.next() >> 11) * 0x1p-53;
    snprintf(b, sizeof b, "%.60f", d);
    std::string v = b;
    // the midpoint between d and its successor has one more bit; approximate by decimal truncation at a random length
    v.resize(16 + c.rng.below(v.size() - 16));
    if (!f(subst(any(c, kLitCtx), v))) return;
  }
  // strings
  static const char al[] = {'\'', 'a', '"', '\n', '-', ';', '\\', '\x80', ' '};
  for (int n = 0; n <= 4; n++) {
    size_t tot = 1;
    for (int i = 0; i < n; i++) tot *= sizeof al;
    for (size_t x = 0; x < tot && !c.failed; x++) {
      if (!c.mine(k++)) continue;
      std::string s;
      size_t y = x;
      for (int i = 0; i < n; i++) { s += al[y % sizeof al]; y /= sizeof al; }
      if (!f(subst(c.rng.chance(1, 4) ? any(c, kStrCtx) : any(c, kLitCtx), quoteSql(s)))) return;
      if (s.find('"') == std::string::npos && n) if (!f(subst(any(c, kNameCtx), '"' + s + '"'))) return;
    }
  }
  for (int b = 1; b < 256; b++) for (int pos = 0; pos < 3; pos++) {
    if (!c.mine(k++)) continue;
    std::string s = pos == 0 ? std::string(1, (char)b) + "xy" : pos == 1 ? std::string("x") + (char)b + "y" : std::string("xy") + (char)b;
    if (!f("SELECT " + quoteSql(s) + ", 'z'") || (b != '"' && !f("SELECT \"" + s + "\", z"))) return;
  }
  for (size_t i = c.n(60000); i && !c.failed; i--) {
    size_t n = c.rng.chance(1, 40) ? c.rng.below(3000) : c.rng.below(24);
    if (c.rng.chance(1, 2)) { if (!f(subst(c.rng.chance(1, 3) ? any(c, kStrCtx) : any(c, kLitCtx), quoteSql(rndBytes(c, n, true))))) return; }
    else { if (!f(subst(any(c, kNameCtx), '"' + rndBytes(c, n + 1, false) + '"'))) return; }
  }
  // every length with every kind of first and last byte
  {
    static const char ends[] = {' ', '\n', '\t', '0', '_', '%', '\\', '.', '-', '\x80', ';'};
    std::vector<size_t> lens;
    for (size_t n = 1; n <= 140; n++) lens.push_back(n);
    for (size_t n : {159, 160, 199, 200, 254, 255, 256, 257, 299, 300, 399, 400, 499, 500, 511, 512, 513, 767, 768, 999, 1000, 1001, 1023, 1024, 1025}) lens.push_back(n);
    for (size_t n : lens)
      for (char e : ends)
        for (int w = 0; w < 3; w++) {
          if (!c.mine(k++) || c.failed) continue;
          std::string s(n, (char)('a' + n % 26));
          if (w != 1) s.back() = e;
          if (w != 0) s.front() = e;
          if (!f(subst(c.rng.chance(1, 4) ? any(c, kStrCtx) : any(c, kLitCtx), quoteSql(s)))) return;
          if (!f(subst(any(c, kNameCtx), '"' + s + '"'))) return;
        }
  }
  // doubled quotes and lengths around buffer sizes
  for (size_t base : {1u, 16u, 64u, 128u, 256u, 512u, 1024u, 2048u, 4096u, 8192u, 16384u, 32768u, 65536u})
    for (int d = -2; d <= 2; d++) {
      if (!c.mine(k++) || c.failed) continue;
      size_t n = base + d;
      if (n > 70000) continue;
      std::string s(n, 'x');
      if (!f("SELECT '" + s + "', b")) return;
      if (!f("SELECT 'l''" + s + "''', c")) return;
      if (!f("SELECT '''" + s + "'")) return;
      if (!f("SELECT \"" + s + "\" FROM " + s)) return;
      if (n > 2) { std::string q = s; q[n / 2] = '\n'; if (!f("SELECT '" + q + "'")) return; }
      if (!f("SELECT " + std::string(n, '0') + "42, 0." + std::string(n, '0') + "5")) return;
      if (!f(std::string(n, ' ') + "SELECT '" + s + "''" + s + "'")) return;
    }
  // names: every keyword in quotes, with suffixes, prefixes and in every letter case; words of the sources
  for (int kwd : allKeywords()) {
    std::string w = tokName(kwd);
    std::string lo = w;
    for (auto& ch : lo) ch = (char)tolower(ch);
    for (auto& v : {'"' + w + '"', '"' + lo + '"', w + "_", lo + "1", w + "x", "x" + w, lo + lo, w + "$", '"' + w + " " + lo + '"'}) {
      if (v.back() == '$') continue;
      if (!c.mine(k++)) continue;
      if (!f(subst(any(c, kNameCtx), v))) return;
    }
  }
  for (size_t i = c.n(30000); i && !c.failed; i--) {
    std::string w;
    if (!c.dict.words.empty() && c.rng.chance(1, 2)) w = !c.dict.hotWords.empty() && c.rng.chance(1, 2) ? c.rng.pick(c.dict.hotWords) : c.rng.pick(c.dict.words);
    else { size_t n = 1 + c.rng.below(c.rng.chance(1, 30) ? 300 : 14); static const char a0[] = "abcxyzABCXYZ", a1[] = "abcxyzABCXYZ0189_"; for (size_t j = 0; j < n; j++) w += j ? a1[c.rng.below(17)] : a0[c.rng.below(12)]; }
    int m = (int)c.rng.below(4);
    if (m == 0) { if (!f(subst(any(c, kNameCtx), w))) return; }
    else if (m == 1) { if (w.find('"') == std::string::npos && !w.empty() && !f(subst(any(c, kNameCtx), '"' + w + '"'))) return; }
    else if (!f(subst(m == 2 ? any(c, kStrCtx) : any(c, kLitCtx), quoteSql(w)))) return;
  }
  for (size_t i = c.n(20000); i && !c.failed && !c.dict.nums.empty(); i--) {
    uint64_t v = !c.dict.hotNums.empty() && c.rng.chance(1, 2) ? c.rng.pick(c.dict.hotNums) : c.rng.pick(c.dict.nums);
    v += c.rng.below(3) - 1;
    if (!ints(std::to_string(v))) return;
  }
  // dates and intervals, valid spellings
  for (size_t i = c.n(30000); i && !c.failed; i--) {
    static const char* const u[] = {"second", "minute", "hour", "day", "month", "year", "seconds", "minutes", "hours", "days", "months", "years"};
    char b[64];
    std::string v;
    switch (c.rng.below(4)) {
      case 0: snprintf(b, sizeof b, "DATE '%04d-%02d-%02d'", (int)c.rng.below(10000), (int)c.rng.below(100), (int)c.rng.below(100)); v = b; break;
      case 1: v = std::to_string(c.rng.below(c.rng.chance(1, 2) ? 100 : 3000000000u)) + " " + u[c.rng.below(12)]; break;
      case 2: v = "INTERVAL '" + std::string(c.rng.chance(1, 6) ? "-" : "") + std::to_string(c.rng.below(c.rng.chance(1, 2) ? 100 : 2000000000u)) + " " + u[c.rng.below(12)] + "'"; break;
      default: v = "INTERVAL '" + std::string(c.rng.chance(1, 6) ? "-" : "") + std::to_string(c.rng.below(c.rng.chance(1, 2) ? 100 : 2000000000u)) + "' " + u[c.rng.below(6)];
    }
    if (!f(subst(any(c, kLitCtx), v))) return;
  }
  Profile p;
  p.starts = {{"lit", 3}, {"extlits", 3}, {"stmt", 3}, {"select", 2}, {"coldef", 1}};
  streamRandom(c, p, c.n(40000), f);
}
PROPERTY("C09", r09, o09);

// ------------------------------------------------------------------ C12: parameters
struct ParamWalk : Visitor {
  std::vector<const Expr*> seen;
  void expr(const Expr* e, const char*) override { if (e->type == kExprParameter) seen.push_back(e); }
};
static std::string paramOrder(const std::string& s) {
  std::string o;
  for (size_t p = 0; (p = s.find("(parameter", p)) != std::string::npos; p += 10) {
    if (p && s[p - 1] == '"') continue;
    size_t e = p + 10;
    if (s[e] != ' ' && s[e] != ')') continue;
    size_t v = s.find("ival=", p), end = s.find_first_of("()", e);
    o += v < end ? s.substr(v + 5, s.find_first_of(" )", v) - v - 5) : "0";
    o += ',';
  }
  return o;
}
static std::string o12(Ctx& c, const std::string& t) {
  Exec& x = scratchExec();
  refRun(x, t);
  note(c, x);
  SQLParserResult r;
  SQLParser::parse(t, &r);
  if (!r.isValid()) {
    c.nt = t.find('?') != std::string::npos;
    if (!r.parameters().empty()) return "an unsuccessful parse exposes " + std::to_string(r.parameters().size()) + " parameters";
    return "";
  }
  auto& ps = r.parameters();
  ParamWalk w;
  walkResult(r, w);
  c.count["placeholders"] += w.seen.size();
  c.nt = !w.seen.empty();
  if (w.seen.size() != ps.size()) return "the trees contain " + std::to_string(w.seen.size()) + " placeholders, parameters() has " + std::to_string(ps.size());
  std::unordered_set<const Expr*> in(w.seen.begin(), w.seen.end());
  for (size_t i = 0; i < ps.size(); i++) {
    if (!ps[i]) return "parameters() contains a null pointer";
    if (!in.erase(ps[i])) return "parameters()[" + std::to_string(i) + "] is listed twice or is not a node of the trees";
    if (ps[i]->type != kExprParameter) return "parameters()[" + std::to_string(i) + "] is not a placeholder";
    if (ps[i]->ival != (int64_t)i) return "parameters()[" + std::to_string(i) + "] has id " + std::to_string(ps[i]->ival);
  }
  if (x.ref.ok) {
    if ((size_t)x.ref.params != ps.size()) return "the text has " + std::to_string(x.ref.params) + " placeholders, parameters() has " + std::to_string(ps.size());
    if (t.size() < 20000 && x.ref.depth < 2000 && r.size() == x.ref.stmts.size()) {
      Arena A;
      for (size_t i = 0; i < r.size(); i++) {
        std::string want = paramOrder(ser(x.ref.stmts[i])), got = paramOrder(ser(dumpStatement(r.getStatement(i), A)));
        if (want != got) return "placeholder ids of statement " + std::to_string(i) + " do not follow the text: expected " + want.substr(0, 200) + " got " + got.substr(0, 200);
      }
    }
  } else {
    for (auto& e : x.ref.errors) if (e.kind == RE_PARAM) return "a placeholder was accepted where only constants are allowed";
    // the count of placeholders is judged on accepted texts of the dialect only
  }
  return "";
}
static std::string addByHand(Ctx& c);
static void r12(Ctx& c) {
  auto f = checker(c);
  for (size_t i = c.n(3000); i && !c.failed; i--) {
    c.setCur("-- parameters added by hand");
    std::string w = addByHand(c);
    c.count["lists of parameters added by hand"]++;
    if (!w.empty()) { c.noShrink = true; c.fail(w, "-- parameters added by hand"); return; }
  }
  // ? in every expression position and in every pair of positions
  for (int i = 0; i < embedCount(); i++) {
    if (!c.mine(i)) continue;
    for (int j = 0; j < embedCount(); j++) {
      std::string inner = embedExpr(j, "? + ?");
      if (!f(embedExpr(i, "?") + ";" + inner) || !f(embedExpr(i, "(SELECT ? FROM a WHERE ? ORDER BY ? LIMIT ? OFFSET ?)")) || !f(inner + ";" + embedExpr(i, "? BETWEEN ? AND ?"))) return;
      if (inner.compare(0, 6, "SELECT") == 0 && inner.find(';') == std::string::npos && inner.find("HINT") == std::string::npos) if (!f(embedExpr(i, "(" + inner + ") = ?"))) return;
    }
  }
  for (const char* t : {"WITH a AS (SELECT ?), b AS (SELECT ? LIMIT ?) SELECT ?, (SELECT ?) FROM (SELECT ? WHERE ?) x JOIN y ON ? JOIN (SELECT ?) z ON ? WHERE ? GROUP BY ? HAVING ? UNION SELECT ? ORDER BY ? LIMIT ? OFFSET ?",
                        "SELECT CASE ? WHEN ? THEN ? WHEN ? THEN ? ELSE ? END, f(?, ?) OVER (PARTITION BY ?, ? ORDER BY ? ROWS 1 PRECEDING), ARRAY[?, ?], (?)[1], EXTRACT(YEAR FROM ?), CAST(? AS INT), ? IN (?, ?), ? NOT IN (SELECT ?), EXISTS (SELECT ?)",
                        "UPDATE t SET a = ?, b = ? + ? WHERE ?; DELETE FROM t WHERE ?; SELECT ?; COPY t FROM 'f' WHERE ?; COPY (SELECT ?) TO 'f'; INSERT INTO t SELECT ?, ?; CREATE VIEW v AS SELECT ?; CREATE TABLE t AS SELECT ?",
                        "(SELECT ? ORDER BY ? LIMIT ?) UNION (SELECT ? LIMIT ?) ORDER BY ? LIMIT ? OFFSET ?", "SELECT ? UNION SELECT ? EXCEPT (SELECT ? UNION ALL SELECT ? LIMIT ?) ORDER BY ?", "INSERT INTO t VALUES (?)", "EXECUTE p (?)", "SELECT 1 WITH HINT (h(?))", "SELECT ?; INSERT INTO t VALUES (1, ?)",
                        "SELECT ?; SELECT", "SELECT ?, ? FROM", "INSERT INTO t VALUES (CAST(? AS INT))", "SELECT ?; SELECT DATE 'x'", "EXECUTE p (-?)", "SELECT TOP ? 1", "SELECT a[?]", "SELECT ?; ;"})
    if (!f(t)) return;
  streamCorpus(c, f);
  Profile p;
  p.starts = {{"script", 5}, {"select", 4}, {"stmt", 3}, {"expr", 3}, {"tref", 1}, {"update", 1}};
  p.opts.params = 30;
  streamRandom(c, p, c.n(120000), f);
  p.mutTok = 60;
  streamRandom(c, p, c.n(50000), f);
  for (size_t n : {1u, 2u, 3u, 7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 1023u, 1024u, 1025u, 4097u, 20000u, 33000u, 66000u, 70000u})
    for (int k = 0; k < 4; k++) {
      if (!c.mine(n + k) || c.failed) continue;
      std::string s = k == 2 ? "SELECT a IN (" : k == 1 ? "UPDATE t SET a = 1 WHERE x" : "SELECT ";
      for (size_t i = 0; i < n; i++) { if (k == 1) s += " AND ?"; else if (k == 3) s += i ? ";SELECT ?" : "?"; else s += i ? ",?" : "?"; }
      if (k == 2) s += ")";
      if (!f(s)) return;
    }
  streamSweeps(c, kListSweeps, sweepSizes(c, 12, 300), f);
}
// Parameters added through the interface of the result, in any order of ids.
static std::string addByHand(Ctx& c) {
  SQLParserResult r;
  std::vector<Expr*> own, want;
  size_t n = c.rng.chance(1, 8) ? c.rng.below(1500) : c.rng.below(140);
  int mode = (int)c.rng.below(6);
  int64_t range = mode == 0 ? 3 : mode == 1 ? 1 << 30 : (int64_t)n + 1;
  if (c.rng.chance(1, 2)) { SQLParser::parse("SELECT ?, ? FROM t WHERE a = ?", &r); for (Expr* e : r.parameters()) want.push_back(e); }
  for (size_t i = 0; i < n; i++) {
    int64_t id = mode == 2 ? (int64_t)(n - i) : mode == 3 ? (int64_t)i : mode == 4 ? (i == n - 1 ? 0 : (int64_t)i + 1) : mode == 5 ? (int64_t)(i % 7 * 100 + i / 7) : (int64_t)c.rng.below(range);
    Expr* e = Expr::makeParameter((int)id);
    own.push_back(e);
    r.addParameter(e);
    size_t at = want.size();
    while (at && want[at - 1]->ival > e->ival) at--;
    want.insert(want.begin() + at, e);
  }
  std::string w;
  const std::vector<Expr*>& got = r.parameters();
  if (got.size() != want.size()) w = std::to_string(want.size()) + " parameters were added, the list has " + std::to_string(got.size());
  else for (size_t i = 0; i < got.size() && w.empty(); i++) if (got[i]->ival != want[i]->ival) w = "parameter " + std::to_string(i) + " of " + std::to_string(got.size()) + " has id " + std::to_string(got[i]->ival) + " instead of " + std::to_string(want[i]->ival);
  r.reset();
  if (w.empty() && !r.parameters().empty()) w = "parameters are left after reset()";
  for (Expr* e : own) delete e;
  return w;
}
PROPERTY("C12", r12, o12);

// ------------------------------------------------------------------ C13: failures
static std::string o13(Ctx& c, const std::string& t) {
  std::string w = diffOracle(c, t, CMP_STATE | CMP_POS);
  c.nt = !scratchExec().ref.ok;
  return w;
}
static void r13(Ctx& c) {
  auto f = checker(c);
  streamCorpus(c, f);
  streamPrefixes(c, 1, f);
  streamEdits(c, 0.2 * c.scale, f);
  streamBytes(c, c.n(60000), f);
  Profile p;
  p.starts = {{"script", 6}, {"stmt", 4}, {"select", 3}, {"create", 3}, {"copyto", 1}, {"expr", 2}};
  p.mutTok = 70; p.mutByte = 15; p.opts.badLit = 15; p.comments = 70;
  streamRandom(c, p, c.n(150000), f);
  // the failure late, on a later line, behind comments, strings with newlines and many statements
  static const char* const bad[] = {"SELECT", "SELECT 1 FROM", "SELECT DATE 'x'", "SELECT 1 )", "INSERT INTO t VALUES (?)", "SELECT #", "SELECT 'abc", "SELECT \"abc", "CREATE TABLE t (a INT NULL NOT NULL)", "COPY t TO 'f' (FORMAT CSV, FORMAT CSV)", "IMPORT FROM XYZ FILE 'f' INTO t",
                                    "SELECT INTERVAL '1 parsec'", "SELECT 1 ORDER BY a NULLS MIDDLE", "SELECT 99999999999999999999", "x", "SELECT 1 AS 'a'", "CREATE TABLE t FROM ABC FILE 'f'", "COPY t TO 'f' (QUOTE 'a', FORMAT TBL)", "COPY t TO 'f' (FOO 'a')", "SELECT 1 2"};
  static const char* const lead[] = {"", "\n", "SELECT 1;", "SELECT 1;\n\n", "-- c\n", "SELECT 'a\nb\n';\n", "SELECT \"a\nb\";", "\t \r\n", "SELECT ?, ?; -- x\n  ", "BEGIN;COMMIT;\r\n", "SELECT 1 -- ;\n;\n", "SELECT 'it''s\n';SELECT CURRENT, 2 FROM t;\n", "CREATE TABLE a (b CHARACTER   VARYING(3));\n ", "SELECT f() OVER (ROWS CURRENT\tROW);\n"};
  static const char* const trail[] = {"", " ", "\n", ";", "; SELECT 1", "\n-- end", "-- end\n\n", " , 2"};
  for (auto b : bad) for (auto l : lead) for (auto l2 : lead) for (auto t : trail) {
    if (!c.mine(c.evals + c.rng.below(8))) { c.evals += 0; }
    if (c.rng.below(c.shards) != 0) continue;
    if (!f(std::string(l) + l2 + b + t)) return;
  }
  // short tokens that cannot stand there, behind layout of every length and shape
  {
    static const char* const one[] = {")", ",", "1", "#", "!", "'", "]", "a", "SELECT", "="};
    static const char* const pre[] = {"SELECT 1 ,", "SELECT a FROM", "", "SELECT f(", "INSERT INTO", "SELECT 1;"};
    for (size_t i = c.n(12000); i && !c.failed; i--) {
      std::string s = pre[c.rng.below(6)];
      size_t parts = 1 + c.rng.below(3);
      for (size_t k = 0; k < parts; k++) {
        size_t m = c.rng.below(c.rng.chance(1, 12) ? 700 : 24);
        int shape = (int)c.rng.below(6);
        if (shape == 4) { s += " --" + std::string(m, 'x') + "\n"; continue; }
        for (size_t q = 0; q < m; q++) s += shape == 0 ? ' ' : shape == 1 ? '\n' : shape == 2 ? (q + 1 == m ? '\n' : ' ') : shape == 3 ? (q ? ' ' : '\n') : " \t\n\r"[c.rng.below(3)];
      }
      if (!f(s + one[c.rng.below(10)])) return;
    }
  }
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 40, 3000), f);
  for (size_t n : {10u, 100u, 1000u, 5000u, 70000u}) {
    if (!c.mine(n / 10 + c.seed) || c.failed) continue;
    for (int k = 0; k < 4; k++) {
      std::string s;
      for (size_t i = 0; i < n; i++) s += k == 0 ? "\n" : k == 1 ? " " : k == 2 ? "SELECT 1;" : "-- c\n";
      if (!f(s + "SELECT FROM") || !f(s + "SELECT DATE 'x', 1")) return;
    }
    if (!f("SELECT '" + std::string(n, 'a') + "' FROM 1") || !f("SELECT '" + std::string(n, '\n') + "' FROM 1") || !f("SELECT " + std::string(n, 'a') + " FROM 1")) return;
  }
}
PROPERTY("C13", r13, o13);

// ------------------------------------------------------------------ C21: rules
static std::string o21(Ctx& c, const std::string& t) {
  std::string w = diffOracle(c, t, CMP_ACCEPT);
  const Exec& x = scratchExec();
  c.nt = x.ref.ok || (!x.ref.errors.empty() && x.ref.errors.front().kind != RE_SYNTAX);
  return w;
}
static void r21(Ctx& c) {
  auto f = checker(c);
  uint64_t k = 0;
  // column constraints: all sequences up to length 4, alone and among other columns
  static const char* const cs[] = {"NULL", "NOT NULL", "PRIMARY KEY", "UNIQUE", "REFERENCES r", "REFERENCES s.r (x)"};
  static const char* const wrapC[] = {"CREATE TABLE t (c INT $)", "CREATE TABLE t (a INT NULL, c DECIMAL(3, 2) $, b INT NOT NULL PRIMARY KEY)", "CREATE TABLE IF NOT EXISTS s.t (PRIMARY KEY (c), c VARCHAR(3) $)", "SELECT 1; CREATE TABLE t (c INT $); SELECT 2", "CREATE TABLE t (c INT $, d INT $)", "CREATE TABLE t (c INT $) WITH HINT (h)"};
  for (int len = 0; len <= 4; len++) {
    int tot = 1;
    for (int i = 0; i < len; i++) tot *= 6;
    for (int q = 0; q < tot; q++) {
      std::string s;
      int y = q;
      for (int i = 0; i < len; i++) { s += std::string(" ") + cs[y % 6]; y /= 6; }
      for (auto w : wrapC) { if (!c.mine(k++)) continue; if (len == 4 && c.rng.below(100) > 40 * c.scale) continue; if (!f(subst(w, s))) return; }
    }
  }
  // two columns with any pair of constraint pairs
  for (auto a : cs) for (auto b : cs) for (auto d : cs) for (auto e : cs) { if (!c.mine(k++)) continue; if (!f(std::string("CREATE TABLE t (x INT ") + a + " " + b + ", y TEXT " + d + " " + e + ")")) return; }
  // COPY options: all sequences up to length 3, sampled beyond
  static const char* const op[] = {"FORMAT CSV", "FORMAT TBL", "FORMAT BINARY", "FORMAT bin", "FORMAT foo", "ENCODING 'e'", "DELIMITER 'd'", "NULL 'n'", "QUOTE 'q'", "BOGUS 'x'", "delimiter ';'", "FORMAT csv"};
  static const char* const wrapO[] = {"COPY t FROM 'f' WITH ($)", "COPY t TO 'f' WITH ($)", "COPY t FROM 'f' ($) WHERE a", "COPY (SELECT 1) TO 'f' ($)", "SELECT 1; COPY s.t TO 'f' ($); SELECT 2"};
  for (int len = 1; len <= 5; len++) {
    size_t tot = 1;
    for (int i = 0; i < len; i++) tot *= 12;
    size_t cap = len <= 3 ? tot : c.n(12000) * c.shards;
    for (size_t q0 = 0; q0 < cap && !c.failed; q0++) {
      if (!c.mine(k++)) continue;
      size_t y = len <= 3 ? q0 : c.rng.below(tot);
      std::string s;
      for (int i = 0; i < len; i++) { if (i) s += ", "; s += op[y % 12]; y /= 12; }
      if (!f(subst(wrapO[(q0 + len) % 5], s))) return;
    }
  }
  // dates: short strings over a small alphabet, and near misses
  static const char* const wrapD[] = {"SELECT DATE '$'", "INSERT INTO t VALUES (1, DATE '$')", "SELECT a FROM t WHERE b < DATE '$' AND c", "EXECUTE p (DATE '$')", "SELECT 1; SELECT DATE '$' d; SELECT 2", "SELECT 1 WITH HINT (h(DATE '$'))", "SELECT f(DATE '$', 1)", "INSERT INTO t VALUES (CAST(DATE '$' AS DATE))"};
  const size_t ND = sizeof wrapD / sizeof *wrapD;
  auto date = [&](const std::string& s) { return f(subst(wrapD[k++ % ND], s)); };
  for (const char* s : {"2000-01-01", "2000-1-1", "20-1-1", "0-0-0", "9999-99-99", "02000-01-01", "2000-001-01", "2000-01-001", "2000-01-01 ", " 2000-01-01", "2000 -01-01", "2000--01-01", "-2000-01-01", "2000-01-", "2000-01", "2000", "", "-", "--", "2000/01/01", "2000-01-01x", "x2000-01-01", "2000-0x-01", "2000-01-0x", "20x0-01-01",
                        "+2000-01-01", "2000-+1-01", "2000- 1-01", "2000-01- 1", "2000-01-01-01", "2000.01.01", "2000-01-01''", "0x00-01-01", "12345-1-1", "2000-1-1\n", "\t2000-1-1", "2000-01-01T00:00:00", "2000-13-45", "1-1-1", "2000-1 -1"})
    for (auto w : wrapD) { if (!c.mine(k++)) continue; if (!f(subst(w, s))) return; }
  for (size_t i = c.n(60000); i && !c.failed; i--) {
    std::string s;
    auto digs = [&](int lo, int hi) { int n = c.rng.range(lo, hi); std::string o; for (int j = 0; j < n; j++) o += (char)('0' + c.rng.below(10)); return o; };
    s = digs(1, 4) + "-" + digs(1, 2) + "-" + digs(1, 2);
    if (c.rng.chance(2, 3)) { static const char e[] = "0123456789- +xX.:/\n\t\x80"; for (int m = 1 + (int)c.rng.below(2); m; m--) { size_t at = c.rng.below(s.size() + 1); int z = (int)c.rng.below(3); char ch = e[c.rng.below(sizeof e - 1)]; if (z == 0 && at < s.size()) s.erase(at, 1); else if (z == 1 && at < s.size()) s[at] = ch; else s.insert(at, 1, ch); } }
    if (!date(s)) return;
  }
  // intervals
  static const char* const wrapI[] = {"SELECT INTERVAL '$'", "INSERT INTO t VALUES (1, INTERVAL '$')", "SELECT a FROM t WHERE b < INTERVAL '$' AND c", "EXECUTE p (INTERVAL '$')", "SELECT 1; SELECT INTERVAL '$' d; SELECT 2", "SELECT f(INTERVAL '$', 1)", "SELECT a + INTERVAL '$' FROM t"};
  static const char* const wrapJ[] = {"SELECT INTERVAL '$' DAY", "INSERT INTO t VALUES (1, INTERVAL '$' SECOND)", "SELECT a FROM t WHERE b < INTERVAL '$' YEAR AND c", "EXECUTE p (INTERVAL '$' MONTH)", "SELECT 1; SELECT INTERVAL '$' HOUR d; SELECT 2", "SELECT INTERVAL '$' DAYS", "SELECT INTERVAL '$' MINUTE"};
  static const char* const uw[] = {"second", "minute", "hour", "day", "month", "year", "seconds", "minutes", "hours", "days", "months", "years", "DAY", "Hours", "week", "dayz", "d", "secondss", "minut", "yearsx", "", "day s", "day day", "millisecond", "quarter", "mins"};
  for (auto u : uw) for (const char* n : {"1", "0", "10", "007", "-1", "", "1.5", "x", "1x", "--1", "1 2", "2147483647", "99999999999999999999"}) for (const char* sep : {" ", "", "  ", "\n", "-"}) {
    if (!c.mine(k++)) continue;
    if (!f(subst(wrapI[k / 8 % 7], std::string(n) + sep + u))) return;
  }
  for (const char* n : {"1", "0", "10", "007", "-1", "", "1.5", "x", "1x", "x1", "--1", "1 2", "1 ", "1 day", "2147483647", "99999999999999999999", "1-", "0x10", "1e3", "1_0"})
    for (auto w : wrapJ) { if (!c.mine(k++)) continue; if (!f(subst(w, n))) return; }
  for (size_t i = c.n(40000); i && !c.failed; i--) {
    std::string s = std::to_string(c.rng.below(c.rng.chance(1, 2) ? 50 : 100000000));
    std::string u = uw[c.rng.below(sizeof uw / sizeof *uw)];
    bool full = c.rng.chance(1, 2);
    if (full) s += " " + u;
    if (c.rng.chance(1, 2)) { static const char e[] = "0123456789- xsday.\x80"; size_t at = c.rng.below(s.size() + 1); char ch = e[c.rng.below(sizeof e - 1)]; if (c.rng.chance(1, 2)) s.insert(at, 1, ch); else if (at < s.size()) s.erase(at, 1); }
    if (!f(subst(full ? wrapI[c.rng.below(7)] : wrapJ[c.rng.below(7)], s))) return;
  }
  // file types and NULLS placement
  for (const char* ft : {"CSV", "csv", "Csv", "TBL", "tbl", "BINARY", "binary", "BIN", "bin", "Bin", "CS", "CSVX", "AUTO", "TBLS", "BINAR", "x", "\"CSV\"", "\"csv \"", "PARQUET", "TEXT", "B", "BINARYX", "C", "TB"})
    for (const char* w : {"IMPORT FROM $ FILE 'f' INTO t", "CREATE TABLE t FROM $ FILE 'f'", "COPY t FROM 'f' WITH (FORMAT $)", "COPY t TO 'f' (ENCODING 'x', FORMAT $)", "COPY t TO 'f' (QUOTE 'x', FORMAT $)", "COPY t TO 'f' (FORMAT $, QUOTE 'x')", "SELECT 1; IMPORT FROM $ FILE 'f' INTO s.t; SELECT 2"}) { if (!c.mine(k++)) continue; if (!f(subst(w, ft))) return; }
  for (const char* nl : {"NULLS FIRST", "NULLS LAST", "nulls first", "Nulls Last", "NULLS MIDDLE", "NULLS", "NULLS FIRSTS", "NULLS F", "NULL FIRST", "NULLS \"FIRST\"", "NULL LAST", "NULLX FIRST", "FIRST", "NULLS NULLS", "NULLS FIRST LAST", "NULLS LASTT", "NULLS LAS", "NULLS first", "\"NULLS\" FIRST", "FOO LAST"})
    for (const char* w : {"SELECT a FROM t ORDER BY a $", "SELECT a FROM t ORDER BY a DESC $, b", "SELECT a FROM t ORDER BY a, b ASC $ LIMIT 1", "SELECT f() OVER (ORDER BY a $)", "SELECT f() OVER (PARTITION BY x ORDER BY a DESC $ ROWS 1 PRECEDING)", "SELECT 1 UNION SELECT 2 ORDER BY a $", "SELECT * FROM (SELECT a FROM t ORDER BY a $) x", "SELECT 1; SELECT 2 ORDER BY a $; SELECT 3"}) { if (!c.mine(k++)) continue; if (!f(subst(w, nl))) return; }
  Profile p;
  p.starts = {{"coldef", 3}, {"ctable", 3}, {"copyto", 3}, {"copyfrom", 3}, {"lit", 3}, {"extlits", 3}, {"import", 1}, {"cfrom", 1}, {"select", 3}, {"script", 3}};
  p.opts.badLit = 35;
  streamRandom(c, p, c.n(80000), f);
  p.opts.badLit = 0;
  streamRandom(c, p, c.n(30000), f);
}
PROPERTY("C21", r21, o21);
