// C19: cost of parsing as a function of the length of the text, and behaviour on very long inputs.
#include "rt.h"
#include "util.h"
#include "walk.h"
#include <cmath>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
using namespace hsql;

namespace {
struct Light : Visitor {
  uint64_t n = 0;
  void expr(const Expr* e, const char*) override { n += e->isLiteral() + e->hasAlias() + e->hasTable() + (e->getName() != nullptr); }
  void table(const TableRef* t, const char*) override { n += t->hasSchema(); if (t->type == kTableName || t->type == kTableSelect) n += t->getName() != nullptr; }
};
volatile uint64_t sink;
void readEverything(SQLParserResult& r) {
  Light v;
  for (size_t i = 0; i < r.size(); i++) { walkStatement(r.getStatement(i), v); v.n += r.getStatement(i)->stringLength + (r.getMutableStatement(i) != nullptr); }
  for (size_t i = 0; i < r.parameters().size(); i++) v.n += r.parameters()[i]->ival;
  sink = v.n + (r.errorMsg() != nullptr) + r.errorLine();
}
const char* const kPhase[] = {"parse and destroy", "tokenize", "parse, read, move, reset", "parse and release"};
bool lastValid;
std::string lastMsg;
void phaseRun(int phase, const std::string& t) {
  switch (phase) {
    case 1: { std::vector<int16_t> v; SQLParser::tokenize(t, &v); sink = v.size(); break; }
    case 2: { SQLParserResult r, m; SQLParser::parse(t, &r); lastValid = r.isValid(); readEverything(r); m = std::move(r); SQLParserResult k(std::move(m)); k.reset(); break; }
    case 3: { SQLParserResult r; SQLParser::parse(t, &r); for (auto* s : r.releaseStatements()) delete s; break; }
    default: { SQLParserResult r; SQLParser::parse(t, &r); lastValid = r.isValid(); lastMsg = r.errorMsg() ? std::string(r.errorMsg()).substr(0, 100) : ""; break; }
  }
}
// texts: kind 'L' list, 'D' nesting, 'N' long tokens, 'X' extra; variants: 0 as is, 1 rejected at the end, 2 cut after two thirds, 3 an
// unterminated string follows, 4 followed by another statement, 5 preceded by one, 6 a bad date follows
const std::vector<std::string>& extra() {
#define R(body, sep) "\x01" body "\x02" sep "\x03"
  static const std::vector<std::string> v = {
    R("SELECT ?, ?, ? FROM t WHERE a = ?", ";"), R("SELECT 'x'", ";\n"), R("-- c\n", "") "SELECT 1", R("\n", "") "SELECT ?", R("SELECT 1 -- c\n", ";"), "SELECT * FROM t WHERE x IN (" R("?", ",") ")", "INSERT INTO t VALUES (" R("'a''b'", ",") ")", "SELECT " R("'a''b''c@'", ","),
    R("PREPARE p@ FROM 'SELECT ?'", ";"), R("EXECUTE p@ (1, 'a')", ";"), R("CREATE TABLE t@ (a INT NOT NULL, b VARCHAR(5))", ";"), R("INSERT INTO t VALUES (@, 'v', -1.5)", ";\n"), R("UPDATE t SET a = ? WHERE b = ?", ";"), R("COPY t FROM 'f@' WITH (FORMAT CSV, DELIMITER ',')", ";"),
    "SELECT " R("a@ OR b", " OR "), "SELECT " R("a LIKE '@'", " AND "), "SELECT " R("NOT a@", " AND "), "SELECT " R("a@ IN (1, 2)", " OR "), "SELECT " R("a@ BETWEEN 1 AND 2", " OR "), "SELECT " R("EXISTS (SELECT @)", " AND "), "SELECT " R("(SELECT @)", ","), "SELECT " R("(a + @)", " * "), "SELECT " R("f@(a, b)", " + "), "SELECT " R("CASE WHEN a@ THEN 1 ELSE 2 END", " + "),
    "SELECT " R("a ^ @", " % "), "SELECT a " R("IS NOT NULL", " "), "SELECT a " R("ISNULL", " "), "SELECT " R("CAST(a@ AS INT)", ","), "SELECT " R("EXTRACT(YEAR FROM a@)", ","), "SELECT " R("DATE '2000-01-01'", ","), "SELECT " R("INTERVAL '5 DAYS'", ","), "SELECT " R("5 DAYS", " + "), "SELECT " R("f(a) OVER (PARTITION BY b ORDER BY c)", ","), "SELECT " R("ARRAY[1,2][1]", ","),
    "SELECT * FROM " R("(SELECT * FROM t@) AS x@", ","), "SELECT * FROM " R("a@ JOIN b@ ON c = d", ","), "SELECT * FROM a " R("CROSS JOIN b@ ON x", " "), "SELECT * FROM a " R("FULL OUTER JOIN (SELECT 1) AS b@ ON x", " "), "SELECT 1 FROM t ORDER BY " R("a@ + 1 ASC NULLS FIRST", ","), "SELECT 1 FROM t GROUP BY " R("a@ || 'x'", ","),
    "WITH " R("w@ AS (SELECT ? FROM t WHERE x = ?)", ",") " SELECT 1", "SELECT " R("\"quoted @\".\"col @\"", ","), "SELECT " R("a.b@ AS c@", ","), "SELECT " R("*", ","), "SELECT " R("t@.*", ","), "SELECT " R("1.5", " * "), "SELECT " R("- 1", " + "), "SELECT " R("TRUE", " AND "), "SELECT a " R("-- comment with ' and \" inside\n", "") "FROM t", "SELECT a" R("\n", "") ", b" R("\t", "") "FROM" R(" \n", "") " t",
    R("DROP TABLE IF EXISTS t@", ";"), R("DELETE FROM t@ WHERE a = 'x'", ";"), R("SHOW COLUMNS t@", ";"), R("ALTER TABLE t@ DROP COLUMN c", ";"), R("CREATE VIEW v@ (a) AS SELECT 1", ";"), R("CREATE INDEX i@ ON t (a, b)", ";"), R("(SELECT @) UNION (SELECT 2)", ";"), R("SELECT 1 UNION ALL SELECT 2 ORDER BY 1 LIMIT 5", ";"), R("SELECT 1 WITH HINT (h(@))", ";"), R("SELECT 1 FROM t FOR UPDATE", ";"), R("IMPORT FROM CSV FILE 'f' INTO t@", ";"), R("BEGIN TRANSACTION", ";\n"), R("TRUNCATE t@", " ; "), R("DEALLOCATE PREPARE p@", ";")};
#undef R
  return v;
}
const std::vector<std::string>& family(char k) { return k == 'L' ? kListSweeps : k == 'D' ? kDepthSweeps : k == 'N' ? kLengthSweeps : extra(); }
const int kVariants = 7;
std::string make(char fam, size_t idx, int variant, size_t n) {
  std::string s = expandTemplate(family(fam)[idx], n);
  switch (variant) {
    case 1: return s + " )";
    case 2: return s.substr(0, s.size() * 2 / 3);
    case 3: return s + " 'abc";
    case 4: return s + "; SELECT ?, 1";
    case 5: return "SELECT ?, 'x'; " + s;
    case 6: return s + ", DATE 'x'; SELECT 1";
  }
  return s;
}
std::string name(char fam, size_t idx, int variant, int phase, size_t n) { return std::string("@sweep ") + fam + " " + std::to_string(idx) + " " + std::to_string(variant) + " " + std::to_string(phase) + " " + std::to_string(n); }
std::string shown(const std::string& s) { return quoteBytes(s.size() > 160 ? s.substr(0, 80) + " ... " + s.substr(s.size() - 60) : s); }
struct Cost { double edges, lib, bytes, peak, allocs, len; };
Cost measure(int phase, const std::string& t) {
  Cost c;
  rt::workReset();
  rt::begin();
  phaseRun(phase, t);
  rt::end();
  c.edges = (double)rt::edges(); c.lib = (double)rt::libBytes(); c.bytes = (double)rt::bytes(); c.peak = (double)rt::peak(); c.allocs = (double)rt::allocs(); c.len = (double)t.size();
  return c;
}
// n for which the text is about `len` bytes long
size_t sizeFor(char fam, size_t idx, size_t len) {
  double a = (double)expandTemplate(family(fam)[idx], 64).size(), b = (double)expandTemplate(family(fam)[idx], 1088).size();
  double per = (b - a) / 1024;
  if (per < 0.02) return 0;  // the text does not grow
  size_t n = (size_t)(len / per);
  return n < 2 ? 2 : n;
}
#if defined VF_MODE_COV
struct Metric { const char* what; double Cost::*f; double slack; };
const Metric kMetrics[] = {{"executed branches", &Cost::edges, 400}, {"bytes handled by library functions", &Cost::lib, 4096}, {"bytes allocated", &Cost::bytes, 40000}, {"peak of live memory", &Cost::peak, 60000}, {"allocations", &Cost::allocs, 300}};
#endif
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }
struct Job { int phase; const std::string* t; double time; };
void* threadMain(void* p) {
  Job* j = (Job*)p;
  double a = cpu();
  phaseRun(j->phase, *j->t);
  j->time = cpu() - a;
  return nullptr;
}
// runs the phase on a thread with a small stack; a recursion over the input would overflow it
double onSmallStack(int phase, const std::string& t, size_t stack) {
  Job j{phase, &t, 0};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, stack);
  pthread_t th;
  if (pthread_create(&th, &at, threadMain, &j)) abort();
  pthread_join(th, nullptr);
  pthread_attr_destroy(&at);
  return j.time;
}
const size_t kStack = 320 * 1024;
}  // namespace
// decides one member of a family; n = 0: the default sizes of this build
static std::string judgeSweep(Ctx& c, char fam, size_t idx, int variant, int phase) {
#if defined VF_MODE_COV
  size_t base = c.thorough ? 12000 : 3000;
  size_t n1 = sizeFor(fam, idx, base);
  if (!n1) return "";
  std::string a = make(fam, idx, variant, n1), b = make(fam, idx, variant, 16 * n1);
  if (phase == 0 && fam != 'D') { phaseRun(0, make(fam, idx, variant, 5)); }
  measure(phase, a);
  Cost x = measure(phase, a), y = measure(phase, b);
  c.count["texts measured"] += 2;
  c.count["branches executed"] += (uint64_t)(x.edges + y.edges);
  c.nt = true;
  for (auto& m : kMetrics) {
    double u = x.*m.f, v = y.*m.f;
    double allowed = (y.len / x.len) * (std::log2(y.len + 2) / std::log2(x.len + 2));  // n log n
    double ratio = (v - m.slack) / ((u + 1) * allowed);
    uint64_t pm = (uint64_t)(std::max(0.0, ratio) * 100);
    uint64_t& worst = c.count[std::string("max: ") + m.what + ", growth in percent of n log n"];
    if (pm > worst) worst = pm;
    if (ratio <= 1.5) continue;
    // confirm on still longer texts, so that a single step of some growing table is not mistaken for a trend
    std::string d = make(fam, idx, variant, 64 * n1);
    Cost z = measure(phase, d);
    double allowed2 = (z.len / y.len) * (std::log2(z.len + 2) / std::log2(y.len + 2));
    if (z.*m.f > 1.6 * (v * allowed2) && z.*m.f > 1.6 * (u + m.slack) * allowed * allowed2)
      return std::string(kPhase[phase]) + ": " + m.what + " grow faster than n log n: " + std::to_string((uint64_t)u) + " for " + std::to_string(a.size()) + " bytes, " + std::to_string((uint64_t)v) + " for " + std::to_string(b.size()) + ", " + std::to_string((uint64_t)(z.*m.f)) + " for " + std::to_string(d.size()) + ": " + shown(b);
  }
  return "";
#else
  size_t small = c.thorough ? 200000 : 60000, big = small * 16;
  size_t n1 = sizeFor(fam, idx, small);
  if (!n1) return "";
  std::string b = make(fam, idx, variant, 16 * n1);
  c.setCur(name(fam, idx, variant, phase, 16 * n1));
  double t2 = onSmallStack(phase, b, kStack);
  c.count["long texts on a 320 KB stack"]++;
  c.count["bytes of long texts"] += b.size();
  c.nt = true;
  if (fam == 'D' && phase == 0 && variant == 0 && idx != 7) {
    // nesting far beyond the limit is an error, not a crash (a flat chain of set operations is the exception)
    if (lastValid) c.count["deep texts accepted"]++; else c.count["deep texts rejected"]++;
    if (!lastValid && lastMsg.empty()) return "a deeply nested text is rejected without a message";
  }
  (void)big;
  if (t2 < 0.35) return "";
  // slow: is it slow in proportion?
  std::string a = make(fam, idx, variant, n1);
  double t1 = 1e9;
  for (int i = 0; i < 5; i++) t1 = std::min(t1, onSmallStack(phase, a, kStack));
  for (int i = 0; i < 2; i++) t2 = std::min(t2, onSmallStack(phase, b, kStack));
  double ratio = t2 / (t1 + 0.002) / ((double)b.size() / a.size());
  c.count["time ratios taken"]++;
  if (ratio > 5) {
    char buf[200];
    snprintf(buf, sizeof buf, ": %.4f s for %zu bytes but %.3f s for %zu bytes: ", t1, a.size(), t2, b.size());
    return std::string(kPhase[phase]) + " takes disproportionately long on long texts" + buf + shown(b);
  }
  return "";
#endif
}
static std::string o19(Ctx& c, const std::string& t) {
  char fam;
  size_t idx, n;
  int variant, phase;
  if (sscanf(t.c_str(), "@sweep %c %zu %d %d %zu", &fam, &idx, &variant, &phase, &n) == 5) {
    if (!strchr("LDNX", fam) || idx >= family(fam).size()) return "";
    return judgeSweep(c, fam, idx, variant, phase);
  }
  return "";
}
static void r19(Ctx& c) {
  c.noShrink = true;
  auto f = checker(c);
  uint64_t k = 0;
  // warm up one-time work
  for (const char* s : {"SELECT a, 'x', ? FROM t WHERE b = 1.5", "SELECT 'abc", "SELECT a FROM", "SELECT DATE 'x'"}) for (int p = 0; p < 4; p++) phaseRun(p, s);
  for (char fam : {'X', 'L', 'N', 'D'})
    for (size_t i = 0; i < family(fam).size(); i++)
      for (int v = 0; v < kVariants; v++)
        for (int p = 0; p < 4; p++) {
          if (fam == 'D' && v > 2) continue;
          if (c.failed) return;
          if (!c.mine(k++ * 5)) continue;
#if !defined VF_MODE_COV
          // the slower build looks at a selection of variants, all of them over the seeds
          if (!c.thorough && !(v == 0 && (p == 0 || p == 2)) && !c.rng.chance(1, 7)) continue;
#else
          if (!c.thorough && p == 3 && v > 0) continue;
#endif
          f(name(fam, i, v, p, 0));
        }
  // random repetitions: a random valid list element, repeated
  Gen g(c.rng, c.dict);
  for (size_t i = c.n(120); i && !c.failed; i--) {
    g.o = GenOpts();
    g.o.depth = 2 + (int)c.rng.below(3);
    g.o.params = 2;
    static const char* const st[] = {"stmt", "expr", "expr", "ealias", "tatom", "ord", "whens", "coldef", "extlit", "upd", "hint", "wd", "tcons"};
    static const char* const pre[] = {"", "SELECT ", "SELECT a IN (", "SELECT ", "SELECT * FROM ", "SELECT 1 FROM t ORDER BY ", "SELECT CASE ", "CREATE TABLE t (", "INSERT INTO t VALUES (", "UPDATE t SET ", "SELECT 1 WITH HINT (", "WITH ", "CREATE TABLE t (a INT, "};
    static const char* const sep[] = {";", ",", " , ", ",", ",", ",", " ", ",", ",", ",", ",", ",", ","};
    static const char* const post[] = {"", "", ")", " FROM t", "", "", " END", ")", ")", "", ")", " SELECT 1", ")"};
    size_t w = c.rng.below(13);
    std::string unit;
    for (int tries = 0; tries < 20; tries++) { Toks t = g.derive(st[w]); if (t.size() < 40) { unit = renderPlain(t); break; } }
    if (unit.empty() || unit.find('\0') != std::string::npos || unit.size() > 600) continue;
    auto rep = [&](size_t n) { std::string s = pre[w]; for (size_t j = 0; j < n; j++) { if (j) s += sep[w]; s += unit; } return s + post[w]; };
    size_t n1 = std::max<size_t>(4, 3000 / (unit.size() + 1));
    int phase = (int)c.rng.below(4);
    std::string a = rep(n1), b = rep(16 * n1);
    c.setCur(b.substr(0, 2000));
    c.tally(a.substr(0, 300), true);
#if defined VF_MODE_COV
    measure(phase, a);
    Cost x = measure(phase, a), y = measure(phase, b);
    c.count["random repetitions measured"]++;
    for (auto& m : kMetrics) {
      double allowed = (y.len / x.len) * (std::log2(y.len + 2) / std::log2(x.len + 2));
      if (y.*m.f <= m.slack + 1.5 * (x.*m.f + 1) * allowed) continue;
      std::string d = rep(64 * n1);
      Cost z = measure(phase, d);
      double allowed2 = (z.len / y.len) * (std::log2(z.len + 2) / std::log2(y.len + 2));
      if (z.*m.f > 1.6 * (y.*m.f * allowed2) && z.*m.f > 1.6 * (x.*m.f + m.slack) * allowed * allowed2) { c.fail(std::string(kPhase[phase]) + ": " + m.what + " grow faster than n log n for a repeated " + quoteBytes(unit), b.substr(0, 3000)); return; }
    }
#else
    std::string d = rep(300 * n1);
    onSmallStack(phase, d, kStack);
    c.count["random repetitions on a 320 KB stack"]++;
#endif
  }
}
PROPERTY("C19", r19, o19);
