// C01, C02, C03: memory safety, balance of allocations, initialisation.
#include "rt.h"
#include "util.h"
#include "walk.h"
#include "sql/statements.h"
#include <new>
#include <thread>
using namespace hsql;

void mixedStreams(Ctx& c, double n, const TextFn& f, double prefixes, double edits) {
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 6}, {"select", 5}, {"create", 4}, {"expr", 4}, {"tref", 2}, {"copyto", 1}, {"copyfrom", 1}, {"coldef", 2}, {"func", 1}, {"case", 1}};
  p.opts.badLit = 6;
  streamCorpus(c, f);
  streamPrefixes(c, prefixes, f);
  streamEdits(c, edits, f);
  streamRandom(c, p, c.n(n * 0.3), f);
  p.mutTok = 100;
  streamRandom(c, p, c.n(n * 0.35), f);
  p.mutTok = 20; p.mutByte = 100;
  streamRandom(c, p, c.n(n * 0.15), f);
  p.mutByte = 0; p.mutTok = 10; p.opts.badLit = 60;
  streamRandom(c, p, c.n(n * 0.1), f);
  streamBytes(c, c.n(n * 0.1), f);
}
static void stripParams(N* n) {
  if (!strcmp(n->kind, "parameter")) for (auto it = n->a.begin(); it != n->a.end();) { if (!strncmp(it->first, "ival", 4)) it = n->a.erase(it); else ++it; }
  for (auto& k : n->c) stripParams(k.second);
}
std::vector<std::string> treesWithoutParamIds(const SQLParserResult& r) {
  std::vector<std::string> v;
  Arena A;
  for (auto* s : r.getStatements()) { N* n = dumpStatement(s, A); stripParams(n); v.push_back(ser(n)); }
  return v;
}
std::string removeParamIds(const SQLParserResult& r) { std::string s; for (auto& x : treesWithoutParamIds(r)) s += x + "\n"; return s; }

// ------------------------------------------------------------------ C01
struct Reader : Visitor {
  uint64_t nodes = 0, sum = 0;
  void expr(const Expr* e, const char*) override {
    nodes++;
    sum += e->ival + e->ival2 + (uint64_t)e->distinct + (uint64_t)e->isBoolLiteral + (uint64_t)e->type + (uint64_t)e->opType + (uint64_t)e->datetimeField + (uint64_t)e->columnType.data_type;
    if (e->isLiteral()) sum++;
    if (e->hasAlias() || e->hasTable()) sum += 2;
    if (const char* s = e->getName()) sum += strlen(s);
  }
  void select(const SelectStatement* s, const char*) override {
    nodes++;
    sum += s->stringLength + (uint64_t)s->selectDistinct;
    if (s->order) for (auto* o : *s->order) sum += (uint64_t)o->type + (uint64_t)o->null_ordering;
    if (s->setOperations) for (auto* o : *s->setOperations) sum += (uint64_t)o->setType + (uint64_t)o->isAll;
    if (s->lockings) for (auto* l : *s->lockings) sum += (uint64_t)l->rowLockMode + (uint64_t)l->rowLockWaitPolicy;
  }
  void table(const TableRef* t, const char*) override {
    nodes++;
    sum += (uint64_t)t->type + (uint64_t)t->hasSchema();
    if (const char* s = t->getName()) sum += strlen(s);
    if (t->join) sum += (uint64_t)t->join->type;
  }
  void statement(const SQLStatement* s, const char*) override { nodes++; sum += (uint64_t)s->type() + (uint64_t)s->is(kStmtSelect) + (uint64_t)s->isType(kStmtCreate); }
  void name(const char* s, const char*) override { sum += strlen(s); }
};
static volatile uint64_t gSink;
static uint64_t readAll(SQLParserResult& r) {
  Reader v;
  walkResult(r, v);
  for (auto* p : r.parameters()) v.sum += p->ival + (uint64_t)p->type;
  if (r.errorMsg()) v.sum += strlen(r.errorMsg());
  v.sum += r.errorLine() + r.errorColumn() + r.isValid();
  for (size_t i = 0; i < r.size(); i++) if (r.getStatement(i) != r.getMutableStatement(i)) v.sum++;
  gSink = v.sum;
  return v.nodes;
}
static std::string o01(Ctx& c, const std::string& t) {
  static std::string other = "SELECT a FROM t WHERE x = ?; SELECT 'occupied'";
  static uint64_t turn = 0;
  turn++;
  uint64_t nodes = 0;
  std::vector<SQLStatement*> rel;
  {
    SQLParserResult r;
    SQLParser::parse(t, &r);
    nodes = readAll(r);
    c.count["nodes read"] += nodes;
    c.count[r.isValid() ? "accepted" : "rejected"]++;
    if (t.size() <= kDumpMax) gSink = dumpResult(r).size();
    if (r.isValid() && t.size() <= kPrintMax) { gSink = printAll(r).size(); c.count["printed statements"] += r.size(); }
    std::vector<int16_t> tok;
    SQLParser::tokenize(t, &tok);
    c.count["tokens"] += tok.size();
    switch (turn % 6) {
      case 0: { SQLParserResult m(std::move(r)); readAll(m); readAll(r); SQLParser::parse(other, &r); readAll(r); m = std::move(r); readAll(m); break; }
      case 1: { SQLParserResult m; SQLParser::parse(other, &m); m = std::move(r); readAll(m); readAll(r); r.reset(); m.reset(); SQLParser::parse(t, &m); readAll(m); break; }
      case 2: rel = r.releaseStatements(); readAll(r); break;
      case 3: r.reset(); readAll(r); SQLParser::parse(other, &r); r.reset(); SQLParser::parse(t, &r); readAll(r); break;
      case 4: if (t.find('\0') == std::string::npos) { SQLParserResult q; SQLParser::parseSQLString(t.c_str(), &q); readAll(q); r = std::move(q); } break;
      case 5: { auto* q = new SQLParserResult(); SQLParser::parseSQLString(t, q); readAll(*q); r.reset(); delete q; break; }
    }
  }
  for (auto* s : rel) { Reader v; walkStatement(s, v); delete s; }
  c.nt = nodes > 0 || t.size() > 8;
  if (t.size() < 300 && !t.empty()) other = t;
  return "";
}
static void r01(Ctx& c) {
  c.noShrink = true;
  auto f = checker(c);
  uint64_t k = 0;
  // flat inputs of many sizes and nesting far beyond the limit
  std::vector<size_t> big = {1000, 5000, 20000, 100000};
  if (c.thorough) big.push_back(300000);
  for (auto& t : kListSweeps) for (size_t n : big) { if (!c.mine(k++)) continue; f(expandTemplate(t, n)); c.count["long inputs"]++; }
  for (auto& t : kDepthSweeps) for (size_t n : {30u, 60u, 100u, 150u, 199u, 250u, 1000u, 20000u}) { if (!c.mine(k++)) continue; f(expandTemplate(t, n)); c.count["deep inputs"]++; }
  for (auto& t : kLengthSweeps) for (size_t n : {100u, 1000u, 8191u, 8192u, 16384u, 65535u, 65536u, 300000u}) { if (!c.mine(k++)) continue; f(expandTemplate(t, n)); c.count["long tokens"]++; }
  mixedStreams(c, 110000, f, 1, 0.05 * c.scale);
  streamSweeps(c, kListSweeps, sweepSizes(c, 12, 600), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 20, 1100), f);
}
PROPERTY("C01", r01, o01);

// ------------------------------------------------------------------ C02
// Live heap blocks before and after; the same text is tried again before anything is reported, so that a one-time
// allocation that stays (a lazily built table, a cache) is not mistaken for a leak.
static const char* kEndings[] = {"destroy", "reset", "release+delete", "move-assign over", "tokenize", "reset+parse again", "move-construct", "result on the heap", "two failed parses in a row"};
static long balance(const std::string& t, int ending, bool* valid) {
  rt::begin();
  switch (ending) {
    case 0: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); break; }
    case 1: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); r.reset(); if (rt::live() > 2) { rt::end(); return rt::live(); } break; }  // a reset result may keep its two empty lists for reuse
    case 2: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); for (auto* s : r.releaseStatements()) delete s; break; }
    case 3: { SQLParserResult r, m; SQLParser::parse(t, &r); SQLParser::parse(t, &m); *valid = r.isValid(); m = std::move(r); break; }
    case 4: { std::vector<int16_t> v; SQLParser::tokenize(t, &v); *valid = true; break; }
    case 5: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); r.reset(); SQLParser::parse(t, &r); break; }
    case 6: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); SQLParserResult m(std::move(r)); break; }
    case 7: { auto* r = new SQLParserResult; SQLParser::parse(t, r); *valid = r->isValid(); delete r; break; }
    case 8: { SQLParserResult r; SQLParser::parse(t, &r); *valid = r.isValid(); if (!*valid) SQLParser::parse(t, &r); break; }
  }
  rt::end();
  return rt::live();
}
// Memory must not pile up over many calls on ever new texts, nor with the number of threads that have come and gone.
// What stays after each third of the run is compared; a cache with an upper bound stops growing within the first third.
static const char* const kLongRun = "-- long run: ";
static std::string freshText(Rng& r) {
  static const char* const tmpl[] = {
      "SELECT #, # AS #, 'str#' FROM # WHERE # = $ AND # IN ($, $.5, '#') ORDER BY #", "INSERT INTO #.# (#, #) VALUES ('#', $), -- #", "INSERT INTO # (#) VALUES ('#')", "CREATE TABLE # (# INT, # VARCHAR($), UNIQUE (#))",
      "UPDATE # SET # = '#' WHERE # > ?", "PREPARE # FROM 'SELECT #'; EXECUTE #($)", "DELETE FROM # WHERE # LIKE '#'", "DROP TABLE #; SHOW COLUMNS #", "COPY # FROM '#' WITH (ENCODING '#')", "SELECT # FROM # WHERE # = '#' AND", "SELECT \"#\" FROM (SELECT #(#) FROM #) AS # (#)",
      "SELECT CAST(# AS DECIMAL($)), DATE '#', INTERVAL '$ #'", "CREATE TABLE # (# INT NULL NOT NULL)", "COPY # TO '#' WITH (FORMAT #)", "SELECT # FROM # JOIN # ON # = # GROUP BY # HAVING #", "SELECT @#", "SELECT '#"};
  std::string s;
  for (const char* p = tmpl[r.below(sizeof tmpl / sizeof *tmpl)]; *p; p++) {
    if (*p == '#') { s += 'n'; for (int i = 0; i < 10; i++) s += (char)('a' + r.below(26)); }
    else if (*p == '$') s += std::to_string(r.next() >> (1 + r.below(60)));
    else s += *p;
  }
  return s;
}
static std::string longRun(Ctx& c, uint64_t seed, bool threads) {
  Rng r(seed);
  const int third = threads ? 60 : (int)(13000 * (c.thorough ? 5 : 1));
  long left[3];
  long total = 0;
  auto use = [&](const std::string& t) {
    SQLParserResult q;
    SQLParser::parse(t, &q);
    std::vector<int16_t> v;
    SQLParser::tokenize(t, &v);
    if (q.isValid()) { Capture cap; for (size_t i = 0; i < q.size(); i++) printStatementInfo(q.getStatement(i)); }
  };
  for (int k = 0; k < 3; k++) {
    long kept = 0;
    if (threads) rt::globalBegin();
    for (int i = 0; i < third; i++) {
      std::string t = freshText(r), u = freshText(r);
      if (threads) { std::thread th([&] { use(t); use(u); }); th.join(); }
      else {
        rt::begin();
        use(t);
        rt::end();
        kept += rt::live();
      }
      total++;
    }
    if (threads) { rt::globalEnd(); kept = rt::globalLive(); }
    left[k] = kept;
  }
  c.count[threads ? "threads that parsed and ended, watched for what they leave" : "calls on ever new texts watched for what piles up"] += total;
  long need = threads ? third - 5 : third / 60;
  if (left[0] >= need && left[1] >= need && left[2] >= need)
    return std::string(threads ? "memory piles up with the number of threads that used the parser: " : "memory piles up over calls on different texts, although every result was destroyed: ") + std::to_string(left[0]) + ", " + std::to_string(left[1]) + " and " +
           std::to_string(left[2]) + " heap blocks stay after three times " + std::to_string(third) + (threads ? " threads" : " texts");
  return "";
}
static std::string o02(Ctx& c, const std::string& t) {
  static uint64_t turn = 0;
  if (t.compare(0, strlen(kLongRun), kLongRun) == 0) { c.nt = true; c.noShrink = true; uint64_t k = strtoull(t.c_str() + strlen(kLongRun), nullptr, 10); return longRun(c, k, k % 2); }
  turn++;
  int picks[2] = {0, 1 + (int)(turn % 8)};
  bool valid = false;
  for (int e : picks) {
    long d = balance(t, e, &valid);
    size_t first = rt::allocs();
    c.count[std::string("ending: ") + kEndings[e]]++;
    c.count["heap blocks watched"] += first;
    if (!d) continue;
    long d2 = balance(t, e, &valid), d3 = balance(t, e, &valid), d4 = balance(t, e, &valid);
    if (d2 && d3 && d4)
      return std::string("after '") + kEndings[e] + "' of " + (valid ? "an accepted" : "a rejected") + " text " + std::to_string(d4) + " heap blocks more than before are live (of " + std::to_string(rt::allocs()) + " allocated)";
  }
  c.count[valid ? "accepted" : "rejected"]++;
  c.nt = rt::allocs() > 12;
  return "";
}
static void r02(Ctx& c) {
  if (!rt::canCount()) abort();
  auto f = checker(c);
  // warm up whatever is set up once
  for (int i = 0; i < 9; i++) { bool v; balance("SELECT 'a', ? FROM t; SELECT", i, &v); balance("SELECT 'a''b', ? FROM t; SHOW TABLES", i, &v); }
  uint64_t k = 0;
  if (c.shard < 4 && !f(kLongRun + std::to_string((c.rng.next() >> 8 << 1) + (c.shard & 1)))) return;
  for (auto& t : kListSweeps) for (size_t n : {3u, 50u, 2000u}) { if (!c.mine(k++)) continue; std::string s = expandTemplate(t, n); f(s); f(s + " )"); f(s.substr(0, s.size() / 2)); }
  for (auto& t : kDepthSweeps) for (size_t n : {10u, 30u, 60u, 100u, 250u, 3000u}) { if (!c.mine(k++)) continue; std::string s = expandTemplate(t, n); f(s); f(s.substr(0, s.size() * 2 / 3)); f(s + " SELECT"); }
  mixedStreams(c, 160000, f, 1, 0.12 * c.scale);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 12, 9000), f);
}
PROPERTY("C02", r02, o02);

// ------------------------------------------------------------------ C03
__attribute__((noinline)) static void dirtyStack(int pattern) {
  volatile unsigned char b[96 * 1024];
  for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)pattern;
}
__attribute__((noinline)) static std::string observe(const std::string& t, int pattern) {
  std::string d;
  if (pattern >= 0) { dirtyStack(pattern); rt::fill(pattern); }
  {
    SQLParserResult r;
    SQLParser::parse(t, &r);
    rt::fill(-1);
    if (t.size() <= kDumpMax) d = dumpResult(r);
    else { Reader v; walkResult(r, v); d = std::to_string(v.sum) + "/" + std::to_string(v.nodes) + (r.errorMsg() ? r.errorMsg() : "") + std::to_string(r.errorLine()) + ":" + std::to_string(r.errorColumn()); }
    if (pattern >= 0) rt::fill(pattern);
  }
  rt::fill(-1);
  return d;
}
static std::string freshState(int pattern) {
  if (pattern >= 0) { dirtyStack(pattern); rt::fill(pattern); }
  alignas(SQLParserResult) unsigned char raw[sizeof(SQLParserResult)];
  memset(raw, pattern & 255, sizeof raw);
  auto* r = new (raw) SQLParserResult();
  rt::fill(-1);
  std::string d = dumpResult(*r);
  r->~SQLParserResult();
  memset(raw, pattern & 255, sizeof raw);
  SQLParserResult src;
  SQLParser::parse("SELECT 1 FROM t WHERE a = ?", &src);
  r = new (raw) SQLParserResult(std::move(src));
  d += dumpResult(*r) + dumpResult(src);
  r->~SQLParserResult();
  memset(raw, pattern & 255, sizeof raw);
  SQLParser::parse("SELECT 1 FROM", &src);
  r = new (raw) SQLParserResult(std::move(src));
  d += dumpResult(*r) + dumpResult(src);
  r->~SQLParserResult();
  return d;
}
static std::string o03(Ctx& c, const std::string& t) {
  nestedLengths(true);
#if defined VF_MODE_VG
  // under valgrind: reading an undefined value in a decision is reported by the tool itself
  std::string a = observe(t, -1);
  { SQLParserResult r; SQLParser::parse(t, &r); if (r.isValid() && t.size() < kPrintMax) gSink = printAll(r).size(); gSink = readAll(r); if (gSink == 12345) c.count["x"]++; }
  std::string b = observe(t, -1);
  c.nt = true;
  nestedLengths(false);
  return a == b ? "" : "two parses of the same text differ: " + firstDiff(a, b);
#else
  std::string a = observe(t, 0x00), b = observe(t, 0xA5), d = observe(t, 0xFF), e = observe(t, -1), g = observe(t, 0x01);
  nestedLengths(false);
  c.count["observations"] += 5;
  c.nt = a.size() > 60;
  for (auto* x : {&b, &d, &e, &g}) if (*x != a) return "the result depends on earlier memory contents: " + firstDiff(a, *x);
  return "";
#endif
}
static void r03(Ctx& c) {
  auto f = checker(c);
#if defined VF_MODE_VG
  Profile p;
  p.starts = {{"script", 2}, {"stmt", 6}, {"select", 4}, {"create", 4}, {"tref", 1}};
  p.opts.badLit = 10;
  p.mutTok = 30;
  streamCorpus(c, f);
  streamSweeps(c, kListSweeps, {0, 1, 3}, f);
  streamRandom(c, p, c.n(1600), f);
  streamPrefixes(c, 0.08 * c.scale, f);
#else
  if (!rt::canFill()) abort();
  std::string a = freshState(0), b = freshState(0xA5), d = freshState(0xFF);
  if (a != b || a != d) { c.fail("default-constructed or moved results depend on earlier memory contents: " + firstDiff(a, a != b ? b : d), "(no text: construction of results)"); return; }
  mixedStreams(c, 140000, f, 0.7, 0.1 * c.scale);
  streamSweeps(c, kListSweeps, sweepSizes(c, 12, 1100), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 40, 300), f);
  streamSweeps(c, kLengthSweeps, sweepSizes(c, 12, 9000), f);
#endif
}
PROPERTY("C03", r03, o03);
