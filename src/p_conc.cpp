// C15: concurrent parsing. Every round runs in a process of its own that has not parsed anything before, so that anything
// set up on first use is set up concurrently; a second process gives the single-threaded expectation.
#include "rt.h"
#include "util.h"
#include "walk.h"
#include <sstream>
#include <atomic>
#include <cerrno>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace hsql;

namespace {
struct Round {
  int threads = 4;
  int mode = 0;          // 0 own texts, 1 all the same, 2 rotated
  int handover = 0;      // 0 none, 1 after a barrier to the next thread, 2 through a queue while parsing, 3 read by all
  unsigned jitter = 0;
  int loops = 2;
  int print = 0;
  std::vector<std::string> texts;
};
std::string observeOne(SQLParserResult& r, bool ret) { return std::string(ret ? "" : "returned false ") + dumpResult(r); }
std::string tokensOf(const std::string& t) {
  std::vector<int16_t> v;
  bool ok = SQLParser::tokenize(t, &v);
  std::string s = std::to_string(ok);
  for (auto x : v) { s += ' '; s += std::to_string(x); }
  return s;
}
void writeFull(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k < 0) { if (errno == EINTR) continue; return; } q += k; n -= k; } }
void putStr(int fd, const std::string& s) { uint64_t n = s.size(); writeFull(fd, &n, 8); writeFull(fd, s.data(), n); }
struct Child { int status = 0; std::string out, err; };
// runs f in a forked process, with its stderr in memory
template <class F>
Child inChild(F f) {
  Child c;
  int p[2];
  if (pipe(p)) abort();
  int err = memfd_create("err", 0);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (!pid) {
    close(p[0]);
    dup2(err, 2);
    alarm(180);
    f(p[1]);
    close(p[1]);
    _exit(0);
  }
  close(p[1]);
  char b[65536];
  for (;;) { ssize_t k = read(p[0], b, sizeof b); if (k < 0 && errno == EINTR) continue; if (k <= 0) break; c.out.append(b, k); }
  close(p[0]);
  waitpid(pid, &c.status, 0);
  struct stat st;
  fstat(err, &st);
  off_t from = 0;
  c.err.resize(std::min<off_t>(st.st_size, 1 << 20));
  if (st.st_size > (1 << 20)) from = st.st_size - (1 << 20);
  ssize_t k = pread(err, &c.err[0], c.err.size(), from);
  c.err.resize(k < 0 ? 0 : k);
  close(err);
  return c;
}
std::vector<std::string> getStrs(const std::string& o) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i + 8 <= o.size()) { uint64_t n; memcpy(&n, &o[i], 8); i += 8; if (i + n > o.size()) break; v.push_back(o.substr(i, n)); i += n; }
  return v;
}
// where printed text goes: no state, so that threads may print at the same time
struct Nowhere : std::streambuf {
  int_type overflow(int_type ch) override { return traits_type::not_eof(ch); }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
// calls every accessor of every node
struct Touch : Visitor {
  uint64_t n = 0;
  void see(const char* s) { if (s) n += (unsigned char)*s; }
  void expr(const Expr* e, const char*) override { n += e->isType(kExprStar) + e->isLiteral() + e->hasAlias() + e->hasTable(); see(e->getName()); n += e->columnType == ColumnType(DataType::INT); n += e->columnType != ColumnType(DataType::CHAR, 3); }
  void table(const TableRef* t, const char*) override { n += t->hasSchema(); see(t->getName()); }
  void statement(const SQLStatement* st, const char*) override { n += st->type() + st->isType(kStmtSelect) + st->is(kStmtShow) + st->stringLength; }
  void name(const char* s, const char*) override { see(s); }
};
struct Ev { uint64_t b, e; unsigned text; bool tok; };
uint64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
// the public functions that no parse of an ordinary text calls: constants are streamed, objects are made directly, filled, compared, printed
std::string handMade(int k, bool print) {
  std::ostringstream o;
  for (int i = 0; i < 16; i++) { ColumnType a((DataType)((i + k) % 16), k, i, 2), b = a; o << a << (a == b) << (b != ColumnType((DataType)i)) << ' '; }
  for (int i = 0; i < 5; i++) o << (ConstraintType)((i + k) % 5) << ' ';
  CsvOptions csv;
  for (int i = 0; i < 6; i++) {
    std::pair<CsvOptionType, char*> p((CsvOptionType)((i * 2 + k) % 3), strdup("x"));
    bool ok = csv.accept_csv_option(&p);
    if (!ok) free(p.second);
    o << ok;
  }
  for (int i = 0; i < 32; i++) {
    Expr* e = Expr::makeOpBinary(Expr::makeLiteral((int64_t)i), (OperatorType)((i + k) % 32), Expr::makeColumnRef(strdup("t"), strdup("c")));
    if (print) printExpression(e, i % 3);
    o << e->isType(kExprOperator) << (e->getName() != nullptr) << e->opType;
    delete e;
  }
  for (int i = 0; i < 7; i++) { Expr* e = Expr::makeExtract((DatetimeField)((i + k) % 8), Expr::makeNullLiteral()); if (print) printExpression(e, 1); o << e->datetimeField; delete e; }
  SQLParserResult r, q;
  r.addStatement(new ShowStatement(kShowTables));
  r.addStatement(new TransactionStatement(kCommitTransaction));
  r.setIsValid(true);
  q = std::move(r);
  SQLParserResult& same = q;
  if (k % 2) q = std::move(same); else std::swap(r, q);
  r.setErrorDetails(strdup("e"), k, 2);
  for (auto* s : r.getStatements()) if (print) printStatementInfo(s);
  o << r.errorLine() << r.errorMsg() << (r.size() + q.size() <= 2);
  return o.str();
}
struct Shared {
  const Round& rd;
  const std::vector<std::string>& want;  // outcome, tokens of each text
  pthread_barrier_t bar;
  std::mutex m;
  struct Item { SQLParserResult* r; unsigned text; };
  std::vector<Item> queue;
  std::vector<std::vector<Item>> slot;
  std::vector<std::vector<Ev>> ev;
  std::vector<std::string> why;
  std::vector<uint64_t> handed, ops, printed, touched, hand;
  std::vector<std::string> made;
  Shared(const Round& r, const std::vector<std::string>& w) : rd(r), want(w), slot(r.threads), ev(r.threads), why(r.threads), handed(r.threads), ops(r.threads), printed(r.threads), touched(r.threads), hand(r.threads) { pthread_barrier_init(&bar, nullptr, r.threads); }
  void judgeIt(int me, const std::string& got, const std::string& exp, unsigned x, const char* what) {
    if (got != exp && why[me].empty()) why[me] = std::string(what) + " of " + quoteBytes(rd.texts[x].substr(0, 300)) + " differs from that of a single-threaded process: " + firstDiff(exp, got);
  }
  void print(int me, const SQLParserResult& r, unsigned x) {
    if (!rd.print || !r.isValid() || rd.texts[x].size() > 3000) return;
    for (const auto* st : r.getStatements()) printStatementInfo(st);
    printed[me] += r.size();
  }
  void take(int me, const Item& i) {
    print(me, *i.r, i.text);
    judgeIt(me, observeOne(*i.r, true), want[2 * i.text], i.text, "the result received from another thread for a parse");
    handed[me]++;
    if (i.text % 3 == 0) i.r->reset();
    if (i.text % 3 == 1) { SQLParserResult q(std::move(*i.r)); judgeIt(me, observeOne(q, true), want[2 * i.text], i.text, "the moved result received from another thread for a parse"); }
    if (i.text % 6 == 2) { auto v = i.r->releaseStatements(); for (auto* s : v) delete s; }
    delete i.r;
  }
  void work(int me) {
    rt::jitter(rd.jitter, me * 7919 + 13);
    const size_t n = rd.texts.size();
    ev[me].reserve(n * rd.loops * 2 + 4);
    pthread_barrier_wait(&bar);
    for (int l = 0; l < rd.loops; l++)
      for (size_t k = 0; k < n; k++) {
        unsigned x = rd.mode == 1 ? (unsigned)k : rd.mode == 2 ? (unsigned)((k + me * (n / rd.threads + 1)) % n) : (unsigned)((k * rd.threads + me + l) % n);
        const std::string& t = rd.texts[x];
        bool tok = (k + me + l) % 4 == 3;
        if (rd.print && (k + l) % 3 == (rd.mode == 0 ? 0u : 1u)) {
          int z = (int)((k + me) % 6);
          std::string got = handMade(z, true);
          if (got != made[z] && why[me].empty()) why[me] = "constants streamed and objects made directly while other threads do the same differ from those of a single thread: " + firstDiff(made[z], got);
          hand[me]++;
        }
        Ev e{now(), 0, x, tok};
        if (tok) {
          std::string got = tokensOf(t);
          e.e = now();
          judgeIt(me, got, want[2 * x + 1], x, "tokenizing");
        } else {
          auto* r = new SQLParserResult();
          bool ret = SQLParser::parse(t, r);
          e.e = now();
          judgeIt(me, observeOne(*r, ret), want[2 * x], x, "the parse");
          if ((k + l) % 2) print(me, *r, x);
          if (rd.handover == 1 || (rd.handover == 3 && l == 0)) slot[me].push_back({r, x});
          else if (rd.handover == 2 && k % 5 == 0) {
            Item got{nullptr, 0};
            { std::lock_guard<std::mutex> g(m); queue.push_back({r, x}); if (queue.size() > 3) { got = queue.front(); queue.erase(queue.begin()); } }
            if (got.r) take(me, got);
          } else if (k % 7 == 2) { r->reset(); ret = SQLParser::parse(t, r); judgeIt(me, observeOne(*r, ret), want[2 * x], x, "the parse into a reset result"); delete r; }
          else delete r;
        }
        ops[me]++;
        if (ev[me].size() < ev[me].capacity()) ev[me].push_back(e);
      }
    pthread_barrier_wait(&bar);
    if (rd.handover == 3) {
      // everybody reads everything through the const interface
      for (auto& v : slot) for (auto& i : v) {
        const SQLParserResult& q = *i.r;
        std::string got = std::to_string(q.isValid()) + std::to_string(q.size()) + (q.errorMsg() ? q.errorMsg() : "") + dumpStatements(q);
        print(me, q, i.text);
        Touch t, t2;
        walkResult(q, t);
        for (size_t k = 0; k < q.size(); k++) t2.n += q.getStatement(k)->type();
        t2.n += (uint64_t)(q.errorLine() + q.errorColumn());
        touched[me] += t.n + t2.n;
        std::string whole = constResult(q);  // const interface only
        judgeIt(me, whole, want[2 * i.text].substr(0, whole.size()), i.text, "what a thread reads while others read the same result of a parse");
        if (got.size() == 1) judgeIt(me, got, "", i.text, "reading");
        handed[me]++;
      }
      pthread_barrier_wait(&bar);
    }
    for (auto& i : slot[(me + 1) % rd.threads]) take(me, i);
    slot[(me + 1) % rd.threads].clear();
    rt::jitter(0, 0);
  }
};
std::string joinTexts(const Round& r) {
  std::string s = std::to_string(r.threads) + " " + std::to_string(r.mode) + " " + std::to_string(r.handover) + " " + std::to_string(r.jitter) + " " + std::to_string(r.loops) + " " + std::to_string(r.print);
  for (auto& t : r.texts) { s += '\x1e'; s += t; }
  return s;
}
std::string runRound(Ctx& c, const Round& rd, bool* timeout) {
  Child solo = inChild([&](int fd) { for (auto& t : rd.texts) { SQLParserResult r; bool ret = SQLParser::parse(t, &r); putStr(fd, observeOne(r, ret)); putStr(fd, tokensOf(t)); } for (int z = 0; z < 6; z++) putStr(fd, handMade(z, false)); });
  auto want = getStrs(solo.out);
  if (solo.status || want.size() != 2 * rd.texts.size() + 6) return "a single-threaded process failed: " + solo.err.substr(0, 800);
  Child mt = inChild([&](int fd) {
    Shared sh(rd, want);
    sh.made.assign(want.end() - 6, want.end());
    Nowhere nowhere;
    std::cout.rdbuf(&nowhere);
    std::vector<std::thread> th;
    for (int i = 0; i < rd.threads; i++) th.emplace_back([&sh, i] { sh.work(i); });
    for (auto& t : th) t.join();
    for (auto& i : sh.queue) { sh.judgeIt(0, observeOne(*i.r, true), want[2 * i.text], i.text, "the queued result"); delete i.r; }
    std::string why;
    uint64_t ops = 0, handed = 0, printed = 0, hand = 0;
    for (int i = 0; i < rd.threads; i++) { if (why.empty()) why = sh.why[i]; ops += sh.ops[i]; handed += sh.handed[i]; printed += sh.printed[i]; hand += sh.hand[i]; }
    // calls that were in progress at the same time in different threads
    uint64_t pairs = 0;
    std::string keys;
    for (int i = 0; i < rd.threads; i++) for (int j = i + 1; j < rd.threads; j++) {
      size_t y = 0;
      for (auto& a : sh.ev[i]) {
        while (y < sh.ev[j].size() && sh.ev[j][y].e <= a.b) y++;
        for (size_t z = y; z < sh.ev[j].size() && sh.ev[j][z].b < a.e; z++) { pairs++; auto& b = sh.ev[j][z]; if (keys.size() < 60000) keys += std::to_string(a.text) + (a.tok ? "t" : "p") + std::to_string(b.text) + (b.tok ? "t" : "p") + ","; }
      }
    }
    putStr(fd, why); putStr(fd, std::to_string(ops)); putStr(fd, std::to_string(handed)); putStr(fd, std::to_string(pairs)); putStr(fd, keys); putStr(fd, std::to_string(printed)); putStr(fd, std::to_string(hand));
    std::cout.rdbuf(nullptr);
  });
  auto got = getStrs(mt.out);
  if (WIFSIGNALED(mt.status) && WTERMSIG(mt.status) == SIGALRM) { *timeout = true; return ""; }
  if (WIFEXITED(mt.status) && WEXITSTATUS(mt.status) == 66) {
    size_t p = mt.err.find("WARNING: ThreadSanitizer");
    return mt.err.substr(p == std::string::npos ? 0 : p, 2500);
  }
  if (mt.status) {
    if (mt.err.find("FATAL: ThreadSanitizer: unexpected memory mapping") != std::string::npos) { fprintf(stderr, "%s", mt.err.c_str()); _exit(3); }
    return "the process with " + std::to_string(rd.threads) + " threads ended with " + (WIFSIGNALED(mt.status) ? "signal " + std::to_string(WTERMSIG(mt.status)) : "status " + std::to_string(WEXITSTATUS(mt.status))) + ": " + mt.err.substr(mt.err.size() > 1500 ? mt.err.size() - 1500 : 0);
  }
  if (got.size() != 7) return "";
  c.count["calls made by concurrent threads"] += strtoull(got[1].c_str(), nullptr, 10);
  c.count["results read and destroyed by another thread"] += strtoull(got[2].c_str(), nullptr, 10);
  c.count["pairs of calls in progress at the same time"] += strtoull(got[3].c_str(), nullptr, 10);
  c.count["statements printed by concurrent threads"] += strtoull(got[5].c_str(), nullptr, 10);
  c.count["batches of objects made directly by concurrent threads"] += strtoull(got[6].c_str(), nullptr, 10);
  size_t i = 0;
  while (i < got[4].size()) {
    size_t e = got[4].find(',', i);
    std::string key = got[4].substr(i, e - i);
    size_t m = key.find_first_of("tp");
    std::string a = rd.texts[atoi(key.c_str())], b = rd.texts[atoi(key.c_str() + m + 1)];
    std::string ka = a + key[m], kb = b + key.back();
    c.tally(ka < kb ? ka + " || " + kb : kb + " || " + ka, true);
    i = e + 1;
  }
  c.nt = true;
  return got[0];
}
}  // namespace
static std::string o15(Ctx& c, const std::string& t) {
  Round r;
  size_t b = t.find('\x1e');
  if (b == std::string::npos || sscanf(t.substr(0, b).c_str(), "%d %d %d %u %d %d", &r.threads, &r.mode, &r.handover, &r.jitter, &r.loops, &r.print) != 6) return "";
  while (b != std::string::npos) { size_t e = t.find('\x1e', b + 1); r.texts.push_back(t.substr(b + 1, e == std::string::npos ? e : e - b - 1)); b = e; }
  if (r.texts.empty() || r.threads < 1 || r.threads > 64) return "";
  for (int i = 0; i < 10; i++) { bool to = false; std::string w = runRound(c, r, &to); if (!w.empty()) return w; }
  return "";
}
static void r15(Ctx& c) {
  c.noShrink = true;
  static const char* const special[] = {"SELECT 'abc'", "SELECT 'it''s', 'x' FROM t WHERE a = ?", "SELECT 'abc", "SELECT \"abc", "SELECT a FROM", "SELECT ? FROM t WHERE ? = ? ; SELECT ?", "SELECT a \x01", "SELECT 99999999999999999999", "SELECT -9223372036854775808, 1.5, .25", "SELECT DATE '2000-01-01', DATE 'x'", "SELECT INTERVAL '5 days', INTERVAL 'x y', 3 DAYS",
    "COPY t FROM 'f' WITH (FORMAT CSV, DELIMITER ',', NULL 'n', QUOTE 'q', ENCODING 'E')", "COPY t FROM 'f' WITH (FORMAT CSV, FORMAT TBL)", "IMPORT FROM FOO FILE 'a' INTO t", "IMPORT FROM TBL FILE 'a' INTO t", "CREATE TABLE t (a INT NULL NOT NULL)", "CREATE TABLE t FROM TBL FILE 'x'", "CREATE TABLE t FROM CSV FILE 'x'", "PREPARE p FROM 'SELECT ''x'' ?'", "EXECUTE p (1, 'a', CAST('1' AS INT))", "SELECT a FROM t ORDER BY a NULLS FIRST", "SELECT a FROM t ORDER BY a NULLS FOO", "",
    ";", "SELECT 1 -- comment", "SELECT f(a) OVER (PARTITION BY b ORDER BY c ROWS 1 PRECEDING)", "SELECT * FROM a JOIN b USING (c) NATURAL JOIN d, e WHERE EXISTS (SELECT 1)", "WITH w AS (SELECT 1) SELECT * FROM w UNION SELECT 2 LIMIT 3", "SELECT 1 FROM t WITH HINT (a, b(1))", "SELECT CASE WHEN a THEN b END, CAST(a AS DECIMAL(5,2)), EXTRACT(YEAR FROM b), ARRAY[1,2][1]",
    // what ordinary texts rarely contain: every type in a printed statement, every join, every frame, refused options
    "SELECT CAST(a AS BIGINT), CAST(a AS BOOLEAN), CAST(a AS CHAR(3)), CAST(a AS VARCHAR(4)), CAST(a AS DATETIME), CAST(a AS DATE), CAST(a AS TIME)", "SELECT CAST(a AS DOUBLE), CAST(a AS FLOAT), CAST(a AS INT), CAST(a AS INTEGER), CAST(a AS LONG), CAST(a AS REAL), CAST(a AS SMALLINT), CAST(a AS TEXT), CAST(a AS DECIMAL)",
    "SELECT * FROM a RIGHT JOIN b ON a.x = b.x RIGHT OUTER JOIN c ON 1 = 1 FULL JOIN d ON 1 LEFT JOIN e ON 2", "SELECT * FROM a FULL OUTER JOIN b ON a.x = b.x LEFT OUTER JOIN c ON 1 CROSS JOIN d INNER JOIN e USING (f, g)", "SELECT NOT NOT a BETWEEN 1 AND 2", "SELECT NOT NOT a IN (1), NOT NOT a, NOT (a), - - 1, (1), a NOT IN (1), a IS NOT NULL, a NOT LIKE 'x', a ILIKE b, a BETWEEN 1 AND 2",
    "SELECT sum(a) OVER (ORDER BY b GROUPS BETWEEN 1 PRECEDING AND CURRENT ROW), min(b) OVER (ORDER BY b RANGE UNBOUNDED PRECEDING), f(c) OVER (ROWS BETWEEN 2 FOLLOWING AND UNBOUNDED FOLLOWING)", "COPY t FROM 'f' WITH (FORMAT CSV, NULL 'n', NULL 'm')", "COPY t FROM 'f' WITH (FORMAT CSV, QUOTE 'n', QUOTE 'm')", "COPY t FROM 'f' WITH (FORMAT CSV, DELIMITER 'n', DELIMITER 'm')", "COPY t FROM 'f' WITH (ENCODING 'n', ENCODING 'm')",
    "COPY t TO 'f.tbl'", "COPY t TO 'f.bin' WITH (FORMAT BINARY)", "COPY t TO 'f.csv'; COPY (SELECT 1) TO 'f' WITH (FORMAT TBL)", "IMPORT FROM TBL FILE 'x' INTO t", "IMPORT FROM BINARY FILE 'x' INTO t; IMPORT FROM CSV FILE 'x' INTO u", "SHOW TABLES; SHOW COLUMNS t; DESCRIBE t", "BEGIN; COMMIT TRANSACTION; ROLLBACK", "SELECT a FROM t FOR UPDATE NOWAIT FOR NO KEY UPDATE OF b SKIP LOCKED FOR SHARE FOR KEY SHARE OF c, d",
    "CREATE TABLE t (a INT NOT NULL PRIMARY KEY REFERENCES u (v), b CHAR(2) UNIQUE NULL, FOREIGN KEY (a) REFERENCES s.u (w), UNIQUE (a, b))", "ALTER TABLE t DROP COLUMN IF EXISTS c", "CREATE UNIQUE INDEX IF NOT EXISTS i ON t (a, b)", "CREATE INDEX i ON s.t (a); DROP INDEX IF EXISTS i; DROP VIEW v; DROP SCHEMA s; DEALLOCATE PREPARE p", "CREATE VIEW IF NOT EXISTS v (a, b) AS SELECT 1, 2", "CREATE TABLE a AS SELECT 1", "CREATE TABLE a LIKE b", "INSERT INTO s.t (a) SELECT 1", "INSERT INTO t VALUES (1, 'x', NULL, TRUE, DATE '2000-01-01')", "UPDATE t SET a = 1, b = b + 1 WHERE c", "DELETE FROM t; TRUNCATE u", "SELECT 1 LIMIT ALL OFFSET 3", "SELECT TOP 3 a FROM t UNION ALL (SELECT 1 INTERSECT SELECT 2 EXCEPT SELECT 3)", "SELECT EXTRACT(SECOND FROM a), INTERVAL 3 MONTH, INTERVAL '2' HOUR, a || b, a.b.c"};
  Gen g(c.rng, c.dict);
  size_t rounds = c.n(
#if defined VF_MODE_TSAN
      700
#else
      2200
#endif
  );
  int timeouts = 0;
  for (size_t i = 0; i < rounds && !c.failed; i++) {
    Round r;
    static const int ts[] = {2, 2, 3, 4, 4, 6, 8};
    r.threads = ts[c.rng.below(7)];
    r.mode = (int)c.rng.below(3);
    r.handover = (int)c.rng.below(4);
    static const unsigned js[] = {0, 0, 3, 10, 40};
    r.jitter = js[c.rng.below(5)];
    r.print = c.rng.chance(1, 2);
    r.loops = 1 + (int)c.rng.below(3);
    size_t n = r.threads * (1 + c.rng.below(8));
    if (i % 3 == 0) {
      // one kind of text only, first use of everything it needs happens in several threads at once
      std::string t = c.rng.chance(1, 2) ? special[c.rng.below(sizeof special / sizeof *special)] : c.rng.pick(c.corpus);
      for (size_t k = 0; k < (size_t)r.threads; k++) r.texts.push_back(t);
    }
    while (r.texts.size() < n) {
      switch (c.rng.below(5)) {
        case 0: r.texts.push_back(special[c.rng.below(sizeof special / sizeof *special)]); break;
        case 1: { std::string s = c.rng.pick(c.corpus); if (c.rng.chance(1, 3)) s = s.substr(0, c.rng.below(s.size() + 1)); r.texts.push_back(s); break; }
        case 2: r.texts.push_back(expandTemplate(c.rng.pick(kListSweeps), 1 + c.rng.below(30))); break;
        default: {
          g.o = GenOpts();
          g.o.depth = 2 + (int)c.rng.below(6);
          g.o.params = 2;
          g.o.badLit = 5;
          Toks t = g.derive(c.rng.chance(1, 4) ? "script" : "stmt");
          if (t.size() > 150) t.resize(150);
          if (c.rng.chance(1, 4)) mutateToks(t, c.rng, g, 1);
          LayoutOpts lo;
          lo.style = (int)c.rng.below(4);
          r.texts.push_back(render(t, c.rng, lo));
        }
      }
      for (auto& ch : r.texts.back()) if (ch == '\x1e') ch = ' ';
    }
    std::string t = joinTexts(r);
    c.setCur(t);
    bool to = false;
    std::string w = runRound(c, r, &to);
    c.count["rounds (each in a fresh process)"]++;
    c.count["rounds with " + std::to_string(r.threads) + " threads"]++;
    if (to && ++timeouts >= 2) w = "threads do not finish: a round ran for more than 180 s, twice";
    if (!w.empty()) { c.fail(w, t); return; }
  }
}
PROPERTY("C15", r15, o15);
