// C14, C16: histories - of one result object, and of calls within one process.
#include "rt.h"
#include "util.h"
#include "walk.h"
#include "sql/statements.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <locale>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace hsql;

// ------------------------------------------------------------------ C14
// A history is a text of operation words; each is applied to the real objects and to a model. Texts are referred to by
// number (corpus and extra texts), optionally cut off after some bytes.
//   P<s>_<t>_<cut>  parse text t into slot s (only while the slot is clean)     R<s>  reset
//   U<s>_<t>_<cut>  parse into slot s whatever it holds (memory safety only until it is reset, overwritten or destroyed)
//   C<d>_<s>  destroy d, move-construct it from s      A<d>_<s>  move-assign s to d      S<s>  self move-assignment
//   L<s>  release statements        K<i>  delete the i-th list of released statements
//   N<s>_<i>  destroy s, construct it from the first statement of released list i       T<s>_<i>  addStatement of one
//   E<s>_<n>  setErrorDetails       V<s>_<0|1>  setIsValid       X<s>  destroy and construct anew     W<s>  swap with slot 0 by moves
namespace {
const int kSlots = 4;
const char* const kMore[] = {
  "SELECT a FROM t WHERE x = ? AND y = ?; INSERT INTO t VALUES (1, 'x'); SELECT ?", "SELECT 1", "SELECT 'it''s', ? FROM t", "SELECT ? + ?, ? FROM", "SELECT a FROM t WHERE d = DATE 'nope'; SELECT ?", "CREATE TABLE t (a INT NULL NOT NULL)",
  "", ";", "COMMIT; BEGIN; ROLLBACK", "PREPARE p FROM 'SELECT ?'; EXECUTE p (1, 2)", "SELECT ?, ?, ?, ?, ?, ?, ?, ?, ?, ?", "SELECT 'abc", "SELECT \"abc", "SELECT a \x01 b", "SELECT 99999999999999999999", "UPDATE t SET a = ?, b = ? WHERE c = ?; DELETE FROM t WHERE x = ?",
  "WITH q AS (SELECT ? FROM t) SELECT * FROM q WHERE a IN (?, ?) ORDER BY ? LIMIT ? OFFSET ?", "SELECT * FROM a, b JOIN c ON x = ? WHERE EXISTS (SELECT ?) WITH HINT (a, b(1))", "COPY t TO 'f' WITH (FORMAT CSV, FORMAT CSV)", "IMPORT FROM FOO FILE 'a' INTO t", "SELECT a\nFROM t\nWHERE\n  ;", "SELECT 1; SELECT 2; SELECT 3 FROM; SELECT 4"};
const std::vector<std::string>& texts(Ctx& c) {
  static std::vector<std::string> v;
  if (v.empty()) {
    for (auto* s : kMore) v.push_back(s);
    for (auto& s : c.corpus) if (s.size() < 500) v.push_back(s);
  }
  return v;
}
struct Snap {
  bool valid = false, hasMsg = false;
  std::string msg;
  int line = 0, col = 0;
  std::vector<std::string> stmts;   // tree and length of each
  std::vector<std::string> params;  // number and position within the tree of each
  bool operator==(const Snap& o) const { return valid == o.valid && hasMsg == o.hasMsg && msg == o.msg && line == o.line && col == o.col && stmts == o.stmts && params == o.params; }
  std::string diff(const Snap& o, bool errors, bool validity) const {
    if (stmts.size() != o.stmts.size()) return std::to_string(stmts.size()) + " statements instead of " + std::to_string(o.stmts.size());
    for (size_t i = 0; i < stmts.size(); i++) if (stmts[i] != o.stmts[i]) return "statement " + std::to_string(i) + " differs: " + firstDiff(o.stmts[i], stmts[i]);
    if (validity && valid != o.valid) return valid ? "valid instead of invalid" : "invalid instead of valid";
    if (errors && (hasMsg != o.hasMsg || msg != o.msg)) return "error message " + (hasMsg ? quoteBytes(msg) : "(none)") + " instead of " + (o.hasMsg ? quoteBytes(o.msg) : "(none)");
    if (errors && (line != o.line || col != o.col)) return "error position " + std::to_string(line) + ":" + std::to_string(col) + " instead of " + std::to_string(o.line) + ":" + std::to_string(o.col);
    if (params.size() != o.params.size()) return std::to_string(params.size()) + " parameters instead of " + std::to_string(o.params.size());
    for (size_t i = 0; i < params.size(); i++) if (params[i] != o.params[i]) return "parameter " + std::to_string(i) + " is " + params[i] + " instead of " + o.params[i];
    return "";
  }
};
struct ParamNodes : Visitor {
  std::vector<const Expr*> v;
  void expr(const Expr* e, const char*) override { if (e->type == kExprParameter) v.push_back(e); }
};
std::string stmtText(const SQLStatement* s) { Arena A; return std::to_string(s->stringLength) + " " + ser(dumpStatement(s, A)); }
Snap snap(SQLParserResult& r) {
  Snap s;
  s.valid = r.isValid();
  if (r.errorMsg()) { s.hasMsg = true; s.msg = r.errorMsg(); }
  s.line = r.errorLine(); s.col = r.errorColumn();
  for (auto* x : r.getStatements()) s.stmts.push_back(stmtText(x));
  if (!r.parameters().empty()) {
    ParamNodes p;
    walkResult(r, p);
    for (auto* e : r.parameters()) {
      size_t at = std::find(p.v.begin(), p.v.end(), e) - p.v.begin();
      if (at == p.v.size()) s.params.push_back("a node outside the result's statements");
      else s.params.push_back("id " + std::to_string(e->ival) + " at placeholder " + std::to_string(at));
    }
  }
  return s;
}
const Snap& baseline(const std::string& t) {
  static std::map<std::string, Snap> m;
  auto it = m.find(t);
  if (it != m.end()) return it->second;
  SQLParserResult r;
  SQLParser::parse(t, &r);
  return m.emplace(t, snap(r)).first->second;
}
enum SlotState { CLEAN, PARSED, MARKED, RELEASED, WILD };
struct Op { char k; long a, b, c; };
std::vector<Op> readOps(const std::string& t) {
  std::vector<Op> v;
  size_t i = 0;
  while (i < t.size()) {
    while (i < t.size() && isspace((unsigned char)t[i])) i++;
    size_t e = i;
    while (e < t.size() && !isspace((unsigned char)t[e])) e++;
    if (e > i + 1) {
      Op o{t[i], 0, 0, 0};
      if (sscanf(t.substr(i + 1, std::min<size_t>(e - i - 1, 40)).c_str(), "%ld_%ld_%ld", &o.a, &o.b, &o.c) >= 1 && o.a >= 0 && o.b >= 0 && o.c >= 0) v.push_back(o);
    }
    i = e;
  }
  return v;
}
struct History {
  Ctx& c;
  SQLParserResult* r[kSlots];
  Snap m[kSlots];
  SlotState st[kSlots];
  struct Rel { std::vector<SQLStatement*> real; std::vector<std::string> model; };
  std::vector<Rel> rel;
  Snap empty;
  uint64_t transfers = 0, applied = 0;
  explicit History(Ctx& x) : c(x) { for (int i = 0; i < kSlots; i++) { r[i] = new SQLParserResult(); st[i] = CLEAN; } empty = snap(*r[0]); for (auto& x : m) x = empty; }
  std::string verify(int s, const char* when) {
    if (st[s] == WILD) return "";
    Snap got = snap(*r[s]);
    std::string d = got.diff(m[s], true, st[s] != MARKED);
    return d.empty() ? "" : std::string(when) + ": slot " + std::to_string(s) + " shows " + d;
  }
  std::string all(const char* when) {
    for (int s = 0; s < kSlots; s++) { std::string w = verify(s, when); if (!w.empty()) return w; }
    for (auto& l : rel) for (size_t i = 0; i < l.real.size(); i++) if (stmtText(l.real[i]) != l.model[i]) return std::string(when) + ": a released statement has changed: " + firstDiff(l.model[i], stmtText(l.real[i]));
    return "";
  }
  void clean(int s) { m[s] = empty; st[s] = CLEAN; }
  std::string text(long t, long cut) { auto& v = texts(c); const std::string& s = v[t % v.size()]; return cut < (long)s.size() ? s.substr(0, cut) : s; }
  std::string apply(const Op& o) {
    int s = (int)(o.a % kSlots), q = (int)(o.b % kSlots);
    switch (o.k) {
      case 'P': {
        if (st[s] != CLEAN) return "";
        std::string t = text(o.b, o.c);
        bool ret = SQLParser::parse(t, r[s]);
        if (!ret) return "parse returned false";
        m[s] = baseline(t);
        st[s] = PARSED;
        c.count[m[s].valid ? "parses (accepted)" : "parses (rejected)"]++;
        break;
      }
      case 'U': {
        std::string t = text(o.b, o.c);
        SQLParser::parse(t, r[s]);
        if (st[s] != CLEAN) { st[s] = WILD; c.count["parses into occupied results"]++; } else { m[s] = baseline(t); st[s] = PARSED; }
        break;
      }
      case 'R': r[s]->reset(); clean(s); c.count["resets"]++; break;
      case 'X': delete r[s]; r[s] = new SQLParserResult(); clean(s); c.count["destructions"]++; break;
      case 'C':
        if (s == q) return "";
        delete r[s];
        r[s] = new SQLParserResult(std::move(*r[q]));
        m[s] = m[q]; st[s] = st[q];
        clean(q);
        transfers++; c.count["move constructions"]++;
        break;
      case 'A':
        if (s == q) return "";
        { SQLParserResult& back = (*r[s] = std::move(*r[q])); if (&back != r[s]) return "move assignment does not return its left operand"; }
        m[s] = m[q]; st[s] = st[q];
        clean(q);
        transfers++; c.count["move assignments"]++;
        break;
      case 'S': {
        SQLParserResult& alias = *r[s];
        *r[s] = std::move(alias);
        if (st[s] == WILD) break;
        Snap got = snap(*r[s]);
        if (got == empty) clean(s);
        c.count["self moves"]++;
        break;  // otherwise it has to be unchanged, which the general comparison decides
      }
      case 'W': {
        if (s == 0) return "";
        SQLParserResult tmp(std::move(*r[0]));
        *r[0] = std::move(*r[s]);
        *r[s] = std::move(tmp);
        std::swap(m[0], m[s]); std::swap(st[0], st[s]);
        transfers += 3; c.count["swaps"]++;
        break;
      }
      case 'L': {
        if (st[s] == WILD) return "";
        Rel l;
        std::vector<SQLStatement*> before = r[s]->getStatements();
        l.model = m[s].stmts;
        l.real = r[s]->releaseStatements();
        bool same = l.real == before;
        rel.push_back(l);
        if (!same) return "releaseStatements does not return the statements of the result";
        m[s].stmts.clear(); m[s].params.clear();
        st[s] = RELEASED;
        c.count["releases"]++; c.count["statements released"] += l.real.size();
        break;
      }
      case 'K': {
        if (rel.empty()) return "";
        size_t i = o.a % rel.size();
        for (auto* x : rel[i].real) { delete x; c.count["released statements deleted"]++; }
        rel.erase(rel.begin() + i);
        break;
      }
      case 'N': case 'T': {
        if (rel.empty()) return "";
        Rel& l = rel[o.b % rel.size()];
        if (l.real.empty()) return "";
        if (o.k == 'T' && (st[s] == WILD || st[s] == RELEASED)) return "";
        SQLStatement* x = l.real.front();
        std::string tx = l.model.front();
        l.real.erase(l.real.begin()); l.model.erase(l.model.begin());
        if (o.k == 'N') { delete r[s]; r[s] = new SQLParserResult(x); clean(s); m[s].valid = r[s]->isValid(); c.count["results made from a statement"]++; }
        else { r[s]->addStatement(x); c.count["statements added"]++; }
        m[s].stmts.push_back(tx);
        st[s] = MARKED;
        break;
      }
      case 'E': {
        if (st[s] == WILD || st[s] == RELEASED) return "";
        std::string msg = "message " + std::to_string(o.b);
        r[s]->setErrorDetails(strdup(msg.c_str()), (int)(o.b % 1000), (int)(o.b / 7 % 1000));
        m[s].hasMsg = true; m[s].msg = msg; m[s].line = (int)(o.b % 1000); m[s].col = (int)(o.b / 7 % 1000);
        if (st[s] == CLEAN) st[s] = PARSED;
        c.count["error details set"]++;
        break;
      }
      case 'V':
        if (st[s] == WILD || st[s] == RELEASED) return "";
        r[s]->setIsValid(o.b & 1);
        m[s].valid = o.b & 1;
        st[s] = PARSED;
        c.count["validity set"]++;
        break;
      default: return "";
    }
    applied++;
    return "";
  }
  void endClean() { for (int i = 0; i < kSlots; i++) { delete r[i]; r[i] = nullptr; } for (auto& l : rel) for (auto* x : l.real) delete x; rel.clear(); }
};
std::string opName(const Op& o) { return std::string(1, o.k) + std::to_string(o.a) + "_" + std::to_string(o.b) + "_" + std::to_string(o.c); }
}  // namespace
static std::string runHistory(Ctx& c, const std::vector<Op>& ops, uint64_t* transfers) {
  History h(c);
  std::string w;
  for (auto& o : ops) {
    w = h.apply(o);
    if (w.empty()) w = h.all("");
    if (!w.empty()) { w = "after " + opName(o) + w; break; }
  }
  *transfers = h.transfers;
  if (w.empty()) {
    // resetting everything disposes of all contents
    for (int i = 0; i < kSlots; i++) { h.r[i]->reset(); h.clean(i); }
    w = h.all("after resetting all");
  }
  h.endClean();
  return w;
}
// what a history leaves behind once its results are reset but not destroyed: nothing but the objects and empty lists
static long runQuiet(Ctx& c, const std::vector<Op>& ops, long* atReset) {
  rt::begin();
  {
    History h(c);
    for (auto& o : ops) h.apply(o);
    for (auto& l : h.rel) for (auto* x : l.real) delete x;
    for (int i = 0; i < kSlots; i++) { h.r[i]->reset(); h.clean(i); }
    { std::vector<History::Rel>().swap(h.rel); }
    for (int i = 0; i < kSlots; i++) { Snap e; std::swap(h.m[i], e); }
    { Snap e; std::swap(h.empty, e); }
    *atReset = rt::live();
    h.endClean();
  }
  rt::end();
  return rt::live();
}
static std::string o14(Ctx& c, const std::string& t) {
  auto ops = readOps(t);
  if (ops.size() > 400) ops.resize(400);
  uint64_t transfers = 0;
  for (auto& o : ops) if (o.k == 'P' || o.k == 'U') { auto& v = texts(c); const std::string& s = v[o.b % v.size()]; baseline(o.c < (long)s.size() ? s.substr(0, o.c) : s); }
  std::string w = runHistory(c, ops, &transfers);
  c.count["operations"] += ops.size();
  c.count["transfers"] += transfers;
  c.nt = ops.size() > 2;
  if (!w.empty()) return w;
  if (rt::canCount()) {
    long at = 0, atMin = 1 << 30, endMin = 1 << 30;
    for (int i = 0; i < 4; i++) {  // something that stays once is no leak; only what every repetition leaves counts
      long e = runQuiet(c, ops, &at);
      endMin = std::min(endMin, e < 0 ? -e : e); atMin = std::min(atMin, at);
      if (endMin == 0 && atMin <= 3 * kSlots) break;
    }
    c.count["histories balanced"]++;
    if (endMin) return "after the history " + std::to_string(endMin) + " more (or fewer) heap blocks are live than before";
    if (atMin > 3 * kSlots) return "after resetting every result " + std::to_string(atMin) + " heap blocks are still live (the objects and their empty lists are at most " + std::to_string(3 * kSlots) + ")";
  }
  return "";
}
static std::string randomHistory(Ctx& c, size_t n) {
  std::string s;
  auto& v = texts(c);
  Rng& g = c.rng;
  for (size_t i = 0; i < n; i++) {
    static const char kinds[] = "PPPPPPPPRRRCCCAAAAAASWWLLKNTEVXU";
    char k = kinds[g.below(sizeof kinds - 1)];
    size_t a = g.below(kSlots), b = g.below(kSlots);
    std::string w(1, k);
    w += std::to_string(a);
    if (k == 'P' || k == 'U') {
      size_t t = g.chance(1, 2) ? g.below(sizeof kMore / sizeof *kMore) : g.below(v.size());
      size_t cut = g.chance(1, 4) ? g.below(v[t].size() + 1) : 9999;
      w += "_" + std::to_string(t) + "_" + std::to_string(cut);
    } else if (k == 'E') w += "_" + std::to_string(g.below(5000));
    else w += "_" + std::to_string(b);
    s += (s.empty() ? "" : " ") + w;
  }
  return s;
}
static void r14(Ctx& c) {
  auto f = checker(c);
  // every short history over a small alphabet, then random longer ones
  static const char* const al[] = {"P0_0_999", "P0_3_999", "P1_10_999", "P1_5_999", "A0_1", "A1_0", "C0_1", "C1_0", "R0", "R1", "L0", "L1", "K0", "S0", "E0_5", "E1_8", "V0_1", "N0_0", "T1_0", "X1", "W1", "U0_2_999"};
  const size_t m = sizeof al / sizeof *al;
  uint64_t k = 0;
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) {
    if (c.mine(k++) && !f(std::string(al[i]) + " " + al[j])) return;
    for (size_t l = 0; l < m; l++) {
      if (c.mine(k++) && !f(std::string(al[i]) + " " + al[j] + " " + al[l])) return;
      if (c.thorough || c.rng.chance((unsigned)std::min(1000.0, c.scale * 90), 1000)) for (size_t o = 0; o < m; o++) if (c.mine(k++) && !f(std::string(al[i]) + " " + al[j] + " " + al[l] + " " + al[o])) return;
    }
  }
  auto& v = texts(c);
  for (size_t t = 0; t < v.size(); t++) {
    if (!c.mine(t)) continue;
    std::string n = std::to_string(t);
    for (std::string cut : {std::string("9999"), std::to_string(v[t].size() * 2 / 3)}) {
      std::string p = "P0_" + n + "_" + cut;
      if (!f(p + " C1_0 " + "P0_0_999 A1_0 R1 " + p + " A2_0 P0_2_999 A2_0")) return;
      if (!f(p + " R0 " + p + " L0 R0 " + p + " A1_0 K0 L1 A1_0")) return;
      if (!f("P1_0_999 P2_3_999 " + p + " A1_0 A2_1 P0_16_999 P1_4_999 W2 W1 S2 X0")) return;
    }
  }
  for (size_t i = c.n(14000); i && !c.failed; i--) if (!f(randomHistory(c, 2 + c.rng.below(c.rng.chance(1, 12) ? 120 : 22)))) return;
}
PROPERTY("C14", r14, o14);

// ------------------------------------------------------------------ C16
// A case is a list of records "<op><text>" separated by byte 0x1e; the last record is the parse whose outcome is compared
// with that of a process which does nothing else. Ops: p parse fresh, r parse into a reset result, t tokenize, q parseSQLString
// (char*), s parseSQLString(string), h parse in another thread, l set a locale, g set the C++ locale, e set errno,
// k parse and keep the result.
namespace {
int gReq = -1, gRep = -1;
pid_t gZygote;
void readFull(int fd, void* p, size_t n) { char* q = (char*)p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(0); } q += k; n -= k; } }
void writeFull(int fd, const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd, q, n); if (k < 0) { if (errno == EINTR) continue; _exit(0); } q += k; n -= k; } }
std::string outcomeOf(SQLParserResult& r, bool ret) { return std::string(ret ? "true " : "false ") + dumpResult(r); }
std::string freshOutcome(const std::string& t) {
  SQLParserResult r;
  bool ret = SQLParser::parse(t, &r);
  std::vector<int16_t> tok;
  bool tr = SQLParser::tokenize(t, &tok);
  std::string s = outcomeOf(r, ret) + "tokens " + std::to_string(tr);
  for (auto x : tok) s += " " + std::to_string(x);
  return s;
}
// must be called before this process has parsed anything
void startZygote() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) _exit(3);
  gZygote = fork();
  if (gZygote < 0) _exit(3);
  if (!gZygote) {
    close(a[1]); close(b[0]);
    for (;;) {
      uint64_t n;
      readFull(a[0], &n, 8);
      std::string t(n, 0);
      readFull(a[0], &t[0], n);
      pid_t p = fork();
      if (p < 0) _exit(3);
      if (!p) {
        std::string s = freshOutcome(t);
        uint64_t k = s.size();
        writeFull(b[1], &k, 8);
        writeFull(b[1], s.data(), k);
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { std::string s = "a fresh process crashed"; uint64_t k = s.size(); writeFull(b[1], &k, 8); writeFull(b[1], s.data(), k); }
    }
  }
  close(a[0]); close(b[1]);
  gReq = a[1]; gRep = b[0];
}
std::string askFresh(const std::string& t) {
  uint64_t n = t.size();
  writeFull(gReq, &n, 8);
  writeFull(gReq, t.data(), n);
  readFull(gRep, &n, 8);
  std::string s(n, 0);
  readFull(gRep, &s[0], n);
  return s;
}
const char* const kLoc[] = {"C", "de_DE.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "C.UTF-8", "POSIX"};
int gOut = -1;  // what standard output has been redirected to
off_t outSize() { fflush(stdout); std::cout.flush(); struct stat st; fstat(gOut, &st); return st.st_size; }
std::vector<std::string> records(const std::string& t) {
  std::vector<std::string> v;
  size_t b = 0;
  for (;;) {
    size_t e = t.find('\x1e', b);
    v.push_back(t.substr(b, e == std::string::npos ? e : e - b));
    if (e == std::string::npos) break;
    b = e + 1;
  }
  return v;
}
struct Settings {
  std::string loc; int round, except; std::locale cpp; std::string fmt; mode_t um; std::string env;
  std::terminate_handler term;
  Settings() : loc(setlocale(LC_ALL, nullptr)), round(fegetround()), except(0), cpp() {
    fmt = std::to_string((long)std::cout.flags()) + "/" + std::to_string(std::cout.precision()) + "/" + std::to_string((int)std::cout.fill()) + "/" + std::to_string((int)std::cout.rdstate()) + "/" + std::to_string((long)std::cerr.flags());
    um = umask(0); umask(um);
    term = std::get_terminate();
    struct sigaction sa;
    for (int i = 1; i < 32; i++) if (!sigaction(i, nullptr, &sa)) env += std::to_string((long)(void*)sa.sa_handler) + ",";
  }
  std::string diff(const Settings& o) const {
    if (loc != o.loc) return "the process locale (" + o.loc + " -> " + loc + ")";
    if (round != o.round) return "the rounding mode";
    if (!(cpp == o.cpp)) return "the global C++ locale";
    if (fmt != o.fmt) return "the state of the standard streams";
    if (um != o.um) return "the file mode mask";
    if (term != o.term) return "the terminate handler";
    if (env != o.env) return "signal handlers";
    return "";
  }
};
// a private read-only copy of the text, ending right before an unmapped page
struct ReadOnly {
  char* base; size_t len; const char* p;
  explicit ReadOnly(const std::string& t) {
    size_t n = t.size() + 1;
    len = (n + 4095) / 4096 * 4096;
    base = (char*)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char* q = base + len - n;
    memcpy(q, t.c_str(), n);
    p = q;
    mprotect(base, len, PROT_READ);
    mprotect(base + len, 4096, PROT_NONE);
  }
  ~ReadOnly() { munmap(base, len + 4096); }
};
std::string parseBy(char op, const std::string& t, SQLParserResult& r, bool* ret) {
  std::string copy = t;
  switch (op) {
    case 'q': if (t.find('\0') == std::string::npos) { ReadOnly ro(t); *ret = SQLParser::parseSQLString(ro.p, &r); break; }  // fall through
    case 's': *ret = SQLParser::parseSQLString(copy, &r); break;
    case 'h': { std::thread th([&] { *ret = SQLParser::parse(copy, &r); }); th.join(); break; }
    default: *ret = SQLParser::parse(copy, &r);
  }
  if (copy != t) return "the input text was changed";
  return "";
}
}  // namespace
// The same few calls very many times in one process: every outcome must be the one of the first time.
static std::string marathon(Ctx& c, int kind, uint64_t n) {
  static const char* const ok[] = {"SELECT 1", "SELECT ?, a FROM t WHERE b = ?", "INSERT INTO t VALUES (1.5, 'x')", "COMMIT; SELECT 2", "CREATE TABLE t (a INT)", "SELECT f(x) FROM a, b ORDER BY 1 LIMIT 2"};
  static const char* const no[] = {"SELECT", "", "SELECT 'abc", "SELECT 1;\n SELECT", "CREATE TABLE t (a INT NULL NOT NULL)", "SELECT DATE 'x'", "SELECT ? FROM"};
  std::vector<std::string> texts;
  if (kind != 1) for (auto* t : ok) texts.push_back(t);
  if (kind != 0) for (auto* t : no) texts.push_back(t);
  if (kind == 3) texts = {"SELECT ?"};
  if (kind == 4) texts = {"SELECT FROM"};
  if (kind == 5) texts = {"SELECT 'a', 1.5"};
  std::vector<std::string> want(texts.size());
  SQLParserResult kept;
  for (uint64_t j = 0; j < n; j++) {
    size_t i = j % texts.size();
    std::string got;
    bool tok = kind == 6 || (kind == 2 && j % 3 == 0);
    if (tok) {
      std::vector<int16_t> v = {7};
      bool r = SQLParser::tokenize(texts[i], &v);
      got = r ? "true" : "false";
      for (auto x : v) { got += ' '; got += std::to_string(x); }
      if (kind == 2) continue;
    } else {
      SQLParserResult r;
      bool ret = j % 2 ? SQLParser::parse(texts[i], &r) : SQLParser::parseSQLString(texts[i].c_str(), &r);
      if (kind == 7) { kept = std::move(r); got = outcomeOf(kept, ret); }
      else got = outcomeOf(r, ret);
    }
    if (want[i].empty()) want[i] = got;
    else if (got != want[i]) return "call " + std::to_string(j) + " of many, with " + quoteBytes(texts[i]) + ", has another outcome than the first: " + firstDiff(want[i], got);
    if (!(j & 1023)) c.setCur("@marathon " + std::to_string(kind) + " " + std::to_string(n));
  }
  c.count["calls in long runs of one process"] += n;
  return "";
}
static std::string o16(Ctx& c, const std::string& all) {
  if (gReq < 0) startZygote();
  {
    int kind;
    unsigned long long n;
    if (sscanf(all.c_str(), "@marathon %d %llu", &kind, &n) == 2) { c.nt = true; return marathon(c, kind, n); }
  }
  auto rec = records(all);
  std::string last = rec.back();
  if (last.empty()) return "";
  std::string want = askFresh(last.substr(1));
  std::vector<SQLParserResult> kept;
  std::vector<std::string> keptDump;
  SQLParserResult reuse;
  // operations b and c use one string object whose text is edited in place
  struct Place { std::string s; Place() { s.reserve(1 << 14); } void operator()(const std::string& t) { s.assign(t); } } place;
  std::string w;
  off_t out0 = gOut >= 0 ? outSize() : 0;
  int err = 0;
  for (size_t i = 0; i < rec.size() && w.empty(); i++) {
    bool isLast = i + 1 == rec.size();
    if (rec[i].empty()) continue;
    char op = rec[i][0];
    std::string t = rec[i].substr(1);
    if (op == 'l') { if (setlocale(LC_ALL, kLoc[(unsigned char)t[0] % 7])) c.count[std::string("locale ") + kLoc[(unsigned char)t[0] % 7]]++; continue; }
    if (op == 'g') { try { std::locale::global(std::locale(kLoc[(unsigned char)t[0] % 7])); c.count["C++ locale set"]++; } catch (...) {} continue; }
    if (op == 'e') { err = (unsigned char)t[0]; continue; }
    Settings s0;
    c.count[std::string("op ") + op]++;
    if (op == 'b' || op == 'c') { place(t); }
    if (op == 'c') {
      std::vector<int16_t> v;
      errno = err;
      SQLParser::tokenize(place.s, &v);
      if (place.s != t) w = "the input text was changed by tokenize";
    } else if (op == 't') {
      std::vector<int16_t> v = {7};
      std::string copy = t;
      errno = err;
      SQLParser::tokenize(copy, &v);
      if (copy != t) w = "the input text was changed by tokenize";
    } else {
      SQLParserResult fresh;
      if (op == 'r' && reuse.size() + reuse.parameters().size() + (reuse.errorMsg() ? 1 : 0)) reuse.reset();
      SQLParserResult& r = op == 'r' ? reuse : fresh;
      if (op == 'r') r.reset();
      bool ret = false;
      errno = err;
      if (op == 'b') { ret = SQLParser::parse(place.s, &r); if (place.s != t) w = "the input text was changed"; }
      else w = parseBy(op, t, r, &ret);
      if (isLast && w.empty()) {
        std::vector<int16_t> tok;
        errno = err;
        bool tr = SQLParser::tokenize(t, &tok);
        // the dump below is this harness's: it must not depend on the locale either, so it runs in the C locale
        std::string cur = setlocale(LC_ALL, nullptr);
        std::locale cc = std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "C");
        std::string got = outcomeOf(r, ret) + "tokens " + std::to_string(tr);
        for (auto x : tok) got += " " + std::to_string(x);
        std::locale::global(cc);
        setlocale(LC_ALL, cur.c_str());
        if (got != want) w = "the outcome differs from that in a fresh process: " + firstDiff(want, got);
        c.count[r.isValid() ? "accepted" : "rejected"]++;
      }
      if (op == 'k') { kept.emplace_back(std::move(r)); std::string cur = setlocale(LC_ALL, nullptr); setlocale(LC_ALL, "C"); keptDump.push_back(dumpResult(kept.back())); setlocale(LC_ALL, cur.c_str()); }
    }
    if (w.empty()) { std::string d = Settings().diff(s0); if (!d.empty()) w = "a call changed " + d; }
  }
  std::locale::global(std::locale::classic());
  setlocale(LC_ALL, "C");
  if (w.empty()) for (size_t i = 0; i < kept.size(); i++) { c.count["earlier results compared"]++; if (dumpResult(kept[i]) != keptDump[i]) { w = "an earlier result was changed by a later call: " + firstDiff(keptDump[i], dumpResult(kept[i])); break; } }
  if (w.empty() && gOut >= 0 && outSize() != out0) w = "something was written to standard output";
  c.nt = rec.size() > 1;
  return w;
}
static void r16(Ctx& c) {
  startZygote();
  // standard output goes to a file in memory that must stay empty, standard input is one that offers SQL
  gOut = memfd_create("out", 0);
  fflush(stdout);
  dup2(gOut, 1);
  int in = memfd_create("in", 0);
  if (write(in, "SELECT 1; '", 11) == 11) lseek(in, 0, SEEK_SET);
  dup2(in, 0);
  c.noShrink = true;
  bool locales = setlocale(LC_ALL, "de_DE.UTF-8") && setlocale(LC_ALL, "tr_TR.UTF-8") && setlocale(LC_ALL, "tr_TR.ISO-8859-9") && setlocale(LC_ALL, "de_DE.ISO-8859-1");
  setlocale(LC_ALL, "C");
  c.count[locales ? "foreign locales available" : "foreign locales missing"]++;
  if (!locales) { fprintf(stderr, "no locales\n"); _exit(3); }
  auto f = [&](std::vector<std::string> rec) {
    auto join = [](const std::vector<std::string>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += '\x1e'; s += v[i]; } return s; };
    std::string t = join(rec);
    c.setCur(t);
    c.nt = false;
    std::string w = o16(c, t);
    c.tally(t, c.nt);
    if (w.empty()) return true;
    // drop what is not needed
    for (size_t w2 = rec.size() / 2; w2 > 1; w2 /= 2)
      for (size_t i = 0; i + w2 < rec.size();) {
        auto v = rec;
        v.erase(v.begin() + i, v.begin() + i + w2);
        std::string x = o16(c, join(v));
        if (!x.empty()) { rec = v; w = x; } else i += w2;
      }
    for (bool again = rec.size() < 60; again;) {
      again = false;
      for (size_t i = 0; i + 1 < rec.size(); i++) {
        auto v = rec;
        v.erase(v.begin() + i);
        std::string x = o16(c, join(v));
        if (!x.empty()) { rec = v; w = x; again = true; break; }
      }
    }
    auto keep = rec;
    for (size_t i = 0; i < rec.size(); i++) if (rec[i].size() > 2 && !strchr("lge", rec[i][0])) {
      std::string body = shrink(rec[i].substr(1), [&](const std::string& x) { auto v = rec; v[i] = rec[i].substr(0, 1) + x; return !o16(c, join(v)).empty(); }, 300);
      rec[i] = rec[i].substr(0, 1) + body;
    }
    std::string x = o16(c, join(rec));
    if (x.empty()) rec = keep; else w = x;
    c.fail(w, join(rec));
    return false;
  };
  static const char* const nasty[] = {"SELECT 'abc", "SELECT \"abc", "SELECT a -- comment without end", "--", "'", "\"", "''", "SELECT 'a''", "SELECT 'a''b'", "SELECT CURRENT", "SELECT CHARACTER", "SELECT 1 /", "SELECT ?", "SELECT ?, ? FROM t WHERE ? = ?", "SELECT ? FROM", "SELECT 1.5, 2.25e", "SELECT .5 + 1.75 * 1234567.875", "SELECT 1,5",
    "SELECT 99999999999999999999", "SELECT 9223372036854775807, -9223372036854775808", "SELECT -9223372036854775809", "INSERT INTO t VALUES (1.5, -2.5)", "SELECT INTERVAL '5 MINUTES', INTERVAL '3' DAY, 7 MINUTES", "COPY t FROM 'f' WITH (FORMAT BINARY, ENCODING 'I')", "IMPORT FROM CSV FILE 'x' INTO t", "import from binary file 'x' into t", "COPY t TO 'f' (format csv, delimiter ',')",
    "CREATE TABLE t FROM tbl FILE 'x'", "CREATE TABLE t FROM TBL FILE 'x'", "SELECT a FROM t ORDER BY a NULLS FIRST, b nulls last", "SELECT I, i FROM \"I\" WHERE LIMIT", "select distinct in interval limit insert into index if is", "SELECT a FROM t LIMIT 1 OFFSET 2", "\xc4\xb0\xc4\xb1", "SELECT \xfd\xdd FROM t", "SELECT 'i\xfdI\xdd' ilike \"\xdd\"", "SELECT a\xa0" "FROM t", "SELECT interval '2 minutes'", "COPY t FROM 'a' WITH (format tbl, encoding 'x')",
    "SELECT DATE '2000-01-01'", "SELECT DATE '2000-1'", "SELECT INTERVAL '5 x'", "CREATE TABLE t (a DECIMAL(5,2) NOT NULL NULL)", "", ";", "SELECT 1;", "SELECT 1; SELECT", "COMMIT", "\n\n\nSELECT", "SELECT\n\n1\n+", "WITH", "EXECUTE p (1.5, 'x', CAST('1' AS INT))", "PREPARE p FROM 'SELECT 1.5'", "SELECT 0.1, 123456789.123456789, 1e5"};
  const size_t N = sizeof nasty / sizeof *nasty;
  Gen g(c.rng, c.dict);
  auto text = [&]() -> std::string {
    if (c.rng.chance(1, 3)) return nasty[c.rng.below(N)];
    std::string s;
    if (c.rng.chance(1, 2)) s = c.rng.pick(c.corpus);
    else {
      g.o = GenOpts();
      g.o.depth = 2 + (int)c.rng.below(5);
      g.o.badLit = 8;
      g.o.params = 2;
      Toks t = g.derive(c.rng.chance(1, 3) ? "script" : "stmt");
      if (t.size() > 200) t.resize(200);
      if (c.rng.chance(1, 4)) mutateToks(t, c.rng, g, 1);
      LayoutOpts lo;
      lo.style = (int)c.rng.below(4);
      lo.randomCase = c.rng.chance(1, 2);
      s = render(t, c.rng, lo);
    }
    if (c.rng.chance(1, 5)) s = s.substr(0, c.rng.below(s.size() + 1));
    if (c.rng.chance(1, 8)) mutateBytes(s, c.rng, g, 1 + (int)c.rng.below(4));
    for (auto& ch : s) if (ch == '\x1e') ch = ' ';
    return s;
  };
  auto rec = [&](const char* ops) { return std::string(1, ops[c.rng.below(strlen(ops))]) + text(); };
  auto one = [&](int v) { return std::string(1, (char)v); };
  uint64_t k = 0;
  // every nasty text before every other, and each under each locale and through each entry point
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) { if (c.mine(k++) && !f({std::string(1, "ptkh"[k / 8 % 4]) + nasty[i], std::string(1, "prqsh"[k / 32 % 5]) + nasty[j]})) return; }
  for (size_t i = 0; i < N; i++)
    for (int l = 0; l < 7; l++) for (char op : {'p', 'r', 'q', 's', 'h'}) { if (c.mine(k++) && !f({"l" + one(l), (l & 1) ? "g" + one(l) : "e" + one(34), std::string(1, op) + nasty[i]})) return; }
  for (auto& s : c.corpus) for (int l = 1; l < 5; l++) if (c.mine(k++) && s.size() < 3000 && !f({"l" + one(l), "p" + s})) return;
  for (auto& s : c.corpus) for (int e : {34, 22, 4, 2, 12, 255}) if (c.mine(k++) && s.size() < 3000 && !f({"e" + one(e), "q" + s})) return;
  // every byte value inside and next to every kind of token
  static const char* const around[] = {"SELECT 1 -- a%b\nFROM t", "SELECT 1 --%", "SELECT 'a%b' FROM t", "SELECT \"a%b\" FROM t", "SELECT a%b FROM t", "SELECT 1%FROM t", "SELECT 12%3", "%", "SELECT '%", "SELECT 1;%SELECT 2", "SELECT <%=>"};
  for (int b = 0; b < 256; b++)
    for (auto* a : around) {
      if (b == 0x1e || !c.mine(k++)) continue;
      std::string s = a;
      s.replace(s.find('%'), 1, std::string(1 + b % 2, (char)b));
      if (!f({"p" + s}) || !f({"t" + s, "pSELECT 'x', 1.5 -- c\n, ? FROM t"})) return;
    }
  for (size_t i = c.n(26000); i && !c.failed; i--) {
    std::vector<std::string> v;
    size_t n = c.rng.below(c.rng.chance(1, 10) ? 30 : 6);
    for (size_t j = 0; j < n; j++) {
      switch (c.rng.below(12)) {
        case 0: v.push_back("l" + one((int)c.rng.below(7))); break;
        case 1: v.push_back("e" + one(c.rng.chance(1, 2) ? 34 : (int)c.rng.below(30))); break;
        case 2: if (c.rng.chance(1, 3)) v.push_back("g" + one((int)c.rng.below(7))); break;
        default: v.push_back(rec("pprtttkkqsh"));
      }
    }
    v.push_back(rec("pprqsh"));
    if (v.back().size() > 6000) continue;
    if (!f(v)) return;
  }
  // one string object edited in place between the calls: same address, often the same length
  for (size_t i = c.n(2500); i && !c.failed; i--) {
    std::string t = c.rng.chance(1, 2) ? c.rng.pick(c.corpus) : text();
    if (t.empty() || t.size() > 3000) continue;
    for (auto& ch : t) if (ch == '\x1e') ch = ' ';
    std::string u = t;
    size_t at = c.rng.chance(1, 2) ? u.size() - 1 - c.rng.below(std::min<size_t>(u.size(), 4)) : c.rng.below(u.size());
    switch (c.rng.below(5)) {
      case 0: u[at] = "(),;'.x0?=\"-"[c.rng.below(12)]; break;
      case 1: u[at] = (char)('a' + c.rng.below(26)); break;
      case 2: u[at] = (char)('0' + c.rng.below(10)); break;
      case 3: u.erase(at); break;
      default: mutateBytes(u, c.rng, g, 1);
    }
    for (auto& ch : u) if (ch == '\x1e') ch = ' ';
    static const char* const first[] = {"b", "c", "bb", "cb", "bc"};
    std::vector<std::string> v, x;
    for (const char* q = first[c.rng.below(5)]; *q; q++) { v.push_back(*q + t); x.push_back(*q + u); }
    v.push_back("b" + u);
    x.push_back("b" + t);
    if (!f(v) || !f(x)) return;
  }
  // long uniform histories: the same kind of call again and again, then a call of another kind
  static const char* const good[] = {"SELECT 1", "SELECT a FROM t WHERE b = ?", "INSERT INTO t VALUES (1.5, 'x')", "SELECT 1;;", "COMMIT; SELECT 2", "CREATE TABLE t (a INT)"};
  static const char* const bad[] = {"SELECT", "SELECT FROM", "", "SELECT 'abc", "SELECT 1; SELECT", "\n\nSELECT 1 +", "CREATE TABLE t (a INT NULL NOT NULL)", "SELECT DATE 'x'"};
  std::vector<size_t> lens = {3, 8, 9, 17, 33, 41, 65, 101, 129, 257, 300, 513};
  for (uint64_t h : c.dict.hotNums) if (h && h < 3000) { lens.push_back(h); lens.push_back(h + 1); }
  for (size_t len : lens)
    for (int m = 0; m < 10; m++) {
      if (!c.mine(k++) || c.failed) continue;
      std::vector<std::string> v;
      std::string t = m == 4 || m == 5 ? text() : "";
      for (size_t j = 0; j < len; j++)
        switch (m) {
          case 0: v.push_back(std::string("p") + good[c.rng.below(6)]); break;
          case 1: v.push_back(std::string("p") + bad[c.rng.below(8)]); break;
          case 2: v.push_back(std::string("t") + (j % 3 ? good[j % 6] : bad[j % 8])); break;
          case 3: v.push_back(std::string("r") + (j % 2 ? good[j % 6] : bad[j % 8])); break;
          case 4: v.push_back("p" + t); break;
          case 5: v.push_back("k" + t); break;
          case 6: v.push_back(std::string("p") + good[len % 6]); break;
          case 7: v.push_back(std::string("p") + bad[len % 8]); break;
          case 8: v.push_back(std::string("q") + bad[len % 8]); break;
          case 9: v.push_back(std::string("s") + good[len % 6]); break;
        }
      for (auto* last : {bad[len % 8], bad[(len + 3) % 8], good[(len + 1) % 6]}) { auto u = v; u.push_back(std::string(1, "prqs"[len % 4]) + last); if (!f(u)) return; }
    }
  // the same text again and again, and many different texts before it
  for (int i = 0; i < 3 && !c.failed; i++) {
    std::vector<std::string> v;
    std::string t = rec("p");
    for (int j = 0; j < 300; j++) v.push_back(j % 3 ? rec("pt") : t);
    v.push_back(t);
    if (!f(v)) return;
  }
  // counters that overflow
  for (int kind = 0; kind < 8 && !c.failed; kind++) {
    if (!c.mine(kind)) continue;
    uint64_t n = c.thorough ? 20000000 : 150000;
    for (uint64_t h : c.dict.hotNums) if (h > n && h < 2500000) n = h + 20;
    std::string t = "@marathon " + std::to_string(kind) + " " + std::to_string(n);
    c.setCur(t);
    std::string w = o16(c, t);
    c.tally(t, true);
    if (!w.empty()) c.fail(w, t);
  }
}
PROPERTY("C16", r16, o16);
