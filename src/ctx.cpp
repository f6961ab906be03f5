#include "ctx.h"
#include <sys/resource.h>
#include <cstring>

using namespace hsql;
Ctx* gCtx = nullptr;

void Ctx::setCur(const std::string& s, const char* note) {
  if (!cur) return;
  size_t n = s.size();
  size_t nl = strlen(note);
  if (n + nl + 24 > curCap) n = curCap - nl - 24;
  memcpy(cur + 16, &nl, 8);
  memcpy(cur + 24, note, nl);
  memcpy(cur + 24 + nl, s.data(), n);
  memcpy(cur + 8, &n, 8);
  uint64_t e = evals + 1;
  memcpy(cur, &e, 8);
}
void Ctx::fail(const std::string& what, const std::string& text) {
  if (failed) return;
  failed = true;
  failWhat = what;
  failCase = text;
}

uint64_t kindsMask(std::initializer_list<int> k) { uint64_t m = 0; for (int x : k) m |= 1ull << x; return m; }

void refRun(Exec& x, const std::string& text) {
  x.text = text;
  refLex(text, x.lx);
  refParse(x.lx, x.arena, x.ref);
}

// The parser's stack has a fixed size; texts nested more deeply than this may be refused.
static const int kDepthFree = VF_DEPTH_FREE;
bool depthExcused(const Exec& x, const SQLParserResult& r) {
  const char* m = r.errorMsg();
  return m && strstr(m, "memory exhausted") && x.ref.depth > kDepthFree;
}

static bool posLe(int l1, int c1, int l2, int c2) { return l1 < l2 || (l1 == l2 && c1 <= c2); }

std::string judge(Exec& x, SQLParserResult& r, bool ret, unsigned cmp, uint64_t kinds) {
  const RefOut& ref = x.ref;
  bool ok = r.isValid();
  if ((cmp & CMP_STATE) && !ret) return "parse() returned false";
  if (ok != ref.ok) {
    bool excused = depthExcused(x, r) || ((ref.flags & RF_EITHER) && ref.ok);
    if (!excused && (cmp & CMP_ACCEPT)) {
      std::string s = ok ? "accepted a text outside the dialect" : "rejected a text of the dialect";
      if (!ok) s += std::string(": ") + (r.errorMsg() ? r.errorMsg() : "(no message)");
      else if (!ref.errors.empty()) s += std::string(" (") + refErrName(ref.errors.back().kind) + " error at token " + std::to_string(ref.errors.back().tokB) + ")";
      return s;
    }
  }
  if (cmp & CMP_STATE) {
    if (ok) {
      if (r.errorMsg()) return std::string("valid result carries an error message: ") + r.errorMsg();
      if (r.size() == 0) return "valid result without statements";
    } else {
      if (!r.errorMsg() || !*r.errorMsg()) return "failed parse without error message";
      if (r.size() != 0) return "failed parse exposes statements";
      if (!r.parameters().empty()) return "failed parse exposes parameters";
    }
  }
  if ((cmp & CMP_POS) && !ok && !ref.ok && !depthExcused(x, r)) {
    int l = r.errorLine(), c = r.errorColumn();
    bool in = false;
    std::string want;
    for (auto& e : ref.errors) {
      const Tok& a = x.lx.t[e.tokB];
      const Tok& b = x.lx.t[e.tokE];
      int l1 = a.line, c1 = a.col, l2 = b.endLine, c2 = b.endCol;
      if (a.kind == T_EOF) { l1 = x.lx.lastLexLine; c1 = x.lx.lastLexCol; l2 = x.lx.endLine; c2 = x.lx.endCol; }
      // a syntax error is reported at the first byte of its token (within it for quoted strings and invalid tokens); at the end of the text, anywhere in the trailing layout
      if (e.kind == RE_SYNTAX && a.kind != T_EOF && a.kind != T_INVALID && a.kind != T_STR) l2 = l1, c2 = c1;
      if (posLe(l1, c1, l, c) && posLe(l, c, l2, c2)) in = true;
      want += " [" + std::to_string(l1) + ":" + std::to_string(c1) + "-" + std::to_string(l2) + ":" + std::to_string(c2) + " " + refErrName(e.kind) + "]";
    }
    if (!in) return "error position " + std::to_string(l) + ":" + std::to_string(c) + " is not inside" + want + " (message: " + (r.errorMsg() ? r.errorMsg() : "") + ")";
  }
  if (ok && ref.ok) {
    if ((cmp & CMP_TREE) && r.size() != ref.stmts.size())
      return "text has " + std::to_string(ref.stmts.size()) + " statements, result has " + std::to_string(r.size());
    if (cmp & CMP_TREE) {
      Arena A;
      for (size_t i = 0; i < ref.stmts.size(); i++) {
        if (!(kinds >> ref.stmtKind[i] & 1)) continue;
        std::string want = ser(ref.stmts[i]);
        std::string got = ser(dumpStatement(r.getStatement(i), A));
        if (want != got) {
          size_t d = 0;
          while (d < want.size() && d < got.size() && want[d] == got[d]) d++;
          size_t from = d > 60 ? d - 60 : 0;
          return std::string("tree of ") + refStmtName(ref.stmtKind[i]) + " statement " + std::to_string(i) + " differs: expected ..." + want.substr(from, 160) + "... got ..." +
                 got.substr(from, 160);
        }
      }
    }
    if (cmp & CMP_PARAM) {
      auto& ps = r.parameters();
      if ((int)ps.size() != ref.params) return "text has " + std::to_string(ref.params) + " placeholders, parameters() has " + std::to_string(ps.size());
      for (size_t i = 0; i < ps.size(); i++) {
        if (!ps[i] || ps[i]->type != kExprParameter) return "parameters()[" + std::to_string(i) + "] is not a placeholder node";
        if (ps[i]->ival != (int64_t)i) return "parameters()[" + std::to_string(i) + "] has id " + std::to_string(ps[i]->ival);
      }
    }
    if (cmp & CMP_LEN) {
      size_t at = 0;
      for (size_t i = 0; i < r.size() && i < ref.stmtTok.size(); i++) {
        size_t len = r.getStatement(i)->stringLength;
        size_t end = at + len;
        if (len > x.text.size() || end > x.text.size()) return "statement lengths exceed the text";
        size_t b = x.lx.t[ref.stmtTok[i].first].b, e = x.lx.t[ref.stmtTok[i].second].e;
        size_t semi = ref.stmtTok[i].second + 1;
        bool hasSemi = x.lx.t[semi].kind == ';';
        if (b < at || e > end) return "slice " + std::to_string(i) + " [" + std::to_string(at) + "," + std::to_string(end) + ") does not contain its statement [" + std::to_string(b) + "," + std::to_string(e) + ")";
        bool last = i + 1 == ref.stmtTok.size();
        if (hasSemi && !last && end < x.lx.t[semi].e) return "slice " + std::to_string(i) + " ends before its semicolon";
        if (!last && end > x.lx.t[ref.stmtTok[i + 1].first].b) return "slice " + std::to_string(i) + " reaches into the next statement";
        at = end;
      }
    }
  }
  return "";
}

std::string runCase(Exec& x, const std::string& text, unsigned cmp, uint64_t kinds, bool* accepted) {
  refRun(x, text);
  if (gCtx) gCtx->setCur(text);
  SQLParserResult r;
  bool ret = parseAny(text, &r);
  if (accepted) *accepted = r.isValid();
  return judge(x, r, ret, cmp, kinds);
}

bool parseAny(const std::string& text, SQLParserResult* r) {
  switch (hashBytes(text) >> 17 & 7) {
    case 0: case 1: return SQLParser::parseSQLString(text, r);
    case 2: if (text.find('\0') == std::string::npos) return SQLParser::parseSQLString(text.c_str(), r);  // fall through
    default: return SQLParser::parse(text, r);
  }
}

std::string shrink(const std::string& text, const std::function<bool(const std::string&)>& bad, int budget) {
  std::string best = text;
  for (int round = 0; round < 4 && budget > 0; round++) {
    size_t before = best.size();
    // token chunks
    LexOut lx;
    refLex(best, lx, false);
    std::vector<std::string> pieces;
    size_t last = 0;
    for (auto& k : lx.t) { if (k.kind == T_EOF) break; pieces.push_back(best.substr(last, k.e - last)); last = k.e; }
    pieces.push_back(best.substr(last));
    for (size_t w = std::max<size_t>(1, pieces.size() / 2); w >= 1 && budget > 0; w /= 2) {
      for (size_t i = 0; i + w <= pieces.size() && budget > 0;) {
        std::string t;
        for (size_t j = 0; j < pieces.size(); j++) if (j < i || j >= i + w) t += pieces[j];
        budget--;
        if (bad(t)) { best = t; pieces.erase(pieces.begin() + i, pieces.begin() + i + w); }
        else i += w;
      }
      if (w == 1) break;
    }
    if (best.size() < 200)
      for (size_t i = 0; i < best.size() && budget > 0;) {
        std::string t = best;
        t.erase(i, 1);
        budget--;
        if (bad(t)) best = t; else i++;
      }
    if (best.size() == before) break;
  }
  return best;
}

// ------------------------------------------------------------------ streams
static const char* kExprCtx[] = {
    "SELECT %s", "SELECT a, %s, b FROM t", "SELECT 1 FROM t WHERE %s", "SELECT 1 FROM t GROUP BY a HAVING %s", "SELECT 1 FROM t GROUP BY %s", "SELECT 1 FROM t ORDER BY %s DESC",
    "SELECT 1 FROM t LIMIT %s", "SELECT 1 FROM t OFFSET %s", "SELECT 1 FROM t LIMIT 1 OFFSET %s", "SELECT 1 FROM a JOIN b ON %s", "SELECT 1 FROM a LEFT JOIN b ON %s JOIN c ON x",
    "SELECT f(%s)", "SELECT s.f(DISTINCT 1, %s)", "SELECT f(1) OVER (PARTITION BY %s)", "SELECT f(1) OVER (ORDER BY %s)", "SELECT CASE WHEN %s THEN 1 END", "SELECT CASE x WHEN 1 THEN %s ELSE 2 END",
    "SELECT CASE %s WHEN 1 THEN 2 END", "SELECT CASE WHEN 1 THEN 2 ELSE %s END", "SELECT CAST(%s AS INT)", "SELECT EXTRACT(YEAR FROM %s)", "SELECT ARRAY[%s, 1]", "SELECT (%s)", "SELECT x IN (%s)", "SELECT x IN (1, %s)",
    "SELECT (SELECT %s)", "SELECT EXISTS(SELECT %s)", "UPDATE t SET a = %s", "UPDATE t SET a = 1, b = %s WHERE x", "UPDATE t SET a = 1 WHERE %s", "DELETE FROM t WHERE %s", "COPY t FROM 'f' WHERE %s",
    "INSERT INTO t SELECT %s", "CREATE VIEW v AS SELECT %s", "CREATE TABLE t AS SELECT %s FROM u", "WITH w AS (SELECT %s) SELECT 1", "SELECT 1 FROM (SELECT %s) x", "SELECT 1 UNION SELECT %s",
    "SELECT 1 UNION SELECT 2 ORDER BY %s", "SELECT 1 UNION SELECT 2 LIMIT %s", "COPY (SELECT %s) TO 'f'", "SELECT DISTINCT %s AS z FROM t FOR UPDATE", "SELECT TOP 3 %s", "SELECT 1; SELECT %s; SELECT 2", "SELECT %s WITH HINT (h)"};
int embedCount() { return sizeof kExprCtx / sizeof *kExprCtx; }
std::string embedExpr(int c, const std::string& e) {
  std::string s = kExprCtx[c % embedCount()];
  size_t p = s.find("%s");
  return s.replace(p, 2, e);
}

static std::string wrapStart(Ctx& c, const std::string& start, const Toks& t, std::string body) {
  (void)t;
  if (start == "expr" || start == "opnd" || start == "case" || start == "func" || start == "lit" || start == "inx" || start == "between") return embedExpr((int)c.rng.below(embedCount()), body);
  if (start == "tref") return "SELECT * FROM " + body;
  if (start == "extlits") { static const char* w[] = {"INSERT INTO t VALUES (%s)", "EXECUTE p (%s)", "SELECT 1 WITH HINT (h(%s))", "INSERT INTO s.t (a, b) VALUES (%s)"}; std::string s = w[c.rng.below(4)]; size_t p = s.find("%s"); return s.replace(p, 2, body); }
  if (start == "coldef") return "CREATE TABLE t (" + body + ")";
  return body;
}

void streamRandom(Ctx& c, const Profile& p, size_t n, const TextFn& f) {
  int tot = 0;
  for (auto& s : p.starts) tot += s.second;
  Gen g(c.rng, c.dict);
  for (size_t i = 0; i < n && !c.failed; i++) {
    int k = (int)c.rng.below(tot);
    const char* start = p.starts[0].first;
    for (auto& s : p.starts) { k -= s.second; if (k < 0) { start = s.first; break; } }
    g.o = p.opts;
    if (c.rng.chance(1, 4)) g.o.depth = 3 + (int)c.rng.below(12);
    g.uniq = c.rng.below(20);
    Toks t = g.derive(start);
    if (t.size() > 6000) continue;
    bool mt = (int)c.rng.below(100) < p.mutTok;
    if (mt && !(t.empty())) mutateToks(t, c.rng, g, 1 + (int)c.rng.below(3));
    LayoutOpts lo;
    lo.style = (int)c.rng.below(100) < p.comments ? 1 + (int)c.rng.below(3) : 0;
    lo.randomCase = c.rng.chance(1, 3);
    lo.altOps = true;
    std::string s = wrapStart(c, start, t, render(t, c.rng, lo));
    if ((int)c.rng.below(100) < p.mutByte) mutateBytes(s, c.rng, g, 1 + (int)c.rng.below(3));
    if (!f(s)) return;
  }
}
void streamCorpus(Ctx& c, const TextFn& f) {
  for (size_t i = 0; i < c.corpus.size() && !c.failed; i++) if (c.mine(i)) if (!f(c.corpus[i])) return;
  if (!c.failed) streamPlaced(c, f);
}
// Vocabulary of the tree under test that the reviewed tree did not have, put wherever a text has room for it; and a few
// prefixes and suffixes that files and protocols like to add to a text.
static const char* const kHosts[] = {"SELECT a FROM t WHERE b = 'x' LIMIT 5", "SELECT f(a, 1.5) AS n FROM s.t AS u (c) JOIN v ON u.c = v.c", "INSERT INTO t (a) VALUES (1)", "UPDATE t SET a = 1 WHERE b", "DELETE FROM t WHERE a = 'x'", "CREATE TABLE t (a INT NOT NULL, b VARCHAR(7))",
                                    "CREATE VIEW v (c) AS SELECT 1", "PREPARE p FROM 'SELECT 1'", "EXECUTE p (1, 'x')", "COPY t FROM 'f' WITH (FORMAT CSV, DELIMITER 'x')", "SHOW COLUMNS t", "DROP TABLE t", "SELECT 1; SELECT 2", "SELECT 1; SELECT FROM", "WITH w AS (SELECT 1) SELECT * FROM w ORDER BY a DESC WITH HINT (h(1, 'x'))",
                                    "SELECT CASE WHEN a THEN INTERVAL '5 days' ELSE CAST('x' AS DATE) END, EXTRACT(YEAR FROM d), ?, a[1], b IN (1, 2) FROM t GROUP BY a HAVING b", "BEGIN TRANSACTION", "ALTER TABLE t DROP COLUMN a", "CREATE INDEX i ON t (a)", "TRUNCATE t", "IMPORT FROM CSV FILE 'x' INTO t"};
static void placeWord(Ctx& c, const std::string& w, uint64_t& k, const TextFn& f) {
  auto go = [&](const std::string& s) { return !c.mine(k++) || (f(s) && !c.failed); };
  std::string up = w, lo = w, quoted;
  for (auto& ch : up) ch = (char)toupper((unsigned char)ch);
  for (auto& ch : lo) ch = (char)tolower((unsigned char)ch);
  for (auto ch : w) { quoted += ch; if (ch == '\'') quoted += ch; }
  if (!go(w) || !go(w + w) || !go(w + ";")) return;
  LexOut lx;
  for (auto* h : kHosts) {
    std::string t = h;
    for (auto& v : {w, up, lo}) {
      if (&v != &w && v == w) continue;
      for (const char* sp : {"", " ", "\n"}) if (!go(v + sp + t) || !go(t + sp + v) || !go(t + ";" + sp + v) || !go(v + ";" + sp + t)) return;
      if (!go("--" + v + "\n" + t) || !go(t + " --" + v) || !go(t + "; --" + v + "\n") || !go(v + t + v)) return;
    }
    refLex(t, lx);
    for (auto& x : lx.t) {
      if (x.kind == T_EOF) break;
      std::string a = t.substr(0, x.b), m = t.substr(x.b, x.e - x.b), z = t.substr(x.e);
      if (x.kind == T_STR) { if (!go(a + "'" + quoted + "'" + z) || !go(a + "'" + quoted + "x'" + z) || !go(a + "'x" + quoted + "'" + z) || !go(a + "'" + quoted + quoted + "'" + z) || !go(a + "'" + quoted + z)) return; }
      else if (x.kind == T_ID) { if (!go(a + w + z) || !go(a + up + z) || !go(a + "\"" + w + "\"" + z) || !go(a + m + w + z) || !go(a + w + m + z) || !go(a + "\"x " + w + "\"" + z) || !go(a + m + "." + w + z)) return; }
      else if (!go(a + w + z)) return;
      if (!go(a + w + " " + m + z) || !go(a + m + w + z)) return;
    }
  }
}
static void placeNum(Ctx& c, uint64_t n, uint64_t& k, const TextFn& f) {
  auto go = [&](const std::string& s) { return !c.mine(k++) || (f(s) && !c.failed); };
  std::string d = std::to_string(n);
  LexOut lx;
  for (auto* h : kHosts) {
    std::string t = h;
    refLex(t, lx);
    if (n && n <= 9000) {
      // the text as a whole is n bytes long
      if (t.size() < n) {
        std::string fill(n - t.size(), ' ');
        if (!go(t + fill) || !go(fill + t)) return;
        if (fill.size() > 2) { std::string cm = "--" + std::string(fill.size() - 3, 'x') + "\n"; if (!go(cm + t) || !go(t + cm)) return; }
        fill[0] = ';';
        if (!go(t + fill)) return;
      }
      if (!go(std::string(n - 1, '\n') + t + " )") || !go(std::string(n - 1, ' ') + t + " )")) return;
    }
    for (auto& x : lx.t) {
      if (x.kind == T_EOF) break;
      std::string a = t.substr(0, x.b), m = t.substr(x.b, x.e - x.b), z = t.substr(x.e);
      if (n && n <= 2000) {
        if (!go(a + std::string(n, ' ') + m + z)) return;
        if (x.kind == T_STR && (!go(a + "'" + std::string(n, 'y') + "'" + z) || !go(a + "'" + std::string(n, ' ') + "'" + z) || !go(a + "'" + std::string(2 * n, '\'') + "'" + z))) return;
        if (x.kind == T_ID && !go(a + std::string(n, 'q') + z)) return;
      }
      if (x.kind == T_INT && (!go(a + d + z) || !go(a + "-" + d + z) || !go(a + d + ".0" + z) || !go(a + d + ".5" + z))) return;
      if (x.kind == T_STR && !go(a + "'" + d + "'" + z)) return;
      if (x.kind == T_ID && !go(a + d + z)) return;
    }
  }
}
void streamPlaced(Ctx& c, const TextFn& f) {
  static const char* const wrap[] = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\r", "\r\n", "\x1a", "\f", "\v", "#!", "#", "\\", "\xc2\xa0", "/*", "*/", "//", "$$", "go", "GO", ";;", "/", "--", "\xe2\x80\x8b", "\b", "\x7f", "\x1b", "\xad"};
  uint64_t k = 0;
  for (auto* w : wrap)
    for (auto* h : {kHosts[0], kHosts[2], kHosts[12]}) {
      std::string t = h, s = w;
      for (auto& x : {s + t, t + s, s + " " + t, t + " " + s, s + "\n" + t, t + "\n" + s, t + ";" + s, t + "\n" + s + "\n", s}) if (c.mine(k++) && (!f(x) || c.failed)) return;
    }
  size_t left = 30;
  for (auto& w : c.dict.hotWords) { if (!left-- || c.failed) break; placeWord(c, w, k, f); }
  left = 24;
  std::vector<uint64_t> seen;
  for (uint64_t h : c.dict.hotNums)
    for (uint64_t n : {h, h + 1, h - 1}) {
      if (!left || c.failed) return;
      if (std::find(seen.begin(), seen.end(), n) != seen.end()) continue;
      seen.push_back(n);
      left--;
      placeNum(c, n, k, f);
    }
}
// runs of n separators between two tokens, at either end, and between two statements
void streamGaps(Ctx& c, size_t dense, const TextFn& f) {
  uint64_t k = 0;
  std::vector<size_t> sz = sweepSizes(c, dense, 5000);
  for (size_t n : sz) {
    if (n > 9000) break;
    for (auto [a, b] : {std::pair<const char*, const char*>{"SELECT", "1 FROM t"}, {"", "SELECT a FROM t"}, {"SELECT a FROM t WHERE b = 'x'", ""}, {"SELECT 1;", "INSERT INTO t VALUES (1)"}, {"SELECT 1", "; SELECT 2"}, {"CREATE TABLE t (a INT,", "b INT)"}, {"SELECT 1 FROM t WHERE", ") a"}})
      for (int m = 0; m < 4; m++) {
        if (!c.mine(k++)) continue;
        std::string g = m == 3 ? "--" + std::string(n, '-') + "\n" : std::string(n, " \n\t"[m]);
        if (!f(std::string(a) + (n ? "" : " ") + g + b) || c.failed) return;
      }
  }
}
void streamPrefixes(Ctx& c, double frac, const TextFn& f) {
  uint64_t k = 0;
  for (auto& s : c.corpus)
    for (size_t p = 0; p <= s.size() && !c.failed; p++) {
      k++;
      if (!c.mine(k)) continue;
      if (frac < 1 && (double)(c.rng.next() >> 11) / (double)(1ull << 53) > frac) continue;
      if (!f(s.substr(0, p))) return;
    }
}
void streamEdits(Ctx& c, double frac, const TextFn& f) {
  // every token of every corpus statement: deleted, doubled, and replaced / preceded by every token kind
  static std::vector<int> kinds;
  if (kinds.empty()) {
    kinds = allKeywords();
    for (const char* p = "-+*/(){},.;<>=^%:?[]|"; *p; p++) kinds.push_back(*p);
    for (int x : {T_ID, T_STR, T_INT, T_FLOAT, T_EQEQ, T_NE, T_LE, T_GE, T_CONCAT, T_CURRENT_ROW, T_CHARACTER_VARYING}) kinds.push_back(x);
  }
  Gen g(c.rng, c.dict);
  g.o.plainNames = true;
  uint64_t k = 0;
  LexOut lx;
  for (auto& s : c.corpus) {
    if (s.size() > 400) continue;
    refLex(s, lx);
    Toks t = toksOf(lx, s);
    auto go = [&](const Toks& u) { return f(renderPlain(u)); };
    auto take = [&]() {
      k++;
      if (!c.mine(k)) return false;
      return !(frac < 1 && (double)(c.rng.next() >> 11) / (double)(1ull << 53) > frac);
    };
    for (size_t p = 0; p <= t.size() && !c.failed; p++) {
      if (p < t.size()) {
        if (take()) { Toks u = t; u.erase(u.begin() + p); if (!go(u)) return; }
        if (take()) { Toks u = t; u.insert(u.begin() + p, u[p]); if (!go(u)) return; }
      }
      for (int kd : kinds) {
        if (p < t.size() && take()) { Toks u = t; u[p] = spellOf(kd, g); if (!go(u)) return; }
        if (take()) { Toks u = t; u.insert(u.begin() + p, spellOf(kd, g)); if (!go(u)) return; }
        if (c.failed) return;
      }
    }
  }
}
std::vector<size_t> sweepSizes(Ctx& c, size_t dense, size_t maxN) {
  std::vector<size_t> v;
  for (size_t i = 0; i <= dense; i++) v.push_back(i);
  for (size_t p = 64; p <= maxN; p *= 2) for (size_t q : {p - 1, p, p + 1}) v.push_back(q);
  for (size_t p = 100; p <= maxN; p *= 10) for (size_t q : {p - 1, p, p + 1}) v.push_back(q);
  // trees as deep as a large number need a stack to be looked at
  rlimit rl;
  const size_t most = !getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur >= (1ull << 30) ? 140000 : 4000;
  for (uint64_t h : c.dict.hotNums) for (size_t q : {h - 1, h, h + 1}) if (q <= most) v.push_back(q);
  for (int i = 0; i < 6; i++) v.push_back(c.rng.below(maxN + 1));
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// %i counter, {x|sep} repeated n times with separator, [x] repeated n times, %n the size, %L n letters
std::string expandTemplate(const std::string& t, size_t n) {
  std::string o;
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '\x01') {  // \x01 body \x02 sep \x03
      size_t m = t.find('\x02', i), e = t.find('\x03', i);
      std::string body = t.substr(i + 1, m - i - 1), sep = t.substr(m + 1, e - m - 1);
      for (size_t k = 0; k < n; k++) {
        if (k) o += sep;
        for (size_t j = 0; j < body.size(); j++) {
          if (body[j] == '@') o += std::to_string(k);
          else o += body[j];
        }
      }
      i = e + 1;
    } else if (t[i] == '\x04') {
      for (size_t k = 0; k < n; k++) o += (char)('a' + k % 26);
      i++;
    } else if (t[i] == '\x05') { o += std::to_string(n); i++; }
    else o += t[i++];
  }
  return o;
}
void streamSweeps(Ctx& c, const std::vector<std::string>& tm, const std::vector<size_t>& sizes, const TextFn& f) {
  uint64_t k = 0;
  const size_t big = 4000;
  auto left = [](const timespec& a, double s) { timespec b; clock_gettime(CLOCK_MONOTONIC, &b); return (double)(b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 < s; };
  std::vector<std::pair<const std::string*, size_t>> later;
  for (auto& t : tm)
    for (size_t n : sizes) {
      if (c.failed) return;
      if (n > big && &tm == &kDepthSweeps) continue;  // refused from a depth of a few hundred on
      if (!c.mine(k++)) continue;
      if (n > big) { later.push_back({&t, n}); continue; }
      if (!f(expandTemplate(t, n))) return;
    }
  // numbers that somebody has put into the sources lead to texts of megabytes: as many as a while allows, in random order
  for (size_t i = later.size(); i > 1; i--) std::swap(later[i - 1], later[c.rng.below(i)]);
  timespec a;
  clock_gettime(CLOCK_MONOTONIC, &a);
  for (auto& [t, n] : later) {
    if (c.failed || !left(a, c.thorough ? 600 : 30)) return;
    c.count["texts as long as a number in the sources asks for"]++;
    if (!f(expandTemplate(*t, n))) return;
  }
}
#define R(body, sep) "\x01" body "\x02" sep "\x03"
const std::vector<std::string> kListSweeps = {
    "SELECT " R("a@", ",") " FROM t", "SELECT " R("a@ AS b@", ",") " FROM t", "SELECT * FROM " R("t@ AS x@", ","), "SELECT * FROM a " R("JOIN b@ ON a.x = b@.y", " "), "SELECT * FROM a " R("NATURAL JOIN b@", " "),
    "SELECT * FROM a " R("LEFT JOIN s.b@ c@ USING (k@, l)", " "), "SELECT * FROM a JOIN b USING (" R("k@", ",") ")", "SELECT * FROM t AS u (" R("c@", ",") ")",
    "SELECT 1 FROM t WHERE " R("a@ = @", " AND "), "SELECT 1 FROM t WHERE " R("a@ = ?", " OR "), "SELECT " R("a@", " + "), "SELECT " R("@", " - "), "SELECT " R("'s@'", " || "), "SELECT a" R("[@]", ""),
    "SELECT 1 FROM t GROUP BY " R("a@", ",") " HAVING x", "SELECT 1 FROM t ORDER BY " R("a@ DESC NULLS LAST", ","), "SELECT a IN (" R("@", ",") ")", "SELECT a NOT IN (" R("?", ",") ")", "SELECT f(" R("a@", ",") ")",
    "SELECT f(DISTINCT " R("a@", ",") ") OVER (PARTITION BY " R("p@", ",") " ORDER BY " R("o@ ASC", ",") " ROWS BETWEEN \x05 PRECEDING AND \x05 FOLLOWING)", "SELECT ARRAY[" R("a@", ",") "]",
    "SELECT CASE " R("WHEN a@ THEN b@", " ") " ELSE c END", "SELECT CASE x " R("WHEN @ THEN '@'", " ") " END", "WITH " R("w@ AS (SELECT @)", ",") " SELECT * FROM w0",
    "SELECT 1 FROM t " R("FOR UPDATE OF a@, b NOWAIT", " "), "SELECT 1 FROM t FOR SHARE OF " R("a@", ",") " SKIP LOCKED", "SELECT 1 WITH HINT (" R("h@(@)", ",") ")", "SELECT 1 WITH HINT (h(" R("'v@'", ",") "))",
    "INSERT INTO t VALUES (" R("@", ",") ")", "INSERT INTO s.t (" R("c@", ",") ") VALUES (" R("'v@'", ",") ")", "INSERT INTO t (" R("c@", ",") ") SELECT * FROM u", "UPDATE t SET " R("a@ = @", ",") " WHERE z = 1",
    "UPDATE t SET " R("a@ = ?", ","), "EXECUTE p (" R("-@", ",") ")", "EXECUTE p (" R("CAST(@ AS BIGINT)", ",") ")", "CREATE TABLE t (" R("c@ INT NOT NULL", ",") ")", "CREATE TABLE t (" R("c@ DECIMAL(@, 2) NULL UNIQUE", ",") ", PRIMARY KEY (c0))",
    "CREATE TABLE t (a INT, " R("UNIQUE (a@, b)", ",") ")", "CREATE TABLE t (a INT, " R("FOREIGN KEY (a@) REFERENCES u@ (b@)", ",") ")", "CREATE TABLE t (a INT, PRIMARY KEY (" R("c@", ",") "))",
    "CREATE TABLE t (a INT REFERENCES u (" R("c@", ",") "))", "CREATE TABLE t (a INT " R("REFERENCES s.u@ (c@)", " ") ")", "CREATE TABLE t (a INT " R("UNIQUE", " ") ")", "CREATE INDEX i ON t (" R("c@", ",") ")", "CREATE VIEW v (" R("c@", ",") ") AS SELECT 1",
    R("SELECT @", ";"), R("SELECT ? FROM t@", " ;\n"), R("INSERT INTO t VALUES (@)", ";") ";", R("SHOW TABLES", ";"), "SELECT 1" R(" ", "") ";SELECT 2", "SELECT 1 --" R("c", "") "\n, 2", "SELECT 1 " R("-- @\n", "") ", 2 FROM t",
    "\n" R("\n", "") "SELECT 1; SELECT 2 FROM", "SELECT 1" R(" ", "") "FROM 5", R("BEGIN", ";") ";COMMIT", "SELECT 'a" R("''", "") "'", "SELECT \x05, \x05.5, INTERVAL '\x05 days', \x05 DAYS, a[\x05] FROM t LIMIT \x05 OFFSET \x05",
    "CREATE TABLE t (a VARCHAR(\x05), b CHAR(\x05), c DECIMAL(\x05, \x05), d TIME(\x05))", "SELECT TOP \x05 * FROM t", "COPY t TO 'x' WITH (ENCODING '\x05', NULL '\x05', DELIMITER '\x05', QUOTE '\x05', FORMAT CSV)",
    "PREPARE p FROM '" R("SELECT ?", ";") "'", "SELECT " R("?", ",") "; SELECT " R("?", ",") , "SELECT a FROM t WHERE a BETWEEN 1 AND 2 " R("AND b@ BETWEEN @ AND ?", " "), "SELECT a " R("IS NULL", " "), "SELECT " R("NULL", ",") ", " R("TRUE", ","), "SELECT 1 FROM t WHERE " R("a@ < @", " AND NOT "), "DELETE FROM t WHERE " R("a@ LIKE '@%'", " OR ")};
const std::vector<std::string> kDepthSweeps = {
    "SELECT " R("(", "") "1" R(")", ""), "SELECT " R("- ", "") "1", "SELECT " R("NOT ", "") "a", "SELECT " R("f(", "") "1" R(")", ""), "SELECT " R("(SELECT ", "") "1" R(")", ""), "SELECT * FROM " R("(SELECT * FROM ", "") "t" R(") AS x", ""),
    R("(", "") "SELECT 1" R(")", ""), "SELECT 1" R(" UNION SELECT @", ""), "SELECT 1" R(" UNION (SELECT @", "") R(")", ""), "SELECT " R("CASE WHEN a THEN ", "") "1" R(" END", ""), "SELECT " R("CAST(", "") "1" R(" AS INT)", ""),
    "SELECT * FROM a " R("JOIN b@ ", "") R("ON c@ ", ""), "SELECT " R("ARRAY[", "") "1" R("]", ""), "SELECT " R("a IN (", "") "1" R(")", ""), "SELECT " R("EXISTS(SELECT ", "") "1" R(")", ""), "SELECT 1 WHERE " R("a OR b AND (", "") "c" R(")", ""),
    "SELECT " R("1 + 2 * 3 ^ (", "") "4" R(")", ""), "WITH w AS " R("(", "") "SELECT 1" R(")", "") " SELECT 2"};
const std::vector<std::string> kLengthSweeps = {
    "SELECT '\x04'", "SELECT a\x04 FROM t", "SELECT \"\x04 b\" FROM t", "SELECT 1 AS n\x04", "SELECT * FROM s\x04.t\x04 AS u\x04 (v\x04)", "INSERT INTO t\x04 (c\x04) VALUES ('x''\x04')", "CREATE TABLE t\x04 (c\x04 INT REFERENCES r\x04 (d\x04))",
    "PREPARE p\x04 FROM 'SELECT ''\x04'''", "COPY t FROM 'f\x04' WITH (ENCODING 'e\x04', DELIMITER 'd\x04')", "SELECT f\x04(1), s\x04.g\x04(2)", "UPDATE t SET c\x04 = 'v\x04'", "IMPORT FROM CSV FILE 'f\x04' INTO s\x04.t\x04", "SELECT 1 WITH HINT (h\x04('\x04'))",
    "SELECT 1 -- \x04\n FROM t", "SELECT 1" R("0", ""), "SELECT 0" R("0", "") "7", "SELECT 1." R("1", ""), "SELECT ." R("0", "") "1", "SELECT 1" R(" ", "") " FROM t", "SELECT 'unterminated \x04", "SELECT \"unterminated \x04",
    "DROP TABLE IF EXISTS s\x04.t\x04", "DROP INDEX i\x04", "ALTER TABLE t\x04 DROP COLUMN c\x04", "CREATE INDEX i\x04 ON s\x04.t (c\x04)", "EXECUTE p\x04 ('\x04')", "DEALLOCATE PREPARE p\x04", "SHOW COLUMNS s\x04.t\x04", "SELECT 1 FROM t FOR UPDATE OF t\x04", "CREATE VIEW v\x04 (c\x04) AS SELECT 1", "WITH w\x04 AS (SELECT 1) SELECT 2 FROM w\x04 JOIN x USING (u\x04)"};
void streamBytes(Ctx& c, size_t n, const TextFn& f) {
  static const char alphabet[] = "'\"-;,.()*=<>!|?[]+ \n\taAbB019_\\%^:@#$\0\x80\xff\rselectfromSELECTFROM";
  for (size_t i = 0; i < n && !c.failed; i++) {
    std::string s;
    size_t len = c.rng.below(c.rng.chance(1, 10) ? 200 : 14);
    int m = (int)c.rng.below(3);
    for (size_t k = 0; k < len; k++) s += m == 0 ? (char)c.rng.below(256) : m == 1 ? alphabet[c.rng.below(sizeof alphabet - 1)] : "'\"-\n a1;"[c.rng.below(8)];
    if (c.rng.chance(1, 2)) s = "SELECT 1 " + s;
    if (!f(s)) return;
  }
}

static PropReg* gProps = nullptr;
PropReg::PropReg(const char* i, PropFn f, OracleFn o) : id(i), run(f), oracle(o), next(gProps) { gProps = this; }
PropReg* findProp(const std::string& id) {
  for (PropReg* p = gProps; p; p = p->next) if (id == p->id) return p;
  return nullptr;
}
bool check(Ctx& c, const std::string& text) {
  c.setCur(text);
  c.nt = false;
  std::string w = c.oracle(c, text);
  c.tally(text, c.nt);
  if (w.empty()) return true;
  std::string small = text;
  if (!c.noShrink && text.size() < 200000)
    small = shrink(text, [&](const std::string& t) { c.setCur(t); return !c.oracle(c, t).empty(); }, text.size() > 5000 ? 300 : 1500);
  std::string w2 = c.oracle(c, small);
  if (w2.empty()) { small = text; w2 = w; }
  c.fail(w2, small);
  return false;
}
const char* modeName() {
#if defined VF_MODE_ASAN
  return "asan";
#elif defined VF_MODE_TSAN
  return "tsan";
#elif defined VF_MODE_COV
  return "cov";
#elif defined VF_MODE_VG
  return "vg";
#else
  return "plain";
#endif
}
