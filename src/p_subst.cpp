// C27: a phrase means the same wherever it stands. C28: what follows a syntax error cannot change the report.
// Both compare runs of the real parser with each other; the reference lexer only delimits tokens.
#include "util.h"
#include "sql/statements.h"
using namespace hsql;

static bool exhausted(const SQLParserResult& r) { return r.errorMsg() && strstr(r.errorMsg(), "memory exhausted"); }
static size_t occurrences(const std::string& h, const std::string& n) {
  size_t k = 0;
  for (size_t p = h.find(n); p != std::string::npos; p = h.find(n, p + 1)) k++;
  return k;
}

// ------------------------------------------------------------------ C27
namespace {
struct Kind {
  const char* name;
  const char* marker;    // text put in place of a phrase
  const char* word;      // occurs in the dump only where the marker went
  const char* base;      // the smallest text around a phrase ($)
  int kind;
};
enum { KE, KA, KS, KV, KT, KC, KL, KN };
const Kind kKinds[] = {
    {"expression", "( ( ZZMARK ) )", "ZZMARK", "SELECT ( ( $ ) )", KE},
    {"operand", "ZZMARK", "ZZMARK", "SELECT $", KA},
    {"parenthesised select", "( SELECT ZZMARK )", "ZZMARK", "SELECT 1 WHERE EXISTS $", KS},
    {"select", "SELECT ZZMARK", "ZZMARK", "CREATE VIEW v AS $", KV},
    {"table", "ZZTAB AS ZZAL", "ZZTAB", "SELECT 1 FROM $", KT},
    {"column type", "DECIMAL ( 31 , 17 )", "DECIMAL(0,31,17)", "SELECT CAST ( a AS $ )", KC},
    {"literal", "'ZZMARK'", "ZZMARK", "SELECT $", KL},
    {"name", "ZZNAME", "ZZNAME", "SELECT $", KN},
};
}
static std::string treeOf(const std::string& t, bool& ok, bool& full) {
  SQLParserResult r;
  SQLParser::parse(t, &r);
  ok = r.isValid();
  full = exhausted(r);
  return ok ? dumpStatements(r) : std::string(r.errorMsg() ? r.errorMsg() : "");
}
static std::string phraseOf(Gen& g, const Kind& k, Rng& r) {
  auto txt = [&](const char* sym) { return renderPlain(g.derive(sym)); };
  switch (k.kind) {
    case KE: return txt("expr");
    case KS: return "( " + txt("selnp") + " )";
    case KV: return txt("selnp");
    case KC: return txt("ctype");
    case KT:
      switch (r.below(4)) {
        case 0: return g.ident() + " . " + g.ident();
        case 1: return g.ident() + " " + g.ident();
        case 2: return "( " + txt("selnp") + " ) AS " + g.ident() + " ( " + g.ident() + " , " + g.ident() + " )";
        default: return txt("tnj");
      }
    case KL: return txt("clit");
    case KN: return g.ident();
    default:
      switch (r.below(9)) {
        case 0: return txt("clit");
        case 1: return g.ident();
        case 2: return g.ident() + " . " + g.ident();
        case 3: return txt("func");
        case 4: return txt("case");
        case 5: return "CAST ( " + txt("expr") + " AS " + txt("ctype") + " )";
        case 6: return "EXTRACT ( " + txt("dtf") + " FROM " + txt("expr") + " )";
        case 7: return "ARRAY [ " + txt("elist") + " ]";
        default: return "( " + txt("selnp") + " )";
      }
  }
}
// spans of tokens a phrase might replace: single tokens, balanced groups and what directly follows a name
static size_t spanAt(const Toks& k, size_t i, Rng& r) {
  if (k[i].kind == '(' || k[i].kind == '[') {
    int d = 0;
    for (size_t j = i; j < k.size(); j++) {
      if (k[j].kind == '(' || k[j].kind == '[') d++;
      if (k[j].kind == ')' || k[j].kind == ']') d--;
      if (d == 0) return j - i + 1;
    }
    return 1;
  }
  if (r.chance(2, 3)) return 1;
  size_t n = 1 + r.below(6);
  return std::min(n, k.size() - i);
}
static size_t tokensIn(const std::string& t) {
  static LexOut lx;
  refLex(t, lx);
  size_t n = 0;
  for (auto& k : lx.t) n += k.kind != 0;
  return n;
}
static std::string o27(Ctx& c, const std::string& t) {
  static LexOut lx;
  refLex(t, lx);
  c.nt = false;
  if (lx.hasInvalid || lx.t.size() > 420 || t.size() > kPrintMax) return "";
  for (auto& k : lx.t) if (k.kind == '?' || k.s.find("ZZ") != std::string::npos) return "";
  Toks k = toksOf(lx, t);
  if (k.empty()) return "";
  bool ok, full;
  treeOf(t, ok, full);
  if (!ok) return "";
  Rng r(hashBytes(t) ^ 0x27a1);
  Gen g(r, c.dict);
  g.o.params = 0;
  for (int round = 0; round < 6; round++) {
    const Kind& kd = kKinds[r.below(sizeof kKinds / sizeof *kKinds)];
    size_t from = 0, len = 0;
    std::string ctx, head, tail, mark = kd.marker;
    bool found = false;
    for (int tries = 0; tries < 14 && !found; tries++) {
      from = r.below(k.size());
      if (kd.kind == KN) { if (k[from].kind != T_ID) continue; len = 1; }
      else if (kd.kind == KL) {
        if (k[from].kind != T_STR && k[from].kind != T_INT && k[from].kind != T_FLOAT && k[from].kind != K_NULL && k[from].kind != K_TRUE && k[from].kind != K_FALSE) continue;
        len = 1;
      } else if (kd.kind == KV) {
        for (size_t i = 0; i < k.size() && k[from].kind != K_SELECT; i++) from = (from + 1) % k.size();
        if (k[from].kind != K_SELECT) break;
        // the last select of a set operation shares what follows it with the whole
        if (from) { int q = k[from - 1].kind; if (q == K_UNION || q == K_ALL || q == K_INTERSECT || q == K_EXCEPT) continue; }
        len = k.size() - from;
        while (len && k[from + len - 1].kind == ';') len--;
      } else if (kd.kind == KS) {
        for (size_t i = 0; i < k.size() && k[from].kind != '('; i++) from = (from + 1) % k.size();
        if (k[from].kind != '(') break;
        len = spanAt(k, from, r);
      } else if (kd.kind == KT || kd.kind == KC) {
        // behind a keyword (or name) that introduces one
        auto intro = [&](size_t i) { if (!i) return false; int q = k[i - 1].kind; return kd.kind == KT ? q == K_FROM || q == K_JOIN || q == ',' || q == '(' : q == K_AS || q == T_ID; };
        for (size_t i = 0; i < k.size() && !intro(from); i++) from = (from + 1) % k.size();
        if (!intro(from)) break;
        static const size_t w[] = {1, 1, 1, 3, 2, 4, 6};
        len = k[from].kind == '(' ? spanAt(k, from, r) + (r.chance(1, 2) ? 0 : 1 + r.below(2)) : w[r.below(7)];
        len = std::min(len, k.size() - from);
      } else len = spanAt(k, from, r);
      Toks a(k.begin(), k.begin() + from), b(k.begin() + from + len, k.end());
      head = renderPlain(a);
      tail = renderPlain(b);
      if (!head.empty()) head += ' ';
      if (!tail.empty()) tail = ' ' + tail;
      ctx = treeOf(head + mark + tail, ok, full);
      found = ok && occurrences(ctx, kd.word) == 1;
    }
    if (!found) { c.count["no slot found"]++; continue; }
    // the part of the tree the marker stands for
    std::string base = kd.base, b0 = treeOf(subst(kd.base, mark), ok, full);
    if (!ok) return std::string("the plain text ") + subst(kd.base, mark) + " is rejected";
    std::string node = kd.kind == KT   ? "(table:name name=\"ZZTAB\" alias:(alias name=\"ZZAL\"))"
                       : kd.kind == KC ? "DECIMAL(0,31,17)"
                       : kd.kind == KN ? "\"ZZNAME\""
                       : kd.kind == KL ? "(string name=\"ZZMARK\")"
                       : kd.kind == KS || kd.kind == KV ? "(stmt:select list:(list :(columnref name=\"ZZMARK\")))"
                                                        : "(columnref name=\"ZZMARK\")";
    if (occurrences(b0, node) != 1) return "the plain text " + subst(kd.base, mark) + " has the tree " + b0 + " without " + node;
    size_t at0 = b0.find(node), at = ctx.find(node);
    if (at == std::string::npos) { c.count["slots where the phrase is merged with its surroundings (skipped)"]++; continue; }
    c.count[std::string("slots: ") + kd.name]++;
    for (int v = 0; v < 3; v++) {
      g.o.depth = 2 + (int)r.below(5);
      std::string ph = phraseOf(g, kd, r);
      if (ph.size() > 1500) continue;
      std::string bt = treeOf(subst(kd.base, ph), ok, full);
      if (full) continue;
      if (!ok) { c.count["phrases not accepted alone (skipped)"]++; continue; }
      // tree of the phrase: what stands in the base's tree in place of the marker
      std::string suffix = b0.substr(at0 + node.size());
      if (bt.size() < at0 + suffix.size() || bt.compare(0, at0, b0, 0, at0) || bt.compare(bt.size() - suffix.size(), suffix.size(), suffix)) { c.count["phrases merged with the plain text (skipped)"]++; continue; }
      std::string sub = bt.substr(at0, bt.size() - suffix.size() - at0);
      std::string want = ctx.substr(0, at) + sub + ctx.substr(at + node.size());
      std::string text = head + (kd.kind == KE ? "( ( " + ph + " ) )" : ph) + tail;
      // two names side by side may be one word: CURRENT ROW
      size_t apart = tokensIn(head) + tokensIn(ph) + tokensIn(tail) + (kd.kind == KE ? 4 : 0);
      if (tokensIn(text) != apart) { c.count["words that join (skipped)"]++; continue; }
      c.setCur(text);
      std::string got = treeOf(text, ok, full);
      if (full) { c.count["stack limit (skipped)"]++; continue; }
      c.nt = true;
      c.count["substitutions"]++;
      c.count[std::string("substitutions: ") + kd.name]++;
      if (!ok) return std::string("the ") + kd.name + " " + quoteBytes(ph) + " is accepted in " + quoteBytes(subst(kd.base, "...")) + " and the place takes " + quoteBytes(mark) + ", but " + quoteBytes(text.substr(0, 900)) + " is rejected: " + got;
      if (got != want) return std::string("the ") + kd.name + " " + quoteBytes(ph) + " does not mean in " + quoteBytes(text.substr(0, 900)) + " what it means alone: " + firstDiff(want, got);
    }
  }
  return "";
}
static void r27(Ctx& c) {
  auto f = checker(c);
  streamCorpus(c, [&](const std::string& t) {
    // several times, with different phrases
    bool ok = f(t);
    for (int i = 0; i < 8 && ok; i++) ok = f(t + std::string(i + 1, ' '));
    return ok;
  });
  Profile p;
  p.opts.params = 0;
  p.starts = {{"stmt", 8}, {"script", 2}, {"select", 4}, {"expr", 3}, {"create", 2}, {"insert", 1}, {"update", 2}, {"execute", 1}, {"copyto", 1}, {"func", 1}, {"join", 1}};
  streamRandom(c, p, c.n(30000), f);
  p.opts.depth = 4;
  streamRandom(c, p, c.n(30000), f);
}
PROPERTY("C27", r27, o27);

// ------------------------------------------------------------------ C28
namespace {
struct Report { bool valid; std::string msg; int line, col; size_t stmts; };
}
static Report reportOf(const std::string& t) {
  SQLParserResult r;
  SQLParser::parse(t, &r);
  return {r.isValid(), r.errorMsg() ? r.errorMsg() : "", r.errorLine(), r.errorColumn(), r.size()};
}
static std::string o28(Ctx& c, const std::string& t) {
  static LexOut lx, ly;
  c.nt = false;
  Report a = reportOf(t);
  if (a.valid || a.msg.find("syntax error") == std::string::npos) return "";
  refLex(t, lx, true);
  // the token the error is reported at
  size_t k = 0;
  while (k < lx.t.size() && (lx.t[k].line != a.line || lx.t[k].col != a.col)) k++;
  if (k >= lx.t.size() || lx.t[k].kind == T_EOF || lx.t[k].kind == T_INVALID || lx.t[k].kind == T_STR) { c.count["errors at the end or within a token (skipped)"]++; return ""; }
  // a text that ends too early may be reported at its last token as well
  if (k + 1 >= lx.t.size() || lx.t[k + 1].kind == T_EOF) { c.count["errors at the last token (skipped)"]++; return ""; }
  const Tok tk = lx.t[k];
  const std::string head = t.substr(0, tk.e);
  Rng r(hashBytes(t) ^ 0x28b2);
  Gen g(r, c.dict);
  for (int v = 0; v < 9; v++) {
    std::string s;
    switch (v) {
      case 0: break;
      case 1: { size_t n = 1 + r.below(12); s = " "; for (size_t i = 0; i < n; i++) { GTok x = g.randomTok(); s += x.text + " "; } break; }
      case 2: s = r.chance(1, 2) ? "; SELECT 1" : "\n;\n" + r.pick(c.corpus); break;
      case 3: { static const char* const q[] = {" '", "\"", " 'abc", " -- x", "\n--\n", " #", " !", "\x80", " 99999999999999999999", " DATE 'x'", ")", " )", " ,", ";", ";;", "'", " ''", " (((((", "\n\n\n", " NULLS MIDDLE", " INTERVAL '1 parsec'", " CREATE TABLE t (a INT NULL NOT NULL)", " COPY t TO 'f' (FORMAT CSV, FORMAT CSV)", " IMPORT FROM XYZ FILE 'f' INTO t", " ?", " FROM t", " AS x"}; s = q[r.below(sizeof q / sizeof *q)]; break; }
      case 4: { size_t n = 1 + r.below(6); for (size_t i = 0; i < n; i++) s += (char)r.below(256); break; }
      case 5: s = " " + renderPlain(g.derive(r.chance(1, 2) ? "stmt" : "expr")); break;
      case 6: s = t.substr(tk.e); if (!s.empty()) s.resize(r.below(s.size())); break;
      case 7: { size_t n = r.chance(1, 10) ? 20000 : r.below(400); s = " " + std::string(n, "( x'\n\";"[r.below(7)]); break; }
      default: s = " " + t; break;
    }
    std::string u = head + s;
    refLex(u, ly, true);
    if (ly.t.size() <= k || ly.t[k].kind != tk.kind || ly.t[k].e != tk.e || ly.t[k].b != tk.b) { c.count["endings that change the token (skipped)"]++; continue; }
    if (u == t) continue;
    c.setCur(u);
    Report b = reportOf(u);
    c.nt = true;
    c.count["endings compared"]++;
    if (b.valid) return "rejected at " + quoteBytes(t.substr(tk.b, tk.e - tk.b)) + ", but accepted with another ending: " + quoteBytes(u.substr(0, 800));
    if (a.msg != b.msg || a.line != b.line || a.col != b.col || a.stmts != b.stmts)
      return "with the ending " + quoteBytes(s.substr(0, 300)) + " the error at " + quoteBytes(t.substr(tk.b, tk.e - tk.b)) + " is reported as " + quoteBytes(b.msg) + " at " + std::to_string(b.line) + ":" + std::to_string(b.col) + " instead of " + quoteBytes(a.msg) + " at " + std::to_string(a.line) + ":" + std::to_string(a.col);
  }
  return "";
}
static void r28(Ctx& c) {
  auto f = [&](const std::string& t) { return check(c, t + (c.rng.chance(1, 3) ? " x" : " , 1")); };
  streamEdits(c, 0.15 * c.scale, f);
  streamPrefixes(c, 0.2, f);
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 6}, {"select", 4}, {"expr", 3}, {"create", 3}, {"copyto", 1}, {"execute", 1}, {"insert", 1}};
  p.mutTok = 100;
  streamRandom(c, p, c.n(60000), f);
  p.mutByte = 40; p.mutTok = 60;
  p.opts.badLit = 5;
  streamRandom(c, p, c.n(20000), f);
  // every token after the beginning of an accepted text
  for (size_t i = 0; i < c.corpus.size() && !c.failed; i++) {
    if (!c.mine(i)) continue;
    static LexOut lx;
    refLex(c.corpus[i], lx);
    for (auto& k : lx.t) {
      std::string h = c.corpus[i].substr(0, k.b);
      for (int q = 0; q < 3; q++) { Gen g(c.rng, c.dict); if (!f(h + " " + g.randomTok().text + " x")) return; }
      if (!f(h + " ) x") || !f(h + " \n, ,")) return;
    }
  }
}
PROPERTY("C28", r28, o28);
