#include "refparse.h"
#include <cctype>

const char* refErrName(RefErr e) {
  static const char* n[] = {"none", "syntax", "date", "interval", "interval-unit", "file-type", "format-twice", "encoding-twice",
                            "csv-twice", "csv-not-csv", "csv-unknown", "nulls", "param", "nullability"};
  return n[e];
}
const char* refStmtName(int k) {
  static const char* n[] = {"select", "create-table", "create-table-from", "create-table-as", "create-index", "create-view", "insert-values",
                            "insert-select", "delete", "truncate", "update", "drop", "deallocate", "alter", "execute", "transaction",
                            "prepare", "show", "import", "copy-from", "copy-to"};
  return n[k];
}

namespace {

struct Stop {};

// operator levels
enum { LV_TOP = 0, LV_OR, LV_NOT = 3, LV_EQ = 4, LV_LT = 5, LV_ISNULL = 6, LV_IS = 7, LV_ADD = 8, LV_MUL = 9, LV_POW = 10, LV_CAT = 11 };

bool ieq(const std::string& a, const char* b) {
  size_t i = 0;
  for (; b[i]; i++) {
    if (i >= a.size()) return false;
    char c = a[i];
    if (c >= 'A' && c <= 'Z') c += 32;
    if (c != b[i]) return false;
  }
  return i == a.size();
}
bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
bool dg(char c) { return c >= '0' && c <= '9'; }

struct P {
  const std::vector<Tok>& t;
  Arena& A;
  RefOut& o;
  size_t p = 0;
  int depth = 0;

  P(const LexOut& lx, Arena& a, RefOut& out) : t(lx.t), A(a), o(out) {}

  int k(size_t d = 0) const { return p + d < t.size() ? t[p + d].kind : T_EOF; }
  bool at(int x) const { return k() == x; }
  const Tok& tok() const { return t[p]; }
  [[noreturn]] void synErr() {
    // a text with an offence and, directly after it, a token that fits nowhere may be reported either way
    if (!sem || p == semEnd + 1) o.errors.push_back({RE_SYNTAX, p, p, 0});
    throw Stop();
  }
  // the first offence decides; parsing goes on only to see whether a syntax error follows directly
  bool sem = false;
  size_t semEnd = 0;
  void semErr(RefErr e, size_t from, size_t to) {
    if (sem) return;
    sem = true;
    semEnd = to;
    o.errors.push_back({e, from, to, 0});
  }
  void need(int x) { if (!at(x)) synErr(); p++; o.ops++; }
  bool opt(int x) { if (at(x)) { p++; o.ops++; return true; } return false; }
  std::string ident() { if (!at(T_ID)) synErr(); o.ops++; return t[p++].s; }
  std::string str() { if (!at(T_STR)) synErr(); o.ops++; return t[p++].s; }
  struct Nest {
    P& q;
    int w;
    Nest(P& x, int weight = 1) : q(x), w(weight) { q.depth += w; if (q.depth > q.o.depth) q.o.depth = q.depth; }
    ~Nest() { q.depth -= w; }
  };
  static std::string Q(const std::string& s) { return quoteBytes(s); }
  N* list() { return A.mk("list"); }
  static void add(N* l, N* x) { l->c.emplace_back("", x); }
  std::string strs(const std::vector<std::string>& v) {
    std::string s = "[";
    for (auto& x : v) { if (s.size() > 1) s += ','; s += Q(x); }
    return s + "]";
  }
  std::vector<std::string> idents() {
    std::vector<std::string> v;
    v.push_back(ident());
    while (opt(',')) v.push_back(ident());
    return v;
  }
  void parenIdents(N* n, const char* key) {
    need('(');
    auto v = idents();
    need(')');
    n->set(key, strs(v));
  }
  void optColumnList(N* n, const char* key) { if (at('(')) parenIdents(n, key); }
  void tableName(N* n, const char* schemaKey, const char* nameKey) {
    std::string a = ident();
    if (opt('.')) { std::string b = ident(); n->set(schemaKey, Q(a)); n->set(nameKey, Q(b)); }
    else n->set(nameKey, Q(a));
  }

  // ---------------------------------------------------------------- expressions
  struct OpRes { N* n; bool notRoot; N* innermostNot; };

  N* E(const char* type) { return A.mk(type); }
  N* un(const char* op, N* x) { N* n = E("operator"); n->set("op", op); n->kid("expr", x); return n; }
  N* bin(const char* op, N* l, N* r) { N* n = E("operator"); n->set("op", op); n->kid("expr", l); n->kid("expr2", r); return n; }

  N* expr() { Nest g(*this); return orE(); }
  N* orE() {
    N* l = andE();
    while (at(K_OR)) { p++; o.ops++; N* r = andE(); l = bin("or", l, r); }
    return l;
  }
  N* andE() {
    N* l = pred();
    while (at(K_AND)) { p++; o.ops++; N* r = pred(); l = bin("and", l, r); }
    return l;
  }
  N* exists() {
    need(K_EXISTS);
    need('(');
    N* n = E("operator");
    n->set("op", "exists");
    if (!at(K_SELECT)) synErr();
    n->kid("select", selectNoParen());
    need(')');
    return n;
  }
  N* pred() {
    if (at(K_EXISTS)) return exists();
    if (at(K_NOT) && k(1) == K_EXISTS) { p++; return un("not", exists()); }
    OpRes l = operand(LV_TOP, true);
    bool neg = false;
    if (at(K_NOT)) {  // operand() consumed NOT LIKE; only NOT IN can follow here
      if (k(1) != K_IN) { p++; synErr(); }
      p++;
      neg = true;
    }
    if (at(K_IN)) {
      p++; o.ops++;
      need('(');
      N* n = E("operator");
      n->set("op", "in");
      N* lhs = takeLhs(l);
      n->kid("expr", lhs);
      if (at(K_SELECT)) n->kid("select", selectNoParen());
      else n->kid("list", exprList());
      need(')');
      return wrapNot(l, neg ? un("not", n) : n);
    }
    if (at(K_BETWEEN)) {
      p++; o.ops++;
      N* n = E("operator");
      n->set("op", "between");
      n->kid("expr", takeLhs(l));
      N* lo = operand(LV_TOP, false).n;
      need(K_AND);
      N* hi = operand(LV_TOP, false).n;
      N* ls = list();
      add(ls, lo); add(ls, hi);
      n->kid("list", ls);
      return wrapNot(l, n);
    }
    return l.n;
  }
  // `NOT a IN (...)`: as specified, the predicate applies to a and NOT to the predicate.
  N* takeLhs(OpRes& l) {
    if (!l.notRoot) return l.n;
    return l.innermostNot->c.back().second;
  }
  N* wrapNot(OpRes& l, N* predicate) {
    if (!l.notRoot) return predicate;
    l.innermostNot->c.back().second = predicate;
    return l.n;
  }

  struct BinOp { const char* name; int level; bool nonassoc; };
  bool binOp(int kind, BinOp& b) {
    switch (kind) {
      case '+': b = {"plus", LV_ADD, false}; return true;
      case '-': b = {"minus", LV_ADD, false}; return true;
      case '*': b = {"asterisk", LV_MUL, false}; return true;
      case '/': b = {"slash", LV_MUL, false}; return true;
      case '%': b = {"percentage", LV_MUL, false}; return true;
      case '^': b = {"caret", LV_POW, false}; return true;
      case T_CONCAT: b = {"concat", LV_CAT, false}; return true;
      case '=': case T_EQEQ: b = {"equals", LV_EQ, true}; return true;
      case T_NE: b = {"notequals", LV_EQ, true}; return true;
      case K_LIKE: b = {"like", LV_EQ, true}; return true;
      case K_ILIKE: b = {"ilike", LV_EQ, true}; return true;
      case '<': b = {"less", LV_LT, true}; return true;
      case '>': b = {"greater", LV_LT, true}; return true;
      case T_LE: b = {"lesseq", LV_LT, true}; return true;
      case T_GE: b = {"greatereq", LV_LT, true}; return true;
    }
    return false;
  }

  OpRes operand(int min, bool predCtx, bool minNonassoc = false) {
    Nest g(*this);
    OpRes l{nullptr, false, nullptr};
    if (at('-')) {
      p++; o.ops++;
      l.n = un("unaryminus", operand(LV_ADD, false).n);
    } else if (at(K_NOT)) {
      p++; o.ops++;
      OpRes in = operand(LV_NOT, predCtx);
      l.n = un("not", in.n);
      l.notRoot = true;
      l.innermostNot = in.notRoot ? in.innermostNot : l.n;
    } else {
      l.n = primary();
    }
    for (;;) {
      int kd = k();
      if (kd == '[') {
        p++; o.ops++;
        if (!at(T_INT)) synErr();
        N* n = E("arrayindex");
        n->kid("expr", l.n);
        if (tok().i) n->seti("ival", tok().i);
        p++;
        need(']');
        l = {n, false, nullptr};
        continue;
      }
      if (kd == K_ISNULL) {
        if (LV_ISNULL <= min) break;
        p++; o.ops++;
        l = {un("isnull", l.n), false, nullptr};
        continue;
      }
      if (kd == K_IS) {
        if (LV_IS <= min) break;
        p++; o.ops++;
        if (opt(K_NOT)) { need(K_NULL); l = {un("not", un("isnull", l.n)), false, nullptr}; }
        else { need(K_NULL); l = {un("isnull", l.n), false, nullptr}; }
        continue;
      }
      if (kd == K_NOT) {
        if (min > LV_NOT) break;
        if (k(1) == K_LIKE) {
          p += 2; o.ops++;
          N* r = operand(LV_EQ, false, true).n;
          l = {bin("notlike", l.n, r), false, nullptr};
          continue;
        }
        if (predCtx && k(1) == K_IN) break;
        p++;
        synErr();
      }
      BinOp b;
      if (binOp(kd, b)) {
        if (b.level == min && minNonassoc) synErr();
        if (b.level <= min) break;
        p++; o.ops++;
        N* r = operand(b.level, false, b.nonassoc).n;
        l = {bin(b.name, l.n, r), false, nullptr};
        continue;
      }
      break;
    }
    return l;
  }

  N* intLit() {
    if (!at(T_INT)) synErr();
    N* n = E("int");
    if (tok().i) n->seti("ival", tok().i);
    p++; o.ops++;
    return n;
  }
  const char* unit(int kd, bool plural) {
    switch (kd) {
      case K_SECOND: return "second";
      case K_MINUTE: return "minute";
      case K_HOUR: return "hour";
      case K_DAY: return "day";
      case K_MONTH: return "month";
      case K_YEAR: return "year";
    }
    if (plural) switch (kd) {
      case K_SECONDS: return "second";
      case K_MINUTES: return "minute";
      case K_HOURS: return "hour";
      case K_DAYS: return "day";
      case K_MONTHS: return "month";
      case K_YEARS: return "year";
    }
    return nullptr;
  }
  N* interval(int64_t v, const char* u) {
    N* n = E("interval");
    if (v) n->seti("ival", v);
    n->set("dt", u);
    return n;
  }
  // num_literal | interval starting with INTVAL
  N* number() {
    if (at(T_FLOAT)) {
      N* n = E("float");
      if (tok().f != 0) n->set("fval", hexDouble(tok().f));
      p++; o.ops++;
      return n;
    }
    if (at(T_INT)) {
      int64_t v = tok().i;
      const char* u = unit(k(1), true);
      if (u) { p += 2; o.ops++; return interval(v, u); }
      return intLit();
    }
    synErr();
  }
  // 'D' a date of 1-4, 1-2, 1-2 digits
  static bool dateOk(const std::string& s) {
    size_t i = 0;
    int w[3] = {4, 2, 2};
    for (int f = 0; f < 3; f++) {
      int d = 0;
      while (i < s.size() && dg(s[i]) && d < w[f]) { i++; d++; }
      if (!d) return false;
      if (f < 2) { if (i >= s.size() || s[i] != '-') return false; i++; }
    }
    return i == s.size();
  }
  // leading blanks and sign are tolerated by the dialect ("left open"), digits must fit 64 bit
  bool readInt(const std::string& s, size_t& i, int64_t& v, bool& open) {
    size_t st = i;
    while (i < s.size() && sp(s[i])) i++;
    if (i > st) open = true;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; open = open || s[i] == '+'; i++; }
    size_t d0 = i;
    __int128 x = 0;
    bool big = false;
    while (i < s.size() && dg(s[i])) { x = x * 10 + (s[i] - '0'); if (x > ((__int128)1 << 64)) big = true, x = (__int128)1 << 64; i++; }
    if (i == d0) return false;
    if (neg) x = -x;
    if (x > INT64_MAX || x < INT64_MIN) big = true;
    if (big) return false;
    v = (int64_t)x;
    if (x > INT32_MAX || x < INT32_MIN) open = true;  // may be rejected, but never silently altered
    return true;
  }
  N* intervalLit() {
    size_t st = p;
    need(K_INTERVAL);
    std::string s = str();
    const char* u = unit(k(), false);
    size_t i = 0;
    int64_t v = 0;
    bool open = false;
    if (u) {
      p++; o.ops++;
      if (!readInt(s, i, v, open) || i != s.size()) semErr(RE_INTERVAL, st, p - 1);
      if (open) o.flags |= RF_EITHER;
      return interval(v, u);
    }
    // INTERVAL 'n unit': the decision needs the token after the string, errors of the literal come first
    if (!readInt(s, i, v, open)) semErr(RE_INTERVAL, st, p - 1);
    size_t ws = i;
    while (i < s.size() && sp(s[i])) i++;
    if (i == ws) open = true;
    std::string w;
    while (i < s.size() && !sp(s[i]) && w.size() < 7) w += s[i++];
    if (w.empty() || i != s.size()) semErr(RE_INTERVAL, st, p - 1);
    static const char* units[] = {"second", "minute", "hour", "day", "month", "year"};
    for (auto x : units) {
      if (ieq(w, x) || ieq(w, (std::string(x) + "s").c_str())) {
        if (open) o.flags |= RF_EITHER;
        return interval(v, x);
      }
    }
    semErr(RE_INTERVAL_UNIT, st, p - 1);
    return interval(v, "none");
  }
  N* dateLit() {
    size_t st = p;
    need(K_DATE);
    std::string s = str();
    if (!dateOk(s)) semErr(RE_DATE, st, p - 1);
    N* n = E("date");
    n->set("name", Q(s));
    return n;
  }
  bool atLiteral() {
    switch (k()) {
      case T_STR: case K_TRUE: case K_FALSE: case T_INT: case T_FLOAT: case K_NULL: case K_DATE: case K_INTERVAL: case '?': return true;
    }
    return false;
  }
  N* literal() {
    switch (k()) {
      case T_STR: { N* n = E("string"); n->set("name", Q(str())); return n; }
      case K_TRUE: { p++; o.ops++; N* n = E("int"); n->seti("ival", 1); n->seti("bool", 1); return n; }
      case K_FALSE: { p++; o.ops++; N* n = E("int"); n->seti("bool", 1); return n; }
      case T_INT: case T_FLOAT: return number();
      case K_NULL: p++; o.ops++; return E("null");
      case K_DATE: return dateLit();
      case K_INTERVAL: return intervalLit();
      case '?': {
        p++; o.ops++;
        N* n = E("parameter");
        if (o.params) { n->seti("ival", o.params); n->seti("ival2", o.params); }
        o.params++;
        return n;
      }
    }
    synErr();
  }
  N* primary() {
    switch (k()) {
      case '(': {
        p++; o.ops++;
        N* n;
        if (at(K_SELECT)) {
          n = E("select");
          n->kid("select", selectNoParen());
        } else n = expr();
        need(')');
        return n;
      }
      case '*': p++; o.ops++; return E("star");
      case T_ID: return nameOrCall();
      case K_CASE: return caseExpr();
      case K_EXTRACT: {
        p++; o.ops++;
        need('(');
        const char* u = unit(k(), false);
        if (!u) synErr();
        p++;
        need(K_FROM);
        N* n = E("extract");
        n->set("dt", u);
        n->kid("expr", expr());
        need(')');
        return n;
      }
      case K_CAST: {
        p++; o.ops++;
        need('(');
        N* n = E("cast");
        n->kid("expr", expr());
        need(K_AS);
        n->set("ctype", columnType());
        need(')');
        return n;
      }
      case K_ARRAY: {
        p++; o.ops++;
        need('[');
        N* n = E("array");
        n->kid("list", exprList());
        need(']');
        return n;
      }
      default:
        if (atLiteral()) return literal();
        synErr();
    }
  }
  N* nameOrCall() {
    std::string a = ident();
    if (at('(')) return call("", a, false);
    if (!opt('.')) { N* n = E("columnref"); n->set("name", Q(a)); return n; }
    if (opt('*')) { N* n = E("star"); n->set("table", Q(a)); return n; }
    std::string b = ident();
    if (at('(')) return call(a, b, true);
    N* n = E("columnref");
    n->set("name", Q(b));
    n->set("table", Q(a));
    return n;
  }
  N* call(const std::string& schema, const std::string& name, bool hasSchema) {
    need('(');
    Nest g(*this, 2);
    N* n = E("functionref");
    n->set("name", Q(name));
    if (hasSchema) n->set("schema", Q(schema));
    if (at(')')) n->kid("list", list());
    else {
      if (opt(K_DISTINCT)) n->seti("distinct", 1);
      n->kid("list", exprList());
    }
    need(')');
    if (opt(K_OVER)) n->kid("window", window());
    return n;
  }
  N* bound(const char*) {
    N* b = A.mk("bound");
    if (opt(K_UNBOUNDED)) {
      b->seti("unbounded", 1);
      if (opt(K_PRECEDING)) b->set("type", "preceding");
      else { need(K_FOLLOWING); b->set("type", "following"); }
    } else if (opt(T_CURRENT_ROW)) {
      b->set("type", "current");
    } else if (at(T_INT)) {
      if (tok().i) b->seti("offset", tok().i);
      p++; o.ops++;
      if (opt(K_PRECEDING)) b->set("type", "preceding");
      else { need(K_FOLLOWING); b->set("type", "following"); }
    } else synErr();
    return b;
  }
  N* window() {
    Nest g(*this, 2);
    need('(');
    N* w = A.mk("window");
    if (opt(K_PARTITION)) { need(K_BY); w->kid("partition", exprList()); }
    if (opt(K_ORDER)) { need(K_BY); w->kid("order", orderList()); }
    N* f = A.mk("frame");
    const char* ft = nullptr;
    if (opt(K_RANGE)) ft = "range";
    else if (opt(K_ROWS)) ft = "rows";
    else if (opt(K_GROUPS)) ft = "groups";
    N *s, *e;
    if (!ft) {
      ft = "range";
      s = A.mk("bound"); s->seti("unbounded", 1); s->set("type", "preceding");
      e = A.mk("bound"); e->set("type", "current");
    } else if (opt(K_BETWEEN)) {
      s = bound("start");
      need(K_AND);
      e = bound("end");
    } else {
      s = bound("start");
      e = A.mk("bound"); e->set("type", "current");
    }
    f->set("type", ft);
    f->kid("start", s);
    f->kid("end", e);
    w->kid("frame", f);
    need(')');
    return w;
  }
  N* caseExpr() {
    need(K_CASE);
    Nest g(*this, 2);
    N* n = E("operator");
    n->set("op", "case");
    if (!at(K_WHEN)) n->kid("expr", expr());
    N* l = list();
    if (!at(K_WHEN)) synErr();
    while (opt(K_WHEN)) {
      N* e = E("operator");
      e->set("op", "caselistelement");
      e->kid("expr", expr());
      need(K_THEN);
      e->kid("expr2", expr());
      add(l, e);
    }
    n->kid("list", l);
    if (opt(K_ELSE)) n->kid("expr2", expr());
    need(K_END);
    return n;
  }
  N* exprList() {
    N* l = list();
    do {
      N* e = expr();
      if (opt(K_AS)) e->set("alias", Q(ident()));
      else if (at(T_ID)) e->set("alias", Q(ident()));
      add(l, e);
    } while (opt(','));
    return l;
  }
  std::string columnType() {
    auto ct = [](const char* n, int64_t l = 0, int64_t pr = 0, int64_t sc = 0) {
      return std::string(n) + "(" + std::to_string(l) + "," + std::to_string(pr) + "," + std::to_string(sc) + ")";
    };
    auto plen = [&]() { need('('); if (!at(T_INT)) synErr(); int64_t v = tok().i; p++; need(')'); return v; };
    int kd = k();
    switch (kd) {
      case K_BIGINT: p++; o.ops++; return ct("BIGINT");
      case K_BOOLEAN: p++; o.ops++; return ct("BOOLEAN");
      case K_CHAR: p++; o.ops++; return ct("CHAR", plen());
      case T_CHARACTER_VARYING: p++; o.ops++; return ct("VARCHAR", plen());
      case K_VARCHAR: p++; o.ops++; return ct("VARCHAR", plen());
      case K_DATE: p++; o.ops++; return ct("DATE");
      case K_DATETIME: case K_TIMESTAMP: p++; o.ops++; return ct("DATETIME");
      case K_DECIMAL: {
        p++; o.ops++;
        int64_t a = 0, b = 0;
        if (opt('(')) {
          if (!at(T_INT)) synErr();
          a = tok().i; p++;
          if (opt(',')) { if (!at(T_INT)) synErr(); b = tok().i; p++; }
          need(')');
        }
        return ct("DECIMAL", 0, a, b);
      }
      case K_DOUBLE: p++; o.ops++; return ct("DOUBLE");
      case K_FLOAT: p++; o.ops++; return ct("FLOAT");
      case K_INT: case K_INTEGER: p++; o.ops++; return ct("INT");
      case K_LONG: p++; o.ops++; return ct("LONG");
      case K_REAL: p++; o.ops++; return ct("REAL");
      case K_SMALLINT: p++; o.ops++; return ct("SMALLINT");
      case K_TEXT: p++; o.ops++; return ct("TEXT");
      case K_TIME: {
        p++; o.ops++;
        int64_t a = 0;
        if (opt('(')) { if (!at(T_INT)) synErr(); a = tok().i; p++; need(')'); }
        return ct("TIME", 0, a);
      }
    }
    synErr();
  }

  // constants allowed in INSERT values, EXECUTE arguments and hints
  N* extLit() {
    if (opt('-')) {
      N* x;
      if (at(K_INTERVAL)) x = intervalLit();
      else if (at(T_INT) || at(T_FLOAT)) x = number();
      else synErr();
      return un("unaryminus", x);
    }
    if (!atLiteral()) synErr();
    if (at('?')) semErr(RE_PARAM, p, p);
    return literal();
  }
  N* extLits() {
    N* l = list();
    do {
      if (opt(K_CAST)) {
        need('(');
        N* n = E("cast");
        n->kid("expr", extLit());
        need(K_AS);
        n->set("ctype", columnType());
        need(')');
        add(l, n);
      } else add(l, extLit());
    } while (opt(','));
    return l;
  }

  // ---------------------------------------------------------------- select
  N* orderList() {
    N* l = list();
    do {
      N* d = A.mk("order");
      d->kid("expr", expr());
      if (opt(K_DESC)) d->set("type", "desc");
      else { opt(K_ASC); d->set("type", "asc"); }
      if (at(T_ID)) {
        size_t st = p;
        std::string a = ident(), b = ident();
        if (ieq(a, "nulls") && ieq(b, "first")) d->set("nulls", "first");
        else if (ieq(a, "nulls") && ieq(b, "last")) d->set("nulls", "last");
        else semErr(RE_NULLS, st, p - 1);
      }
      add(l, d);
    } while (opt(','));
    return l;
  }
  N* optOrder() { if (opt(K_ORDER)) { need(K_BY); return orderList(); } return nullptr; }
  N* optLimit() {
    if (at(K_LIMIT)) {
      p++; o.ops++;
      N* n = A.mk("limit");
      if (!opt(K_ALL)) n->kid("limit", expr());
      if (opt(K_OFFSET)) n->kid("offset", expr());
      return n;
    }
    if (opt(K_OFFSET)) { N* n = A.mk("limit"); n->kid("offset", expr()); return n; }
    return nullptr;
  }
  N* optLocking() {
    N* l = nullptr;
    while (opt(K_FOR)) {
      if (!l) l = list();
      N* c = A.mk("lock");
      if (opt(K_UPDATE)) c->set("mode", "update");
      else if (opt(K_NO)) { need(K_KEY); need(K_UPDATE); c->set("mode", "nokeyupdate"); }
      else if (opt(K_SHARE)) c->set("mode", "share");
      else if (opt(K_KEY)) { need(K_SHARE); c->set("mode", "keyshare"); }
      else synErr();
      if (opt(K_OF)) c->set("tables", strs(idents()));
      if (opt(K_SKIP)) { need(K_LOCKED); c->set("policy", "skiplocked"); }
      else if (opt(K_NOWAIT)) c->set("policy", "nowait");
      else c->set("policy", "none");
      add(l, c);
    }
    return l;
  }
  struct Sel { N* n; N* limit; N* setops; };
  // selects are finished (limit / set operations attached) by their callers
  N* finish(Sel s) {
    if (s.limit) s.n->kid("limit", s.limit);
    if (s.setops) s.n->kid("setops", s.setops);
    return s.n;
  }
  Sel selectClause() {
    need(K_SELECT);
    Sel s{A.mk("stmt:select"), nullptr, nullptr};
    if (opt(K_TOP)) { s.limit = A.mk("limit"); s.limit->kid("limit", intLit()); }
    if (opt(K_DISTINCT)) s.n->seti("distinct", 1);
    s.n->kid("list", exprList());
    if (opt(K_FROM)) s.n->kid("from", tableRef());
    if (opt(K_WHERE)) s.n->kid("where", expr());
    if (opt(K_GROUP)) {
      need(K_BY);
      N* g = A.mk("group");
      g->kid("columns", exprList());
      if (opt(K_HAVING)) g->kid("having", expr());
      s.n->kid("group", g);
    }
    return s;
  }
  bool atSetOp() { return at(K_UNION) || at(K_INTERSECT) || at(K_EXCEPT); }
  N* setOp() {
    N* n = A.mk("setop");
    n->set("type", at(K_UNION) ? "union" : at(K_INTERSECT) ? "intersect" : "except");
    p++; o.ops++;
    if (opt(K_ALL)) n->seti("all", 1);
    return n;
  }
  Sel setOperand() {
    Nest g(*this, 2);
    if (at('(')) return selectWithParen();
    Sel s = selectClause();
    if (atSetOp()) {
      N* op = setOp();
      op->kid("nested", finish(setOperand()));
      s.setops = list();
      add(s.setops, op);
    }
    return s;
  }
  Sel selectWithParen() {
    Nest g(*this, 2);
    need('(');
    Sel s = at('(') ? selectWithParen() : selectNoParenS();
    need(')');
    return s;
  }
  Sel selectNoParenS() {
    Nest g(*this, 4);
    Sel s = selectClause();
    if (atSetOp()) {
      N* op = setOp();
      op->kid("nested", finish(setOperand()));
      op->kid("order", optOrder());
      op->kid("limit", optLimit());
      s.n->kid("lockings", optLocking());
      if (!s.setops) s.setops = list();
      add(s.setops, op);
    } else {
      s.n->kid("order", optOrder());
      N* lim = optLimit();
      if (lim) s.limit = lim;  // LIMIT replaces TOP
      s.n->kid("lockings", optLocking());
    }
    return s;
  }
  N* selectNoParen() { return finish(selectNoParenS()); }
  N* selectStatement() {
    N* with = nullptr;
    if (opt(K_WITH)) {
      with = list();
      do {
        N* w = A.mk("with");
        w->set("alias", Q(ident()));
        need(K_AS);
        if (!at('(')) synErr();
        w->kid("select", finish(selectWithParen()));
        add(with, w);
      } while (opt(','));
    }
    Sel s;
    if (at('(')) {
      s = selectWithParen();
      if (atSetOp()) {
        N* op = setOp();
        op->kid("nested", finish(setOperand()));
        op->kid("order", optOrder());
        op->kid("limit", optLimit());
        if (!s.setops) s.setops = list();
        add(s.setops, op);
      }
    } else {
      if (!at(K_SELECT)) synErr();
      s = selectNoParenS();
    }
    s.n->kid("with", with);
    return finish(s);
  }
  N* alias(const std::string& name) { N* a = A.mk("alias"); a->set("name", Q(name)); return a; }
  N* optTableAlias() {
    if (at(T_ID)) return alias(ident());
    if (opt(K_AS)) {
      N* a = alias(ident());
      if (at('(')) parenIdents(a, "cols");
      return a;
    }
    return nullptr;
  }
  N* nonJoin() {
    Nest g(*this);
    if (opt('(')) {
      N* n = A.mk("table:select");
      if (!at('(') && !at(K_SELECT) && !at(K_WITH)) synErr();
      n->kid("select", selectStatement());
      need(')');
      n->kid("alias", optTableAlias());
      return n;
    }
    N* n = A.mk("table:name");
    tableName(n, "schema", "name");
    n->kid("alias", optTableAlias());
    return n;
  }
  const char* joinType() {  // positioned at a join start; consumes up to and including JOIN
    const char* ty = "inner";
    switch (k()) {
      case K_INNER: p++; break;
      case K_LEFT: p++; opt(K_OUTER); ty = "left"; break;
      case K_RIGHT: p++; opt(K_OUTER); ty = "right"; break;
      case K_FULL: p++; opt(K_OUTER); ty = "full"; break;
      case K_OUTER: p++; ty = "full"; break;
      case K_CROSS: p++; ty = "cross"; break;
    }
    need(K_JOIN);
    return ty;
  }
  bool atJoin() {
    switch (k()) {
      case K_INNER: case K_LEFT: case K_RIGHT: case K_FULL: case K_OUTER: case K_CROSS: case K_JOIN: case K_NATURAL: return true;
    }
    return false;
  }
  N* tableAtomic() {
    Nest g(*this, 3);
    N* l = nonJoin();
    while (atJoin()) {
      N* n = A.mk("table:join");
      N* j = A.mk("join");
      n->kid("join", j);
      j->kid("left", l);
      if (opt(K_NATURAL)) {
        need(K_JOIN);
        j->set("type", "natural");
        j->kid("right", nonJoin());
      } else {
        j->set("type", joinType());
        j->kid("right", tableAtomic());
        if (opt(K_ON)) j->kid("cond", expr());
        else { need(K_USING); parenIdents(j, "named"); }
      }
      l = n;
    }
    return l;
  }
  N* tableRef() {
    N* f = tableAtomic();
    if (!at(',')) return f;
    N* n = A.mk("table:cross");
    N* l = list();
    add(l, f);
    while (opt(',')) add(l, tableAtomic());
    n->kid("list", l);
    return n;
  }

  // ---------------------------------------------------------------- other statements
  bool optNotExists() { if (opt(K_IF)) { need(K_NOT); need(K_EXISTS); return true; } return false; }
  bool optExists() { if (opt(K_IF)) { need(K_EXISTS); return true; } return false; }

  N* references() {
    need(K_REFERENCES);
    N* r = A.mk("references");
    tableName(r, "schema", "table");
    optColumnList(r, "cols");
    return r;
  }
  N* columnDef() {
    size_t st = p;
    N* c = A.mk("column");
    c->set("name", Q(ident()));
    c->set("ctype", columnType());
    std::set<std::string> cons;
    N* refs = list();
    for (;;) {
      if (opt(K_PRIMARY)) { need(K_KEY); cons.insert("primarykey"); }
      else if (opt(K_UNIQUE)) cons.insert("unique");
      else if (opt(K_NULL)) cons.insert("null");
      else if (opt(K_NOT)) { need(K_NULL); cons.insert("notnull"); }
      else if (at(K_REFERENCES)) { add(refs, references()); cons.insert("foreignkey"); }
      else break;
    }
    std::string s = "{";
    for (auto& x : cons) { if (s.size() > 1) s += ','; s += x; }
    c->set("constraints", s + "}");
    c->kid("references", refs);
    bool nn = cons.count("primarykey") || cons.count("notnull");
    c->seti("nullable", nn ? 0 : 1);
    if (!sem && nn && cons.count("null")) o.errors.push_back({RE_NULLABILITY, st, p - 1, 0});  // reported, parsing goes on
    return c;
  }
  N* tableConstraint() {
    N* c = A.mk("constraint");
    if (opt(K_PRIMARY)) { need(K_KEY); c->set("type", "primarykey"); parenIdents(c, "cols"); }
    else if (opt(K_UNIQUE)) { c->set("type", "unique"); parenIdents(c, "cols"); }
    else {
      need(K_FOREIGN); need(K_KEY);
      c->set("type", "foreignkey");
      parenIdents(c, "cols");
      c->kid("references", references());
    }
    return c;
  }
  const char* fileType() {
    if (!at(T_ID)) synErr();
    const std::string& s = tok().s;
    p++; o.ops++;
    if (ieq(s, "csv")) return "csv";
    if (ieq(s, "tbl")) return "tbl";
    if (ieq(s, "binary") || ieq(s, "bin")) return "binary";
    semErr(RE_FILETYPE, p - 1, p - 1);
    return "csv";
  }
  N* createStatement(int& kind) {
    need(K_CREATE);
    size_t st = p - 1;
    if (opt(K_TABLE)) {
      N* n = A.mk("stmt:create");
      if (optNotExists()) n->seti("ifNotExists", 1);
      tableName(n, "schema", "tableName");
      if (opt(K_FROM)) {
        kind = RS_CREATE_FROM;
        n->set("type", "fromtbl");
        std::string ft = ident();
        need(K_FILE);
        n->set("filePath", Q(str()));
        if (!ieq(ft, "tbl")) semErr(RE_FILETYPE, st, p - 1);
        return n;
      }
      n->set("type", "table");
      if (opt(K_AS)) { kind = RS_CTAS; if (!at('(') && !at(K_SELECT) && !at(K_WITH)) synErr(); n->kid("select", selectStatement()); return n; }
      kind = RS_CREATE_TABLE;
      need('(');
      N *cols = list(), *cons = list();
      size_t before = o.errors.size();
      do {
        if (at(T_ID)) add(cols, columnDef());
        else if (at(K_PRIMARY) || at(K_UNIQUE) || at(K_FOREIGN)) add(cons, tableConstraint());
        else synErr();
      } while (opt(','));
      need(')');
      if (o.errors.size() > before) throw Stop();
      n->kid("columns", cols);
      n->kid("constraints", cons);
      return n;
    }
    if (opt(K_INDEX)) {
      kind = RS_CREATE_INDEX;
      N* n = A.mk("stmt:create");
      n->set("type", "index");
      if (optNotExists()) n->seti("ifNotExists", 1);
      if (at(T_ID)) n->set("indexName", Q(ident()));
      need(K_ON);
      tableName(n, "schema", "tableName");
      parenIdents(n, "indexColumns");
      return n;
    }
    if (opt(K_VIEW)) {
      kind = RS_CREATE_VIEW;
      N* n = A.mk("stmt:create");
      n->set("type", "view");
      if (optNotExists()) n->seti("ifNotExists", 1);
      tableName(n, "schema", "tableName");
      optColumnList(n, "viewColumns");
      need(K_AS);
      if (!at('(') && !at(K_SELECT) && !at(K_WITH)) synErr();
      n->kid("select", selectStatement());
      return n;
    }
    synErr();
  }
  N* insertStatement(int& kind) {
    need(K_INSERT); need(K_INTO);
    N* n = A.mk("stmt:insert");
    tableName(n, "schema", "tableName");
    optColumnList(n, "columns");
    if (opt(K_VALUES)) {
      kind = RS_INSERT;
      n->set("type", "values");
      need('(');
      n->kid("values", extLits());
      need(')');
      return n;
    }
    kind = RS_INSERT_SELECT;
    n->set("type", "select");
    if (!at(K_SELECT)) synErr();
    n->kid("select", selectNoParen());
    return n;
  }
  struct Opts { const char* format = "auto"; bool hasEnc = false; std::string enc; bool csv = false; bool has[3] = {}; std::string val[3]; };
  Opts copyOptions() {
    Opts q;
    if (at(K_WITH)) { p++; need('('); }
    else if (at('(')) p++;
    else return q;
    size_t st = p;
    bool first = true, formatSet = false;
    do {
      if (opt(K_FORMAT)) {
        const char* f = fileType();
        if (formatSet) semErr(RE_FORMAT_TWICE, st, p - 1);
        if (q.csv && strcmp(f, "csv")) semErr(RE_CSV_NOT_CSV, st, p - 1);
        q.format = f;
        formatSet = true;
      } else if (opt(K_ENCODING)) {
        std::string e = str();
        if (q.hasEnc) semErr(RE_ENCODING_TWICE, st, p - 1);
        q.hasEnc = true; q.enc = e;
      } else {
        int which = -1;
        size_t os = p;
        std::string v;
        if (opt(K_NULL)) { which = 1; v = str(); }
        else {
          std::string nm = ident();
          v = str();
          if (ieq(nm, "delimiter")) which = 0;
          else if (ieq(nm, "quote")) which = 2;
          else semErr(RE_CSV_UNKNOWN, os, p - 1);
        }
        if (formatSet && strcmp(q.format, "csv")) semErr(RE_CSV_NOT_CSV, st, p - 1);
        if (which < 0) continue;
        if (q.has[which]) semErr(RE_CSV_TWICE, st, p - 1);
        q.csv = true; q.has[which] = true; q.val[which] = v;
      }
      first = false;
    } while (opt(','));
    (void)first;
    need(')');
    return q;
  }
  void applyOpts(N* n, const Opts& q) {
    n->set("type", q.format);
    if (q.hasEnc) n->set("encoding", Q(q.enc));
    if (q.csv) {
      N* c = A.mk("csv");
      if (q.has[0]) c->set("delimiter", Q(q.val[0]));
      if (q.has[1]) c->set("null", Q(q.val[1]));
      if (q.has[2]) c->set("quote", Q(q.val[2]));
      n->kid("csv", c);
    }
  }
  N* copyStatement(int& kind) {
    need(K_COPY);
    if (at('(')) {
      kind = RS_COPY_TO;
      N* n = A.mk("stmt:export");
      n->kid("select", finish(selectWithParen()));
      need(K_TO);
      n->set("filePath", Q(str()));
      applyOpts(n, copyOptions());
      return n;
    }
    N* nm = A.mk("x");
    tableName(nm, "schema", "tableName");
    if (opt(K_FROM)) {
      kind = RS_COPY_FROM;
      nm->kind = "stmt:import";
      nm->set("filePath", Q(str()));
      applyOpts(nm, copyOptions());
      if (opt(K_WHERE)) nm->kid("where", expr());
      return nm;
    }
    need(K_TO);
    kind = RS_COPY_TO;
    nm->kind = "stmt:export";
    nm->set("filePath", Q(str()));
    applyOpts(nm, copyOptions());
    return nm;
  }

  N* statement(int& kind) {
    bool hints = true;
    N* n = nullptr;
    switch (k()) {
      case K_SELECT: case '(': case K_WITH: kind = RS_SELECT; n = selectStatement(); break;
      case K_CREATE: n = createStatement(kind); break;
      case K_INSERT: n = insertStatement(kind); break;
      case K_DELETE:
        kind = RS_DELETE;
        p++; o.ops++;
        need(K_FROM);
        n = A.mk("stmt:delete");
        tableName(n, "schema", "tableName");
        if (opt(K_WHERE)) n->kid("where", expr());
        break;
      case K_TRUNCATE:
        kind = RS_TRUNCATE;
        p++; o.ops++;
        n = A.mk("stmt:delete");
        tableName(n, "schema", "tableName");
        break;
      case K_UPDATE: {
        kind = RS_UPDATE;
        p++; o.ops++;
        n = A.mk("stmt:update");
        N* tb = A.mk("table:name");
        tableName(tb, "schema", "name");
        n->kid("table", tb);
        need(K_SET);
        N* l = list();
        do {
          N* u = A.mk("update");
          u->set("column", Q(ident()));
          need('=');
          u->kid("value", expr());
          add(l, u);
        } while (opt(','));
        n->kid("updates", l);
        if (opt(K_WHERE)) n->kid("where", expr());
        break;
      }
      case K_DROP:
        kind = RS_DROP;
        p++; o.ops++;
        n = A.mk("stmt:drop");
        if (at(K_TABLE) || at(K_VIEW)) {
          n->set("type", at(K_TABLE) ? "table" : "view");
          p++; o.ops++;
          if (optExists()) n->seti("ifExists", 1);
          tableName(n, "schema", "name");
        } else if (opt(K_INDEX)) {
          n->set("type", "index");
          if (optExists()) n->seti("ifExists", 1);
          n->set("indexName", Q(ident()));
        } else synErr();
        break;
      case K_DEALLOCATE:
        kind = RS_DEALLOCATE;
        p++; o.ops++;
        need(K_PREPARE);
        n = A.mk("stmt:drop");
        n->set("type", "prepared");
        n->set("name", Q(ident()));
        break;
      case K_ALTER: {
        kind = RS_ALTER;
        p++; o.ops++;
        need(K_TABLE);
        n = A.mk("stmt:alter");
        if (optExists()) n->seti("ifTableExists", 1);
        tableName(n, "schema", "name");
        need(K_DROP); need(K_COLUMN);
        N* a = A.mk("dropcolumn");
        if (optExists()) a->seti("ifExists", 1);
        a->set("column", Q(ident()));
        n->kid("action", a);
        break;
      }
      case K_EXECUTE:
        kind = RS_EXECUTE;
        p++; o.ops++;
        n = A.mk("stmt:execute");
        n->set("name", Q(ident()));
        if (opt('(')) {
          if (!at(')')) n->kid("parameters", extLits());
          need(')');
        }
        break;
      case K_BEGIN: case K_ROLLBACK: case K_COMMIT:
        kind = RS_TRANSACTION;
        n = A.mk("stmt:transaction");
        n->set("command", at(K_BEGIN) ? "begin" : at(K_COMMIT) ? "commit" : "rollback");
        p++; o.ops++;
        opt(K_TRANSACTION);
        break;
      case K_PREPARE:
        kind = RS_PREPARE;
        p++; o.ops++;
        n = A.mk("stmt:prepare");
        n->set("name", Q(ident()));
        need(K_FROM);
        n->set("query", Q(str()));
        break;
      case K_SHOW:
        kind = RS_SHOW;
        hints = false;
        p++; o.ops++;
        n = A.mk("stmt:show");
        if (opt(K_TABLES)) n->set("type", "tables");
        else { need(K_COLUMNS); n->set("type", "columns"); tableName(n, "schema", "name"); }
        break;
      case K_DESCRIBE:
        kind = RS_SHOW;
        hints = false;
        p++; o.ops++;
        n = A.mk("stmt:show");
        n->set("type", "columns");
        tableName(n, "schema", "name");
        break;
      case K_IMPORT: {
        kind = RS_IMPORT;
        hints = false;
        p++; o.ops++;
        need(K_FROM);
        n = A.mk("stmt:import");
        n->set("type", fileType());
        need(K_FILE);
        n->set("filePath", Q(str()));
        need(K_INTO);
        tableName(n, "schema", "tableName");
        break;
      }
      case K_COPY: hints = false; n = copyStatement(kind); break;
      default: synErr();
    }
    if (hints && at(K_WITH)) {
      p++; o.ops++;
      need(K_HINT);
      need('(');
      N* l = list();
      do {
        N* h = E("hint");
        h->set("name", Q(ident()));
        if (opt('(')) { h->kid("list", extLits()); need(')'); }
        add(l, h);
      } while (opt(','));
      need(')');
      n->kid("hints", l);
    }
    return n;
  }
  void run() {
    for (;;) {
      size_t st = p;
      int kind = 0;
      N* n = statement(kind);
      o.stmts.push_back(n);
      o.stmtKind.push_back(kind);
      o.stmtTok.emplace_back(st, p - 1);
      if (at(T_EOF)) return;
      need(';');
      if (at(T_EOF)) return;
    }
  }
};
}  // namespace

void refParse(const LexOut& lx, Arena& A, RefOut& out) {
  A.clear();
  out = RefOut();
  P q(lx, A, out);
  try {
    q.run();
    out.ok = out.errors.empty();
  } catch (Stop&) {
    out.ok = false;
  }
}
