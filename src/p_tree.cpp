// C18, C22, C23: monitors over the trees themselves - printing, well-formedness, accessors.
#include "rt.h"
#include "util.h"
#include "walk.h"
#include "sql/statements.h"
#include <sstream>
#include <unordered_map>
using namespace hsql;

// ------------------------------------------------------------------ C18
namespace {
// Everything the printed form of a SELECT has to show, gathered by a recursion of its own over the public fields.
struct Need {
  std::map<std::string, int> want;
  uint64_t n = 0;
  void s(const char* x) { if (x && *x) { want[x]++; n++; } }
  void i(int64_t v) { want[std::to_string(v)]++; n++; }
  void list(const std::vector<Expr*>* l) { if (l) for (auto* e : *l) expr(e); }
  void order(const std::vector<OrderDescription*>* l) { if (l) for (auto* o : *l) expr(o->expr); }
  void limit(const LimitDescription* l) { if (l) { expr(l->limit); expr(l->offset); } }
  void expr(const Expr* e) {
    if (!e) return;
    s(e->alias);
    switch (e->type) {
      case kExprLiteralString: case kExprLiteralDate: s(e->name); break;
      case kExprLiteralInt: if (!e->isBoolLiteral) i(e->ival); break;
      case kExprLiteralInterval: i(e->ival); break;
      case kExprStar: s(e->table); break;
      case kExprColumnRef: s(e->table); s(e->name); break;
      case kExprFunctionRef:
        s(e->name);
        list(e->exprList);
        if (auto* w = e->windowDescription) {
          list(w->partitionList);
          order(w->orderList);
          if (auto* f = w->frameDescription) for (const FrameBound* b : {f->start, f->end}) if (b && !b->unbounded && b->type != kCurrentRow) i(b->offset);
        }
        break;
      case kExprArrayIndex: expr(e->expr); i(e->ival); break;
      case kExprArray: list(e->exprList); break;
      case kExprExtract: case kExprCast: expr(e->expr); break;
      case kExprSelect: select(e->select); break;
      case kExprOperator: expr(e->expr); expr(e->expr2); list(e->exprList); if (e->select) select(e->select); break;
      default: break;
    }
  }
  void table(const TableRef* t) {
    if (!t) return;
    if (t->alias) { s(t->alias->name); if (t->alias->columns) for (char* x : *t->alias->columns) s(x); }
    s(t->name);
    if (t->select) select(t->select);
    if (t->list) for (auto* x : *t->list) table(x);
    if (auto* j = t->join) { table(j->left); table(j->right); expr(j->condition); if (j->namedColumns) for (char* x : *j->namedColumns) s(x); }
  }
  void select(const SelectStatement* q) {
    list(q->selectList);
    table(q->fromTable);
    expr(q->whereClause);
    if (q->groupBy) { list(q->groupBy->columns); expr(q->groupBy->having); }
    if (q->setOperations) for (auto* o : *q->setOperations) { select(o->nestedSelectStatement); order(o->resultOrder); limit(o->resultLimit); }
    order(q->order);
    limit(q->limit);
  }
};
bool wordCh(unsigned char c) { return isalnum(c) || c == '_' || c >= 128; }
int occurrences(const std::string& t, const std::string& w, int enough) {
  int n = 0;
  bool lead = wordCh(w[0]), trail = wordCh(w.back());
  for (size_t p = t.find(w); p != std::string::npos && n < enough; p = t.find(w, p + 1)) {
    if (lead && p && (wordCh(t[p - 1]) || (isdigit((unsigned char)w[0]) && (t[p - 1] == '-' || t[p - 1] == '.')))) continue;
    size_t q = p + w.size();
    if (trail && q < t.size() && (wordCh(t[q]) || (isdigit((unsigned char)w.back()) && t[q] == '.'))) continue;
    n++;
  }
  return n;
}
struct Stream {
  std::ios_base::fmtflags f; std::streamsize p; char fill; std::ios_base::iostate st, ex; const std::locale loc; std::ostream* tie;
  Stream() : f(std::cout.flags()), p(std::cout.precision()), fill(std::cout.fill()), st(std::cout.rdstate()), ex(std::cout.exceptions()), loc(std::cout.getloc()), tie(std::cout.tie()) {}
  std::string diff() const {
    if (std::cout.flags() != f) return "format flags";
    if (std::cout.precision() != p) return "precision";
    if (std::cout.fill() != fill) return "fill character";
    if (std::cout.rdstate() != st) return "error state";
    if (std::cout.exceptions() != ex) return "exception mask";
    if (!(std::cout.getloc() == loc)) return "locale";
    if (std::cout.tie() != tie) return "tied stream";
    if (std::cout.width() != 0) return "field width";
    return "";
  }
};
const double kWorkPerByte = 40;
}  // namespace
static std::string o18(Ctx& c, const std::string& t) {
  if (t.size() > kPrintMax) return "";
  SQLParserResult r;
  SQLParser::parse(t, &r);
  if (!r.isValid()) return "";
  for (size_t k = 0; k < r.size(); k++) {
    const SQLStatement* s = r.getStatement(k);
    static Arena A;
    A.clear();
    std::string before = ser(dumpStatement(s, A)), a, b, err;
    {
      Capture cap;
      Stream st;
      rt::workReset();
      printStatementInfo(s);
#if defined VF_MODE_COV
      // printing costs about what it shows, plus a visit to every node
      double work = (double)(rt::edges() + rt::libBytes()), size = (double)(cap.out.s.size() + before.size());
      uint64_t& worst = c.count["max: work of printing per 100 bytes of tree and output"];
      worst = std::max(worst, (uint64_t)(100 * work / (size + 200)));
      c.count["prints measured"]++;
      if (work > kWorkPerByte * (size + 200)) return "printing takes " + std::to_string((uint64_t)work) + " steps for a tree of " + std::to_string(before.size()) + " and an output of " + std::to_string(cap.out.s.size()) + " bytes";
#endif
      std::string d = st.diff();
      if (!d.empty()) { std::cout.clear(); std::cout.flags(st.f); std::cout.precision(st.p); std::cout.fill(st.fill); std::cout.width(0); return "printing changes the output stream: " + d; }
      a.swap(cap.out.s);
      printStatementInfo(s);
      b.swap(cap.out.s);
      err = cap.err.s;
    }
    c.count["statements printed"]++;
    if (a != b) return "printing the same statement again gives a different text: " + firstDiff(a, b);
    if (!err.empty()) return "printing an accepted statement reports an error: " + err.substr(0, 200);
    if ((hashBytes(t) & 7) == 0) {
      // a stream in another state stays in it, too
      Capture cap;
      auto f0 = std::cout.flags(); auto p0 = std::cout.precision(); char c0 = std::cout.fill();
      switch (hashBytes(t) >> 8 & 3) {
        case 0: std::cout.setf(std::ios::left, std::ios::adjustfield); std::cout.fill('*'); std::cout.precision(3); break;
        case 1: std::cout.setf(std::ios::hex, std::ios::basefield); std::cout.setf(std::ios::showbase | std::ios::uppercase); break;
        case 2: std::cout.setf(std::ios::fixed | std::ios::showpoint | std::ios::boolalpha); std::cout.precision(11); break;
        case 3: std::cout.setf(std::ios::scientific); std::cout.fill('0'); std::cout.precision(1); break;
      }
      Stream st;
      printStatementInfo(s);
      std::string d = st.diff();
      std::cout.clear(); std::cout.flags(f0); std::cout.precision(p0); std::cout.fill(c0); std::cout.width(0);
      if (!d.empty()) return "printing changes a non-default state of the output stream: " + d;
      c.count["printed on a stream with non-default format"]++;
    }
    A.clear();
    std::string after = ser(dumpStatement(s, A));
    if (before != after) return "printing changes the statement: " + firstDiff(before, after);
    if (!s->isType(kStmtSelect)) { c.count[std::string("kind ") + std::to_string(s->type()) + " printed"]++; continue; }
    Need nd;
    nd.select((const SelectStatement*)s);
    c.count["names, strings and integers looked for"] += nd.n;
    c.nt = nd.n > 1;
    if (a.find("Select") == std::string::npos && a.empty()) return "printing a SELECT shows nothing";
    for (auto& w : nd.want) {
      int got = occurrences(a, w.first, w.second);
      if (got < w.second) return "the printed SELECT shows " + quoteBytes(w.first.substr(0, 100)) + " " + std::to_string(got) + " times, the statement contains it " + std::to_string(w.second) + " times";
    }
    // the entry point for SELECT itself, at any indentation
    Capture cap;
    printSelectStatementInfo((const SelectStatement*)s, 0);
    if (cap.out.s != a) return "printSelectStatementInfo and printStatementInfo differ";
  }
  return "";
}
static void r18(Ctx& c) {
  auto f = checker(c);
  Profile p;
  p.starts = {{"select", 10}, {"expr", 8}, {"tref", 4}, {"func", 2}, {"case", 1}, {"inx", 1}, {"between", 1}, {"exists", 1}, {"join", 2}, {"selparen", 1}, {"sel0", 1}, {"limit", 1}, {"order", 1}};
  p.opts.plainNames = true;
  p.comments = 0;
  streamCorpus(c, f);
  streamRandom(c, p, c.n(90000), f);
  p.opts.plainNames = false;
  p.starts.push_back({"stmt", 14});
  p.starts.push_back({"script", 3});
  p.opts.params = 2;
  streamRandom(c, p, c.n(60000), f);
  p.mutTok = 100;
  streamRandom(c, p, c.n(30000), f);
  streamEdits(c, 0.02 * c.scale, f);
  // unique content in every expression context of every clause
  static const char* const frag[] = {"c1", "t2.c1", "t2.*", "'st1'", "4711", "f9(c1, 'st2', 77)", "s.f9(c1)", "CASE c1 WHEN c2 THEN 'st3' WHEN 5 THEN c3 ELSE c4 END", "CASE WHEN c1 THEN c2 END", "c1 IN (c2, 'st4', 88)", "c1 IN (SELECT c2 FROM t3 WHERE c3 = 99)",
    "c1 NOT IN (SELECT c2 FROM t3)", "c1 BETWEEN c2 AND 123", "EXISTS (SELECT c2 FROM t3 WHERE c5 = 'st5')", "NOT EXISTS (SELECT c2 FROM t3)", "(SELECT c2 FROM t3 ORDER BY c6 LIMIT 7 OFFSET 8)", "CAST(c1 AS INT)", "EXTRACT(YEAR FROM c1)", "ARRAY[c1, 'st6', 9]", "c1[42]", "c1 || 'st7'",
    "NOT c1", "- c1", "c1 IS NULL", "c1 IS NOT NULL", "DATE '2001-02-03'", "5 DAYS", "INTERVAL '6' YEAR", "f9(c1) OVER (PARTITION BY c2, c3 ORDER BY c4 ROWS BETWEEN 12 PRECEDING AND 13 FOLLOWING)", "f9() OVER ()", "COUNT(DISTINCT c1)", "c1 LIKE 'st8'", "c1 NOT LIKE 'st8'", "c1 ILIKE 'st8'",
    "c1 AND c2 OR c3 AND NOT c4", "c1 + c2 - c3 * c4 / c5 % c6 ^ c7", "c1 = c2", "c1 <> c2", "c1 < c2", "NULL", "TRUE", "1.5", "?", "f9(f8(f7(c1)))", "(c1)", "c1 IN (c2 AS al1, c3 al2)"};
  static const char* const place[] = {"SELECT $", "SELECT $ AS al9 FROM t1", "SELECT x9 AS y9, $ al8 FROM t1", "SELECT x9 FROM t1 WHERE $", "SELECT x9 FROM t1 GROUP BY $", "SELECT x9 FROM t1 GROUP BY x8, $ HAVING $", "SELECT x9 FROM t1 ORDER BY $", "SELECT x9 FROM t1 ORDER BY x8 DESC, $ ASC", "SELECT x9 FROM t1 LIMIT $",
    "SELECT x9 FROM t1 LIMIT 3 OFFSET $", "SELECT x9 FROM t1 OFFSET $", "SELECT x9 FROM t1 JOIN t4 ON $", "SELECT x9 FROM t1 AS a1 LEFT JOIN t4 a2 ON $, t5 AS a3", "SELECT x9 FROM (SELECT $ FROM t6) AS q1", "SELECT x9 FROM (SELECT x8 FROM t6 WHERE $) q1 (qa, qb)", "SELECT x9 FROM t1 UNION SELECT $ FROM t7",
    "SELECT x9 FROM t1 UNION SELECT x8 FROM t7 ORDER BY $", "SELECT x9 FROM t1 UNION ALL SELECT x8 FROM t7 LIMIT $", "SELECT x9 FROM t1 EXCEPT (SELECT x8 FROM t7 WHERE $ ORDER BY $ LIMIT 5) INTERSECT SELECT $", "(SELECT $) UNION (SELECT $)", "SELECT x9 FROM t1 UNION (SELECT 1) OFFSET $",
    "SELECT CASE x9 WHEN 1 THEN ($) ELSE ($) END", "SELECT CASE ($) WHEN ($) THEN 1 END", "SELECT x9 IN (1, $)", "SELECT ($) BETWEEN ($) AND ($)", "SELECT EXISTS (SELECT $ FROM t8)", "SELECT (SELECT (SELECT $))", "SELECT f1(x9, $) OVER (PARTITION BY $ ORDER BY $)", "SELECT ARRAY[$]", "SELECT ($)[3]", "SELECT CAST($ AS TEXT)", "SELECT EXTRACT(DAY FROM $)",
    "SELECT x9 FROM t1 NATURAL JOIN t2 WHERE $", "SELECT x9 FROM t1 JOIN t2 USING (u1, u2) WHERE $", "SELECT x9 FROM sc1.t1 CROSS JOIN t2 ON $", "SELECT DISTINCT TOP 5 $ FROM t1"};
  uint64_t i = 0;
  for (const char* pl : place) for (const char* fr : frag) { if (c.mine(i++) && !f(subst(pl, fr))) return; }
  // all pairs of fragments joined
  for (const char* a : frag) for (const char* b : frag) { if (c.mine(i++) && !f("SELECT x9 FROM t1 WHERE (" + std::string(a) + ") = (" + b + ") ORDER BY " + a)) return; }
  // chains and nesting of moderate size
  streamSweeps(c, kListSweeps, sweepSizes(c, 12, 120), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 12, 60), f);
}
PROPERTY("C18", r18, o18);

// ------------------------------------------------------------------ C22
namespace {
enum : unsigned { F_E1 = 1, F_E2 = 2, F_L = 4, F_Q = 8, F_N = 16, F_T = 32, F_S = 64, F_F = 128, F_I = 256, F_J = 512, F_D = 1024, F_C = 2048, F_B = 4096, F_O = 8192, F_X = 16384, F_W = 32768 };
const char* const kFieldName[] = {"expr", "expr2", "exprList", "select", "name", "table", "schema", "fval", "ival", "ival2", "datetimeField", "columnType", "isBoolLiteral", "opType", "distinct", "windowDescription"};
struct Broken { std::string what; };
struct WellFormed : Visitor {
  std::unordered_map<const void*, const char*> seen;
  std::unordered_set<const Expr*> params, caseElems;
  std::string ctx;
  uint64_t nodes = 0, blocks = 0, lists = 0;
  [[noreturn]] void no(const std::string& w) { throw Broken{w}; }
  void must(bool ok, const char* w) { if (!ok) no(w); }
  void bad(const std::string& s) override { no(s); }
  void block(const void* p, const char* owner) override {
    blocks++;
    auto it = seen.emplace(p, owner);
    if (!it.second) no(std::string("the same object hangs on two places: ") + it.first->second + " and " + owner);
  }
  void name(const char* s, const char* owner) override {
    size_t n = strlen(s);
    if (n) return;
    if (!strncmp(owner, "csv", 3) || !strcmp(owner, "filePath") || !strcmp(owner, "encoding") || !strcmp(owner, "query")) return;  // free strings may be empty
    if (!strcmp(owner, "Expr::name")) { emptyName = true; return; }  // decided by the kind of expression
    no(std::string("empty name in ") + owner);
  }
  bool emptyName = false;
  const Expr* last = nullptr;
  void names(const std::vector<char*>* l, const char* owner) override { lists++; if (l->empty()) no(std::string("empty name list in ") + owner); }
  static bool unit(DatetimeField d) { return d >= kDatetimeSecond && d <= kDatetimeYear; }
  static bool type(const ColumnType& c) {
    if (!(c.data_type > DataType::UNKNOWN && c.data_type <= DataType::VARCHAR)) return false;
    bool len = c.data_type == DataType::CHAR || c.data_type == DataType::VARCHAR;
    if (!len && c.length) return false;
    if (c.data_type != DataType::DECIMAL && c.scale) return false;
    if (c.data_type != DataType::DECIMAL && c.data_type != DataType::TIME && c.precision) return false;
    return true;
  }
  static unsigned fields(const Expr* e) {
    unsigned m = 0;
    if (e->expr) m |= F_E1;
    if (e->expr2) m |= F_E2;
    if (e->exprList) m |= F_L;
    if (e->select) m |= F_Q;
    if (e->name) m |= F_N;
    if (e->table) m |= F_T;
    if (e->schema) m |= F_S;
    double fv = e->fval; uint64_t bits; memcpy(&bits, &fv, 8);
    if (bits) m |= F_F;
    if (e->ival) m |= F_I;
    if (e->ival2) m |= F_J;
    if (e->datetimeField != kDatetimeNone) m |= F_D;
    if (e->columnType.data_type != DataType::UNKNOWN || e->columnType.length || e->columnType.precision || e->columnType.scale) m |= F_C;
    if (e->isBoolLiteral) m |= F_B;
    if (e->opType != kOpNone) m |= F_O;
    if (e->distinct) m |= F_X;
    if (e->windowDescription) m |= F_W;
    return m;
  }
  void shape(const Expr* e, unsigned required, unsigned optional, const char* what) {
    unsigned m = fields(e);
    for (int i = 0; i < 16; i++) {
      unsigned b = 1u << i;
      if ((required & b) && !(m & b)) no(std::string(what) + " without " + kFieldName[i]);
      if ((m & b) && !((required | optional) & b)) no(std::string(what) + " with a value in " + kFieldName[i]);
    }
  }
  void expr(const Expr* e, const char* owner) override {
    nodes++;
    must(e->type >= kExprLiteralFloat && e->type <= kExprCast, "expression kind outside its enumeration");
    must(e->opType >= kOpNone && e->opType <= kOpExists, "operator outside its enumeration");
    must(e->datetimeField >= kDatetimeNone && e->datetimeField <= kDatetimeYear, "datetime field outside its enumeration");
    must(e->columnType.data_type >= DataType::UNKNOWN && e->columnType.data_type <= DataType::VARCHAR, "data type outside its enumeration");
    bool hint = !strcmp(owner, "hints");
    if (hint != (e->type == kExprHint)) no(hint ? "hint list holds something else than a hint" : "hint outside a hint list");
    if (e->type != kExprLiteralString && e->name && !*e->name) no("empty name of an expression");
    if (e->schema && e->type != kExprFunctionRef) no("schema outside a function");
    switch (e->type) {
      case kExprLiteralFloat: shape(e, 0, F_F, "decimal literal"); break;
      case kExprLiteralString: shape(e, F_N, 0, "string literal"); break;
      case kExprLiteralInt: shape(e, 0, F_I | F_B, "integer literal"); if (e->isBoolLiteral) must(e->ival == 0 || e->ival == 1, "truth value that is neither 0 nor 1"); break;
      case kExprLiteralNull: shape(e, 0, 0, "NULL literal"); break;
      case kExprLiteralDate: shape(e, F_N, 0, "date literal"); break;
      case kExprLiteralInterval: shape(e, F_D, F_I, "interval literal"); must(unit(e->datetimeField), "interval without unit"); break;
      case kExprStar: shape(e, 0, F_T, "star"); break;
      case kExprParameter: shape(e, 0, F_I | F_J, "placeholder"); params.insert(e); break;
      case kExprColumnRef: shape(e, F_N, F_T, "column"); break;
      case kExprFunctionRef: shape(e, F_N | F_L, F_S | F_X | F_W, "function"); break;
      case kExprSelect: shape(e, F_Q, 0, "subquery"); break;
      case kExprHint: shape(e, F_N, F_L, "hint"); must(!e->exprList || !e->exprList->empty(), "hint with an empty list"); break;
      case kExprArray: shape(e, F_L, 0, "array"); must(!e->exprList->empty(), "empty array"); break;
      case kExprArrayIndex: shape(e, F_E1, F_I, "array index"); break;
      case kExprExtract: shape(e, F_E1 | F_D, 0, "extract"); break;
      case kExprCast: shape(e, F_E1 | F_C, 0, "cast"); must(type(e->columnType), "cast to a malformed type"); break;
      case kExprOperator: op(e); break;
    }
    if (auto* w = e->windowDescription) {
      must(!w->partitionList || !w->partitionList->empty(), "empty PARTITION BY");
      must(!w->orderList || !w->orderList->empty(), "empty window ORDER BY");
      orders(w->orderList);
      must(w->frameDescription, "window without frame");
      must(w->frameDescription->type >= kRange && w->frameDescription->type <= kGroups, "frame type outside its enumeration");
      for (const FrameBound* b : {w->frameDescription->start, w->frameDescription->end}) {
        must(b, "window frame without bound");
        must(b->type >= kFollowing && b->type <= kCurrentRow, "frame bound outside its enumeration");
        if (b->type == kCurrentRow || b->unbounded) must(b->offset == 0, "frame bound with a stray offset");
        if (b->type == kCurrentRow) must(!b->unbounded, "CURRENT ROW that is unbounded");
      }
    }
    if (strcmp(owner, "Expr::exprList") && e->opType == kOpCaseListElement && e->type == kExprOperator) no("WHEN branch outside CASE");
    if (e->opType == kOpCaseListElement && !caseElems.count(e)) no("WHEN branch outside CASE");
  }
  void op(const Expr* e) {
    switch (e->opType) {
      case kOpNone: no("operator without operator type");
      case kOpNot: case kOpUnaryMinus: case kOpIsNull: shape(e, F_O | F_E1, 0, "unary operator"); break;
      case kOpExists: shape(e, F_O | F_Q, 0, "EXISTS"); break;
      case kOpIn:
        shape(e, F_O | F_E1, F_L | F_Q, "IN");
        must(!e->exprList != !e->select, "IN with both or neither of list and subquery");
        must(!e->exprList || !e->exprList->empty(), "IN with an empty list");
        break;
      case kOpBetween: shape(e, F_O | F_E1 | F_L, 0, "BETWEEN"); must(e->exprList->size() == 2, "BETWEEN without exactly two bounds"); break;
      case kOpCase:
        shape(e, F_O | F_L, F_E1 | F_E2, "CASE");
        must(!e->exprList->empty(), "CASE without branches");
        for (auto* x : *e->exprList) { must(x && x->type == kExprOperator && x->opType == kOpCaseListElement, "CASE list holds something else than a branch"); caseElems.insert(x); }
        break;
      case kOpCaseListElement: shape(e, F_O | F_E1 | F_E2, 0, "WHEN branch"); break;
      default: shape(e, F_O | F_E1 | F_E2, 0, "binary operator"); break;
    }
  }
  void orders(const std::vector<OrderDescription*>* l) {
    if (!l) return;
    lists++;
    must(!l->empty(), "empty ORDER BY");
    for (auto* o : *l) {
      must(o && o->expr, "ORDER BY without expression");
      must(o->type == kOrderAsc || o->type == kOrderDesc, "order direction outside its enumeration");
      must(o->null_ordering >= Undefined && o->null_ordering <= Last, "NULLS placement outside its enumeration");
    }
  }
  void select(const SelectStatement* s, const char* owner) override {
    nodes++;
    must(s->type() == kStmtSelect, "select with another statement type");
    must(dynamic_cast<const SelectStatement*>((const SQLStatement*)s), "select with another dynamic type");
    must(s->selectList && !s->selectList->empty(), "SELECT without select list");
    if (s->groupBy) { must(s->groupBy->columns && !s->groupBy->columns->empty(), "GROUP BY without columns"); }
    orders(s->order);
    if (s->setOperations) {
      must(!s->setOperations->empty(), "empty list of set operations");
      for (auto* o : *s->setOperations) { must(o && o->nestedSelectStatement, "set operation without operand"); must(o->setType >= kSetUnion && o->setType <= kSetExcept, "set operation outside its enumeration"); orders(o->resultOrder); }
    }
    if (s->withDescriptions) must(!s->withDescriptions->empty(), "empty WITH");
    if (s->lockings) {
      must(!s->lockings->empty(), "empty locking list");
      for (auto* l : *s->lockings) { must(l->rowLockMode >= ForUpdate && l->rowLockMode <= ForKeyShare, "lock mode outside its enumeration"); must(l->rowLockWaitPolicy >= NoWait && l->rowLockWaitPolicy <= None, "wait policy outside its enumeration"); }
    }
    if (strcmp(owner, "result")) { must(!s->hints, "nested SELECT with hints"); must(s->stringLength == 0, "nested SELECT with a length"); }
  }
  void table(const TableRef* t, const char*) override {
    nodes++;
    switch (t->type) {
      case kTableName: must(t->name, "table without name"); must(!t->select && !t->list && !t->join, "table name with other content"); break;
      case kTableSelect: must(t->select, "derived table without SELECT"); must(!t->name && !t->schema && !t->list && !t->join, "derived table with other content"); break;
      case kTableJoin: {
        must(t->join, "join without definition"); must(!t->name && !t->schema && !t->list && !t->select && !t->alias, "join with other content");
        auto* j = t->join;
        must(j->type >= kJoinInner && j->type <= kJoinNatural, "join type outside its enumeration");
        if (j->type == kJoinNatural) must(!j->condition && !j->namedColumns, "NATURAL JOIN with a condition");
        else must(!j->condition != !j->namedColumns, "join with both or neither of ON and USING");
        break;
      }
      case kTableCrossProduct: must(t->list && t->list->size() >= 2, "comma list of fewer than two tables"); must(!t->name && !t->schema && !t->select && !t->join && !t->alias, "comma list with other content"); for (auto* x : *t->list) must(x && x->type != kTableCrossProduct, "comma list directly inside a comma list"); break;
      default: no("table kind outside its enumeration");
    }
  }
  template <class T> const T* as(const SQLStatement* s) {
    auto* p = dynamic_cast<const T*>(s);
    if (!p) no("statement type does not match the dynamic type");
    return p;
  }
  void csv(const CsvOptions* o) { if (o) must(o->delimiter || o->null || o->quote, "CSV options without any option"); }
  void statement(const SQLStatement* s, const char*) override {
    nodes++;
    if (s->hints) must(!s->hints->empty(), "empty hint list");
    switch (s->type()) {
      case kStmtSelect: as<SelectStatement>(s); break;
      case kStmtImport: { auto* x = as<ImportStatement>(s); must(x->tableName && x->filePath, "import without table or file"); must(x->type >= kImportCSV && x->type <= kImportAuto, "import type outside its enumeration"); csv(x->csv_options); break; }
      case kStmtExport: { auto* x = as<ExportStatement>(s); must(x->filePath, "export without file"); must(!x->tableName != !x->select, "export with both or neither of table and query"); must(!x->schema || x->tableName, "export with a schema but no table"); must(x->type >= kImportCSV && x->type <= kImportAuto, "export type outside its enumeration"); csv(x->csv_options); break; }
      case kStmtInsert: {
        auto* x = as<InsertStatement>(s);
        must(x->tableName, "insert without table");
        if (x->type == kInsertValues) must(x->values && !x->values->empty() && !x->select, "INSERT VALUES without values or with a query");
        else if (x->type == kInsertSelect) must(x->select && !x->values, "INSERT SELECT without query or with values");
        else no("insert type outside its enumeration");
        break;
      }
      case kStmtUpdate: { auto* x = as<UpdateStatement>(s); must(x->table && x->table->type == kTableName, "update without table"); must(!x->table->alias, "update of an aliased table"); must(x->updates && !x->updates->empty(), "update without assignments"); break; }
      case kStmtDelete: { auto* x = as<DeleteStatement>(s); must(x->tableName, "delete without table"); break; }
      case kStmtCreate: {
        auto* x = as<CreateStatement>(s);
        must(x->tableName, "create without name");
        switch (x->type) {
          case kCreateTable:
            must(!x->filePath && !x->indexName && !x->indexColumns && !x->viewColumns, "CREATE TABLE with content of other kinds");
            if (x->select) must(!x->columns && !x->tableConstraints, "CREATE TABLE AS with columns");
            else must(x->columns && x->tableConstraints && (!x->columns->empty() || !x->tableConstraints->empty()), "CREATE TABLE without elements");
            if (x->columns) for (auto* d : *x->columns) {
              must(type(d->type), "column with a malformed type");
              must(d->column_constraints && d->references, "column without constraint sets");
              bool fk = false;
              for (auto k : *d->column_constraints) { must(k >= ConstraintType::ForeignKey && k <= ConstraintType::Unique, "constraint outside its enumeration"); if (k == ConstraintType::ForeignKey) fk = true; }
              must(fk == !d->references->empty(), "column references do not match its constraint set");
              bool nn = d->column_constraints->count(ConstraintType::NotNull) || d->column_constraints->count(ConstraintType::PrimaryKey);
              must(d->nullable == !nn, "nullability does not match the constraints");
            }
            if (x->tableConstraints) for (auto* k : *x->tableConstraints) {
              must(k->columnNames && !k->columnNames->empty(), "table constraint without columns");
              must((k->type == ConstraintType::ForeignKey) == (dynamic_cast<ForeignKeyConstraint*>(k) != nullptr), "constraint type does not match the dynamic type");
              must(k->type == ConstraintType::ForeignKey || k->type == ConstraintType::PrimaryKey || k->type == ConstraintType::Unique, "table constraint of a kind that tables do not have");
            }
            break;
          case kCreateTableFromTbl: must(x->filePath && !x->indexName && !x->indexColumns && !x->viewColumns && !x->select && !x->columns && !x->tableConstraints, "CREATE TABLE FROM with other content or without file"); break;
          case kCreateView: must(x->select && !x->filePath && !x->indexName && !x->indexColumns && !x->columns && !x->tableConstraints, "CREATE VIEW with other content or without query"); break;
          case kCreateIndex: must(x->indexColumns && !x->filePath && !x->select && !x->columns && !x->tableConstraints && !x->viewColumns, "CREATE INDEX with other content or without columns"); break;
          default: no("create type outside its enumeration");
        }
        break;
      }
      case kStmtDrop: {
        auto* x = as<DropStatement>(s);
        must(x->type >= kDropTable && x->type <= kDropPreparedStatement && x->type != kDropSchema, "drop type outside its enumeration");
        if (x->type == kDropIndex) must(x->indexName && !x->name && !x->schema, "DROP INDEX without index name or with other content");
        else must(x->name && !x->indexName, "drop without name or with an index name");
        if (x->type == kDropPreparedStatement) must(!x->schema && !x->ifExists, "DEALLOCATE with other content");
        break;
      }
      case kStmtPrepare: { auto* x = as<PrepareStatement>(s); must(x->name && x->query, "prepare without name or query"); break; }
      case kStmtExecute: { auto* x = as<ExecuteStatement>(s); must(x->name, "execute without name"); must(!x->parameters || !x->parameters->empty(), "execute with an empty list"); break; }
      case kStmtAlter: {
        auto* x = as<AlterStatement>(s);
        must(x->name && x->action, "alter without table or action");
        must(x->action->type == DropColumn, "alter action outside its enumeration");
        auto* d = dynamic_cast<const DropColumnAction*>(x->action);
        must(d && d->columnName && *d->columnName, "DROP COLUMN without column");
        break;
      }
      case kStmtShow: { auto* x = as<ShowStatement>(s); if (x->type == kShowTables) must(!x->name && !x->schema, "SHOW TABLES with a name"); else if (x->type == kShowColumns) must(x->name, "SHOW COLUMNS without table"); else no("show type outside its enumeration"); break; }
      case kStmtTransaction: { auto* x = as<TransactionStatement>(s); must(x->command >= kBeginTransaction && x->command <= kRollbackTransaction, "transaction command outside its enumeration"); break; }
      default: no("statement type outside those the parser produces");
    }
    must(s->isType(s->type()), "isType disagrees with type");
  }
};
}  // namespace
static std::string o22(Ctx& c, const std::string& t) {
  SQLParserResult r;
  SQLParser::parse(t, &r);
  if (!r.isValid()) return "";
  c.nt = true;
  WellFormed w;
  try {
    if (r.getStatements().empty()) w.no("an accepted text without statements");
    walkResult(r, w);
    std::unordered_set<const Expr*> ps;
    for (auto* p : r.parameters()) { if (!ps.insert(p).second) w.no("a placeholder is listed twice"); if (!w.params.count(p)) w.no("a listed parameter is no placeholder of the tree"); }
    if (ps.size() != w.params.size()) w.no("a placeholder of the tree is not listed");
  } catch (const Broken& b) { return b.what; }
  c.count["accepted results walked"]++;
  c.count["nodes checked"] += w.nodes;
  c.count["owned objects checked for unique ownership"] += w.blocks;
  return "";
}
static void r22(Ctx& c) {
  auto f = checker(c);
  mixedStreams(c, 150000, f, 0.3, 0.04 * c.scale);
  Profile p;
  p.starts = {{"script", 2}, {"stmt", 6}, {"select", 8}, {"create", 4}, {"expr", 6}, {"tref", 4}, {"copyto", 1}, {"copyfrom", 1}, {"coldef", 2}, {"func", 2}, {"case", 2}, {"insert", 1}, {"hints", 1}, {"extlit", 1}};
  p.opts.params = 3;
  p.opts.depth = 9;
  streamRandom(c, p, c.n(60000), f);
  p.opts.depth = 5;
  streamRandom(c, p, c.n(60000), f);
  // every expression context with every operand fragment
  static const char* const frag[] = {"a", "t.a", "*", "t.*", "1", "0", "0.0", "1.5", "''", "'x'", "NULL", "TRUE", "FALSE", "?", "DATE '2000-01-01'", "0 DAYS", "INTERVAL '2' HOUR", "INTERVAL '3 MONTHS'", "f()", "f(a)", "f(DISTINCT a, b)", "s.f(a)", "f(a) OVER ()", "f(a) OVER (ORDER BY b)", "f(a) OVER (PARTITION BY b ROWS 1 PRECEDING)",
    "f(a) OVER (GROUPS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)", "(SELECT 1)", "EXISTS (SELECT 1)", "NOT EXISTS (SELECT 1)", "a IN (1)", "a NOT IN (1, 2)", "a IN (SELECT 1)", "a BETWEEN 1 AND 2", "NOT a", "-a", "- -1", "a IS NULL", "a IS NOT NULL", "a ISNULL", "CASE WHEN a THEN b END", "CASE a WHEN b THEN c WHEN d THEN e ELSE f END",
    "ARRAY[a]", "a[0]", "a[1][2]", "EXTRACT(YEAR FROM a)", "CAST(a AS DECIMAL(5,2))", "CAST(a AS VARCHAR(3))", "CAST(a AS TIME(3))", "a AND b", "a OR b", "a LIKE 'x'", "a NOT LIKE 'x'", "a ILIKE 'x'", "a || b", "a % b", "a ^ b"};
  uint64_t k = 0;
  for (int e = 0; e < embedCount(); e++)
    for (const char* x : frag) { if (!c.mine(k++)) continue; if (!f(embedExpr(e, x))) return; if (!f(embedExpr(e, std::string("(") + x + ")"))) return; }
  for (const char* x : frag) for (const char* y : frag) { if (!c.mine(k++)) continue; if (!f("SELECT (" + std::string(x) + ") = (" + y + "), CASE " + x + " WHEN " + y + " THEN " + x + " ELSE " + y + " END, (" + x + ") IN (" + y + ", " + x + ")")) return; }
  streamSweeps(c, kListSweeps, sweepSizes(c, 16, c.thorough ? 4000 : 300), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 16, 60), f);
}
PROPERTY("C22", r22, o22);

// ------------------------------------------------------------------ C23
namespace {
const char* const kOpName[] = {"None", "BETWEEN", "CASE", "CASE LIST ELEMENT", "+", "-", "*", "/", "%", "^", "=", "!=", "<", "<=", ">", ">=", "LIKE", "NOT LIKE", "ILIKE", "AND", "OR", "IN", "CONCAT", "NOT", "-", "IS NULL", "EXISTS"};
const char* const kUnit[] = {"None", "SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
const char* const kTypeName[] = {"UNKNOWN", "BIGINT", "BOOLEAN", "CHAR", "DATE", "DATETIME", "DECIMAL", "DOUBLE", "FLOAT", "INT", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "VARCHAR"};
std::string words(const std::string& s) {  // blank-normalised
  std::string o;
  for (char ch : s) { if (isspace((unsigned char)ch)) { if (!o.empty() && o.back() != ' ') o += ' '; } else o += ch; }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
std::string firstLines(const Expr* e, int n) {
  Capture cap;
  printExpression(const_cast<Expr*>(e), 0);
  std::string o;
  size_t p = 0;
  while (n-- > 0 && p < cap.out.s.size()) { size_t q = cap.out.s.find('\n', p); if (q == std::string::npos) q = cap.out.s.size(); o += words(cap.out.s.substr(p, q - p)) + "|"; p = q + 1; }
  return o;
}
// every type name other than `want` must be absent as a word
std::string typeText(const ColumnType& t) {
  std::ostringstream o;
  o << t;
  return o.str();
}
std::string checkTypeText(const ColumnType& t) {
  int k = (int)t.data_type;
  std::string s = typeText(t), up;
  for (char ch : s) up += (char)toupper((unsigned char)ch);
  if (!occurrences(up, kTypeName[k], 1)) return std::string("a type ") + kTypeName[k] + " prints as " + quoteBytes(s);
  for (int i = 0; i < 16; i++) if (i != k && occurrences(up, kTypeName[i], 1)) return std::string("a type ") + kTypeName[k] + " prints as " + quoteBytes(s);
  if (s != std::string(kTypeName[k]) + (t.data_type == DataType::CHAR || t.data_type == DataType::VARCHAR ? "(" + std::to_string(t.length) + ")" : "")) return std::string("a type ") + kTypeName[k] + " of length " + std::to_string(t.length) + " is streamed as " + quoteBytes(s);
  if ((t.data_type == DataType::CHAR || t.data_type == DataType::VARCHAR) && !occurrences(s, std::to_string(t.length), 1)) return std::string("a type ") + kTypeName[k] + " of length " + std::to_string(t.length) + " prints as " + quoteBytes(s);
  return "";
}
std::string eqCheck(const ColumnType& a, const ColumnType& b) {
  bool same = a.data_type == b.data_type && a.length == b.length && a.precision == b.precision && a.scale == b.scale;
  if ((a == b) != same) return std::string("types ") + typeText(a) + " and " + typeText(b) + (same ? " are not equal" : " are equal") + " although their fields say otherwise";
  if ((a != b) == same) return "inequality of types is not the negation of equality";
  if ((b == a) != same) return "equality of types is not symmetric";
  return "";
}
std::string constraintText(ConstraintType t) { std::ostringstream o; o << t; return o.str(); }
const char* const kConstraint[] = {"FOREIGN KEY", "NOT NULL", "NULL", "PRIMARY KEY", "UNIQUE"};
struct Access : Visitor {
  std::string why;
  uint64_t exprs = 0, tables = 0, types = 0, printed = 0;
  std::vector<ColumnType> cts;
  bool print = false;
  void no(const std::string& w) { if (why.empty()) why = w; }
  void ctype(const ColumnType& t) {
    types++;
    std::string w = checkTypeText(t);
    if (!w.empty()) no(w);
    if (cts.size() < 40) cts.push_back(t);
  }
  void expr(const Expr* e, const char*) override {
    exprs++;
    for (int k = kExprLiteralFloat; k <= kExprCast; k++) if (e->isType((ExprType)k) != (e->type == k)) no("Expr::isType(" + std::to_string(k) + ") is wrong for type " + std::to_string(e->type));
    bool lit = e->type == kExprLiteralFloat || e->type == kExprLiteralString || e->type == kExprLiteralInt || e->type == kExprLiteralNull || e->type == kExprLiteralDate || e->type == kExprLiteralInterval || e->type == kExprParameter;
    if (e->isLiteral() != lit) no("isLiteral is wrong for expression type " + std::to_string(e->type));
    if (e->hasAlias() != (e->alias != nullptr)) no("hasAlias does not match the field");
    if (e->hasTable() != (e->table != nullptr)) no("hasTable does not match the field");
    if (e->getName() != (e->alias ? e->alias : e->name)) no(std::string("Expr::getName returns ") + (e->getName() ? e->getName() : "(null)"));
    if (e->type == kExprCast) ctype(e->columnType);
    if (!print) return;
    if (e->type == kExprOperator) {
      printed++;
      std::string l = firstLines(e, 1);
      if (l != std::string(kOpName[e->opType]) + "|") no(std::string("operator ") + kOpName[e->opType] + " prints as " + quoteBytes(l));
    } else if (e->type == kExprExtract || e->type == kExprLiteralInterval) {
      printed++;
      std::string l = "|" + firstLines(e, e->type == kExprExtract ? 2 : 3);  // the operand, which may be named like a unit, follows
      for (int i = 1; i < 7; i++) if ((l.find(std::string("|") + kUnit[i] + "|") != std::string::npos) != ((int)e->datetimeField == i)) no(std::string("unit ") + kUnit[e->datetimeField] + " prints as " + quoteBytes(l));
      if (e->type == kExprLiteralInterval && l.find("|" + std::to_string(e->ival) + "|") == std::string::npos) no("an interval of " + std::to_string(e->ival) + " prints as " + quoteBytes(l));
    } else if (e->type == kExprCast) {
      printed++;
      std::string l = firstLines(e, 2);
      if (l.find(words(typeText(e->columnType))) == std::string::npos) no("cast to " + typeText(e->columnType) + " prints as " + quoteBytes(l));
    } else if (e->type == kExprFunctionRef && e->windowDescription) {
      Capture cap;
      printWindowDescription(e->windowDescription, 0);
      std::string s = " " + words(cap.out.s) + " ";
      auto* f = e->windowDescription->frameDescription;
      auto bound = [](const FrameBound* b) { return b->type == kCurrentRow ? std::string("CURRENT ROW") : (b->unbounded ? std::string("UNBOUNDED") : std::to_string(b->offset)) + (b->type == kPreceding ? " PRECEDING" : " FOLLOWING"); };
      static const char* const ft[] = {"RANGE", "ROWS", "GROUPS"};
      std::string want = std::string(" ") + ft[f->type] + " BETWEEN " + bound(f->start) + " AND " + bound(f->end) + " ";
      printed++;
      if (s.size() < want.size() || s.compare(s.size() - want.size(), want.size(), want)) no("a window frame" + want + "prints as " + quoteBytes(s.substr(s.size() > 120 ? s.size() - 120 : 0)));
    }
  }
  void table(const TableRef* t, const char*) override {
    tables++;
    if (t->hasSchema() != (t->schema != nullptr)) no("hasSchema does not match the field");
    const char* want = t->alias ? t->alias->name : t->name;
    if (t->getName() != want) no(std::string("TableRef::getName returns ") + (t->getName() ? t->getName() : "(null)"));
  }
  void statement(const SQLStatement* s, const char*) override {
    for (int k = kStmtError; k <= kStmtTransaction; k++) {
      bool is = s->type() == k;
      if (s->isType((StatementType)k) != is || s->is((StatementType)k) != is) no("SQLStatement::isType/is(" + std::to_string(k) + ") is wrong for type " + std::to_string(s->type()));
    }
    bool kindOk = true;
    switch (s->type()) {
      case kStmtSelect: kindOk = dynamic_cast<const SelectStatement*>(s); break;
      case kStmtImport: kindOk = dynamic_cast<const ImportStatement*>(s); break;
      case kStmtInsert: kindOk = dynamic_cast<const InsertStatement*>(s); break;
      case kStmtUpdate: kindOk = dynamic_cast<const UpdateStatement*>(s); break;
      case kStmtDelete: kindOk = dynamic_cast<const DeleteStatement*>(s); break;
      case kStmtCreate: kindOk = dynamic_cast<const CreateStatement*>(s); break;
      case kStmtDrop: kindOk = dynamic_cast<const DropStatement*>(s); break;
      case kStmtPrepare: kindOk = dynamic_cast<const PrepareStatement*>(s); break;
      case kStmtExecute: kindOk = dynamic_cast<const ExecuteStatement*>(s); break;
      case kStmtExport: kindOk = dynamic_cast<const ExportStatement*>(s); break;
      case kStmtAlter: kindOk = dynamic_cast<const AlterStatement*>(s); break;
      case kStmtShow: kindOk = dynamic_cast<const ShowStatement*>(s); break;
      case kStmtTransaction: kindOk = dynamic_cast<const TransactionStatement*>(s); break;
      default: kindOk = false;
    }
    if (!kindOk) no("type() " + std::to_string(s->type()) + " does not match the dynamic type of the statement");
    if (s->type() == kStmtCreate && kindOk) {
      auto* x = (const CreateStatement*)s;
      if (x->columns) for (auto* d : *x->columns) { ctype(d->type); for (auto k : *d->column_constraints) if (constraintText(k) != kConstraint[(int)k]) no(std::string("constraint ") + kConstraint[(int)k] + " prints as " + quoteBytes(constraintText(k))); }
      if (x->tableConstraints) for (auto* k : *x->tableConstraints) if (constraintText(k->type) != kConstraint[(int)k->type]) no(std::string("constraint ") + kConstraint[(int)k->type] + " prints as " + quoteBytes(constraintText(k->type)));
    }
  }
};
}  // namespace
static std::string o23(Ctx& c, const std::string& t) {
  SQLParserResult r;
  SQLParser::parse(t, &r);
  // accessors of the result agree whatever the outcome
  const SQLParserResult& q = r;
  if (q.size() != q.getStatements().size()) return "size() and getStatements() disagree";
  for (size_t i = 0; i < q.size(); i++) if (q.getStatement(i) != q.getStatements()[i] || r.getMutableStatement(i) != q.getStatements()[i]) return "getStatement(" + std::to_string(i) + ") is not the statement of that index";
  if (!r.isValid()) return "";
  c.nt = true;
  Access a;
  a.print = t.size() < 1500;
  walkResult(r, a);
  c.count["expressions"] += a.exprs;
  c.count["tables"] += a.tables;
  c.count["types"] += a.types;
  c.count["operators, units, frames printed"] += a.printed;
  if (!a.why.empty()) return a.why;
  for (size_t i = 0; i < a.cts.size(); i++)
    for (size_t j = 0; j < a.cts.size(); j++) { c.count["type pairs compared"]++; std::string w = eqCheck(a.cts[i], a.cts[j]); if (!w.empty()) return w; }
  return "";
}
static void r23(Ctx& c) {
  auto f = checker(c);
  // type comparison and printing on values of all kinds, also those no text produces
  const int64_t vals[] = {0, 1, 2, 5, 10, -1, 255, 256, 65536, 4294967296ll, 4294967297ll, INT64_MAX, INT64_MIN, 1ll << 53, (1ll << 32) + 5};
  auto val = [&] { return c.rng.chance(1, 3) ? 0 : c.rng.chance(1, 2) ? vals[c.rng.below(15)] : (int64_t)c.rng.below(30); };
  for (size_t i = c.n(400000); i && !c.failed; i--) {
    ColumnType a((DataType)c.rng.below(16), val(), val(), val()), b = a;
    std::string w;
    switch (c.rng.below(6)) {
      case 0: b.data_type = (DataType)c.rng.below(16); break;
      case 1: b.length = c.rng.chance(1, 3) ? a.length ^ (1ll << c.rng.below(64)) : val(); break;
      case 2: b.precision = c.rng.chance(1, 3) ? a.precision ^ (1ll << c.rng.below(64)) : val(); break;
      case 3: b.scale = c.rng.chance(1, 3) ? a.scale ^ (1ll << c.rng.below(64)) : val(); break;
      case 4: b = ColumnType((DataType)c.rng.below(16), val(), val(), val()); break;
      default: switch (c.rng.below(3)) { case 0: std::swap(b.length, b.precision); break; case 1: std::swap(b.precision, b.scale); break; default: std::swap(b.length, b.scale); } break;
    }
    w = eqCheck(a, b);
    if (w.empty() && a.length >= 0) w = checkTypeText(a);
    c.tally("type " + std::to_string((int)a.data_type) + "/" + std::to_string(a.length) + "/" + std::to_string(a.precision) + "/" + std::to_string(a.scale) + " vs " + std::to_string((int)b.data_type) + "/" + std::to_string(b.length) + "/" + std::to_string(b.precision) + "/" + std::to_string(b.scale), true);
    c.count["synthetic type pairs"]++;
    if (!w.empty()) { c.noShrink = true; c.fail(w, "-- ColumnType comparison/printing"); return; }
  }
  for (int i = 0; i < 5; i++) if (constraintText((ConstraintType)i) != kConstraint[i]) { c.fail(std::string("constraint ") + kConstraint[i] + " prints as " + constraintText((ConstraintType)i), "-- ConstraintType printing"); return; }
  // the accessors of nodes that are made directly, in all combinations of the fields they read
  for (int k = kExprLiteralFloat; k <= kExprCast; k++)
    for (int m = 0; m < 16; m++) {
      Expr* e = Expr::make((ExprType)k);
      if (m & 1) e->alias = strdup("al");
      if (m & 2) e->table = strdup("tb");
      if (m & 4) e->name = strdup("nm");
      if (m & 8) e->alias = (free(e->alias), strdup(""));
      Access a;
      a.expr(e, "");
      std::string w = a.why;
      delete e;
      if (!w.empty()) { c.fail(w, "-- expression made directly"); return; }
    }
  auto nameOf = [&]() -> char* {
    static const char* const w[] = {"", "a", "A", "_", "_x", " ", "\"", "x y", "name", "*", "0", "\n", "al", "nm"};
    return c.rng.chance(1, 3) && !c.dict.hotWords.empty() ? strdup(c.rng.pick(c.dict.hotWords).c_str()) : c.rng.chance(1, 3) ? strdup(std::string(1 + c.rng.below(70), (char)('a' + c.rng.below(26))).c_str()) : strdup(w[c.rng.below(14)]);
  };
  auto numOf = [&]() -> int64_t { return c.rng.chance(1, 3) && !c.dict.hotNums.empty() ? (int64_t)c.rng.pick(c.dict.hotNums) : vals[c.rng.below(15)]; };
  for (size_t i = c.n(160000); i && !c.failed; i--) {
    Expr* e = Expr::make((ExprType)(kExprLiteralFloat + c.rng.below(kExprCast - kExprLiteralFloat + 1)));
    if (c.rng.chance(1, 2)) e->alias = nameOf();
    if (c.rng.chance(1, 2)) e->table = nameOf();
    if (c.rng.chance(1, 2)) e->name = c.rng.chance(1, 4) && e->alias ? strdup(e->alias) : nameOf();
    if (c.rng.chance(1, 3)) e->schema = nameOf();
    if (c.rng.chance(1, 3)) e->ival = numOf() & INT64_MAX;
    if (c.rng.chance(1, 6)) e->ival = -5;
    if (c.rng.chance(1, 3)) e->fval = (double)numOf();
    if (c.rng.chance(1, 3)) e->distinct = true;
    if (c.rng.chance(1, 3)) e->isBoolLiteral = true;
    if (c.rng.chance(1, 2)) e->datetimeField = (DatetimeField)c.rng.below(7);
    if (c.rng.chance(1, 2)) e->opType = (OperatorType)c.rng.below(27);
    if (c.rng.chance(1, 3)) { e->exprList = new std::vector<Expr*>(); for (size_t q = c.rng.below(4); q--;) e->exprList->push_back(Expr::makeStar()); }
    if (c.rng.chance(1, 4)) e->expr = Expr::makeNullLiteral();
    if (c.rng.chance(1, 4)) e->expr2 = Expr::makeNullLiteral();
    if (e->type == kExprCast) e->columnType = ColumnType((DataType)c.rng.below(16), 3, 4, 5);
    Access a;
    a.expr(e, "");
    std::string w = a.why;
    c.count["expressions made directly"]++;
    delete e;
    if (!w.empty()) { c.noShrink = true; c.fail(w, "-- expression made directly"); return; }
  }
  for (size_t i = c.n(80000); i && !c.failed; i--) {
    TableRef t((TableRefType)c.rng.below(4));
    if (c.rng.chance(1, 2)) t.schema = nameOf();
    if (c.rng.chance(1, 2)) t.name = nameOf();
    if (c.rng.chance(1, 2)) {
      std::vector<char*>* cols = nullptr;
      if (c.rng.chance(1, 2)) { cols = new std::vector<char*>(); for (size_t q = c.rng.below(5); q--;) cols->push_back(nameOf()); }
      t.alias = new Alias(c.rng.chance(1, 4) && t.name ? strdup(t.name) : nameOf(), cols);
    }
    if (t.type == kTableSelect && c.rng.chance(1, 2)) t.select = new SelectStatement();
    if (t.type == kTableCrossProduct && c.rng.chance(1, 2)) t.list = new std::vector<TableRef*>();
    if (t.type == kTableJoin && c.rng.chance(1, 2)) t.join = new JoinDefinition();
    Access a;
    a.table(&t, "");
    c.count["tables made directly"]++;
    if (!a.why.empty()) { c.noShrink = true; c.fail(a.why, "-- table made directly"); return; }
  }
  Profile p;
  p.starts = {{"script", 3}, {"stmt", 8}, {"select", 6}, {"create", 6}, {"expr", 8}, {"tref", 4}, {"func", 4}, {"case", 1}, {"coldef", 3}, {"ctype", 0}, {"inx", 1}, {"exists", 1}, {"ivlit", 2}};
  p.starts.erase(p.starts.begin() + 9);
  streamCorpus(c, f);
  streamRandom(c, p, c.n(100000), f);
  p.mutTok = 100;
  streamRandom(c, p, c.n(20000), f);
  streamEdits(c, 0.02 * c.scale, f);
  static const char* const ty[] = {"BIGINT", "BOOLEAN", "CHAR(3)", "CHAR(0)", "CHARACTER VARYING(7)", "DATE", "DATETIME", "DECIMAL", "DECIMAL(4)", "DECIMAL(4,2)", "DECIMAL(2,4)", "DECIMAL(0,0)", "DOUBLE", "FLOAT", "INT", "INTEGER", "LONG", "REAL", "SMALLINT", "TEXT", "TIME", "TIME(4)", "TIMESTAMP", "VARCHAR(3)", "VARCHAR(4)", "VARCHAR(9223372036854775807)", "VARCHAR(4294967299)"};
  uint64_t k = 0;
  for (const char* x : ty) for (const char* y : ty) { if (c.mine(k++) && !f(std::string("CREATE TABLE t (a ") + x + ", b " + y + "); SELECT CAST(a AS " + x + "), CAST(b AS " + y + ")")) return; }
  static const char* const un[] = {"SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR"};
  for (const char* x : un) if (!f(std::string("SELECT EXTRACT(") + x + " FROM a), INTERVAL '3' " + x + ", INTERVAL '4 " + x + "S', 5 " + x + ", 6 " + x + "S")) return;
  static const char* const fr[] = {"RANGE", "ROWS", "GROUPS"};
  static const char* const bd[] = {"UNBOUNDED PRECEDING", "UNBOUNDED FOLLOWING", "0 PRECEDING", "3 PRECEDING", "0 FOLLOWING", "9223372036854775807 FOLLOWING", "CURRENT ROW"};
  for (const char* x : fr) for (const char* y : bd) { if (!f(std::string("SELECT f(a) OVER (") + x + " " + y + ")")) return; for (const char* z : bd) if (c.mine(k++) && !f(std::string("SELECT f(a) OVER (ORDER BY b ") + x + " BETWEEN " + y + " AND " + z + ")")) return; }
  streamSweeps(c, kListSweeps, sweepSizes(c, 8, 70), f);
}
PROPERTY("C23", r23, o23);
