// C25: a parse that cannot be set up is reported. C26: nodes built by hand through the public constructors behave like parsed ones.
#include "rt.h"
#include "util.h"
#include "raw.h"
#include "walk.h"
#include "sql/statements.h"
#include "sql/AlterStatement.h"
#ifndef VF_PUBLIC_ONLY
#include "sql/ImportExportOptions.h"
#endif
using namespace hsql;

// whatever the width of the parameter is declared as
template <typename T> auto mkInt_(T v, int) -> decltype(Expr::makeLiteral(v)) { return Expr::makeLiteral(v); }
template <typename T> Expr* mkInt_(T v, long) { return Expr::makeLiteral((std::conditional_t<true, int, T>)v); }
static Expr* mkInt(int64_t v) { return mkInt_(v, 0); }
template <typename T> auto mkFloat_(T v, int) -> decltype(Expr::makeLiteral(v)) { return Expr::makeLiteral(v); }
template <typename T> Expr* mkFloat_(T v, long) { return Expr::makeLiteral((std::conditional_t<true, float, T>)v); }
static Expr* mkFloat(double v) { return mkFloat_(v, 0); }

// ------------------------------------------------------------------ C25
static std::string o25(Ctx& c, const std::string& t) {
  static std::string other = "SELECT a FROM t WHERE b = ?";
  static uint64_t turn = 0;
  turn++;
  Capture cap;  // the message goes to the standard error stream; nothing may go to standard output
  std::string want;
  std::vector<int16_t> wantTok;
  { SQLParserResult r; SQLParser::parse(t, &r); want = dumpResult(r); SQLParser::tokenize(t, &wantTok); }
  long live[3];
  for (int round = 0; round < 3; round++) {
    std::string bad, got;
    bool injected = false;
    rt::begin();
    {
      SQLParserResult r;
      if (turn % 3 == 1) { SQLParser::parse(other, &r); r.reset(); }
      rt::failNext(1);
      bool ok = turn % 4 == 3 ? SQLParser::parseSQLString(t, &r) : SQLParser::parse(t, &r);
      injected = rt::failed();
      rt::failNext(0);
      if (injected) {
        if (ok) bad = "parse returns true although the scanner could not be set up";
        else if (r.isValid()) bad = "the result is valid although the scanner could not be set up";
        else if (r.size() || !r.parameters().empty()) bad = "the result holds statements or parameters although the scanner could not be set up";
      }
    }
    rt::end();
    live[round] = rt::live();
    if (!injected) { c.count["set-up without allocation (not decided)"]++; return ""; }
    if (!bad.empty()) return bad;
    {
      // the failure leaves nothing behind: the same result takes the next parse
      SQLParserResult r;
      rt::failNext(1);
      SQLParser::parse(t, &r);
      rt::failNext(0);
      SQLParser::parse(t, &r);
      got = dumpResult(r);
    }
    if (got != want) return "after a parse that could not be set up the same text gives another result: " + firstDiff(want, got);
    c.count["failed set-ups of parse reported"]++;
    std::vector<int16_t> v = {7, 8};
    rt::failNext(1);
    bool ok = SQLParser::tokenize(t, &v);
    injected = rt::failed();
    rt::failNext(0);
    if (injected) {
      if (ok) return "tokenize returns true although the scanner could not be set up";
      if (v.size() != 2 || v[0] != 7 || v[1] != 8) return "tokenize changes the vector although the scanner could not be set up";
      std::vector<int16_t> w;
      if (!SQLParser::tokenize(t, &w) || w != wantTok) return "after a tokenize that could not be set up the same text gives other tokens";
      c.count["failed set-ups of tokenize reported"]++;
    }
  }
  if (live[1] > 0 && live[2] > 0) return "a parse that could not be set up leaves " + std::to_string(live[2]) + " heap blocks";
  // calls from several entry points answer true otherwise, whatever the text
  {
    SQLParserResult a, b;
    if (!SQLParser::parse(t, &a)) return "parse returns false";
    if (!SQLParser::parseSQLString(t, &b)) return "parseSQLString returns false";
    std::vector<int16_t> v;
    if (!SQLParser::tokenize(t, &v)) return "tokenize returns false";
  }
  if (!cap.out.s.empty()) return "something is written to standard output: " + cap.out.s.substr(0, 100);
  c.nt = !t.empty();
  if (!t.empty() && t.size() < 300) other = t;
  return "";
}
static void r25(Ctx& c) {
  auto f = checker(c);
  mixedStreams(c, 16000, f, 0.3, 0.01 * c.scale);
  streamSweeps(c, kListSweeps, sweepSizes(c, 4, 60), f);
  streamSweeps(c, kDepthSweeps, {30, 60, 90}, f);
}
PROPERTY("C25", r25, o25);

#ifndef VF_WITHOUT_C26
// ------------------------------------------------------------------ C26
namespace {
char* dup(const char* s) { return s ? strdup(s) : nullptr; }
// Deep copies through the public constructors and factories and assignments to public fields only.
struct Copy {
  uint64_t nodes = 0;
  Rng* r = nullptr;  // chooses between equivalent ways
  bool coin() { return r->chance(1, 2); }
  std::vector<char*>* strs(const std::vector<char*>* v) { if (!v) return nullptr; auto* o = new std::vector<char*>(); for (auto* s : *v) o->push_back(dup(s)); return o; }
  std::vector<Expr*>* exprs(const std::vector<Expr*>* v) { if (!v) return nullptr; auto* o = new std::vector<Expr*>(); for (auto* e : *v) o->push_back(expr(e)); return o; }
  std::vector<OrderDescription*>* orders(const std::vector<OrderDescription*>* v) { if (!v) return nullptr; auto* o = new std::vector<OrderDescription*>(); for (auto* d : *v) { nodes++; o->push_back(new OrderDescription(d->type, expr(d->expr), d->null_ordering)); } return o; }
  LimitDescription* limit(const LimitDescription* d) { return d ? new LimitDescription(expr(d->limit), expr(d->offset)) : nullptr; }
  Alias* alias(const Alias* a) { if (!a) return nullptr; nodes++; return a->columns ? new Alias(dup(a->name), strs(a->columns)) : new Alias(dup(a->name)); }
  FrameBound* bound(const FrameBound* b) { return b ? new FrameBound(b->offset, b->type, b->unbounded) : nullptr; }
  WindowDescription* window(const WindowDescription* w) {
    if (!w) return nullptr;
    nodes++;
    auto* f = w->frameDescription;
    return new WindowDescription(exprs(w->partitionList), orders(w->orderList), f ? new FrameDescription(f->type, bound(f->start), bound(f->end)) : nullptr);
  }
  Expr* plain(const Expr* e) {
    Expr* o = coin() ? new Expr(e->type) : Expr::make(e->type);
    o->expr = expr(e->expr); o->expr2 = expr(e->expr2); o->exprList = exprs(e->exprList); o->select = select(e->select);
    o->name = dup(e->name); o->table = dup(e->table); o->schema = dup(e->schema); o->alias = dup(e->alias);
    o->fval = e->fval; o->ival = e->ival; o->ival2 = e->ival2; o->datetimeField = e->datetimeField; o->columnType = e->columnType;
    o->isBoolLiteral = e->isBoolLiteral; o->opType = e->opType; o->distinct = e->distinct; o->windowDescription = window(e->windowDescription);
    return o;
  }
  Expr* expr(const Expr* e) {
    if (!e) return nullptr;
    nodes++;
    if (r->chance(1, 4)) return plain(e);
    Expr* o = nullptr;
    switch (e->type) {
      case kExprLiteralFloat: o = mkFloat(e->fval); break;
      case kExprLiteralString: o = Expr::makeLiteral(dup(e->name)); break;
      case kExprLiteralInt: o = e->isBoolLiteral ? Expr::makeLiteral(e->ival != 0) : mkInt(e->ival); break;
      case kExprLiteralNull: o = Expr::makeNullLiteral(); break;
      case kExprLiteralDate: o = Expr::makeDateLiteral(dup(e->name)); break;
      case kExprLiteralInterval: o = Expr::makeIntervalLiteral(e->ival, e->datetimeField); break;
      case kExprStar: o = e->table ? Expr::makeStar(dup(e->table)) : Expr::makeStar(); break;
      case kExprParameter: if (e->ival < 0 || e->ival > 1000000000) return plain(e); o = Expr::makeParameter((int)e->ival); o->ival2 = e->ival2; break;
      case kExprColumnRef: o = e->table ? Expr::makeColumnRef(dup(e->table), dup(e->name)) : Expr::makeColumnRef(dup(e->name)); break;
      case kExprFunctionRef: o = e->schema || coin() ? Expr::makeFunctionRef(dup(e->name), dup(e->schema), exprs(e->exprList), e->distinct, window(e->windowDescription)) : Expr::makeFunctionRef(dup(e->name), exprs(e->exprList), e->distinct, window(e->windowDescription)); break;
      case kExprSelect: o = Expr::makeSelect(select(e->select)); break;
      case kExprArray: o = Expr::makeArray(exprs(e->exprList)); break;
      case kExprArrayIndex: o = Expr::makeArrayIndex(expr(e->expr), e->ival); break;
      case kExprExtract: o = Expr::makeExtract(e->datetimeField, expr(e->expr)); break;
      case kExprCast: o = Expr::makeCast(expr(e->expr), e->columnType); break;
      case kExprOperator:
        switch (e->opType) {
          case kOpBetween: if (!e->exprList || e->exprList->size() != 2) return plain(e); o = Expr::makeBetween(expr(e->expr), expr((*e->exprList)[0]), expr((*e->exprList)[1])); break;
          case kOpCase: {
            if (!e->exprList || e->exprList->empty()) return plain(e);
            Expr* l = nullptr;
            for (auto* x : *e->exprList) { Expr* y = x->opType == kOpCaseListElement ? Expr::makeCaseListElement(expr(x->expr), expr(x->expr2)) : expr(x); if (l) l = Expr::caseListAppend(l, y); else l = Expr::makeCaseList(y); }
            o = Expr::makeCase(expr(e->expr), l, expr(e->expr2));
            break;
          }
          case kOpExists: o = Expr::makeExists(select(e->select)); break;
          case kOpIn: o = e->select ? Expr::makeInOperator(expr(e->expr), select(e->select)) : Expr::makeInOperator(expr(e->expr), exprs(e->exprList)); break;
          default: o = e->expr2 ? Expr::makeOpBinary(expr(e->expr), e->opType, expr(e->expr2)) : Expr::makeOpUnary(e->opType, expr(e->expr));
        }
        break;
      default: return plain(e);
    }
    o->alias = dup(e->alias);
    return o;
  }
  TableRef* table(const TableRef* t) {
    if (!t) return nullptr;
    nodes++;
    auto* o = new TableRef(t->type);
    o->schema = dup(t->schema); o->name = dup(t->name); o->alias = alias(t->alias); o->select = select(t->select);
    if (t->list) { o->list = new std::vector<TableRef*>(); for (auto* x : *t->list) o->list->push_back(table(x)); }
    if (auto* j = t->join) { auto* k = new JoinDefinition(); if (j->type != kJoinInner || coin()) k->type = j->type; k->left = table(j->left); k->right = table(j->right); k->condition = expr(j->condition); k->namedColumns = strs(j->namedColumns); o->join = k; }
    return o;
  }
  SelectStatement* select(const SelectStatement* s) {
    if (!s) return nullptr;
    nodes++;
    auto* o = new SelectStatement();
    o->hints = exprs(s->hints);
    o->fromTable = table(s->fromTable);
    if (s->selectDistinct) o->selectDistinct = true;
    o->selectList = exprs(s->selectList);
    o->whereClause = expr(s->whereClause);
    if (auto* g = s->groupBy) { o->groupBy = new GroupByDescription(); o->groupBy->columns = exprs(g->columns); o->groupBy->having = expr(g->having); }
    if (s->setOperations) {
      o->setOperations = new std::vector<SetOperation*>();
      for (auto* x : *s->setOperations) { auto* y = new SetOperation(); y->setType = x->setType; if (x->isAll) y->isAll = true; y->nestedSelectStatement = select(x->nestedSelectStatement); y->resultOrder = orders(x->resultOrder); y->resultLimit = limit(x->resultLimit); o->setOperations->push_back(y); }
    }
    o->order = orders(s->order);
    if (s->withDescriptions) { o->withDescriptions = new std::vector<WithDescription*>(); for (auto* w : *s->withDescriptions) { auto* y = new WithDescription(); y->alias = dup(w->alias); y->select = select(w->select); o->withDescriptions->push_back(y); } }
    o->limit = limit(s->limit);
    if (s->lockings) { o->lockings = new std::vector<LockingClause*>(); for (auto* l : *s->lockings) { auto* y = new LockingClause(); y->rowLockMode = l->rowLockMode; y->rowLockWaitPolicy = l->rowLockWaitPolicy; y->tables = strs(l->tables); o->lockings->push_back(y); } }
    return o;
  }
  CsvOptions* csv(const CsvOptions* c) {
    if (!c) return nullptr;
    auto* o = new CsvOptions();
    o->delimiter = dup(c->delimiter); o->null = dup(c->null); o->quote = dup(c->quote);
    return o;
  }
  bool refused = false;
  ReferencesSpecification* refs(const ReferencesSpecification* r) { return r ? new ReferencesSpecification(dup(r->schema), dup(r->table), strs(r->columns)) : nullptr; }
  SQLStatement* stmt(const SQLStatement* s) {
    SQLStatement* n = nullptr;
    nodes++;
    switch (s->type()) {
      case kStmtSelect: n = select((const SelectStatement*)s); n->stringLength = s->stringLength; return n;
      case kStmtImport: { auto* x = (const ImportStatement*)s; auto* o = new ImportStatement(x->type); o->filePath = dup(x->filePath); o->schema = dup(x->schema); o->tableName = dup(x->tableName); o->whereClause = expr(x->whereClause); o->encoding = dup(x->encoding); o->csv_options = csv(x->csv_options); n = o; break; }
      case kStmtExport: { auto* x = (const ExportStatement*)s; auto* o = new ExportStatement(x->type); o->filePath = dup(x->filePath); o->schema = dup(x->schema); o->tableName = dup(x->tableName); o->select = select(x->select); o->encoding = dup(x->encoding); o->csv_options = csv(x->csv_options); n = o; break; }
      case kStmtInsert: { auto* x = (const InsertStatement*)s; auto* o = new InsertStatement(x->type); o->schema = dup(x->schema); o->tableName = dup(x->tableName); o->columns = strs(x->columns); o->values = exprs(x->values); o->select = select(x->select); n = o; break; }
      case kStmtUpdate: {
        auto* x = (const UpdateStatement*)s;
        auto* o = new UpdateStatement();
        o->table = table(x->table);
        if (x->updates) { o->updates = new std::vector<UpdateClause*>(); for (auto* u : *x->updates) { auto* y = new UpdateClause(); y->column = dup(u->column); y->value = expr(u->value); o->updates->push_back(y); } }
        o->where = expr(x->where);
        n = o;
        break;
      }
      case kStmtDelete: { auto* x = (const DeleteStatement*)s; auto* o = new DeleteStatement(); o->schema = dup(x->schema); o->tableName = dup(x->tableName); o->expr = expr(x->expr); n = o; break; }
      case kStmtCreate: {
        auto* x = (const CreateStatement*)s;
        auto* o = new CreateStatement(x->type);
        if (x->ifNotExists) o->ifNotExists = true;
        o->filePath = dup(x->filePath); o->schema = dup(x->schema); o->tableName = dup(x->tableName); o->indexName = dup(x->indexName);
        o->indexColumns = strs(x->indexColumns); o->viewColumns = strs(x->viewColumns); o->select = select(x->select);
        if (x->columns && x->tableConstraints) {
          // through the list of table elements, columns and constraints interleaved
          std::vector<TableElement*> el;
          size_t i = 0, k = 0;
          while (i < x->columns->size() || k < x->tableConstraints->size()) {
            if (i < x->columns->size() && (k == x->tableConstraints->size() || coin())) {
              auto* c = (*x->columns)[i++];
              std::unordered_set<ConstraintType>* cs = nullptr;
              std::vector<ReferencesSpecification*>* rf = nullptr;
              if (c->column_constraints) cs = new std::unordered_set<ConstraintType>(*c->column_constraints);
              if (c->references) { rf = new std::vector<ReferencesSpecification*>(); for (auto* q : *c->references) rf->push_back(refs(q)); }
              auto* d = new ColumnDefinition(dup(c->name), c->type, cs, rf);
              if (d->nullable != true) refused = true;
              if (cs && coin()) { if (!d->trySetNullableExplicit()) refused = true; } else d->nullable = c->nullable;
              el.push_back(d);
            } else {
              auto* c = (*x->tableConstraints)[k++];
              if (auto* fk = dynamic_cast<const ForeignKeyConstraint*>(c)) el.push_back(new ForeignKeyConstraint(strs(fk->columnNames), refs(fk->references)));
              else el.push_back(new TableConstraint(c->type, strs(c->columnNames)));
            }
            nodes++;
          }
          o->setColumnDefsAndConstraints(&el);
        } else if (x->columns || x->tableConstraints) refused = true;
        n = o;
        break;
      }
      case kStmtDrop: { auto* x = (const DropStatement*)s; auto* o = new DropStatement(x->type); if (x->ifExists) o->ifExists = true; o->schema = dup(x->schema); o->name = dup(x->name); o->indexName = dup(x->indexName); n = o; break; }
      case kStmtPrepare: { auto* x = (const PrepareStatement*)s; auto* o = new PrepareStatement(); o->name = dup(x->name); o->query = dup(x->query); n = o; break; }
      case kStmtExecute: { auto* x = (const ExecuteStatement*)s; auto* o = new ExecuteStatement(); o->name = dup(x->name); o->parameters = exprs(x->parameters); n = o; break; }
      case kStmtAlter: {
        auto* x = (const AlterStatement*)s;
        auto* d = dynamic_cast<const DropColumnAction*>(x->action);
        DropColumnAction* a = d ? new DropColumnAction(dup(d->columnName)) : nullptr;
        if (d && d->ifExists) a->ifExists = true;
        auto* o = new AlterStatement(dup(x->name), a);
        o->schema = dup(x->schema);
        if (x->ifTableExists) o->ifTableExists = true;
        n = o;
        break;
      }
      case kStmtShow: { auto* x = (const ShowStatement*)s; auto* o = new ShowStatement(x->type); o->schema = dup(x->schema); o->name = dup(x->name); n = o; break; }
      case kStmtTransaction: n = new TransactionStatement(((const TransactionStatement*)s)->command); break;
      default: return nullptr;
    }
    n->hints = exprs(s->hints);
    n->stringLength = s->stringLength;
    return n;
  }
};

// Fills empty owned fields of a tree: whatever a node owns it has to dispose of, whatever its kind.
struct Stuff : Visitor {
  Rng& r;
  uint64_t n = 0;
  std::vector<Expr*> es;
  std::vector<TableRef*> ts;
  std::vector<SelectStatement*> ss;
  std::vector<SQLStatement*> st;
  explicit Stuff(Rng& q) : r(q) {}
  void expr(const Expr* e, const char*) override { es.push_back((Expr*)e); }
  void table(const TableRef* t, const char*) override { ts.push_back((TableRef*)t); }
  void select(const SelectStatement* s, const char*) override { ss.push_back((SelectStatement*)s); }
  void statement(const SQLStatement* s, const char*) override { st.push_back((SQLStatement*)s); }
  bool go() { if (r.chance(1, 3)) { n++; return true; } return false; }
  void s(char*& p) { if (!p && go()) p = strdup("extra"); }
  void e(Expr*& p) { if (!p && go()) p = Expr::makeOpBinary(Expr::makeColumnRef(strdup("x")), kOpPlus, mkInt((int64_t)5)); }
  void v(std::vector<Expr*>*& p) { if (!p && go()) p = new std::vector<Expr*>{Expr::makeLiteral(strdup("el")), Expr::makeStar(strdup("tb"))}; }
  void q(SelectStatement*& p) { if (!p && go()) { p = new SelectStatement(); p->selectList = new std::vector<Expr*>{Expr::makeNullLiteral()}; } }
  void vs(std::vector<char*>*& p) { if (!p && go()) p = new std::vector<char*>{strdup("c1"), strdup("c2")}; }
  void od(std::vector<OrderDescription*>*& p) { if (!p && go()) p = new std::vector<OrderDescription*>{new OrderDescription(kOrderAsc, Expr::makeLiteral(1.5), Undefined)}; }
  void lim(LimitDescription*& p) { if (!p && go()) p = new LimitDescription(mkInt((int64_t)1), mkInt((int64_t)2)); }
  void csv(CsvOptions*& p) { if (!p && go()) { p = new CsvOptions(); s(p->delimiter); s(p->null); s(p->quote); } }
  void run() {
    for (auto* x : es) {
      e(x->expr2); v(x->exprList); q(x->select); s(x->name); s(x->table); s(x->schema); s(x->alias);
      if (!x->expr && go()) x->expr = Expr::makeLiteral(true);
      if (!x->windowDescription && go()) x->windowDescription = new WindowDescription(r.chance(1, 2) ? new std::vector<Expr*>{Expr::makeColumnRef(strdup("p"))} : nullptr, r.chance(1, 2) ? new std::vector<OrderDescription*>{new OrderDescription(kOrderDesc, Expr::makeColumnRef(strdup("o")), Last)} : nullptr, r.chance(1, 2) ? new FrameDescription(kRows, new FrameBound(1, kPreceding, false), new FrameBound(0, kCurrentRow, false)) : nullptr);
    }
    for (auto* x : ts) {
      s(x->schema); s(x->name); q(x->select);
      if (!x->alias && go()) x->alias = new Alias(strdup("al"), r.chance(1, 2) ? new std::vector<char*>{strdup("ac")} : nullptr);
      if (!x->list && go()) x->list = new std::vector<TableRef*>{new TableRef(kTableName)};
      if (x->join) { e(x->join->condition); vs(x->join->namedColumns); }
      else if (go()) { x->join = new JoinDefinition(); if (r.chance(1, 2)) x->join->right = new TableRef(kTableName); if (r.chance(1, 2)) { x->join->left = new TableRef(kTableName); x->join->left->name = strdup("lt"); } vs(x->join->namedColumns); }
    }
    for (auto* x : ss) {
      if (!x->fromTable && go()) x->fromTable = new TableRef(kTableName);
      v(x->selectList); e(x->whereClause); od(x->order); lim(x->limit); v(x->hints);
      if (!x->groupBy && go()) { x->groupBy = new GroupByDescription(); v(x->groupBy->columns); e(x->groupBy->having); }
      if (!x->setOperations && go()) { auto* o = new SetOperation(); q(o->nestedSelectStatement); od(o->resultOrder); lim(o->resultLimit); x->setOperations = new std::vector<SetOperation*>{o}; }
      if (!x->withDescriptions && go()) { auto* w = new WithDescription(); s(w->alias); q(w->select); x->withDescriptions = new std::vector<WithDescription*>{w}; }
      if (!x->lockings && go()) { auto* l = new LockingClause(); l->rowLockMode = ForUpdate; l->rowLockWaitPolicy = None; vs(l->tables); x->lockings = new std::vector<LockingClause*>{l}; }
    }
    for (auto* b : st) {
      v(b->hints);
      switch (b->type()) {
        case kStmtImport: { auto* x = (ImportStatement*)b; s(x->filePath); s(x->schema); s(x->tableName); e(x->whereClause); s(x->encoding); csv(x->csv_options); break; }
        case kStmtExport: { auto* x = (ExportStatement*)b; s(x->filePath); s(x->schema); s(x->tableName); q(x->select); s(x->encoding); csv(x->csv_options); break; }
        case kStmtInsert: { auto* x = (InsertStatement*)b; s(x->schema); s(x->tableName); vs(x->columns); v(x->values); q(x->select); break; }
        case kStmtUpdate: { auto* x = (UpdateStatement*)b; if (!x->table && go()) x->table = new TableRef(kTableName); e(x->where); break; }
        case kStmtDelete: { auto* x = (DeleteStatement*)b; s(x->schema); s(x->tableName); e(x->expr); break; }
        case kStmtCreate: {
          auto* x = (CreateStatement*)b;
          s(x->filePath); s(x->schema); s(x->tableName); s(x->indexName); vs(x->indexColumns); vs(x->viewColumns); q(x->select);
          if (!x->columns && go()) x->columns = new std::vector<ColumnDefinition*>{new ColumnDefinition(strdup("nc"), ColumnType(DataType::INT), r.chance(1, 2) ? new std::unordered_set<ConstraintType>{ConstraintType::Unique} : nullptr, r.chance(1, 2) ? new std::vector<ReferencesSpecification*>{new ReferencesSpecification(strdup("s"), strdup("t"), nullptr)} : nullptr)};
          if (!x->tableConstraints && go()) x->tableConstraints = new std::vector<TableConstraint*>{new TableConstraint(ConstraintType::Unique, new std::vector<char*>{strdup("k")}), new ForeignKeyConstraint(new std::vector<char*>{strdup("k2")}, new ReferencesSpecification(nullptr, strdup("t2"), new std::vector<char*>{strdup("k3")}))};
          break;
        }
        case kStmtDrop: { auto* x = (DropStatement*)b; s(x->schema); s(x->name); s(x->indexName); break; }
        case kStmtPrepare: { auto* x = (PrepareStatement*)b; s(x->name); s(x->query); break; }
        case kStmtExecute: { auto* x = (ExecuteStatement*)b; s(x->name); v(x->parameters); break; }
        case kStmtAlter: { auto* x = (AlterStatement*)b; s(x->schema); s(x->name); break; }
        case kStmtShow: { auto* x = (ShowStatement*)b; s(x->schema); s(x->name); break; }
        default: break;
      }
    }
  }
};
}  // namespace

static std::string o26(Ctx& c, const std::string& t) {
  if (t.size() > kPrintMax) return "";
  SQLParserResult r;
  SQLParser::parse(t, &r);
  if (!r.isValid() || !r.size()) return "";
  std::string want = dumpStatements(r), wantPrint = printAll(r);
  static uint64_t turn = 0;
  turn++;
  Rng rng(hashBytes(t) ^ 0xb11d);
  std::string bad, got, gotPrint;
  long live[3] = {0, 0, 0};
  size_t blocks = 0;
  for (int round = 0; round < 3; round++) {
    uint64_t s0 = rng.next();
    Rng pick(s0);
    Copy k;
    k.r = &pick;
    std::vector<SQLStatement*> v;
    if (rt::canFill()) rt::fill(round == 0 ? 0xA5 : round == 1 ? 0xFF : 0x01);
    rt::begin();
    {
      for (auto* s : r.getStatements()) { SQLStatement* n = k.stmt(s); if (n) v.push_back(n); }
      rt::end();
      size_t al = rt::allocs();
      blocks += al;
      // from here on the harness observes; what it allocates itself is balanced within this scope
    }
    long base = rt::live();
    rt::fill(-1);
    if (k.refused) bad = "an option, constraint or column of an accepted statement is not taken when the statement is built by hand";
    {
      Arena A;
      got.clear();
      for (auto* s : v) got += ser(dumpStatement(s, A)) + "\n";
      Capture cap;
      for (auto* s : v) printStatementInfo(s);
      gotPrint = cap.out.s;
    }
    if (bad.empty() && got != want) bad = "a copy built by hand differs from the parsed statement: " + firstDiff(want, got);
    if (bad.empty() && gotPrint != wantPrint) bad = "a copy built by hand prints differently: " + firstDiff(wantPrint, gotPrint);
    c.count["nodes built by hand"] += k.nodes;
    rt::begin();
    size_t extra = 0;
    {
      if (round == 2) {
        for (auto* s : v) { Stuff f(rng); walkStatement(s, f); f.run(); extra += f.n; }
      }
      switch ((turn + round) % 4) {
        case 0: for (auto* s : v) delete s; break;
        case 1: { SQLParserResult q; for (auto* s : v) q.addStatement(s); if (q.size() != v.size()) bad = "addStatement does not count"; for (size_t i = 0; i < v.size(); i++) if (q.getStatement(i) != v[i]) bad = "addStatement changes the order"; break; }
        case 2: { SQLParserResult q(v[0]); for (size_t i = 1; i < v.size(); i++) q.addStatement(v[i]); if (q.size() != v.size() || q.getStatement(0) != v[0]) bad = "a result made from a statement does not hold it"; q.reset(); if (q.size()) bad = "reset keeps statements"; break; }
        case 3: { SQLParserResult q(v[0]); for (size_t i = 1; i < v.size(); i++) q.addStatement(v[i]); SQLParserResult m(std::move(q)); for (auto* s : m.releaseStatements()) delete s; break; }
      }
      std::vector<SQLStatement*>().swap(v);
    }
    rt::end();
    live[round] = base + rt::live();
    c.count["fields filled that the parser leaves empty"] += extra;
    if (!bad.empty()) return bad;
    if (round == 0 && dumpStatements(r) != want) return "destroying a copy changes the original";
  }
  // `v` itself: its buffer is allocated between begin and end of the first part and released in the second
  for (int i = 0; i < 3; i++) if (live[i]) return std::string(i == 2 ? "destroying statements with every kind of field filled" : "destroying statements built by hand") + " leaves a balance of " + std::to_string(live[i]) + " heap blocks (of " + std::to_string(blocks / 3) + ")";
  c.nt = blocks > 12;
  return "";
}

// Every constructor and factory over memory with a known old content.
namespace {
struct Made { std::string what; std::vector<std::string> bad; };
template <typename T> std::string bits(const T& f) { std::string s; char b[4]; for (size_t i = 0; i < sizeof f; i++) { snprintf(b, sizeof b, "%02x", ((const unsigned char*)&f)[i]); s += b; } return s; }
template <typename T> void isNull(Made& m, const char* n, const T& f) { if (!rawIs(f, (const void*)nullptr)) m.bad.push_back(std::string(n) + " is not null but " + bits(f)); }
template <typename T> void isOff(Made& m, const char* n, const T& f) { if (rawInt(f)) m.bad.push_back(std::string(n) + " is not false but " + bits(f)); }
template <typename F, typename V> void isValue(Made& m, const char* n, const F& f, const V& v, const char* vn) { if (!rawIs(f, v)) m.bad.push_back(std::string(n) + " is not " + vn + " but " + bits(f)); }
#define NUL(f) isNull(m, #f, f)
#define OFF(f) isOff(m, #f, f)
#define EQ(f, v) isValue(m, #f, f, v, #v)
struct X { Expr *expr = nullptr, *expr2 = nullptr; std::vector<Expr*>* list = nullptr; SelectStatement* select = nullptr; char *name = nullptr, *table = nullptr, *schema = nullptr; double f = 0; int64_t i = 0; DatetimeField dt = kDatetimeNone; ColumnType ct{DataType::UNKNOWN, 0}; bool b = false; OperatorType op = kOpNone; bool distinct = false; WindowDescription* w = nullptr; };
void exprIs(Made& m, Expr* e, ExprType t, const X& x) {
  EQ(e->type, t); EQ(e->expr, x.expr); EQ(e->expr2, x.expr2); EQ(e->exprList, x.list); EQ(e->select, x.select); EQ(e->name, x.name); EQ(e->table, x.table); EQ(e->schema, x.schema); NUL(e->alias);
  EQ(e->fval, x.f); EQ(e->ival, x.i); EQ(e->ival2, (int64_t)0); EQ(e->datetimeField, x.dt); EQ(e->columnType.data_type, x.ct.data_type); EQ(e->columnType.length, x.ct.length); EQ(e->columnType.precision, x.ct.precision); EQ(e->columnType.scale, x.ct.scale);
  EQ(e->isBoolLiteral, x.b); EQ(e->opType, x.op); EQ(e->distinct, x.distinct); EQ(e->windowDescription, x.w);
  if (e->hasAlias() || e->hasTable() != (x.table != nullptr) || e->getName() != x.name || !e->isType(t)) m.bad.push_back("accessors disagree with the fields");
  delete e;
}
void stmtIs(Made& m, SQLStatement* s, StatementType t) {
  if (s->type() != t || !s->is(t) || !s->isType(t)) m.bad.push_back("statement type is " + std::to_string(s->type()));
  EQ(s->stringLength, (size_t)0); NUL(s->hints);
  delete s;
}
const int kMakers = 65;
bool make(int which, Rng& r, Made& m) {
  static const int64_t edge[] = {0, 1, -1, 2, 9, 10, 31, 32, 127, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX, INT64_MIN};
  int64_t num = r.chance(1, 3) ? edge[r.below(sizeof edge / sizeof *edge)] : (int64_t)r.next() >> r.below(63);
  bool flag = r.chance(1, 2);
  auto S = [&](const char* s) {
    switch (r.below(8)) {
      case 0: return strdup("");
      case 1: return strdup(std::string(1 + r.below(300), 'n').c_str());
      case 2: return strdup("*");
      case 3: return strdup("NULL");
      default: return strdup(s);
    }
  };
  // an argument can be any expression
  auto E = [&]() -> Expr* {
    switch (r.below(16)) {
      case 0: return Expr::makeNullLiteral();
      case 1: return mkInt((int64_t)r.below(3));
      case 2: return Expr::makeLiteral(-0.5);
      case 3: return Expr::makeLiteral(r.chance(1, 2));
      case 4: return Expr::makeLiteral(S("text"));
      case 5: return Expr::makeStar();
      case 6: return Expr::makeParameter((int)r.below(5));
      case 7: return Expr::makeSelect(new SelectStatement());
      case 8: return Expr::makeOpUnary(r.chance(1, 2) ? kOpNot : kOpUnaryMinus, Expr::makeColumnRef(S("u")));
      case 9: { auto op = (OperatorType)(1 + r.below(26)); return Expr::makeOpBinary(Expr::makeColumnRef(S("l")), op, Expr::makeColumnRef(S("r"))); }
      case 10: { auto* e = Expr::makeColumnRef(S("w")); e->alias = S("al"); return e; }
      case 11: { auto* e = Expr::makeFunctionRef(S("COUNT"), new std::vector<Expr*>(), r.chance(1, 2), nullptr); return e; }
      case 12: return Expr::makeArray(new std::vector<Expr*>());
      case 13: return Expr::makeIntervalLiteral(r.below(2), kDatetimeDay);
      default: return Expr::makeColumnRef(S("arg"));
    }
  };
  auto L = [&] { auto* l = new std::vector<Expr*>(); for (size_t i = r.below(5); i; i--) l->push_back(E()); return l; };
  auto C = [&] { auto* l = new std::vector<char*>(); for (size_t i = r.below(5); i; i--) l->push_back(S("c")); return l; };
  auto B = [&]() -> FrameBound* { if (r.chance(1, 3)) return nullptr; auto t = (FrameBoundType)r.below(3); auto o = (int64_t)r.below(3); return new FrameBound(o, t, r.chance(1, 2)); };
  X x;
  switch (which) {
    case 0: m.what = "Expr(type)"; { auto t = (ExprType)r.below(17); exprIs(m, new Expr(t), t, x); } break;
    case 1: m.what = "Expr::make"; { auto t = (ExprType)r.below(17); exprIs(m, Expr::make(t), t, x); } break;
    case 2: m.what = "makeOpUnary"; x.expr = E(); x.op = (OperatorType)(1 + r.below(26)); exprIs(m, flag ? Expr::makeOpUnary(x.op, x.expr) : Expr::makeOpUnary(x.op, x.expr), kExprOperator, x); break;
    case 3: m.what = "makeOpBinary"; x.expr = E(); x.expr2 = E(); x.op = (OperatorType)(1 + r.below(26)); exprIs(m, Expr::makeOpBinary(x.expr, x.op, x.expr2), kExprOperator, x); break;
    case 4: {
      m.what = "makeBetween"; Expr *a = E(), *b = E(); x.expr = E(); x.op = kOpBetween; Expr* e = Expr::makeBetween(x.expr, a, b);
      x.list = e->exprList;
      if (!e->exprList || e->exprList->size() != 2 || (*e->exprList)[0] != a || (*e->exprList)[1] != b) m.bad.push_back("the bounds are not the two list elements");
      exprIs(m, e, kExprOperator, x);
      break;
    }
    case 5: case 6: {
      m.what = "makeCase";
      Expr* l = nullptr;
      std::vector<Expr*> el;
      size_t n = 1 + r.below(4);
      for (size_t i = 0; i < n; i++) {
        Expr *w = E(), *t = E();
        Expr* y = Expr::makeCaseListElement(w, t);
        if (y->expr != w || y->expr2 != t || y->opType != kOpCaseListElement || y->type != kExprOperator) m.bad.push_back("makeCaseListElement does not hold its arguments");
        el.push_back(y);
        Expr* old = l;
        l = l ? Expr::caseListAppend(l, y) : Expr::makeCaseList(y);
        if (old && l != old) m.bad.push_back("caseListAppend returns another list");
      }
      if (which == 6) { x.list = l->exprList; m.what = "makeCaseList"; x.op = l->opType; if (!l->exprList || *l->exprList != el) m.bad.push_back("the case list does not hold its elements"); exprIs(m, l, kExprOperator, x); break; }
      x.expr = flag ? E() : nullptr; x.expr2 = r.chance(1, 2) ? E() : nullptr; x.op = kOpCase;
      Expr* e = Expr::makeCase(x.expr, l, x.expr2);
      x.list = e->exprList;
      if (!e->exprList || *e->exprList != el) m.bad.push_back("CASE does not hold the elements of its list");
      exprIs(m, e, kExprOperator, x);
      break;
    }
    case 7: m.what = "makeLiteral(int64)"; x.i = num; exprIs(m, mkInt(num), kExprLiteralInt, x); break;
    case 8: m.what = "makeLiteral(double)"; x.f = (double)num / 3; exprIs(m, mkFloat(x.f), kExprLiteralFloat, x); break;
    case 9: m.what = "makeLiteral(char*)"; x.name = S("str"); exprIs(m, Expr::makeLiteral(x.name), kExprLiteralString, x); break;
    case 10: m.what = "makeLiteral(bool)"; x.b = true; x.i = flag; exprIs(m, Expr::makeLiteral(flag), kExprLiteralInt, x); break;
    case 11: m.what = "makeNullLiteral"; exprIs(m, Expr::makeNullLiteral(), kExprLiteralNull, x); break;
    case 12: m.what = "makeDateLiteral"; x.name = S("2000-01-01"); exprIs(m, Expr::makeDateLiteral(x.name), kExprLiteralDate, x); break;
    case 13: m.what = "makeIntervalLiteral"; x.i = num; x.dt = (DatetimeField)(1 + r.below(6)); exprIs(m, Expr::makeIntervalLiteral(num, x.dt), kExprLiteralInterval, x); break;
    case 14: m.what = "makeColumnRef(name)"; x.name = S("n"); exprIs(m, Expr::makeColumnRef(x.name), kExprColumnRef, x); break;
    case 15: m.what = "makeColumnRef(table, name)"; x.name = S("n"); x.table = S("t"); exprIs(m, Expr::makeColumnRef(x.table, x.name), kExprColumnRef, x); break;
    case 16: m.what = "makeStar()"; exprIs(m, Expr::makeStar(), kExprStar, x); break;
    case 17: m.what = "makeStar(table)"; x.table = S("t"); exprIs(m, Expr::makeStar(x.table), kExprStar, x); break;
    case 18: case 19: {
      m.what = "makeFunctionRef";
      x.name = S("f"); x.list = L(); x.distinct = flag;
      if (r.chance(1, 2)) x.w = new WindowDescription(L(), nullptr, nullptr);
      if (which == 19) x.schema = S("s");
      exprIs(m, which == 19 ? Expr::makeFunctionRef(x.name, x.schema, x.list, flag, x.w) : Expr::makeFunctionRef(x.name, x.list, flag, x.w), kExprFunctionRef, x);
      break;
    }
    case 20: m.what = "makeArray"; x.list = L(); exprIs(m, Expr::makeArray(x.list), kExprArray, x); break;
    case 21: m.what = "makeArrayIndex"; x.expr = E(); x.i = num; exprIs(m, Expr::makeArrayIndex(x.expr, num), kExprArrayIndex, x); break;
    case 22: m.what = "makeParameter"; x.i = (int)num; exprIs(m, Expr::makeParameter((int)x.i), kExprParameter, x); break;
    case 23: m.what = "makeSelect"; x.select = new SelectStatement(); exprIs(m, Expr::makeSelect(x.select), kExprSelect, x); break;
    case 24: m.what = "makeExists"; x.select = new SelectStatement(); x.op = kOpExists; exprIs(m, Expr::makeExists(x.select), kExprOperator, x); break;
    case 25: m.what = "makeInOperator(list)"; x.expr = E(); x.list = L(); x.op = kOpIn; exprIs(m, Expr::makeInOperator(x.expr, x.list), kExprOperator, x); break;
    case 26: m.what = "makeInOperator(select)"; x.expr = E(); x.select = new SelectStatement(); x.op = kOpIn; exprIs(m, Expr::makeInOperator(x.expr, x.select), kExprOperator, x); break;
    case 27: m.what = "makeExtract"; x.expr = E(); x.dt = (DatetimeField)(1 + r.below(6)); exprIs(m, Expr::makeExtract(x.dt, x.expr), kExprExtract, x); break;
    case 28: m.what = "makeCast"; x.expr = E(); x.ct = ColumnType((DataType)r.below(16), num, num / 2, num / 3); exprIs(m, Expr::makeCast(x.expr, x.ct), kExprCast, x); break;
    case 29: { m.what = "ColumnType(type)"; auto t = (DataType)r.below(16); auto* p = new ColumnType(t); EQ(p->data_type, t); EQ(p->length, (int64_t)0); EQ(p->precision, (int64_t)0); EQ(p->scale, (int64_t)0); delete p; break; }
    case 30: { m.what = "ColumnType(type, length, precision, scale)"; auto t = (DataType)r.below(16); auto* p = new ColumnType(t, num, num / 2, num / 3); EQ(p->data_type, t); EQ(p->length, num); EQ(p->precision, num / 2); EQ(p->scale, num / 3); delete p; break; }
    case 31: { m.what = "FrameBound"; auto t = (FrameBoundType)r.below(3); auto* p = new FrameBound(num, t, flag); EQ(p->offset, num); EQ(p->type, t); EQ(p->unbounded, flag); delete p; break; }
    case 32: { m.what = "FrameDescription"; auto t = (FrameType)r.below(3); auto *a = B(), *b = B(); auto* p = new FrameDescription(t, a, b); EQ(p->type, t); EQ(p->start, a); EQ(p->end, b); delete p; break; }
    case 33: { m.what = "WindowDescription"; auto* a = flag ? L() : nullptr; auto* b = r.chance(1, 2) ? new std::vector<OrderDescription*>{new OrderDescription(kOrderAsc, E(), First)} : nullptr; auto* f = r.chance(1, 2) ? new FrameDescription(kRows, B(), B()) : nullptr; auto* p = new WindowDescription(a, b, f); EQ(p->partitionList, a); EQ(p->orderList, b); EQ(p->frameDescription, f); delete p; break; }
    case 34: { m.what = "OrderDescription"; auto t = (OrderType)r.below(2); auto n = (NullOrdering)r.below(3); auto* e = E(); auto* p = new OrderDescription(t, e, n); EQ(p->type, t); EQ(p->expr, e); EQ(p->null_ordering, n); delete p; break; }
    case 35: { m.what = "LimitDescription"; auto *a = flag ? E() : nullptr, *b = r.chance(1, 2) ? E() : nullptr; auto* p = new LimitDescription(a, b); EQ(p->limit, a); EQ(p->offset, b); delete p; break; }
    case 36: { m.what = "GroupByDescription"; auto* p = new GroupByDescription(); NUL(p->columns); NUL(p->having); if (flag) p->columns = L(); if (r.chance(1, 2)) p->having = E(); delete p; break; }
    case 37: { m.what = "SetOperation"; auto* p = new SetOperation(); NUL(p->nestedSelectStatement); NUL(p->resultOrder); NUL(p->resultLimit); OFF(p->isAll); int32_t v; memcpy(&v, &p->setType, 4); if (v < 0 || v > 2) m.bad.push_back("setType has no declared value"); delete p; break; }
    case 38: { m.what = "SelectStatement"; auto* p = new SelectStatement(); NUL(p->fromTable); OFF(p->selectDistinct); NUL(p->selectList); NUL(p->whereClause); NUL(p->groupBy); NUL(p->setOperations); NUL(p->order); NUL(p->withDescriptions); NUL(p->limit); NUL(p->lockings); stmtIs(m, p, kStmtSelect); break; }
    case 39: { m.what = "Alias"; auto* n = S("al"); auto* l = flag ? C() : nullptr; auto* p = l ? new Alias(n, l) : new Alias(n); EQ(p->name, n); EQ(p->columns, l); delete p; break; }
    case 40: { m.what = "TableRef"; auto t = (TableRefType)r.below(4); auto* p = new TableRef(t); EQ(p->type, t); NUL(p->schema); NUL(p->name); NUL(p->alias); NUL(p->select); NUL(p->list); NUL(p->join); if (p->hasSchema() || p->getName()) m.bad.push_back("accessors disagree with the fields"); delete p; break; }
    case 41: { m.what = "JoinDefinition"; auto* p = new JoinDefinition(); NUL(p->left); NUL(p->right); NUL(p->condition); NUL(p->namedColumns); EQ(p->type, kJoinInner); delete p; break; }
    case 42: { m.what = "DeleteStatement"; auto* p = new DeleteStatement(); NUL(p->schema); NUL(p->tableName); NUL(p->expr); stmtIs(m, p, kStmtDelete); break; }
    case 43: { m.what = "DropStatement"; auto t = (DropType)r.below(5); auto* p = new DropStatement(t); EQ(p->type, t); OFF(p->ifExists); NUL(p->schema); NUL(p->name); NUL(p->indexName); stmtIs(m, p, kStmtDrop); break; }
    case 44: { m.what = "AlterStatement"; auto* n = S("t"); auto* cn = S("c"); auto* a = new DropColumnAction(cn); EQ(a->columnName, cn); OFF(a->ifExists); EQ(a->type, ActionType::DropColumn); auto* p = new AlterStatement(n, a); EQ(p->name, n); EQ(p->action, (AlterAction*)a); NUL(p->schema); OFF(p->ifTableExists); stmtIs(m, p, kStmtAlter); break; }
    case 45: { m.what = "AlterAction"; auto* p = new AlterAction(ActionType::DropColumn); EQ(p->type, ActionType::DropColumn); delete p; break; }
    case 46: { m.what = "TransactionStatement"; auto t = (TransactionCommand)r.below(3); auto* p = new TransactionStatement(t); EQ(p->command, t); stmtIs(m, p, kStmtTransaction); break; }
    case 47: { m.what = "ExecuteStatement"; auto* p = new ExecuteStatement(); NUL(p->name); NUL(p->parameters); stmtIs(m, p, kStmtExecute); break; }
    case 48: { m.what = "PrepareStatement"; auto* p = new PrepareStatement(); NUL(p->name); NUL(p->query); stmtIs(m, p, kStmtPrepare); break; }
    case 49: { m.what = "ExportStatement"; auto t = (ImportType)r.below(4); auto* p = new ExportStatement(t); EQ(p->type, t); NUL(p->filePath); NUL(p->schema); NUL(p->tableName); NUL(p->select); NUL(p->encoding); NUL(p->csv_options); stmtIs(m, p, kStmtExport); break; }
    case 50: { m.what = "ImportStatement"; auto t = (ImportType)r.below(4); auto* p = new ImportStatement(t); EQ(p->type, t); NUL(p->filePath); NUL(p->schema); NUL(p->tableName); NUL(p->whereClause); NUL(p->encoding); NUL(p->csv_options); stmtIs(m, p, kStmtImport); break; }
    case 51: { m.what = "InsertStatement"; auto t = (InsertType)r.below(2); auto* p = new InsertStatement(t); EQ(p->type, t); NUL(p->schema); NUL(p->tableName); NUL(p->columns); NUL(p->values); NUL(p->select); stmtIs(m, p, kStmtInsert); break; }
    case 52: { m.what = "UpdateStatement"; auto* p = new UpdateStatement(); NUL(p->table); NUL(p->updates); NUL(p->where); stmtIs(m, p, kStmtUpdate); break; }
    case 53: { m.what = "ShowStatement"; auto t = (ShowType)r.below(2); auto* p = new ShowStatement(t); EQ(p->type, t); NUL(p->schema); NUL(p->name); stmtIs(m, p, kStmtShow); break; }
    case 54: { m.what = "CreateStatement"; auto t = (CreateType)r.below(4); auto* p = new CreateStatement(t); EQ(p->type, t); OFF(p->ifNotExists); NUL(p->filePath); NUL(p->schema); NUL(p->tableName); NUL(p->indexName); NUL(p->indexColumns); NUL(p->columns); NUL(p->tableConstraints); NUL(p->viewColumns); NUL(p->select); stmtIs(m, p, kStmtCreate); break; }
    case 55: {
      m.what = "ColumnDefinition";
      auto* cs = new std::unordered_set<ConstraintType>();
      bool nn = r.chance(1, 2), pk = r.chance(1, 2), nu = r.chance(1, 2), un = r.chance(1, 2);
      if (nn) cs->insert(ConstraintType::NotNull);
      if (pk) cs->insert(ConstraintType::PrimaryKey);
      if (nu) cs->insert(ConstraintType::Null);
      if (un) cs->insert(ConstraintType::Unique);
      auto* rf = new std::vector<ReferencesSpecification*>();
      if (flag) rf->push_back(new ReferencesSpecification(S("s"), S("t"), C()));
      auto* n = S("col");
      ColumnType t(DataType::DECIMAL, 0, num, num / 2);
      auto* p = new ColumnDefinition(n, t, cs, rf);
      EQ(p->name, n); EQ(p->column_constraints, cs); EQ(p->references, rf); EQ(p->nullable, true);
      if (p->type != t) m.bad.push_back("the type is another one");
      bool ok = p->trySetNullableExplicit();
      if (ok != !(nu && (nn || pk))) m.bad.push_back("trySetNullableExplicit decides a conflict wrongly");
      if (ok) EQ(p->nullable, !(nn || pk));
      delete p;
      break;
    }
    case 56: { m.what = "TableConstraint"; auto* l = C(); auto t = flag ? ConstraintType::PrimaryKey : ConstraintType::Unique; auto* p = new TableConstraint(t, l); EQ(p->type, t); EQ(p->columnNames, l); delete (TableElement*)p; break; }
    case 57: { m.what = "ReferencesSpecification"; auto *s = flag ? S("s") : nullptr, *t = S("t"); auto* l = r.chance(1, 2) ? C() : nullptr; auto* p = new ReferencesSpecification(s, t, l); EQ(p->schema, s); EQ(p->table, t); EQ(p->columns, l); delete p; break; }
    case 58: { m.what = "ForeignKeyConstraint"; auto* l = C(); auto* q = new ReferencesSpecification(S("s"), S("t"), C()); auto* p = new ForeignKeyConstraint(l, q); EQ(p->type, ConstraintType::ForeignKey); EQ(p->columnNames, l); EQ(p->references, q); delete (TableElement*)p; break; }
    case 59: { m.what = "CsvOptions"; auto* p = new CsvOptions(); NUL(p->delimiter); NUL(p->null); NUL(p->quote); delete p; break; }
#ifndef VF_PUBLIC_ONLY
    case 60: { m.what = "ImportExportOptions"; auto* p = new ImportExportOptions(); EQ(p->format, kImportAuto); NUL(p->encoding); NUL(p->csv_options); if (flag) { p->encoding = S("e"); p->csv_options = new CsvOptions(); p->csv_options->quote = S("q"); } delete p; break; }
    case 61: { m.what = "ColumnConstraints"; auto* p = new ColumnConstraints(); if (!p->constraints || !p->constraints->empty() || !p->references || !p->references->empty()) m.bad.push_back("the lists are not empty"); delete p->constraints; delete p->references; delete p; break; }
#endif
    case 62: {
      m.what = "SQLParserResult";
      auto* p = new SQLParserResult();
      bool v = false;
      v = rawInt(p->isValid());
      if (v || p->size() || p->errorMsg() || !p->parameters().empty() || !p->getStatements().empty() || p->errorLine() != -1 || p->errorColumn() != -1) m.bad.push_back("a new result is not empty and invalid without an error");
      delete p;
      break;
    }
#ifndef VF_PUBLIC_ONLY
    case 63: {
      m.what = "substr";
      std::string s = "0123456789abcdef";
      size_t a = r.below(s.size()), b = a + r.below(s.size() - a + 1);
      char* q = substr(s.c_str(), (int)a, (int)b);
      if (s.substr(a, b - a) != q) m.bad.push_back("substr gives another text");
      free(q);
      break;
    }
#endif
    case 64: {
      m.what = "SQLParserResult::addStatement";
      auto make1 = [&]() -> SQLStatement* {
        SQLStatement* s = nullptr;
        switch (r.below(8)) {
          case 0: s = new SelectStatement(); break;
          case 1: s = new DeleteStatement(); break;
          case 2: s = new TransactionStatement((TransactionCommand)r.below(3)); break;
          case 3: s = new ShowStatement((ShowType)r.below(2)); break;
          case 4: { auto* e = new ExecuteStatement(); e->name = S("x"); s = e; break; }
          case 5: s = new DropStatement((DropType)r.below(5)); break;
          case 6: s = new CreateStatement((CreateType)r.below(4)); break;
          default: s = new UpdateStatement(); break;
        }
        if (r.chance(1, 3)) s->hints = L();
        if (r.chance(1, 3)) s->stringLength = r.below(3) * 7;
        return s;
      };
      std::vector<SQLStatement*> v;
      size_t n = r.below(6);
      SQLParserResult* p;
      if (flag) { v.push_back(make1()); p = new SQLParserResult(v[0]); }
      else if (r.chance(1, 3)) {
        p = new SQLParserResult();
        SQLParser::parse(r.chance(1, 2) ? "SELECT 1; SHOW TABLES" : "SELECT FROM", p);
        for (size_t i = 0; i < p->size(); i++) v.push_back(p->getMutableStatement(i));
      } else p = new SQLParserResult();
      for (size_t i = 0; i < n; i++) { v.push_back(make1()); p->addStatement(v.back()); }
      if (p->size() != v.size() || p->getStatements().size() != v.size()) m.bad.push_back("the result does not count the statements added to it");
      else for (size_t i = 0; i < v.size(); i++) if (p->getStatement(i) != v[i] || p->getMutableStatement(i) != v[i] || p->getStatements()[i] != v[i]) { m.bad.push_back("the statements added are not held in the order in which they were added"); break; }
      delete p;
      break;
    }
    default: return false;
  }
  return true;
}
}  // namespace

static std::string constructors(Ctx& c, uint64_t seed) {
  static const int pats[] = {0xA5, 0x00, 0xFF, 0x01};
  for (int k = 0; k < kMakers; k++) {
    for (int pat : pats) {
      long live[3];
      Made m;
      for (int round = 0; round < 3; round++) {
        Rng r(seed * 131 + k);
        Made q;
        q.what.reserve(200);
        rt::fill(pat);
        rt::begin();
        make(k, r, q);
        bool viol = !q.bad.empty();
        q.bad = std::vector<std::string>(std::move(q.bad));
        std::vector<std::string> keep;
        keep.swap(q.bad);
        rt::end();
        rt::fill(-1);
        live[round] = rt::live();
        if (viol) return q.what + ": " + keep[0];
        m.what = q.what;
        if (live[round] == 0) break;
        if (round == 2 && live[0] && live[1]) return m.what + ": building and destroying a node leaves a balance of " + std::to_string(live[2]) + " heap blocks";
      }
      c.count["constructors and factories exercised"]++;
    }
  }
  return "";
}
static void r26(Ctx& c) {
  auto f = checker(c);
  for (uint64_t i = 0, n = c.n(1200) + 1; i < n; i++) {
    std::string w = constructors(c, c.rng.next());
    c.tally("constructors " + std::to_string(c.shard) + "/" + std::to_string(i), true);
    if (!w.empty()) { c.noShrink = true; c.fail(w, "-- constructors"); return; }
  }
  Profile p;
  p.comments = 0;
  p.starts = {{"stmt", 14}, {"select", 8}, {"expr", 8}, {"create", 6}, {"coldef", 2}, {"copyto", 2}, {"copyfrom", 2}, {"import", 1}, {"insert", 2}, {"update", 2}, {"delete", 1}, {"execute", 1}, {"alter", 1}, {"drop", 1}, {"prepare", 1}, {"show", 1}, {"tref", 3}, {"func", 2}, {"case", 2}, {"script", 4}};
  streamCorpus(c, f);
  streamRandom(c, p, c.n(24000), f);
  streamSweeps(c, kListSweeps, sweepSizes(c, 4, 60), f);
  streamSweeps(c, kDepthSweeps, sweepSizes(c, 4, 30), f);
}
PROPERTY("C26", r26, o26);
#endif
