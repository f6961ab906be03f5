#include "walk.h"
#include "sql/statements.h"
using namespace hsql;

namespace {
struct W {
  Visitor& v;
  struct It { char kind; const void* p; const char* owner; };
  std::vector<It> st;
  explicit W(Visitor& x) : v(x) {}
  void pe(const Expr* e, const char* o) { if (e) st.push_back({'e', e, o}); }
  void ps(const SelectStatement* s, const char* o) { if (s) st.push_back({'s', s, o}); }
  void pt(const TableRef* t, const char* o) { if (t) st.push_back({'t', t, o}); }
  void need(const void* p, const char* o) { if (!p) v.bad(std::string("null in ") + o); }
  void str(const char* s, const char* o) { if (s) { v.block(s, o); v.name(s, o); } }
  void strs(const std::vector<char*>* l, const char* o) {
    if (!l) return;
    v.block(l, o);
    v.names(l, o);
    for (auto* s : *l) { need(s, o); str(s, o); }
  }
  void exprs(const std::vector<Expr*>* l, const char* o) {
    if (!l) return;
    v.block(l, o);
    for (size_t i = l->size(); i-- > 0;) { need((*l)[i], o); pe((*l)[i], o); }
  }
  void orders(const std::vector<OrderDescription*>* l, const char* o) {
    if (!l) return;
    v.block(l, o);
    for (auto* d : *l) { need(d, o); if (d) { v.block(d, o); need(d->expr, "OrderDescription::expr"); pe(d->expr, "OrderDescription::expr"); } }
  }
  void limit(const LimitDescription* d, const char* o) {
    if (!d) return;
    v.block(d, o);
    pe(d->limit, "LimitDescription::limit");
    pe(d->offset, "LimitDescription::offset");
  }
  void expr(const Expr* e) {
    str(e->name, "Expr::name"); str(e->table, "Expr::table"); str(e->schema, "Expr::schema"); str(e->alias, "Expr::alias");
    if (auto* w = e->windowDescription) {
      v.block(w, "Expr::windowDescription");
      exprs(w->partitionList, "WindowDescription::partitionList");
      orders(w->orderList, "WindowDescription::orderList");
      if (auto* f = w->frameDescription) {
        v.block(f, "frame");
        need(f->start, "frame start"); need(f->end, "frame end");
        if (f->start) v.block(f->start, "frame start");
        if (f->end) v.block(f->end, "frame end");
      }
    }
    ps(e->select, "Expr::select");
    pe(e->expr2, "Expr::expr2");
    exprs(e->exprList, "Expr::exprList");
    pe(e->expr, "Expr::expr");
  }
  void table(const TableRef* t) {
    str(t->schema, "TableRef::schema"); str(t->name, "TableRef::name");
    if (auto* a = t->alias) { v.block(a, "TableRef::alias"); need(a->name, "Alias::name"); str(a->name, "Alias::name"); strs(a->columns, "Alias::columns"); }
    ps(t->select, "TableRef::select");
    if (t->list) { v.block(t->list, "TableRef::list"); for (size_t i = t->list->size(); i-- > 0;) { need((*t->list)[i], "TableRef::list"); pt((*t->list)[i], "TableRef::list"); } }
    if (auto* j = t->join) {
      v.block(j, "TableRef::join");
      need(j->left, "JoinDefinition::left"); need(j->right, "JoinDefinition::right");
      pt(j->right, "JoinDefinition::right"); pe(j->condition, "JoinDefinition::condition"); strs(j->namedColumns, "JoinDefinition::namedColumns"); pt(j->left, "JoinDefinition::left");
    }
  }
  void select(const SelectStatement* s) {
    exprs(s->hints, "hints");
    pt(s->fromTable, "SelectStatement::fromTable");
    exprs(s->selectList, "SelectStatement::selectList");
    pe(s->whereClause, "SelectStatement::whereClause");
    if (auto* g = s->groupBy) { v.block(g, "groupBy"); exprs(g->columns, "GroupByDescription::columns"); pe(g->having, "GroupByDescription::having"); }
    if (s->setOperations) {
      v.block(s->setOperations, "setOperations");
      for (auto* o : *s->setOperations) {
        need(o, "setOperations");
        if (!o) continue;
        v.block(o, "SetOperation");
        need(o->nestedSelectStatement, "SetOperation::nestedSelectStatement");
        ps(o->nestedSelectStatement, "SetOperation::nestedSelectStatement");
        orders(o->resultOrder, "SetOperation::resultOrder");
        limit(o->resultLimit, "SetOperation::resultLimit");
      }
    }
    orders(s->order, "SelectStatement::order");
    if (s->withDescriptions) {
      v.block(s->withDescriptions, "withDescriptions");
      for (auto* w : *s->withDescriptions) { need(w, "withDescriptions"); if (!w) continue; v.block(w, "WithDescription"); need(w->alias, "WithDescription::alias"); str(w->alias, "WithDescription::alias"); need(w->select, "WithDescription::select"); ps(w->select, "WithDescription::select"); }
    }
    limit(s->limit, "SelectStatement::limit");
    if (s->lockings) {
      v.block(s->lockings, "lockings");
      for (auto* l : *s->lockings) { need(l, "lockings"); if (!l) continue; v.block(l, "LockingClause"); strs(l->tables, "LockingClause::tables"); }
    }
  }
  void refs(const ReferencesSpecification* r) {
    need(r, "references");
    if (!r) return;
    v.block(r, "references");
    need(r->table, "references table");
    str(r->schema, "ReferencesSpecification::schema"); str(r->table, "ReferencesSpecification::table"); strs(r->columns, "ReferencesSpecification::columns");
  }
  void csv(const CsvOptions* c) { if (!c) return; v.block(c, "csv_options"); str(c->delimiter, "csv delimiter"); str(c->null, "csv null"); str(c->quote, "csv quote"); }
  void stmt(const SQLStatement* s) {
    switch (s->type()) {
      case kStmtSelect: return;  // handled as select
      case kStmtImport: { auto* x = (const ImportStatement*)s; str(x->filePath, "filePath"); str(x->schema, "schema"); str(x->tableName, "tableName"); str(x->encoding, "encoding"); pe(x->whereClause, "ImportStatement::whereClause"); csv(x->csv_options); break; }
      case kStmtExport: { auto* x = (const ExportStatement*)s; str(x->filePath, "filePath"); str(x->schema, "schema"); str(x->tableName, "tableName"); str(x->encoding, "encoding"); ps(x->select, "ExportStatement::select"); csv(x->csv_options); break; }
      case kStmtInsert: { auto* x = (const InsertStatement*)s; str(x->schema, "schema"); str(x->tableName, "tableName"); strs(x->columns, "InsertStatement::columns"); exprs(x->values, "InsertStatement::values"); ps(x->select, "InsertStatement::select"); break; }
      case kStmtUpdate: {
        auto* x = (const UpdateStatement*)s;
        pt(x->table, "UpdateStatement::table");
        if (x->updates) { v.block(x->updates, "updates"); for (auto* u : *x->updates) { need(u, "updates"); if (!u) continue; v.block(u, "UpdateClause"); need(u->column, "UpdateClause::column"); str(u->column, "UpdateClause::column"); need(u->value, "UpdateClause::value"); pe(u->value, "UpdateClause::value"); } }
        pe(x->where, "UpdateStatement::where");
        break;
      }
      case kStmtDelete: { auto* x = (const DeleteStatement*)s; str(x->schema, "schema"); str(x->tableName, "tableName"); pe(x->expr, "DeleteStatement::expr"); break; }
      case kStmtCreate: {
        auto* x = (const CreateStatement*)s;
        str(x->filePath, "filePath"); str(x->schema, "schema"); str(x->tableName, "tableName"); str(x->indexName, "indexName");
        strs(x->indexColumns, "indexColumns"); strs(x->viewColumns, "viewColumns");
        ps(x->select, "CreateStatement::select");
        if (x->columns) {
          v.block(x->columns, "columns");
          for (auto* c : *x->columns) {
            need(c, "columns");
            if (!c) continue;
            v.block(c, "ColumnDefinition"); need(c->name, "ColumnDefinition::name"); str(c->name, "ColumnDefinition::name");
            if (c->column_constraints) v.block(c->column_constraints, "column_constraints");
            if (c->references) { v.block(c->references, "references"); for (auto* r : *c->references) refs(r); }
          }
        }
        if (x->tableConstraints) {
          v.block(x->tableConstraints, "tableConstraints");
          for (auto* c : *x->tableConstraints) {
            need(c, "tableConstraints");
            if (!c) continue;
            v.block(c, "TableConstraint"); need(c->columnNames, "TableConstraint::columnNames"); strs(c->columnNames, "TableConstraint::columnNames");
            if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(c)) refs(f->references);
          }
        }
        break;
      }
      case kStmtDrop: { auto* x = (const DropStatement*)s; str(x->schema, "schema"); str(x->name, "name"); str(x->indexName, "indexName"); break; }
      case kStmtPrepare: { auto* x = (const PrepareStatement*)s; str(x->name, "name"); if (x->query) v.block(x->query, "query"); need(x->query, "PrepareStatement::query"); break; }
      case kStmtExecute: { auto* x = (const ExecuteStatement*)s; str(x->name, "name"); exprs(x->parameters, "ExecuteStatement::parameters"); break; }
      case kStmtAlter: {
        auto* x = (const AlterStatement*)s;
        str(x->schema, "schema"); str(x->name, "name");
        need(x->action, "AlterStatement::action");
        if (x->action) { v.block(x->action, "action"); if (auto* d = dynamic_cast<const DropColumnAction*>(x->action)) str(d->columnName, "DropColumnAction::columnName"); }
        break;
      }
      case kStmtShow: { auto* x = (const ShowStatement*)s; str(x->schema, "schema"); str(x->name, "name"); break; }
      default: break;
    }
    exprs(s->hints, "hints");
  }
  void top(const SQLStatement* s) {
    if (!s) { v.bad("null statement"); return; }
    if (s->type() == kStmtSelect) ps((const SelectStatement*)s, "result");
    else { v.block(s, "statement"); v.statement(s, "result"); stmt(s); }
    drain();
  }
  void drain() {
    while (!st.empty()) {
      It i = st.back();
      st.pop_back();
      v.block(i.p, i.owner);
      if (i.kind == 'e') { v.expr((const Expr*)i.p, i.owner); expr((const Expr*)i.p); }
      else if (i.kind == 't') { v.table((const TableRef*)i.p, i.owner); table((const TableRef*)i.p); }
      else { v.statement((const SQLStatement*)(const SelectStatement*)i.p, i.owner); v.select((const SelectStatement*)i.p, i.owner); select((const SelectStatement*)i.p); }
    }
  }
};
}  // namespace
void walkStatement(const SQLStatement* s, Visitor& v) { W w(v); w.top(s); }
void walkResult(const SQLParserResult& r, Visitor& v) { for (auto* s : r.getStatements()) walkStatement(s, v); }
