#include "dump.h"
#include "raw.h"
using namespace hsql;

static thread_local bool gNested = false;
void nestedLengths(bool on) { gNested = on; }

static std::string Q(const char* s) { return quoteBytes(s); }
template <typename B>
static void flag(N* n, const char* k, const B& b) {
  int64_t c = rawInt(b);  // a forgotten initialiser shows as a value other than 0/1
  if (c) n->seti(k, c);
}
template <typename T>
static int64_t raw(const T& e) {  // enums are read bytewise: an indeterminate value must not be undefined behaviour here
  return rawInt(e);
}
template <size_t K>
static std::string en(const char* const (&names)[K], int64_t v) {
  if (v < 0 || v >= (int64_t)K) return "enum!" + std::to_string(v);
  return names[v];
}
static std::string enumOr(const char* name, int64_t v) { return name ? name : "enum!" + std::to_string(v); }

static const char* exprType(int64_t t) {
  switch (t) {
    case kExprLiteralFloat: return "float";
    case kExprLiteralString: return "string";
    case kExprLiteralInt: return "int";
    case kExprLiteralNull: return "null";
    case kExprLiteralDate: return "date";
    case kExprLiteralInterval: return "interval";
    case kExprStar: return "star";
    case kExprParameter: return "parameter";
    case kExprColumnRef: return "columnref";
    case kExprFunctionRef: return "functionref";
    case kExprOperator: return "operator";
    case kExprSelect: return "select";
    case kExprHint: return "hint";
    case kExprArray: return "array";
    case kExprArrayIndex: return "arrayindex";
    case kExprExtract: return "extract";
    case kExprCast: return "cast";
  }
  return "expr!";
}
static const char* opName(int64_t o) {
  switch (o) {
    case kOpNone: return "";
    case kOpBetween: return "between";
    case kOpCase: return "case";
    case kOpCaseListElement: return "caselistelement";
    case kOpPlus: return "plus";
    case kOpMinus: return "minus";
    case kOpAsterisk: return "asterisk";
    case kOpSlash: return "slash";
    case kOpPercentage: return "percentage";
    case kOpCaret: return "caret";
    case kOpEquals: return "equals";
    case kOpNotEquals: return "notequals";
    case kOpLess: return "less";
    case kOpLessEq: return "lesseq";
    case kOpGreater: return "greater";
    case kOpGreaterEq: return "greatereq";
    case kOpLike: return "like";
    case kOpNotLike: return "notlike";
    case kOpILike: return "ilike";
    case kOpAnd: return "and";
    case kOpOr: return "or";
    case kOpIn: return "in";
    case kOpConcat: return "concat";
    case kOpNot: return "not";
    case kOpUnaryMinus: return "unaryminus";
    case kOpIsNull: return "isnull";
    case kOpExists: return "exists";
  }
  return nullptr;
}
static const char* dtName(int64_t d) {
  switch (d) {
    case kDatetimeNone: return "";
    case kDatetimeSecond: return "second";
    case kDatetimeMinute: return "minute";
    case kDatetimeHour: return "hour";
    case kDatetimeDay: return "day";
    case kDatetimeMonth: return "month";
    case kDatetimeYear: return "year";
  }
  return nullptr;
}
static std::string ctype(const ColumnType& c) {
  const char* n = nullptr;
  switch (raw(c.data_type)) {
    case (int)DataType::UNKNOWN: n = "UNKNOWN"; break;
    case (int)DataType::BIGINT: n = "BIGINT"; break;
    case (int)DataType::BOOLEAN: n = "BOOLEAN"; break;
    case (int)DataType::CHAR: n = "CHAR"; break;
    case (int)DataType::DATE: n = "DATE"; break;
    case (int)DataType::DATETIME: n = "DATETIME"; break;
    case (int)DataType::DECIMAL: n = "DECIMAL"; break;
    case (int)DataType::DOUBLE: n = "DOUBLE"; break;
    case (int)DataType::FLOAT: n = "FLOAT"; break;
    case (int)DataType::INT: n = "INT"; break;
    case (int)DataType::LONG: n = "LONG"; break;
    case (int)DataType::REAL: n = "REAL"; break;
    case (int)DataType::SMALLINT: n = "SMALLINT"; break;
    case (int)DataType::TEXT: n = "TEXT"; break;
    case (int)DataType::TIME: n = "TIME"; break;
    case (int)DataType::VARCHAR: n = "VARCHAR"; break;
  }
  return enumOr(n, raw(c.data_type)) + "(" + std::to_string(c.length) + "," + std::to_string(c.precision) + "," + std::to_string(c.scale) + ")";
}

namespace {
struct D {
  Arena& A;
  N* null() { return A.mk("nullptr"); }
  N* exprs(const std::vector<Expr*>* v) {
    if (!v) return nullptr;
    N* l = A.mk("list");
    for (auto* e : *v) l->c.emplace_back("", e ? expr(e) : null());
    return l;
  }
  static std::string strs(const std::vector<char*>* v) {
    std::string s = "[";
    for (auto* x : *v) { if (s.size() > 1) s += ','; s += x ? Q(x) : "nullptr"; }
    return s + "]";
  }
  static void str(N* n, const char* k, const char* s) { if (s) n->set(k, Q(s)); }
  static void sv(N* n, const char* k, const std::vector<char*>* v) { if (v) n->set(k, strs(v)); }

  N* bound(const FrameBound* b) {
    if (!b) return nullptr;
    N* n = A.mk("bound");
    if (b->offset) n->seti("offset", b->offset);
    switch (raw(b->type)) {
      case kFollowing: n->set("type", "following"); break;
      case kPreceding: n->set("type", "preceding"); break;
      case kCurrentRow: n->set("type", "current"); break;
      default: n->set("type", "enum!" + std::to_string(raw(b->type)));
    }
    flag(n, "unbounded", b->unbounded);
    return n;
  }
  N* window(const WindowDescription* w) {
    if (!w) return nullptr;
    N* n = A.mk("window");
    n->kid("partition", exprs(w->partitionList));
    n->kid("order", orders(w->orderList));
    if (auto* f = w->frameDescription) {
      N* fn = A.mk("frame");
      static const char* const t[] = {"range", "rows", "groups"};
      fn->set("type", en(t, raw(f->type)));
      fn->kid("start", bound(f->start));
      fn->kid("end", bound(f->end));
      n->kid("frame", fn);
    }
    return n;
  }
  N* expr(const Expr* e) {
    if (!e) return nullptr;
    N* n = A.mk(exprType(raw(e->type)));
    const char* on = opName(raw(e->opType));
    if (!on || *on) n->set("op", enumOr(on, raw(e->opType)));
    const char* dn = dtName(raw(e->datetimeField));
    if (!dn || *dn) n->set("dt", enumOr(dn, raw(e->datetimeField)));
    str(n, "name", e->name);
    str(n, "table", e->table);
    str(n, "schema", e->schema);
    str(n, "alias", e->alias);
    if (!(e->fval == 0)) n->set("fval", hexDouble(e->fval));
    if (e->ival) n->seti("ival", e->ival);
    if (e->ival2) n->seti("ival2", e->ival2);
    std::string ct = ctype(e->columnType);
    if (ct != "UNKNOWN(0,0,0)") n->set("ctype", ct);
    flag(n, "bool", e->isBoolLiteral);
    flag(n, "distinct", e->distinct);
    n->kid("expr", expr(e->expr));
    n->kid("expr2", expr(e->expr2));
    n->kid("list", exprs(e->exprList));
    n->kid("select", select(e->select));
    n->kid("window", window(e->windowDescription));
    return n;
  }
  N* orders(const std::vector<OrderDescription*>* v) {
    if (!v) return nullptr;
    N* l = A.mk("list");
    for (auto* d : *v) {
      N* n = A.mk("order");
      if (d) {
        static const char* const t[] = {"asc", "desc"};
        n->set("type", en(t, raw(d->type)));
        if (raw(d->null_ordering) != Undefined) {
          static const char* const u[] = {"undefined", "first", "last"};
          n->set("nulls", en(u, raw(d->null_ordering)));
        }
        n->kid("expr", expr(d->expr));
      }
      l->c.emplace_back("", n);
    }
    return l;
  }
  N* limit(const LimitDescription* d) {
    if (!d) return nullptr;
    N* n = A.mk("limit");
    n->kid("limit", expr(d->limit));
    n->kid("offset", expr(d->offset));
    return n;
  }
  N* alias(const Alias* a) {
    if (!a) return nullptr;
    N* n = A.mk("alias");
    str(n, "name", a->name);
    sv(n, "cols", a->columns);
    return n;
  }
  N* table(const TableRef* t) {
    if (!t) return nullptr;
    static const char* const k[] = {"table:name", "table:select", "table:join", "table:cross"};
    int64_t ty = raw(t->type);
    N* n = A.mk(ty >= 0 && ty < 4 ? k[ty] : "table:enum!");
    str(n, "schema", t->schema);
    str(n, "name", t->name);
    n->kid("alias", alias(t->alias));
    n->kid("select", select(t->select));
    if (t->list) {
      N* l = A.mk("list");
      for (auto* x : *t->list) l->c.emplace_back("", x ? table(x) : null());
      n->kid("list", l);
    }
    if (auto* j = t->join) {
      N* jn = A.mk("join");
      static const char* const jt[] = {"inner", "full", "left", "right", "cross", "natural"};
      jn->set("type", en(jt, raw(j->type)));
      jn->kid("left", table(j->left));
      jn->kid("right", table(j->right));
      jn->kid("cond", expr(j->condition));
      sv(jn, "named", j->namedColumns);
      n->kid("join", jn);
    }
    return n;
  }
  N* select(const SelectStatement* s) {
    if (!s) return nullptr;
    N* n = A.mk("stmt:select");
    if (s->type() != kStmtSelect) n->set("statementtype", std::to_string(s->type()));
    if (gNested) n->seti("stringLength", (int64_t)s->stringLength);
    n->kid("hints", exprs(s->hints));
    flag(n, "distinct", s->selectDistinct);
    n->kid("from", table(s->fromTable));
    n->kid("list", exprs(s->selectList));
    n->kid("where", expr(s->whereClause));
    if (auto* g = s->groupBy) {
      N* gn = A.mk("group");
      gn->kid("columns", exprs(g->columns));
      gn->kid("having", expr(g->having));
      n->kid("group", gn);
    }
    if (s->setOperations) {
      N* l = A.mk("list");
      for (auto* o : *s->setOperations) {
        N* on = A.mk("setop");
        static const char* const st[] = {"union", "intersect", "except"};
        on->set("type", en(st, raw(o->setType)));
        flag(on, "all", o->isAll);
        on->kid("nested", select(o->nestedSelectStatement));
        on->kid("order", orders(o->resultOrder));
        on->kid("limit", limit(o->resultLimit));
        l->c.emplace_back("", on);
      }
      n->kid("setops", l);
    }
    n->kid("order", orders(s->order));
    if (s->withDescriptions) {
      N* l = A.mk("list");
      for (auto* w : *s->withDescriptions) {
        N* wn = A.mk("with");
        str(wn, "alias", w->alias);
        wn->kid("select", select(w->select));
        l->c.emplace_back("", wn);
      }
      n->kid("with", l);
    }
    n->kid("limit", limit(s->limit));
    if (s->lockings) {
      N* l = A.mk("list");
      for (auto* k : *s->lockings) {
        N* kn = A.mk("lock");
        static const char* const m[] = {"update", "nokeyupdate", "share", "keyshare"};
        static const char* const p[] = {"nowait", "skiplocked", "none"};
        kn->set("mode", en(m, raw(k->rowLockMode)));
        kn->set("policy", en(p, raw(k->rowLockWaitPolicy)));
        sv(kn, "tables", k->tables);
        l->c.emplace_back("", kn);
      }
      n->kid("lockings", l);
    }
    return n;
  }
  N* references(const ReferencesSpecification* r) {
    if (!r) return null();
    N* n = A.mk("references");
    str(n, "schema", r->schema);
    str(n, "table", r->table);
    sv(n, "cols", r->columns);
    return n;
  }
  static const char* constraint(int64_t c) {
    switch (c) {
      case (int)ConstraintType::ForeignKey: return "foreignkey";
      case (int)ConstraintType::NotNull: return "notnull";
      case (int)ConstraintType::Null: return "null";
      case (int)ConstraintType::PrimaryKey: return "primarykey";
      case (int)ConstraintType::Unique: return "unique";
    }
    return nullptr;
  }
  void csv(N* n, const CsvOptions* c) {
    if (!c) return;
    N* k = A.mk("csv");
    str(k, "delimiter", c->delimiter);
    str(k, "null", c->null);
    str(k, "quote", c->quote);
    n->kid("csv", k);
  }
  N* stmt(const SQLStatement* s) {
    if (!s) return null();
    N* n = nullptr;
    switch (s->type()) {
      case kStmtSelect: return select(static_cast<const SelectStatement*>(s));
      case kStmtImport: {
        auto* x = static_cast<const ImportStatement*>(s);
        n = A.mk("stmt:import");
        static const char* const t[] = {"csv", "tbl", "binary", "auto"};
        n->set("type", en(t, raw(x->type)));
        str(n, "filePath", x->filePath); str(n, "schema", x->schema); str(n, "tableName", x->tableName);
        n->kid("where", expr(x->whereClause));
        str(n, "encoding", x->encoding);
        csv(n, x->csv_options);
        break;
      }
      case kStmtExport: {
        auto* x = static_cast<const ExportStatement*>(s);
        n = A.mk("stmt:export");
        static const char* const t[] = {"csv", "tbl", "binary", "auto"};
        n->set("type", en(t, raw(x->type)));
        str(n, "filePath", x->filePath); str(n, "schema", x->schema); str(n, "tableName", x->tableName);
        n->kid("select", select(x->select));
        str(n, "encoding", x->encoding);
        csv(n, x->csv_options);
        break;
      }
      case kStmtInsert: {
        auto* x = static_cast<const InsertStatement*>(s);
        n = A.mk("stmt:insert");
        static const char* const t[] = {"values", "select"};
        n->set("type", en(t, raw(x->type)));
        str(n, "schema", x->schema); str(n, "tableName", x->tableName);
        sv(n, "columns", x->columns);
        n->kid("values", exprs(x->values));
        n->kid("select", select(x->select));
        break;
      }
      case kStmtUpdate: {
        auto* x = static_cast<const UpdateStatement*>(s);
        n = A.mk("stmt:update");
        n->kid("table", table(x->table));
        if (x->updates) {
          N* l = A.mk("list");
          for (auto* u : *x->updates) {
            N* un = A.mk("update");
            str(un, "column", u->column);
            un->kid("value", expr(u->value));
            l->c.emplace_back("", un);
          }
          n->kid("updates", l);
        }
        n->kid("where", expr(x->where));
        break;
      }
      case kStmtDelete: {
        auto* x = static_cast<const DeleteStatement*>(s);
        n = A.mk("stmt:delete");
        str(n, "schema", x->schema); str(n, "tableName", x->tableName);
        n->kid("where", expr(x->expr));
        break;
      }
      case kStmtCreate: {
        auto* x = static_cast<const CreateStatement*>(s);
        n = A.mk("stmt:create");
        static const char* const t[] = {"table", "fromtbl", "view", "index"};
        n->set("type", en(t, raw(x->type)));
        flag(n, "ifNotExists", x->ifNotExists);
        str(n, "filePath", x->filePath); str(n, "schema", x->schema); str(n, "tableName", x->tableName); str(n, "indexName", x->indexName);
        sv(n, "indexColumns", x->indexColumns);
        sv(n, "viewColumns", x->viewColumns);
        if (x->columns) {
          N* l = A.mk("list");
          for (auto* c : *x->columns) {
            N* cn = A.mk("column");
            str(cn, "name", c->name);
            cn->set("ctype", ctype(c->type));
            cn->seti("nullable", rawInt(c->nullable));
            if (c->column_constraints) {
              std::vector<std::string> v;
              for (auto k : *c->column_constraints) v.push_back(enumOr(constraint(raw(k)), raw(k)));
              std::sort(v.begin(), v.end());
              std::string str = "{";
              for (auto& q : v) { if (str.size() > 1) str += ','; str += q; }
              cn->set("constraints", str + "}");
            }
            if (c->references) {
              N* rl = A.mk("list");
              for (auto* r : *c->references) rl->c.emplace_back("", references(r));
              cn->kid("references", rl);
            }
            l->c.emplace_back("", cn);
          }
          n->kid("columns", l);
        }
        if (x->tableConstraints) {
          N* l = A.mk("list");
          for (auto* c : *x->tableConstraints) {
            N* cn = A.mk("constraint");
            cn->set("type", enumOr(constraint(raw(c->type)), raw(c->type)));
            sv(cn, "cols", c->columnNames);
            if (auto* f = dynamic_cast<const ForeignKeyConstraint*>(c)) cn->kid("references", references(f->references));
            l->c.emplace_back("", cn);
          }
          n->kid("constraints", l);
        }
        n->kid("select", select(x->select));
        break;
      }
      case kStmtDrop: {
        auto* x = static_cast<const DropStatement*>(s);
        n = A.mk("stmt:drop");
        static const char* const t[] = {"table", "schema", "index", "view", "prepared"};
        n->set("type", en(t, raw(x->type)));
        flag(n, "ifExists", x->ifExists);
        str(n, "schema", x->schema); str(n, "name", x->name); str(n, "indexName", x->indexName);
        break;
      }
      case kStmtPrepare: {
        auto* x = static_cast<const PrepareStatement*>(s);
        n = A.mk("stmt:prepare");
        str(n, "name", x->name); str(n, "query", x->query);
        break;
      }
      case kStmtExecute: {
        auto* x = static_cast<const ExecuteStatement*>(s);
        n = A.mk("stmt:execute");
        str(n, "name", x->name);
        n->kid("parameters", exprs(x->parameters));
        break;
      }
      case kStmtAlter: {
        auto* x = static_cast<const AlterStatement*>(s);
        n = A.mk("stmt:alter");
        str(n, "schema", x->schema); str(n, "name", x->name);
        flag(n, "ifTableExists", x->ifTableExists);
        if (x->action) {
          if (raw(x->action->type) == DropColumn) {
            auto* d = static_cast<const DropColumnAction*>(x->action);
            N* a = A.mk("dropcolumn");
            str(a, "column", d->columnName);
            flag(a, "ifExists", d->ifExists);
            n->kid("action", a);
          } else n->kid("action", A.mk("action!"));
        }
        break;
      }
      case kStmtShow: {
        auto* x = static_cast<const ShowStatement*>(s);
        n = A.mk("stmt:show");
        static const char* const t[] = {"columns", "tables"};
        n->set("type", en(t, raw(x->type)));
        str(n, "schema", x->schema); str(n, "name", x->name);
        break;
      }
      case kStmtTransaction: {
        auto* x = static_cast<const TransactionStatement*>(s);
        n = A.mk("stmt:transaction");
        static const char* const t[] = {"begin", "commit", "rollback"};
        n->set("command", en(t, raw(x->command)));
        break;
      }
      default:
        n = A.mk("stmt:!");
        n->seti("type", s->type());
    }
    n->kid("hints", exprs(s->hints));
    return n;
  }
};
}  // namespace

N* dumpStatement(const SQLStatement* s, Arena& A) { D d{A}; return d.stmt(s); }
N* dumpExpr(const Expr* e, Arena& A) { D d{A}; return d.expr(e); }

std::string dumpStatements(const SQLParserResult& r) {
  Arena A;
  std::string s;
  for (auto* st : r.getStatements()) { s += ser(dumpStatement(st, A)); s += '\n'; }
  return s;
}
std::string constResult(const SQLParserResult& r, bool withLengths) {
  Arena A;
  std::string s = "valid=" + std::to_string((int)*(const unsigned char*)[&] { static thread_local bool b; b = r.isValid(); return &b; }());
  s += " msg=" + (r.errorMsg() ? quoteBytes(r.errorMsg()) : std::string("null"));
  s += " line=" + std::to_string(r.errorLine()) + " col=" + std::to_string(r.errorColumn()) + " n=" + std::to_string(r.size()) + "\n";
  for (auto* st : r.getStatements()) {
    if (withLengths) s += "len=" + std::to_string(st->stringLength) + " ";
    s += ser(dumpStatement(st, A));
    s += '\n';
  }
  return s;
}
std::string dumpResult(SQLParserResult& r, bool withLengths) {
  std::string s = constResult(r, withLengths);
  s += "params=";
  for (auto* e : r.parameters()) { s += e ? std::to_string(e->ival) + "/" + std::to_string(e->ival2) : "nullptr"; s += ','; }
  return s + "\n";
}
