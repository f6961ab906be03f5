// Independent reference parser of the dialect: hand-written recursive descent with an operator-precedence core.
// Decides acceptance, the first token that cannot continue any valid text, the semantic rules, and the exact tree.
#pragma once
#include "node.h"
#include "reflex.h"
#include <set>

enum RefErr {
  RE_NONE = 0,
  RE_SYNTAX,
  RE_DATE, RE_INTERVAL, RE_INTERVAL_UNIT, RE_FILETYPE, RE_FORMAT_TWICE, RE_ENCODING_TWICE, RE_CSV_TWICE, RE_CSV_NOT_CSV,
  RE_CSV_UNKNOWN, RE_NULLS, RE_PARAM, RE_NULLABILITY,
  RE_COUNT_
};
const char* refErrName(RefErr e);

enum RefFlag : unsigned {
  RF_EITHER = 2,      // contains a literal spelling the dialect leaves open (see DESIGN.md): accept or reject
};

struct RefError {
  RefErr kind = RE_NONE;
  size_t tokB = 0, tokE = 0;  // token index range [tokB, tokE] of the offending token / construct
  int expectedAt = 0;
};

struct RefOut {
  bool ok = false;
  std::vector<N*> stmts;
  std::vector<std::pair<size_t, size_t>> stmtTok;  // token range [first, last] per statement (without ';')
  std::vector<int> stmtKind;                       // RefStmt
  int params = 0;
  std::vector<RefError> errors;  // non-fatal ones first; the last one is the fatal one (if !ok)
  unsigned flags = 0;
  int depth = 0;                 // deepest nesting of constructs that occupy the parser's stack
  uint64_t ops = 0;              // number of grammar decisions taken (for coverage reporting)
};
enum RefStmt { RS_SELECT, RS_CREATE_TABLE, RS_CREATE_FROM, RS_CTAS, RS_CREATE_INDEX, RS_CREATE_VIEW, RS_INSERT, RS_INSERT_SELECT, RS_DELETE,
               RS_TRUNCATE, RS_UPDATE, RS_DROP, RS_DEALLOCATE, RS_ALTER, RS_EXECUTE, RS_TRANSACTION, RS_PREPARE, RS_SHOW, RS_IMPORT,
               RS_COPY_FROM, RS_COPY_TO, RS_COUNT_ };
const char* refStmtName(int);

void refParse(const LexOut& lx, Arena& A, RefOut& out);
