// Reads every public field of a parse result into the neutral tree of node.h.
#pragma once
#include "node.h"
#include "SQLParser.h"

N* dumpStatement(const hsql::SQLStatement* s, Arena& A);
N* dumpExpr(const hsql::Expr* e, Arena& A);
// everything a caller can observe on a result: validity, error details, statements with lengths, parameters
std::string dumpResult(hsql::SQLParserResult& r, bool withLengths = true);
std::string constResult(const hsql::SQLParserResult& r, bool withLengths = true);  // the same without the parameters (only const members)
// tree only (statements, no positions or lengths)
std::string dumpStatements(const hsql::SQLParserResult& r);
void nestedLengths(bool on);  // include stringLength of nested statements (initialisation check)
