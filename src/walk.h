// Iterative traversal of everything reachable from a parse result; never recurses, so chains of any length are fine.
#pragma once
#include "SQLParser.h"
#include <functional>
#include <unordered_set>
#include <vector>

struct Visitor {
  virtual ~Visitor() {}
  // owner: a description of the field the node hangs on
  virtual void expr(const hsql::Expr*, const char* /*owner*/) {}
  virtual void select(const hsql::SelectStatement*, const char*) {}
  virtual void table(const hsql::TableRef*, const char*) {}
  virtual void statement(const hsql::SQLStatement*, const char*) {}
  virtual void name(const char*, const char* /*owner*/) {}           // every non-null string
  virtual void names(const std::vector<char*>*, const char*) {}      // every non-null list of strings
  virtual void block(const void*, const char*) {}                    // every owned heap object (nodes, lists, strings)
  virtual void bad(const std::string&) {}                            // null where a node has to be
};
void walkResult(const hsql::SQLParserResult& r, Visitor& v);
void walkStatement(const hsql::SQLStatement* s, Visitor& v);
