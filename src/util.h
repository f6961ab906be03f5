// Helpers shared by the monitors.
#pragma once
#include "ctx.h"
#include "util/sqlhelper.h"
#include <iostream>
#include <streambuf>

// Redirects std::cout and std::cerr while alive.
struct Capture {
  struct Buf : std::streambuf {
    std::string s;
    int overflow(int ch) override { if (ch != EOF) s += (char)ch; return ch; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { s.append(p, (size_t)n); return n; }
  } out, err;
  std::streambuf *o, *e;
  Capture() : o(std::cout.rdbuf(&out)), e(std::cerr.rdbuf(&err)) {}
  ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
inline std::string printAll(const hsql::SQLParserResult& r) {
  Capture c;
  for (size_t i = 0; i < r.size(); i++) hsql::printStatementInfo(r.getStatement(i));
  return c.out.s;
}
// texts are printed and dumped recursively only below these sizes (chains longer than that are a documented limit)
const size_t kPrintMax = 4000, kDumpMax = 12000;
inline TextFn checker(Ctx& c) { return [&c](const std::string& t) { return check(c, t); }; }
inline std::string subst(const char* tmpl, const std::string& v) {
  std::string s;
  for (const char* p = tmpl; *p; p++) { if (*p == '$') s += v; else s += *p; }
  return s;
}
template <size_t N>
const char* any(Ctx& c, const char* const (&a)[N]) { return a[c.rng.below(N)]; }
std::string removeParamIds(const hsql::SQLParserResult& r);            // dumpStatements with all placeholder numbers set to 0
std::vector<std::string> treesWithoutParamIds(const hsql::SQLParserResult& r);
inline std::string firstDiff(const std::string& a, const std::string& b) {
  size_t d = 0;
  while (d < a.size() && d < b.size() && a[d] == b[d]) d++;
  size_t from = d > 50 ? d - 50 : 0;
  return "..." + a.substr(from, 140) + "... / ..." + b.substr(from, 140) + "...";
}
// Mixed workload: corpus, truncations, edits, semantic offences, sweeps, random texts and bytes.
void mixedStreams(Ctx& c, double n, const TextFn& f, double prefixes, double edits);
