// Workload generation: grammar-driven sentences of the dialect, layout rendering and mutation.
#pragma once
#include "reflex.h"
#include "rng.h"
#include <map>
#include <set>
#include <string>
#include <vector>

struct GTok {
  int kind;
  std::string text;  // exact spelling (canonical: keywords upper case)
};
using Toks = std::vector<GTok>;

// Names, strings and numbers mined from the sources of the code under test (tools/mine.py); weights unusual ones.
struct Dict {
  std::vector<std::string> words;     // identifier-like or free text
  std::vector<uint64_t> nums;
  std::vector<std::string> hotWords;  // not present in the reviewed tree
  std::vector<uint64_t> hotNums;
  void load(const char* path);
};

struct GenOpts {
  int depth = 7;          // derivation depth before only shortest alternatives are taken
  size_t maxToks = 600;
  int badLit = 0;         // percent of semantic offences put into literals/options
  int params = 1;         // weight of '?' among literals
  bool plainNames = false;  // only simple unique names (printing / accessor checks)
};

struct Gen {
  Rng& r;
  const Dict& d;
  GenOpts o;
  uint64_t uniq = 0;
  Gen(Rng& rng, const Dict& dict) : r(rng), d(dict) {}

  Toks derive(const char* start);
  std::string ident();
  std::string strContent();
  std::string intText();
  std::string floatText();
  size_t listLen();

  GTok idTok() { return {T_ID, ident()}; }
  GTok strTok(const std::string& content);
  GTok randomTok();

 private:
  void emit(int nt, int depth, Toks& out);
};
// names of all nonterminals that can be used as a start symbol
const std::vector<std::string>& grammarSymbols();

struct LayoutOpts {
  int style = 0;  // 0 canonical single blanks, 1 random blanks, 2 random blanks + comments, 3 minimal blanks
  bool randomCase = false;
  bool altOps = false;  // != / <>, = / ==
};
void layoutSizes(const Dict& d);
std::string render(const Toks& t, Rng& r, const LayoutOpts& o);
std::string renderPlain(const Toks& t);
std::string joinToks(const LexOut& lx, const std::string& text);  // tokens of a text separated by one blank

Toks toksOf(const LexOut& lx, const std::string& text);
void mutateToks(Toks& t, Rng& r, Gen& g, int n);
void mutateBytes(std::string& s, Rng& r, Gen& g, int n);
bool needsBlank(const GTok& a, const GTok& b);
std::string quoteSql(const std::string& content);
GTok kw(int k);
GTok spellOf(int kind, Gen& g);
