// Run context shared by all monitors: workload streams, statistics, verdicts.
#pragma once
#include "SQLParser.h"
#include "dump.h"
#include "gen.h"
#include "node.h"
#include "refparse.h"
#include "reflex.h"
#include "rng.h"
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

struct Ctx;
typedef std::string (*OracleFn)(Ctx&, const std::string&);
struct Ctx {
  std::string id;
  uint64_t seed = 1;
  int shard = 0, shards = 1;
  double scale = 1;
  bool thorough = false;
  std::string dataDir, outPath, replayPath, scratch;
  Rng rng{1};
  Dict dict;
  std::vector<std::string> corpus;
  // statistics (everything is counted on this run)
  uint64_t evals = 0, nontrivial = 0;
  bool nt = false;
  OracleFn oracle = nullptr;
  bool noShrink = false;
  std::map<std::string, uint64_t> count;
  std::vector<std::string> samples;
  std::vector<uint64_t> bitmap;  // hashed set of non-trivial cases (lower bound on distinct ones)
  // verdict
  bool failed = false;
  std::string failWhat, failCase;
  std::map<std::string, uint64_t> known;
  // current input, mirrored into a shared mapping so that it survives a crash
  char* cur = nullptr;
  size_t curCap = 0;

  void setCur(const std::string& s, const char* note = "");
  void tally(const std::string& text, bool nontriv) {
    evals++;
    if (!nontriv) return;
    nontrivial++;
    uint64_t h = hashBytes(text);
    bitmap[(h >> 6) & (bitmap.size() - 1)] |= 1ull << (h & 63);
    if (samples.size() < 6 && text.size() < 400 && (nontrivial & (nontrivial - 1)) == 0) samples.push_back(text);
  }
  void fail(const std::string& what, const std::string& text);
  size_t n(double base) const { double x = base * scale / shards; return x < 1 ? 1 : (size_t)x; }
  bool mine(uint64_t i) const { return (int)(i % shards) == shard; }
};
extern Ctx* gCtx;

// one execution of reference and real parser on a text
enum Cmp : unsigned {
  CMP_ACCEPT = 1,   // accept / reject
  CMP_TREE = 2,     // trees of accepted texts
  CMP_STATE = 4,    // shape of the result object on success / failure
  CMP_POS = 8,      // error position
  CMP_PARAM = 16,   // parameter list
  CMP_LEN = 32,     // statement lengths
};
struct Exec {
  std::string text;
  LexOut lx;
  RefOut ref;
  Arena arena;
};
// empty string: agreement. `kinds`: bit set of RefStmt that CMP_TREE applies to
std::string judge(Exec& x, hsql::SQLParserResult& r, bool ret, unsigned cmp, uint64_t kinds = ~0ull);
std::string runCase(Exec& x, const std::string& text, unsigned cmp, uint64_t kinds = ~0ull, bool* accepted = nullptr);
bool parseAny(const std::string& text, hsql::SQLParserResult* r);  // through one of the three entry points
void refRun(Exec& x, const std::string& text);
bool depthExcused(const Exec& x, const hsql::SQLParserResult& r);

// greedy reduction of a failing text: token-wise, then byte-wise
std::string shrink(const std::string& text, const std::function<bool(const std::string&)>& stillFails, int budget = 1500);

struct Profile {
  std::vector<std::pair<const char*, int>> starts;  // grammar symbol (wrapped into a statement by `wrap`), weight
  GenOpts opts;
  int mutTok = 0, mutByte = 0;   // percent of cases that are mutated
  int comments = 30;
};
using TextFn = std::function<bool(const std::string&)>;  // returns false to stop
void streamRandom(Ctx& c, const Profile& p, size_t n, const TextFn& f);
void streamCorpus(Ctx& c, const TextFn& f);  // and streamPlaced
void streamPlaced(Ctx& c, const TextFn& f);
void streamGaps(Ctx& c, size_t dense, const TextFn& f);
void streamPrefixes(Ctx& c, double fraction, const TextFn& f);
void streamEdits(Ctx& c, double fraction, const TextFn& f);
void streamSweeps(Ctx& c, const std::vector<std::string>& templates, const std::vector<size_t>& sizes, const TextFn& f);
void streamBytes(Ctx& c, size_t n, const TextFn& f);
std::vector<size_t> sweepSizes(Ctx& c, size_t dense, size_t maxN);
extern const std::vector<std::string> kListSweeps, kDepthSweeps, kLengthSweeps;
std::string expandTemplate(const std::string& t, size_t n);
std::string embedExpr(int ctx, const std::string& e);
int embedCount();

std::string dumpTreesOf(const hsql::SQLParserResult& r);
uint64_t kindsMask(std::initializer_list<int> k);

// ------------------------------------------------------------------ properties
// An oracle decides one text ("" = the property holds on it) and sets c.nt if the text was a non-trivial case for it.
typedef void (*PropFn)(Ctx&);
struct PropReg {
  const char* id;
  PropFn run;
  OracleFn oracle;
  PropReg* next;
  PropReg(const char* i, PropFn f, OracleFn o);
};
#define PROPERTY(id, run, oracle) static PropReg reg_##run(id, run, oracle)
PropReg* findProp(const std::string& id);
// runs the oracle of the current property on a text; reduces and records a failure; returns false to stop
bool check(Ctx& c, const std::string& text);
const char* modeName();
