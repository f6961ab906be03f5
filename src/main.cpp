#include "ctx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>


static std::string js(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void loadCorpus(Ctx& c, const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) { fprintf(stderr, "no corpus %s\n", path.c_str()); exit(3); }
  std::string line;
  int ch;
  while ((ch = fgetc(f)) != EOF) {
    if (ch == '\n') {
      std::string s;
      for (size_t i = 0; i < line.size(); i++) {
        if (line[i] == '\\' && i + 1 < line.size() && line[i + 1] == 'n') { s += '\n'; i++; } else s += line[i];
      }
      if (!s.empty()) c.corpus.push_back(s);
      line.clear();
    } else line += (char)ch;
  }
  fclose(f);
}
int main(int argc, char** argv) {
  // the stack limit of this process is raised for the monitors: threads keep the usual size
  pthread_attr_t at;
  if (!pthread_attr_init(&at)) { pthread_attr_setstacksize(&at, 8u << 20); pthread_setattr_default_np(&at); pthread_attr_destroy(&at); }
  Ctx c;
  std::string curPath, dictPath, replay, shape;
  if (argc < 2) return 3;
  c.id = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--shard") { c.shard = atoi(v.c_str()); c.shards = atoi(strchr(v.c_str(), '/') + 1); }
    else if (k == "--scale") c.scale = atof(v.c_str());
    else if (k == "--thorough") c.thorough = v == "1";
    else if (k == "--data") c.dataDir = v;
    else if (k == "--dict") dictPath = v;
    else if (k == "--scratch") c.scratch = v;
    else if (k == "--out") c.outPath = v;
    else if (k == "--cur") curPath = v;
    else if (k == "--replay") replay = v;
    else return 3;
  }
  uint64_t sd = c.seed * 1000003 + c.shard * 7919 + hashBytes(c.id) % 100000;
  c.rng = Rng(sd);
  c.bitmap.assign((1u << 22) / 64, 0);
  c.dict.load(dictPath.c_str());
  layoutSizes(c.dict);
  loadCorpus(c, c.dataDir + "/corpus.sql");
  if (!curPath.empty()) {
    int fd = open(curPath.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    c.curCap = 1 << 22;
    if (fd < 0 || ftruncate(fd, c.curCap)) return 3;
    c.cur = (char*)mmap(nullptr, c.curCap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  gCtx = &c;
  PropReg* pr = findProp(c.id);
  if (!pr) { fprintf(stderr, "unknown property %s\n", c.id.c_str()); return 3; }
  c.oracle = pr->oracle;
  if (!replay.empty()) {
    if (!pr->oracle) { fprintf(stderr, "no oracle for single texts\n"); return 3; }
    std::string t;
    FILE* f = fopen(replay.c_str(), "rb");
    int ch;
    while (f && (ch = fgetc(f)) != EOF) t += (char)ch;
    c.setCur(t);
    std::string w = pr->oracle(c, t);
    printf("%s\n", w.empty() ? "agreement" : w.c_str());
    return w.empty() ? 0 : 10;
  }
  pr->run(c);
  std::string o = "{\"evals\":" + std::to_string(c.evals) + ",\"nontrivial\":" + std::to_string(c.nontrivial) + ",\"failed\":" + (c.failed ? "true" : "false");
  o += ",\"what\":" + js(c.failWhat) + ",\"case\":" + js(c.failCase) + ",\"counts\":{";
  bool first = true;
  for (auto& k : c.count) { if (!first) o += ','; first = false; o += js(k.first) + ":" + std::to_string(k.second); }
  o += "},\"known\":{";
  first = true;
  for (auto& k : c.known) { if (!first) o += ','; first = false; o += js(k.first) + ":" + std::to_string(k.second); }
  o += "},\"samples\":[";
  for (size_t i = 0; i < c.samples.size(); i++) { if (i) o += ','; o += js(c.samples[i]); }
  o += "]}\n";
  FILE* f = fopen(c.outPath.c_str(), "wb");
  if (!f) return 3;
  fwrite(o.data(), 1, o.size(), f);
  fclose(f);
  f = fopen((c.outPath + ".bits").c_str(), "wb");
  fwrite(c.bitmap.data(), 8, c.bitmap.size(), f);
  fclose(f);
  return c.failed ? 10 : 0;
}
