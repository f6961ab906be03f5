#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sched.h>

namespace {
struct S { bool on; long live; size_t bytes, allocs; long curBytes, peak; };
thread_local S s;
std::atomic<bool> gOn{false};
std::atomic<long> gLive{0};
inline void gNote(long d) { if (gOn.load(std::memory_order_relaxed)) gLive.fetch_add(d, std::memory_order_relaxed); }
}  // namespace
namespace rt {
void begin() { s = S(); s.on = true; }
void end() { s.on = false; }
long live() { return s.live; }
long globalLive() { return gLive; }
void globalBegin() { gLive = 0; gOn = true; }
void globalEnd() { gOn = false; }
size_t bytes() { return s.bytes; }
size_t allocs() { return s.allocs; }
long peak() { return s.peak; }
static thread_local unsigned jitEvery, jitState;
void jitter(unsigned every, unsigned seed) { jitEvery = every; jitState = seed | 1; }
static inline void jit() {
  if (!jitEvery) return;
  jitState = jitState * 1664525u + 1013904223u;
  if ((jitState >> 8) % jitEvery == 0) sched_yield();
}
}  // namespace rt
#if defined VF_MODE_ASAN
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }
#elif defined VF_MODE_TSAN
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:history_size=4:report_signal_unsafe=0"; }
#endif

#if defined VF_MODE_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
void onMalloc(const volatile void* p, size_t n) { if (p) gNote(1); if (s.on && p) { s.live++; s.allocs++; s.bytes += n; } }
void onFree(const volatile void* p) { if (p) gNote(-1); if (s.on && p) s.live--; }
struct Init { Init() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } init;
}
namespace rt { bool canCount() { return true; } void fill(int) {} bool canFill() { return false; } void failNext(unsigned) {} bool failed() { return false; } }

#elif defined VF_MODE_TSAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace {
void onMalloc(const volatile void*, size_t) { rt::jit(); }
void onFree(const volatile void*) { rt::jit(); }
struct Init { Init() { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } } init;
}
namespace rt { bool canCount() { return false; } void fill(int) {} bool canFill() { return false; } void failNext(unsigned) {} bool failed() { return false; } }

#elif defined VF_MODE_PLAIN || defined VF_MODE_COV
#include <malloc.h>
#include <new>
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
thread_local int pat = -1;
thread_local unsigned failIn;
thread_local bool failDone;
thread_local int inNew;  // memory of C++ objects is not made to fail, only what the C parts ask for
inline void rawFill(void* p, size_t n) { volatile unsigned char* q = (volatile unsigned char*)p; for (size_t i = 0; i < n; i++) q[i] = (unsigned char)pat; }
inline void noteAlloc(void* p, size_t n) {
  if (p) gNote(1);
  if (!s.on || !p) return;
  s.live++; s.allocs++; s.bytes += n;
  s.curBytes += (long)malloc_usable_size(p);
  if (s.curBytes > s.peak) s.peak = s.curBytes;
}
inline void noteFree(void* p) { if (p) gNote(-1); if (s.on && p) { s.live--; s.curBytes -= (long)malloc_usable_size(p); } }
}
extern "C" {
void* malloc(size_t n) {
  rt::jit();
  if (failIn && !inNew && --failIn == 0) { failDone = true; errno = ENOMEM; return nullptr; }
  void* p = __libc_malloc(n);
  if (pat >= 0 && p) rawFill(p, malloc_usable_size(p));
  noteAlloc(p, n);
  return p;
}
void free(void* p) {
  if (!p) return;
  rt::jit();
  noteFree(p);
  if (pat >= 0) rawFill(p, malloc_usable_size(p));
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {  // compilers turn malloc + memset into calloc
  if (failIn && !inNew && --failIn == 0) { failDone = true; errno = ENOMEM; return nullptr; }
  void* p = __libc_calloc(a, b); noteAlloc(p, a * b); return p; }
void* realloc(void* q, size_t n) {
  size_t old = q ? malloc_usable_size(q) : 0;
  if (q) noteFree(q);
  void* p = __libc_realloc(q, n);
  if (!p && n && q) { noteAlloc(q, 0); return p; }
  if (pat >= 0 && p) { size_t u = malloc_usable_size(p); if (u > old) rawFill((char*)p + old, u - old); }
  noteAlloc(p, n);
  return p;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); noteAlloc(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
void* operator new(size_t n) { inNew++; void* p = malloc(n ? n : 1); inNew--; if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
namespace rt { bool canCount() { return true; } void fill(int p) { pat = p; } bool canFill() { return true; } void failNext(unsigned n) { failIn = n; if (n) failDone = false; } bool failed() { return failDone; } }
#else
namespace rt { bool canCount() { return false; } void fill(int) {} bool canFill() { return false; } void failNext(unsigned) {} bool failed() { return false; } }
#endif

#if defined VF_MODE_COV
namespace {
uint32_t* gStart;
uint32_t* gStop;
uint64_t nEdges, nLib, nSeen;
unsigned char* seen;
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  gStart = a; gStop = b;
  static uint32_t id = 0;
  for (uint32_t* x = a; x < b; x++) *x = ++id;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  nEdges++;
  static unsigned char table[1 << 20];
  unsigned char& c = table[*g & ((1 << 20) - 1)];
  if (!c) { c = 1; nSeen++; }
}
// Work done inside the C library on behalf of the parser: every byte these functions look at or write counts.
extern "C" {
void* memcpy(void* d, const void* q, size_t n) { nLib += n; char* a = (char*)d; const char* b = (const char*)q; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); return d; }
void* memmove(void* d, const void* q, size_t n) {
  nLib += n;
  char* a = (char*)d; const char* b = (const char*)q;
  if (a <= b || a >= b + n) { asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); return d; }
  a += n - 1; b += n - 1;
  asm volatile("std\n rep movsb\n cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
  return d;
}
void* memset(void* d, int c, size_t n) { nLib += n; char* a = (char*)d; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(c) : "memory"); return d; }
size_t strlen(const char* p) { size_t n = 0; while (p[n]) { n++; asm volatile(""); } nLib += n; return n; }
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) { nLib++; if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; }
  return 0;
}
int strcmp(const char* a, const char* b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; nLib += i; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char* a, const char* b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && a[i] == b[i]) i++;
  nLib += i;
  return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
char* strcpy(char* d, const char* q) { size_t i = 0; while ((d[i] = q[i])) { i++; asm volatile(""); } nLib += i; return d; }
char* strcat(char* d, const char* q) { strcpy(d + strlen(d), q); return d; }
char* strncpy(char* d, const char* q, size_t n) {
  size_t i = 0;
  for (; i < n && q[i]; i++) d[i] = q[i];
  for (; i < n; i++) { d[i] = 0; asm volatile(""); }
  nLib += n;
  return d;
}
char* vf_strchr(const char* p, int c) asm("strchr");
void* vf_memchr(const void* p, int c, size_t n) asm("memchr");
char* vf_strchr(const char* p, int c) { for (;; p++) { nLib++; if (*p == (char)c) return (char*)p; if (!*p) return nullptr; } }
void* vf_memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { nLib++; if (q[i] == (unsigned char)c) return (void*)(q + i); } return nullptr; }
char* strdup(const char* q) { size_t n = strlen(q) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, q, n); return p; }
char* strndup(const char* q, size_t n) { size_t k = 0; while (k < n && q[k]) k++; nLib += k; char* p = (char*)malloc(k + 1); if (p) { memcpy(p, q, k); p[k] = 0; } return p; }
}
namespace rt {
void workReset() { nEdges = 0; nLib = 0; }
uint64_t edges() { return nEdges; }
uint64_t libBytes() { return nLib; }
uint64_t edgesSeen() { return nSeen; }
}
#else
namespace rt { void workReset() {} uint64_t edges() { return 0; } uint64_t libBytes() { return 0; } uint64_t edgesSeen() { return 0; } }
#endif
