// Process-level instrumentation: heap accounting, heap fill patterns, work counters.
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
bool canCount();              // heap accounting available in this build
void begin();                 // start counting on this thread (resets)
void end();
long live();                  // blocks allocated minus freed since begin()
long globalLive();           // blocks allocated minus freed since globalBegin(), by all threads
void globalBegin();
void globalEnd();
size_t bytes();               // bytes requested since begin()
size_t allocs();
long peak();                  // highest live bytes since begin() (plain / cov builds)
void fill(int pattern);       // new and freed blocks are filled with this byte; -1: off (plain build)
bool canFill();
void failNext(unsigned n);    // the n-th malloc or calloc of this thread from now on fails, once; 0: off (plain build)
bool failed();                // whether that has happened since
void jitter(unsigned every, unsigned seed);  // give up the processor at every n-th allocation or release of this thread (0: never)
void workReset();             // executed edges + bytes handled by mem*/str* functions (cov build)
uint64_t edges();
uint64_t libBytes();
uint64_t edgesSeen();         // number of distinct edges ever executed in this process
}
