#pragma once
#include "qsim.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

// All state lives in one process in which exactly one thread runs at a time (baton passing), so plain globals are safe.
namespace rt {

struct Rng { // splitmix64/xorshift mix, deterministic everywhere
  uint64_t s = 1;
  void seed(uint64_t v) { s = v * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool permille(int p) { return p > 0 && static_cast<int>(below(1000)) < p; }
};

extern bool g_active;      // between qs_begin and qs_end
extern int g_pause;        // harness section
extern bool g_in_rt;       // runtime-internal code is running
extern qs_config g_cfg;
extern qs_stats g_stats;
extern qs_fatal_cb g_fatal;
extern qs_crash_cb g_crash;

inline bool simulated() { return g_active && g_pause == 0 && !g_in_rt; }

struct RtScope { bool old; RtScope() : old(g_in_rt) { g_in_rt = true; } ~RtScope() { g_in_rt = old; } };

void trace(uint64_t a, uint64_t b);       // mixes an event into the trace hash
void sync_point(int kind);                // scheduling decision
void clock_advance_ns(uint64_t ns);
uint64_t current_step();
void clock_begin();
double clock_sim_seconds();
void random_begin();
void memory_begin();
[[noreturn]] void fatal(const char* kind, const char* msg);
void race_range_freed(void* p, size_t n);
// checked arena: one shadow byte per 8 bytes holds the number of bytes that may be accessed, 9 means released
extern bool g_memcheck;
extern uintptr_t g_arena_lo, g_arena_hi;
extern unsigned char* g_arena_shadow;
void memory_violation(uintptr_t a, size_t size, bool write, uintptr_t pc, const char* what);
inline __attribute__((always_inline)) void memory_check(uintptr_t a, size_t size, bool write, uintptr_t pc) {
  ++g_stats.checked_accesses;
  if (a >= g_arena_lo && a < g_arena_hi) {
    uintptr_t e = a + size;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
      const unsigned char v = g_arena_shadow[g - (g_arena_lo >> 3)];
      if (v == 8) continue;
      const uintptr_t last = e - (g << 3); // bytes of this granule up to the end of the access
      if (v == 9) memory_violation(a, size, write, pc, "memory that was released");
      else if ((last < 8 ? last : 8) > v) memory_violation(a, size, write, pc, "memory beyond an allocated block or the elements of a vector");
    }
  } else {
    const uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (a < sp - 512 && a > sp - (1u << 19)) memory_violation(a, size, write, pc, "the stack frame of a function that has returned");
  }
}
void sched_begin();
void sched_end();

} // namespace rt

#define QS_EXPORT extern "C" __attribute__((visibility("default")))
