// Clocks, randomness and memory allocation of the simulated environment.
#include "rt_internal.h"
#include <new>
#include <string>
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>

namespace rt {

// ------------------------------------------------------------------------------------------------ clocks
static uint64_t g_mono_extra = 0;   // ns added explicitly (stalls, sleeps, readings)
static int64_t g_wall_off = 0;      // wall - mono, ns
static Rng g_crng;
static uint64_t g_last_wall_mono = 0;
static const int64_t WALL0 = 1700000000ll * 1000000000ll;

void clock_advance_ns(uint64_t ns) { g_mono_extra += ns; }

// one memory access or function entry counts as 2 ns of simulated time
static uint64_t mono_ns() { return 1000000000ull + g_mono_extra + 2 * (g_stats.serial_steps + current_step()); }

void clock_begin() {
  g_mono_extra = 0;
  g_wall_off = WALL0;
  g_last_wall_mono = 0;
  g_crng.seed(g_cfg.clock_seed ^ 0xC10C);
}
double clock_sim_seconds() { return static_cast<double>(mono_ns() - 1000000000ull) * 1e-9; }

static int64_t read_clock(bool wall) {
  ++g_stats.clock_reads;
  g_mono_extra += 200 + g_crng.below(2000);
  if (g_cfg.clock_stall_permille && g_crng.permille(g_cfg.clock_stall_permille)) { // the process is suspended for a while
    g_mono_extra += g_crng.below(static_cast<uint64_t>(g_cfg.clock_stall_scale * 1e9) + 1);
    ++g_stats.clock_stalls;
  }
  uint64_t m = mono_ns();
  if (g_cfg.clock_sticky && g_last_wall_mono) g_wall_off -= static_cast<int64_t>(m - g_last_wall_mono);
  g_last_wall_mono = m;
  if (g_crng.permille(g_cfg.clock_jump_permille)) { // somebody sets the wall clock
    const int64_t span = static_cast<int64_t>(g_cfg.clock_jump_scale * 1e9);
    const int64_t jump = static_cast<int64_t>(g_crng.below(2 * static_cast<uint64_t>(span) + 1)) - span;
    int64_t target = g_wall_off + jump;
    if (static_cast<int64_t>(m) + target < 1000000000ll) target = 1000000000ll; // the epoch bounds how far back a wall clock goes
    if (target < g_wall_off) ++g_stats.clock_backward;
    g_wall_off = target;
    ++g_stats.clock_jumps;
    trace(static_cast<uint64_t>(g_wall_off), 0x5000);
  }
  if (!wall) return static_cast<int64_t>(m);
  return static_cast<int64_t>(m) + g_wall_off;
}

// ------------------------------------------------------------------------------------------------ randomness
static Rng g_rrng;
static uint32_t g_rcount = 0;
void random_begin() { g_rrng.seed(g_cfg.rng_seed ^ 0x4A4D); g_rcount = 0; }
static uint32_t draw32() {
  ++g_stats.rng_draws;
  switch (g_cfg.rng_mode) {
    case QS_RNG_STREAM: return static_cast<uint32_t>(g_rrng.next() >> 16);
    case QS_RNG_COUNTER: return g_cfg.rng_value + g_rcount++;
    case QS_RNG_REPEAT: { // a source that hands out the same few values again and again
      uint32_t k = g_rcount++ % 3;
      return g_cfg.rng_value * 2654435761u + k * 40503u;
    }
    default: return g_cfg.rng_value;
  }
}

// ------------------------------------------------------------------------------------------------ allocation
static bool alloc_must_fail(size_t n) {
  if (g_cfg.alloc_limit && n > g_cfg.alloc_limit) { ++g_stats.alloc_failures; return true; }
  if (n < g_cfg.alloc_fail_min) return false;
  ++g_stats.allocs;
  if (!g_cfg.alloc_fail_at) return false;
  const int64_t k = static_cast<int64_t>(g_stats.allocs);
  if (k == g_cfg.alloc_fail_at || (g_cfg.alloc_fail_sticky && k > g_cfg.alloc_fail_at)) { ++g_stats.alloc_failures; return true; }
  return false;
}
static inline void* raw_alloc(size_t n, size_t align) {
  if (n == 0) n = 1;
  return align > 16 ? memalign(align, n) : malloc(n);
}

// junk for memory whose contents are indeterminate: one byte throughout, or words that read as numbers of ordinary size
static void junk(void* p, size_t n, int byte) {
  if (!(g_cfg.heap_fill & 0x200)) { memset(p, byte & 0xff, n); return; }
  static thread_local uint64_t seq = 0;
  (void)byte;
  unsigned char* q = static_cast<unsigned char*>(p);
  if (n > 65536) n = 65536;
  for (size_t k = 0; k < n; k += 8) {
    const uint64_t z = ++seq * 0x9E3779B97F4A7C15ull, w = ((0x3fcull + (z >> 62)) << 52) | ((z ^ (z >> 29)) & 0xfffffffffffffull);
    memcpy(q + k, &w, n - k < 8 ? n - k : 8);
  }
}

// Checked arena: memory is handed out once and never again, blocks have gaps between them.
bool g_memcheck = false;
uintptr_t g_arena_lo = 0, g_arena_hi = 0;
unsigned char* g_arena_shadow = nullptr;
static uintptr_t g_arena_next = 0;
static const size_t ARENA = size_t{ 3 } << 29;
void memory_begin() {
  g_memcheck = g_cfg.check_memory != 0;
  if (!g_memcheck || g_arena_lo) return;
  void* p = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* q = mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || q == MAP_FAILED) fatal("internal", "no checked arena");
  g_arena_lo = g_arena_next = reinterpret_cast<uintptr_t>(p);
  g_arena_hi = g_arena_lo + ARENA;
  g_arena_shadow = static_cast<unsigned char*>(q);
}
static inline unsigned char* shadow_of(uintptr_t a) { return g_arena_shadow + ((a - g_arena_lo) >> 3); }
static void* arena_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  const uintptr_t a = (g_arena_next + 32 + align - 1) / align * align; // at least 32 bytes between two blocks; the size lies right before the block
  if (n > ARENA || a + n + 64 > g_arena_hi) return nullptr;
  g_arena_next = a + n;
  reinterpret_cast<size_t*>(a)[-1] = n;
  memset(shadow_of(a), 8, n / 8);
  if (n % 8) *shadow_of(a + n) = static_cast<unsigned char>(n % 8);
  ++g_stats.checked_allocs;
  return reinterpret_cast<void*>(a);
}
static inline bool in_arena(const void* p) { const uintptr_t a = reinterpret_cast<uintptr_t>(p); return a >= g_arena_lo && a < g_arena_hi; }
static inline size_t block_size(void* p) { return in_arena(p) ? static_cast<size_t*>(p)[-1] : malloc_usable_size(p); }
static void arena_free(void* p, uintptr_t pc) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  const size_t n = static_cast<size_t*>(p)[-1];
  if (n && *shadow_of(a) == 9) memory_violation(a, n, true, pc, "memory that was released (released twice)");
  memset(shadow_of(a), 9, (n + 7) / 8);
  if (n > 65536) { // give whole pages back
    const uintptr_t lo = (a + 4095) & ~uintptr_t{ 4095 }, hi = (a + n) & ~uintptr_t{ 4095 };
    if (hi > lo) madvise(reinterpret_cast<void*>(lo), hi - lo, MADV_DONTNEED);
  }
}
void memory_violation(uintptr_t a, size_t size, bool write, uintptr_t pc, const char* what) {
  if (!g_active || g_pause || g_in_rt) return;
  char b[200];
  (void)a;
  snprintf(b, sizeof b, "%s of %zu bytes at @%lx@ in %s", write ? "write" : "read", size, static_cast<unsigned long>(pc), what);
  fatal("memory", b);
}

} // namespace rt
// assertions of libstdc++ (index and range checks) that are compiled into the library
extern "C" __attribute__((visibility("default"), noreturn)) void qs_std_assert(const char* file, int line, const char* func, const char* cond) __asm__("_ZSt21__glibcxx_assert_failPKciS0_S0_");
extern "C" void qs_std_assert(const char* file, int line, const char*, const char* cond) {
  using namespace rt;
  char b[300];
  const char* f = file ? strrchr(file, '/') : nullptr;
  snprintf(b, sizeof b, "access beyond the elements of a container, called from @%lx@ (%s:%d: %s)", reinterpret_cast<unsigned long>(__builtin_return_address(0)), f ? f + 1 : "?", line, cond ? cond : "?");
  if (g_active && !g_pause && !g_in_rt) fatal("memory", b);
  fprintf(stderr, "%s\n", b);
  abort();
}
namespace rt {

static inline void* do_new(size_t n, size_t align, bool nothrow) {
  if (simulated() && alloc_must_fail(n)) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p = g_memcheck && simulated() ? arena_alloc(n, align) : nullptr;
  if (!p) p = raw_alloc(n, align);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (simulated() && g_cfg.heap_fill) { junk(p, n, g_cfg.heap_fill); ++g_stats.heap_fills; }
  return p;
}
static inline void do_delete(void* p) {
  if (!p) return;
  const bool arena = in_arena(p);
  if (simulated() && g_cfg.heap_fill && !(arena && *shadow_of(reinterpret_cast<uintptr_t>(p)) == 9)) junk(p, block_size(p), ~g_cfg.heap_fill);
  if (g_active) race_range_freed(p, block_size(p));
  if (arena) arena_free(p, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
  else free(p);
}

} // namespace rt

using namespace rt;

#pragma GCC visibility push(default)
void* operator new(size_t n) { return do_new(n, 0, false); }
void* operator new[](size_t n) { return do_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, static_cast<size_t>(a), true); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_delete(p); }
#pragma GCC visibility pop

// unused capacity of vectors (libstdc++ announces every change of it): not the library's to read, and what elements left
// there does not stay as it was
QS_EXPORT void __sanitizer_annotate_contiguous_container(const void* beg, const void* end, const void* old_mid, const void* new_mid) {
  (void)beg;
  const uintptr_t o = reinterpret_cast<uintptr_t>(old_mid), n = reinterpret_cast<uintptr_t>(new_mid), e = reinterpret_cast<uintptr_t>(end);
  if (n < o && g_cfg.heap_fill && simulated()) junk(reinterpret_cast<void*>(n), o - n, g_cfg.heap_fill);
  if (!in_arena(beg) || n > e) return;
  const uintptr_t lo = n < o ? n : o, hi = n < o ? o : n;
  for (uintptr_t g = lo & ~uintptr_t{ 7 }; g < hi; g += 8) *shadow_of(g) = static_cast<unsigned char>(n <= g ? 0 : n - g >= 8 ? 8 : n - g);
}

// std::random_device (members live in libstdc++.so; these definitions come first in symbol lookup)
QS_EXPORT void qs_rd_init_string(void*, const std::string&) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
QS_EXPORT void qs_rd_init_string(void*, const std::string&) {}
QS_EXPORT void qs_rd_init_chars(void*, const char*, size_t) __asm__("_ZNSt13random_device7_M_initEPKcm");
QS_EXPORT void qs_rd_init_chars(void*, const char*, size_t) {}
QS_EXPORT void qs_rd_init_pretr1(void*, const std::string&) __asm__("_ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
QS_EXPORT void qs_rd_init_pretr1(void*, const std::string&) {}
QS_EXPORT void qs_rd_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv");
QS_EXPORT void qs_rd_fini(void*) {}
QS_EXPORT unsigned qs_rd_getval(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
QS_EXPORT unsigned qs_rd_getval(void*) { return draw32(); }
QS_EXPORT unsigned qs_rd_getval_pretr1(void*) __asm__("_ZNSt13random_device16_M_getval_pretr1Ev");
QS_EXPORT unsigned qs_rd_getval_pretr1(void*) { return draw32(); }
QS_EXPORT double qs_rd_entropy(const void*) __asm__("_ZNKSt13random_device13_M_getentropyEv");
QS_EXPORT double qs_rd_entropy(const void*) { return 32.0; }

static void fill_random(void* p, size_t n) {
  unsigned char* c = static_cast<unsigned char*>(p);
  while (n > 0) { uint32_t v = draw32(); size_t k = n < 4 ? n : 4; memcpy(c, &v, k); c += k; n -= k; }
}
QS_EXPORT int getentropy(void* p, size_t n) {
  if (!simulated()) return syscall(SYS_getrandom, p, n, 0) == static_cast<long>(n) ? 0 : -1;
  fill_random(p, n);
  return 0;
}
QS_EXPORT ssize_t getrandom(void* p, size_t n, unsigned fl) {
  if (!simulated()) return syscall(SYS_getrandom, p, n, fl);
  fill_random(p, n);
  return static_cast<ssize_t>(n);
}
QS_EXPORT int rand(void) { return static_cast<int>(draw32() & 0x7fffffff); }
QS_EXPORT long random(void) { return static_cast<long>(draw32() & 0x7fffffff); }

static bool is_wall(clockid_t k) { return k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE; }
QS_EXPORT int clock_gettime(clockid_t k, struct timespec* ts) noexcept {
  if (!simulated()) return static_cast<int>(syscall(SYS_clock_gettime, k, ts));
  const int64_t ns = read_clock(is_wall(k));
  ts->tv_sec = ns / 1000000000ll; ts->tv_nsec = ns % 1000000000ll;
  return 0;
}
QS_EXPORT int gettimeofday(struct timeval* tv, void* tz) noexcept {
  if (!simulated()) return static_cast<int>(syscall(SYS_gettimeofday, tv, tz));
  const int64_t ns = read_clock(true);
  tv->tv_sec = ns / 1000000000ll; tv->tv_usec = ns % 1000000000ll / 1000;
  return 0;
}
QS_EXPORT time_t time(time_t* t) noexcept {
  time_t v;
  if (!simulated()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  else v = static_cast<time_t>(read_clock(true) / 1000000000ll);
  if (t) *t = v;
  return v;
}
QS_EXPORT clock_t clock(void) noexcept {
  if (!simulated()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000l + ts.tv_nsec / 1000; }
  return static_cast<clock_t>(read_clock(false) / 1000);
}
QS_EXPORT double omp_get_wtime(void) {
  return simulated() ? static_cast<double>(read_clock(false)) * 1e-9 : 0.0;
}
QS_EXPORT void qs_reset_alloc_count(void) { g_stats.allocs = 0; }
QS_EXPORT void qs_set_alloc_failure(int64_t at, int sticky, uint64_t min_size) { g_stats.allocs = 0; g_cfg.alloc_fail_at = at; g_cfg.alloc_fail_sticky = sticky; g_cfg.alloc_fail_min = min_size; }
QS_EXPORT void qs_set_alloc_limit(uint64_t lim) { g_cfg.alloc_limit = lim; }
QS_EXPORT void qs_set_clock(uint64_t seed, int permille, double scale, int sticky) {
  g_cfg.clock_seed = seed; g_cfg.clock_jump_permille = permille; g_cfg.clock_jump_scale = scale; g_cfg.clock_sticky = sticky;
  g_crng.seed(seed ^ 0xC10C);
}
QS_EXPORT void qs_set_rng(int mode, uint64_t seed, uint32_t value) { g_cfg.rng_mode = mode; g_cfg.rng_seed = seed; g_cfg.rng_value = value; random_begin(); }
QS_EXPORT double qs_sim_seconds(void) { return clock_sim_seconds(); }
