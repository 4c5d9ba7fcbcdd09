// Interface of the deterministic simulation runtime (libqsim.so).
//
// The runtime replaces, inside one process, everything the library under test takes from its environment:
//   * the OpenMP runtime (libgomp entry points) and pthread primitives  -> seeded scheduler, one thread runs at a time
//   * the ThreadSanitizer runtime entry points (the library's sources are compiled with -fsanitize=thread, but linked
//     against this runtime instead of libtsan)                           -> preemption points + vector-clock race detector
//   * std::random_device                                                -> plan-controlled value stream
//   * clock_gettime & friends                                           -> simulated clocks
//   * fopen/read/write/...                                              -> in-memory disk with planned faults
//   * operator new                                                      -> planned allocation failures
#pragma once
#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

enum { QS_MAX_THREADS = 24, QS_MAX_RACES = 32 };

enum qs_sched_mode {
  QS_SCHED_RUN_TO_BLOCK = 0, // default decisions only: keep running, lowest id next
  QS_SCHED_RANDOM_SYNC = 1,  // random choice at synchronisation points
  QS_SCHED_RANDOM_MEM = 2,   // plus random preemption at memory accesses (mean distance `mem_period`)
  QS_SCHED_PCT = 3,          // random priorities with `pct_depth` change points within `pct_horizon` steps
  QS_SCHED_STALL = 4,        // random sync; thread `stall_tid` only runs when nothing else can
  QS_SCHED_REPLAY = 5,       // decisions taken from `replay`
  QS_SCHED_ROUND_ROBIN = 6   // every synchronisation point switches to the next thread
};

enum qs_rng_mode { QS_RNG_CONST = 0, QS_RNG_STREAM = 1, QS_RNG_COUNTER = 2, QS_RNG_REPEAT = 3 };

typedef struct { uint64_t step; int32_t tid; } qs_switch;

typedef struct {
  int team;                 // default team size
  int sched_mode;
  uint64_t sched_seed;
  uint64_t mem_period;
  int pct_depth;
  uint64_t pct_horizon;
  int stall_tid;
  const qs_switch* replay; size_t replay_len;
  int track_races;
  uint64_t max_steps;       // 0 = unlimited

  int rng_mode;
  uint64_t rng_seed;
  uint32_t rng_value;

  uint64_t clock_seed;
  int clock_jump_permille;  // chance per reading of any clock that the wall clock was set
  double clock_jump_scale;  // seconds
  int clock_sticky;         // the wall clock never advances by itself
  int clock_stall_permille; // chance per reading that the process was suspended before
  double clock_stall_scale; // seconds

  int64_t alloc_fail_at;    // fail the n-th allocation (1-based), 0 = never
  int alloc_fail_sticky;    // and every later one
  uint64_t alloc_fail_min;  // only allocations of at least this size count
  uint64_t alloc_limit;     // single allocations above this size always fail (simulated memory limit)
  int check_memory;         // allocations come from a checked arena, accesses to released memory, beyond blocks and to left stack frames are fatal
  int heap_fill;            // 0: off; (0x100 | byte): new memory and unused capacity of vectors hold this byte, released memory its complement; 0x200: numbers between 0.1 and 2
} qs_config;

typedef struct {
  uint64_t steps, mem_steps, sync_points, switches, preemptions, regions, max_live, serial_steps;
  uint64_t rng_draws, clock_reads, clock_jumps, clock_backward, clock_stalls;
  double sim_seconds;
  uint64_t allocs, alloc_failures, heap_fills, checked_allocs, checked_accesses;
  uint64_t races;
  uint64_t trace_hash;
  uint64_t accesses_tracked;
  uint64_t lock_contention;
  uint64_t chunks;
} qs_stats;

typedef struct { uintptr_t pc_a, pc_b; uintptr_t addr; int size_a, size_b, write_a, write_b, tid_a, tid_b; uint64_t count; uint64_t step; } qs_race;

// kind: "deadlock", "step_limit", "memory", "internal". Must not return.
typedef void (*qs_fatal_cb)(const char* kind, const char* msg);
// Called when a planned crash happens; must not return. The disk content is what survives.
typedef void (*qs_crash_cb)(void);

void qs_set_callbacks(qs_fatal_cb fatal, qs_crash_cb crash);
void qs_begin(const qs_config* cfg);
void qs_end(void);
void qs_after_fork(void); // in the child of a fork made while no simulation is active
int qs_active(void);
void qs_get_stats(qs_stats* out);
size_t qs_get_switches(const qs_switch** out);
size_t qs_get_races(qs_race* out, size_t max);
void qs_pause(void);   // harness code runs un-simulated until qs_resume
void qs_resume(void);
void qs_reset_alloc_count(void);
// change parts of the configuration in the middle of a run
void qs_set_alloc_failure(int64_t at, int sticky, uint64_t min_size);
void qs_set_alloc_limit(uint64_t limit);
void qs_set_clock(uint64_t seed, int jump_permille, double scale, int sticky);
void qs_set_rng(int mode, uint64_t seed, uint32_t value);
double qs_sim_seconds(void);
void qs_set_team(int n);
uint64_t qs_draw(uint64_t bound); // harness draw from the schedule PRNG (deterministic, part of the trace)

// Application threads of the simulation.
typedef void (*qs_thread_fn)(void*);
void qs_run_threads(int n, qs_thread_fn fn, void* const* args);

// ---- simulated disk ----
enum qs_disk_op { QS_OP_OPEN = 0, QS_OP_READ, QS_OP_WRITE, QS_OP_CLOSE, QS_OP_RENAME, QS_OP_UNLINK, QS_OP_SYNC, QS_OP_COUNT };
enum qs_fault_kind {
  QS_F_NONE = 0,
  QS_F_ERROR,      // the call fails with errno `arg`
  QS_F_SHORT,      // read/write transfers only max(1, arg) bytes
  QS_F_EINTR,      // the call fails once with EINTR
  QS_F_CRASH,      // the process stops; a write stores only the first `arg` bytes
  QS_F_EOF,        // read: file ends here from now on (data lost)
  QS_F_STALL,      // the call takes `arg` milliseconds of simulated time
  QS_F_KIND_COUNT
};
typedef struct {
  int op;          // which operation is counted (qs_disk_op), -1 = every operation
  int64_t nth;     // 0-based index among those operations
  int kind;
  int64_t arg;
  int sticky;      // applies to all later operations of this kind as well
} qs_fault;

void qs_disk_reset(void);
void qs_disk_set_faults(const qs_fault* f, size_t n, int64_t capacity /* bytes, <0: unlimited */,
                        uint64_t short_seed, int short_permille /* random short reads/writes */, int eintr_permille);
void qs_disk_put(const char* path, const void* data, size_t n);
int qs_disk_get(const char* path, const void** data, size_t* n); // 0 if missing
int qs_disk_exists(const char* path);
void qs_disk_mkdir(const char* path);
void qs_disk_remove(const char* path);
size_t qs_disk_list(const char** out, size_t max);
uint64_t qs_disk_ops(int op);               // number of operations seen since set_faults
uint64_t qs_disk_fired(int kind);           // number of faults injected since set_faults
size_t qs_disk_open_fds(void);
uint64_t qs_disk_bytes_written(void);

#ifdef __cplusplus
}
#endif
