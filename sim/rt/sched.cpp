// Scheduler, OpenMP runtime, pthread primitives, ThreadSanitizer entry points and race detector.
#include "rt_internal.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sched.h>
#include <time.h>
#include <unordered_map>
#include <vector>
#include <functional>

namespace rt {

bool g_active = false;
int g_pause = 0;
bool g_in_rt = false;
qs_config g_cfg;
qs_stats g_stats;
qs_fatal_cb g_fatal = nullptr;
qs_crash_cb g_crash = nullptr;

void fatal(const char* kind, const char* msg) {
  g_active = false;
  g_in_rt = false;
  ++g_pause;
  if (g_fatal) g_fatal(kind, msg);
  fprintf(stderr, "qsim fatal: %s: %s\n", kind, msg);
  _exit(99);
}

void trace(uint64_t a, uint64_t b) {
  uint64_t h = g_stats.trace_hash;
  h ^= a + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0x100000001B3ull;
  h ^= b + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0x100000001B3ull;
  g_stats.trace_hash = h;
}

// ------------------------------------------------------------------------------------------------ threads
struct VC {
  uint32_t c[QS_MAX_THREADS] = {};
  void join(const VC& o) { for (int i = 0; i < QS_MAX_THREADS; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Team;
enum State { IDLE, RUNNABLE, BLOCKED };

struct Thread {
  int id = 0;
  State state = IDLE;
  volatile int go = 0;
  pthread_t handle{};
  VC vc;
  Team* team = nullptr;  // current team, nullptr = initial team of one
  int tnum = 0;
  uint64_t ws_gen = 0;   // work-share counter within the team
  uint64_t single_gen = 0;
  uint64_t cur_ws = 0;
  long static_next = 0;
  bool static_done = false;
  // task to execute when started from idle
  void (*fn)(void*) = nullptr;
  void* arg = nullptr;
  Team* join_team = nullptr;
  bool is_app = false;
  bool finished = false;
  // wait
  const void* wait_obj = nullptr;
  bool timed = false;
  bool timed_out = false;
  int prio = 0;
};

static Thread* T[QS_MAX_THREADS];
static int g_nthreads = 0;
static Thread* cur = nullptr;       // running thread
static int g_live = 0;              // threads not idle
static bool g_multi = false;        // more than one live thread
static uint64_t g_step = 0;         // hook counter while multi
static uint64_t g_next = 0;         // next step with a decision at a memory access
static uint64_t g_last_switch_step = 0;
static Rng g_srng;
static std::vector<qs_switch>* g_log;     // non-default decisions
static size_t g_replay_pos = 0;
static std::vector<uint64_t>* g_pct_points;
static size_t g_pct_pos = 0;
static int g_pct_low = 0;
static const uint64_t FAIRNESS = 20000000;

uint64_t current_step() { return g_step; }

static void futex_wait(volatile int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park(Thread* me) {
  while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&me->go, 0);
  __atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
}

// Transfers control to `t`; returns when somebody transfers control back.
static void switch_to(Thread* t) {
  Thread* me = cur;
  if (t == me) return;
  ++g_stats.switches;
  trace(g_step, static_cast<uint64_t>(t->id) | 0x100);
  g_last_switch_step = g_step;
  cur = t;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex_wake(&t->go);
  park(me);
}

static void plan_next_mem() {
  const uint64_t INF = ~0ull;
  switch (g_cfg.sched_mode) {
    case QS_SCHED_RANDOM_MEM: {
      uint64_t p = g_cfg.mem_period ? g_cfg.mem_period : 1;
      g_next = g_step + 1 + g_srng.below(2 * p);
      break;
    }
    case QS_SCHED_PCT:
      g_next = g_pct_pos < g_pct_points->size() ? (*g_pct_points)[g_pct_pos] : INF;
      break;
    case QS_SCHED_REPLAY:
      g_next = g_replay_pos < g_cfg.replay_len ? g_cfg.replay[g_replay_pos].step : INF;
      break;
    default: g_next = INF;
  }
  uint64_t fair = g_last_switch_step + FAIRNESS;
  if (fair <= g_step) fair = g_step + FAIRNESS;
  if (g_next > fair) g_next = fair;
}

static Thread* lowest_runnable(Thread* except = nullptr) {
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i]->state == RUNNABLE && T[i] != except) return T[i];
  return nullptr;
}

static Thread* next_runnable_after(int id) {
  for (int k = 1; k <= g_nthreads; ++k) {
    Thread* t = T[(id + k) % g_nthreads];
    if (t->state == RUNNABLE) return t;
  }
  return nullptr;
}

static Thread* random_runnable() {
  Thread* c[QS_MAX_THREADS]; int n = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i]->state == RUNNABLE && !(g_cfg.sched_mode == QS_SCHED_STALL && i == g_cfg.stall_tid)) c[n++] = T[i];
  if (n == 0) return lowest_runnable();
  return n == 1 ? c[0] : c[g_srng.below(static_cast<uint64_t>(n))];
}

static Thread* highest_prio() {
  Thread* b = nullptr;
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i]->state == RUNNABLE && (!b || T[i]->prio > b->prio)) b = T[i];
  return b;
}

// What a run without any recorded decision would do at this point.
static Thread* default_choice(bool may_stay) {
  if (may_stay && cur->state == RUNNABLE) {
    if (g_step - g_last_switch_step >= FAIRNESS) return next_runnable_after(cur->id);
    return cur;
  }
  return lowest_runnable();
}

// One scheduling decision. `mem`: at a memory access.
static Thread* decide(bool mem, bool may_stay) {
  Thread* def = default_choice(may_stay);
  if (!def) return nullptr;
  Thread* t = def;
  switch (g_cfg.sched_mode) {
    case QS_SCHED_RANDOM_SYNC: if (!mem) t = random_runnable(); break;
    case QS_SCHED_RANDOM_MEM:
      // at synchronisation points only every other time, so that memory-level preemptions dominate
      if (mem || (g_srng.next() & 1)) t = random_runnable();
      break;
    case QS_SCHED_STALL: if (!mem) t = random_runnable(); break;
    case QS_SCHED_PCT:
      if (mem && g_pct_pos < g_pct_points->size() && g_step >= (*g_pct_points)[g_pct_pos]) {
        ++g_pct_pos;
        cur->prio = --g_pct_low;
      }
      t = highest_prio();
      break;
    case QS_SCHED_ROUND_ROBIN: if (!mem) t = next_runnable_after(cur->id); break;
    case QS_SCHED_REPLAY:
      while (g_replay_pos < g_cfg.replay_len && g_cfg.replay[g_replay_pos].step < g_step) ++g_replay_pos;
      if (g_replay_pos < g_cfg.replay_len && g_cfg.replay[g_replay_pos].step == g_step) {
        int id = g_cfg.replay[g_replay_pos].tid;
        ++g_replay_pos;
        if (id >= 0 && id < g_nthreads && T[id]->state == RUNNABLE) t = T[id];
      }
      break;
    default: break;
  }
  if (!t) t = def;
  if (g_step - g_last_switch_step >= FAIRNESS && t == cur && may_stay) t = def; // never starve the others for ever
  if (t != def) g_log->push_back(qs_switch{ g_step, t->id });
  return t;
}

static void limit_check() {
  if (g_cfg.max_steps && g_step + g_stats.serial_steps > g_cfg.max_steps) fatal("step_limit", "no termination within the step budget");
}

static void mem_decision() {
  RtScope s;
  limit_check();
  Thread* t = decide(true, true);
  plan_next_mem();
  if (t && t != cur) { ++g_stats.preemptions; switch_to(t); plan_next_mem(); }
}

void sync_point(int kind) {
  if (!g_multi || g_pause) return;
  RtScope s;
  ++g_step; ++g_stats.sync_points;
  trace(g_step, static_cast<uint64_t>(kind) << 8 | static_cast<uint64_t>(cur->id));
  limit_check();
  Thread* t = decide(false, true);
  if (t && t != cur) switch_to(t);
  plan_next_mem();
}

// The current thread cannot continue: run somebody else.
static void yield_blocked() {
  RtScope s;
  ++g_step;
  limit_check();
  Thread* t = decide(false, false);
  if (!t) {
    // Somebody in a timed wait? Time passes until it times out.
    for (int i = 0; i < g_nthreads; ++i)
      if (T[i]->state == BLOCKED && T[i]->timed) { T[i]->timed_out = true; T[i]->state = RUNNABLE; T[i]->wait_obj = nullptr; t = T[i]; clock_advance_ns(1000000000ull); break; }
  }
  if (!t) fatal("deadlock", "no thread can make progress");
  if (t != cur) switch_to(t);
  plan_next_mem();
}

static void block_on(const void* obj) {
  cur->state = BLOCKED;
  cur->wait_obj = obj;
  yield_blocked();
}

static void wake_all(const void* obj) {
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i]->state == BLOCKED && T[i]->wait_obj == obj) { T[i]->state = RUNNABLE; T[i]->wait_obj = nullptr; }
}
static void wake_one(const void* obj) {
  Thread* c[QS_MAX_THREADS]; int n = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i]->state == BLOCKED && T[i]->wait_obj == obj) c[n++] = T[i];
  if (n) { Thread* t = c[0]; t->state = RUNNABLE; t->wait_obj = nullptr; }
}

static void race_new_epoch();

static void set_live(int n) {
  bool was = g_multi;
  g_live = n;
  g_multi = n > 1;
  if (static_cast<uint64_t>(n) > g_stats.max_live) g_stats.max_live = static_cast<uint64_t>(n);
  if (g_multi && !was) { race_new_epoch(); plan_next_mem(); }
}

static void* worker_main(void* p) {
  Thread* me = static_cast<Thread*>(p);
  park(me);
  for (;;) {
    // started with a task
    g_in_rt = false;
    me->fn(me->arg);
    g_in_rt = true;
    // finished
    {
      me->finished = true;
      me->state = IDLE;
      wake_all(me);
      if (me->join_team) wake_all(me->join_team);
    }
    sched_end(); // bookkeeping hook: marks completion in team (see below)
    set_live(g_live - 1);
    ++g_step;
    Thread* t = decide(false, false);
    if (!t) {
      for (int i = 0; i < g_nthreads; ++i)
        if (T[i]->state == BLOCKED && T[i]->timed) { T[i]->timed_out = true; T[i]->state = RUNNABLE; T[i]->wait_obj = nullptr; t = T[i]; break; }
    }
    if (!t) fatal("deadlock", "no thread can make progress");
    plan_next_mem();
    switch_to(t); // returns when a new task was assigned
    plan_next_mem();
  }
  return nullptr;
}

typedef int (*pthread_create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int real_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p) {
  static pthread_create_t fn = reinterpret_cast<pthread_create_t>(dlsym(RTLD_NEXT, "pthread_create"));
  return fn(t, a, f, p);
}

static Thread* new_thread() {
  for (int i = 1; i < g_nthreads; ++i)
    if (T[i]->state == IDLE && !T[i]->is_app) return T[i];
  if (g_nthreads >= QS_MAX_THREADS) return nullptr;
  Thread* t = new Thread();
  t->id = g_nthreads;
  T[g_nthreads++] = t;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 16u << 20);
  if (real_pthread_create(&t->handle, &at, worker_main, t) != 0) fatal("internal", "pthread_create failed");
  return t;
}

// Starts `fn(arg)` on a simulated thread (runnable, not yet running).
static Thread* spawn(void (*fn)(void*), void* arg, Team* team, int tnum) {
  Thread* t = new_thread();
  if (!t) return nullptr;
  t->fn = fn; t->arg = arg; t->team = team; t->tnum = tnum; t->join_team = team;
  t->ws_gen = 0; t->single_gen = 0; t->finished = false; t->timed = false;
  t->state = RUNNABLE;
  t->vc.join(cur->vc);
  t->vc.c[t->id]++;
  cur->vc.c[cur->id]++;
  t->prio = g_cfg.sched_mode == QS_SCHED_PCT ? static_cast<int>(g_srng.below(1000000)) + 1 : 0;
  set_live(g_live + 1);
  return t;
}

// ------------------------------------------------------------------------------------------------ race detector
// Shadow: 8-byte granules, up to 6 recent accesses each, valid for one epoch (period with several live threads).
struct Acc { uint32_t clk; uint8_t tid, mask, flags; uint8_t pad; uintptr_t pc; };
struct Cell { uintptr_t key; uint32_t epoch; uint32_t n; Acc a[6]; };
static Cell* g_cells = nullptr;
static size_t g_cap = 0, g_used = 0;
static uint32_t g_epoch = 1;
static std::vector<qs_race>* g_races;

static void race_new_epoch() { ++g_epoch; g_used = 0; }

static inline size_t hash_key(uintptr_t k) { return static_cast<size_t>((k * 0x9E3779B97F4A7C15ull) >> 20); }

static void cells_grow() {
  size_t ncap = g_cap ? g_cap * 2 : (1u << 16);
  Cell* nc = static_cast<Cell*>(calloc(ncap, sizeof(Cell)));
  if (!nc) fatal("internal", "shadow memory");
  for (size_t i = 0; i < g_cap; ++i) {
    if (g_cells[i].epoch != g_epoch) continue;
    size_t h = hash_key(g_cells[i].key) & (ncap - 1);
    while (nc[h].epoch == g_epoch) h = (h + 1) & (ncap - 1);
    nc[h] = g_cells[i];
  }
  free(g_cells);
  g_cells = nc; g_cap = ncap;
}

static inline Cell* cell_for(uintptr_t key, bool create) {
  if (g_cap == 0 || (create && g_used * 2 > g_cap)) cells_grow();
  size_t h = hash_key(key) & (g_cap - 1);
  for (;;) {
    Cell& c = g_cells[h];
    if (c.epoch != g_epoch) {
      if (!create) return nullptr;
      c.key = key; c.epoch = g_epoch; c.n = 0; ++g_used;
      return &c;
    }
    if (c.key == key) return &c;
    h = (h + 1) & (g_cap - 1);
  }
}

enum { F_WRITE = 1, F_ATOMIC = 2 };

static void report_race(uintptr_t addr, const Acc& o, const Acc& n) {
  ++g_stats.races;
  for (auto& r : *g_races)
    if ((r.pc_a == o.pc && r.pc_b == n.pc) || (r.pc_a == n.pc && r.pc_b == o.pc)) { ++r.count; return; }
  if (g_races->size() >= QS_MAX_RACES) return;
  qs_race r{};
  r.pc_a = o.pc; r.pc_b = n.pc; r.addr = addr; r.size_a = __builtin_popcount(o.mask); r.size_b = __builtin_popcount(n.mask);
  r.write_a = o.flags & F_WRITE; r.write_b = n.flags & F_WRITE; r.tid_a = o.tid; r.tid_b = n.tid; r.count = 1; r.step = g_step;
  g_races->push_back(r);
}

static void race_granule(uintptr_t key, uint8_t mask, uint8_t flags, uintptr_t pc) {
  ++g_stats.accesses_tracked;
  Cell* c = cell_for(key, true);
  const VC& vc = cur->vc;
  const uint8_t me = static_cast<uint8_t>(cur->id);
  Acc now{ vc.c[me], me, mask, flags, 0, pc };
  int slot = -1;
  for (uint32_t i = 0; i < c->n;) {
    Acc& a = c->a[i];
    if (a.tid == me) {
      if (a.flags == flags) { slot = static_cast<int>(i); }
      ++i;
      continue;
    }
    const bool ordered = a.clk <= vc.c[a.tid];
    if (!ordered && (a.mask & mask) && ((a.flags | flags) & F_WRITE) && !((a.flags & F_ATOMIC) && (flags & F_ATOMIC))) report_race(key << 3, a, now);
    if (ordered && (flags & F_WRITE) && a.mask == (a.mask & mask)) { // superseded
      c->a[i] = c->a[--c->n];
      if (slot == static_cast<int>(c->n)) slot = static_cast<int>(i);
      continue;
    }
    ++i;
  }
  if (slot >= 0) {
    Acc& a = c->a[slot];
    if (a.clk == now.clk) { a.mask |= mask; a.pc = pc; } else a = now;
    return;
  }
  if (c->n < 6) { c->a[c->n++] = now; return; }
  c->a[(g_step ^ key) % 6] = now;
}

static void race_access(uintptr_t addr, size_t size, uint8_t flags, uintptr_t pc) {
  RtScope s;
  while (size > 0) {
    uintptr_t key = addr >> 3;
    unsigned off = addr & 7;
    unsigned n = 8 - off;
    if (n > size) n = static_cast<unsigned>(size);
    uint8_t mask = static_cast<uint8_t>(((1u << n) - 1u) << off);
    race_granule(key, mask, flags, pc);
    addr += n; size -= n;
  }
}

void race_range_freed(void* p, size_t n) {
  if (!g_multi || !g_cfg.track_races || g_cap == 0) return;
  RtScope s;
  uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
  if (e - a > (1u << 22)) return;
  for (; a < e; ++a) if (Cell* c = cell_for(a, false)) c->n = 0;
}

static inline __attribute__((always_inline)) void access_hook(void* p, size_t size, uint8_t flags, uintptr_t pc) {
  if (__builtin_expect(g_memcheck, 0) && g_active && !(g_pause | g_in_rt)) memory_check(reinterpret_cast<uintptr_t>(p), size, flags & F_WRITE, pc);
  if (!g_multi) { ++g_stats.serial_steps; if (__builtin_expect((g_stats.serial_steps & 0xFFFFF) == 0, 0) && g_active) limit_check(); return; }
  if (g_pause | g_in_rt) return;
  ++g_step;
  if (__builtin_expect(g_step >= g_next, 0)) mem_decision();
  if (g_cfg.track_races) race_access(reinterpret_cast<uintptr_t>(p), size, flags, pc);
}

// synchronisation objects for happens-before
static std::unordered_map<uintptr_t, VC>* g_sync;
static VC& sync_vc(uintptr_t a) { return (*g_sync)[a]; }
static void hb_acquire(uintptr_t a) { auto it = g_sync->find(a); if (it != g_sync->end()) cur->vc.join(it->second); }
static void hb_release(uintptr_t a) { sync_vc(a).join(cur->vc); cur->vc.c[cur->id]++; }

// ------------------------------------------------------------------------------------------------ locks
struct Lock { Thread* owner = nullptr; int depth = 0; int readers = 0; };
static std::unordered_map<uintptr_t, Lock>* g_locks;
static Lock& lock_at(uintptr_t a) { return (*g_locks)[a]; }

static void lock_acquire(uintptr_t a, bool recursive = false) {
  sync_point(1);
  RtScope s;
  Lock* l = &lock_at(a);
  if (recursive && l->owner == cur) { ++l->depth; return; }
  while (l->owner || l->readers) {
    ++g_stats.lock_contention;
    block_on(reinterpret_cast<void*>(a));
    l = &lock_at(a);
  }
  l->owner = cur; l->depth = 1;
  hb_acquire(a);
  trace(g_step, 0x1000 | static_cast<uint64_t>(cur->id));
}
static bool lock_try(uintptr_t a) {
  sync_point(2);
  RtScope s;
  Lock& l = lock_at(a);
  if (l.owner || l.readers) return false;
  l.owner = cur; l.depth = 1;
  hb_acquire(a);
  return true;
}
static void lock_release(uintptr_t a) {
  {
    RtScope s;
    Lock& l = lock_at(a);
    if (l.owner == cur && --l.depth > 0) return;
    l.owner = nullptr;
    hb_release(a);
    wake_all(reinterpret_cast<void*>(a));
  }
  sync_point(3);
}
static void rlock_acquire(uintptr_t a) {
  sync_point(1);
  RtScope s;
  while (lock_at(a).owner) { ++g_stats.lock_contention; block_on(reinterpret_cast<void*>(a)); }
  ++lock_at(a).readers;
  hb_acquire(a);
}
static void rwlock_release(uintptr_t a) {
  {
    RtScope s;
    Lock& l = lock_at(a);
    if (l.readers > 0) --l.readers; else l.owner = nullptr;
    hb_release(a);
    wake_all(reinterpret_cast<void*>(a));
  }
  sync_point(3);
}

// ------------------------------------------------------------------------------------------------ OpenMP teams
struct WorkShare {
  bool init = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool ull = false, up = true;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  int guided = 0; int is_static = 0;
  long start = 0; unsigned long long ustart = 0;
  unsigned sections = 0, snext = 0;
  int left = 0;
};
struct Team {
  int n = 1;
  Team* parent = nullptr;
  Thread* members[QS_MAX_THREADS] = {};
  int running = 0;
  std::vector<WorkShare> ws;
  int barrier_count = 0;
  uint64_t barrier_gen = 0;
  VC barrier_vc, barrier_out;
  VC done_vc;
  uint64_t singles = 0;
  void* copypriv = nullptr;
  void (*fn)(void*) = nullptr; void* data = nullptr;
  uint64_t barrier_waits[1] = {};
};

static int team_size() { return cur && cur->team ? cur->team->n : 1; }

static void team_member(void* p) {
  Team* t = static_cast<Team*>(p);
  t->fn(t->data);
}

// called by worker_main after a task ended (still the running thread)
void sched_end() {
  Thread* me = cur;
  if (me->join_team) {
    Team* t = me->join_team;
    t->done_vc.join(me->vc);
    me->vc.c[me->id]++;
    --t->running;
    wake_all(t);
  } else {
    hb_release(reinterpret_cast<uintptr_t>(me));
    wake_all(me);
  }
  me->team = nullptr; me->join_team = nullptr;
}
void sched_begin() {}

struct TeamCtx { Team* team; Team* old_team; int old_tnum; uint64_t old_ws, old_single, old_cur; };

static void team_start(Team& t, void (*fn)(void*), void* data, unsigned nthreads, TeamCtx& c) {
  RtScope s;
  int n = nthreads ? static_cast<int>(nthreads) : g_cfg.team;
  if (n > g_cfg.team && nthreads) n = static_cast<int>(nthreads) > 8 ? 8 : static_cast<int>(nthreads);
  if (cur->team && cur->team->n > 1) n = 1; // nested parallelism is off by default
  if (n < 1) n = 1;
  t.parent = cur->team; t.fn = fn; t.data = data;
  c = TeamCtx{ &t, cur->team, cur->tnum, cur->ws_gen, cur->single_gen, cur->cur_ws };
  cur->team = &t; cur->tnum = 0; cur->ws_gen = 0; cur->single_gen = 0;
  t.members[0] = cur;
  t.n = 1;
  t.running = 0;
  ++g_stats.regions;
  int k = 1;
  for (; k < n; ++k) {
    Thread* w = spawn(team_member, &t, &t, k);
    if (!w) break;
    t.members[k] = w;
    ++t.running;
  }
  t.n = k;
  trace(g_step, 0x2000 | static_cast<uint64_t>(k));
}

static void team_finish(TeamCtx& c) {
  {
    RtScope s;
    while (c.team->running > 0) block_on(c.team);
    cur->vc.join(c.team->done_vc);
    cur->vc.c[cur->id]++;
    cur->team = c.old_team; cur->tnum = c.old_tnum; cur->ws_gen = c.old_ws; cur->single_gen = c.old_single; cur->cur_ws = c.old_cur;
  }
}

static void parallel(void (*fn)(void*), void* data, unsigned nthreads, std::function<void(Team&)> init = nullptr) {
  if (!simulated()) { fn(data); return; }
  Team t;
  TeamCtx c;
  {
    RtScope s;
    if (init) init(t);
  }
  team_start(t, fn, data, nthreads, c);
  sync_point(4);
  fn(data);
  sync_point(5);
  team_finish(c);
}

static WorkShare& ws_current() { return cur->team->ws[cur->cur_ws]; }

static WorkShare& ws_enter(bool& fresh) {
  Team* t = cur->team;
  uint64_t k = cur->ws_gen++;
  while (t->ws.size() <= k) t->ws.push_back(WorkShare{});
  cur->cur_ws = k;
  cur->static_done = false;
  fresh = !t->ws[k].init;
  t->ws[k].init = true;
  return t->ws[k];
}

static bool ws_next(long* is, long* ie) {
  WorkShare& w = ws_current();
  ++g_stats.chunks;
  if (w.is_static) {
    // chunk == 0: one block per thread
    const long total = w.incr > 0 ? (w.end - w.start + w.incr - 1) / w.incr : (w.start - w.end - w.incr - 1) / (-w.incr);
    if (total <= 0) return false;
    const int n = team_size();
    if (w.chunk <= 0) {
      if (cur->static_done) return false;
      cur->static_done = true;
      long q = total / n, r = total % n;
      long lo = cur->tnum * q + (cur->tnum < r ? cur->tnum : r), cnt = q + (cur->tnum < r ? 1 : 0);
      if (cnt == 0) return false;
      *is = w.start + lo * w.incr; *ie = w.start + (lo + cnt) * w.incr;
      return true;
    }
    if (!cur->static_done) { cur->static_next = cur->tnum; cur->static_done = true; }
    long lo = cur->static_next * w.chunk;
    if (lo >= total) return false;
    long hi = lo + w.chunk; if (hi > total) hi = total;
    cur->static_next += n;
    *is = w.start + lo * w.incr; *ie = w.start + hi * w.incr;
    return true;
  }
  const long left = w.incr > 0 ? w.end - w.next : w.next - w.end;
  if (left <= 0) return false;
  long c = w.chunk * (w.incr > 0 ? w.incr : -w.incr);
  if (w.guided) { long g = (left / team_size()); long a = w.incr > 0 ? w.incr : -w.incr; g = g / a * a; if (g > c) c = g; }
  if (c <= 0) c = w.incr > 0 ? w.incr : -w.incr;
  *is = w.next;
  if (c >= left) { w.next = w.end; *ie = w.end; }
  else { w.next += w.incr > 0 ? c : -c; *ie = w.next; }
  trace(static_cast<uint64_t>(*is), 0x3000 | static_cast<uint64_t>(cur->id));
  return true;
}

static bool ws_next_u(unsigned long long* is, unsigned long long* ie) {
  WorkShare& w = ws_current();
  ++g_stats.chunks;
  if (w.is_static) {
    unsigned long long total = w.up ? (w.uend > w.ustart ? (w.uend - w.ustart + w.uincr - 1) / w.uincr : 0)
                                    : (w.ustart > w.uend ? (w.ustart - w.uend - w.uincr - 1) / (-w.uincr) : 0);
    if (total == 0) return false;
    unsigned long long n = static_cast<unsigned long long>(team_size()), me = static_cast<unsigned long long>(cur->tnum), lo, hi;
    if (w.uchunk == 0) {
      if (cur->static_done) return false;
      cur->static_done = true;
      unsigned long long q = total / n, r = total % n;
      lo = me * q + (me < r ? me : r); hi = lo + q + (me < r ? 1 : 0);
      if (lo == hi) return false;
    } else {
      if (!cur->static_done) { cur->static_next = cur->tnum; cur->static_done = true; }
      lo = static_cast<unsigned long long>(cur->static_next) * w.uchunk;
      if (lo >= total) return false;
      hi = lo + w.uchunk; if (hi > total) hi = total;
      cur->static_next += static_cast<long>(n);
    }
    *is = w.ustart + lo * w.uincr; *ie = w.ustart + hi * w.uincr;
    return true;
  }
  unsigned long long left = w.up ? (w.uend > w.unext ? w.uend - w.unext : 0) : (w.unext > w.uend ? w.unext - w.uend : 0);
  if (left == 0) return false;
  unsigned long long a = w.up ? w.uincr : -w.uincr, c = w.uchunk * a;
  if (w.guided) { unsigned long long g = left / static_cast<unsigned long long>(team_size()) / a * a; if (g > c) c = g; }
  if (c == 0) c = a;
  *is = w.unext;
  if (c >= left) { w.unext = w.uend; *ie = w.uend; }
  else { w.unext = w.up ? w.unext + c : w.unext - c; *ie = w.unext; }
  trace(static_cast<uint64_t>(*is), 0x3000 | static_cast<uint64_t>(cur->id));
  return true;
}

static void barrier() {
  if (!cur->team || cur->team->n <= 1) return;
  sync_point(6);
  RtScope s;
  Team* t = cur->team;
  t->barrier_vc.join(cur->vc);
  cur->vc.c[cur->id]++;
  if (++t->barrier_count == t->n) {
    t->barrier_count = 0; ++t->barrier_gen;
    t->barrier_out = t->barrier_vc;
    t->barrier_vc = VC{};
    wake_all(&t->barrier_gen);
    cur->vc.join(t->barrier_out);
  } else {
    uint64_t g = t->barrier_gen;
    while (t->barrier_gen == g) block_on(&t->barrier_gen);
    cur->vc.join(t->barrier_out);
  }
}

} // namespace rt

using namespace rt;

// ------------------------------------------------------------------------------------------------ control API
QS_EXPORT void qs_set_callbacks(qs_fatal_cb f, qs_crash_cb c) { g_fatal = f; g_crash = c; }
QS_EXPORT void qs_set_team(int n) { g_cfg.team = n < 1 ? 1 : n > 8 ? 8 : n; }
QS_EXPORT int qs_active(void) { return g_active; }
QS_EXPORT void qs_pause(void) { ++g_pause; }
QS_EXPORT void qs_resume(void) { --g_pause; }

QS_EXPORT void qs_begin(const qs_config* cfg) {
  RtScope s;
  g_cfg = *cfg;
  if (g_cfg.team < 1) g_cfg.team = 1;
  if (g_cfg.team > 8) g_cfg.team = 8;
  memset(&g_stats, 0, sizeof(g_stats));
  if (!g_log) {
    g_log = new std::vector<qs_switch>; g_races = new std::vector<qs_race>; g_pct_points = new std::vector<uint64_t>;
    g_sync = new std::unordered_map<uintptr_t, VC>; g_locks = new std::unordered_map<uintptr_t, Lock>;
  }
  g_log->clear(); g_races->clear(); g_pct_points->clear(); g_sync->clear(); g_locks->clear();
  if (g_nthreads == 0) { T[0] = new Thread(); T[0]->id = 0; T[0]->state = RUNNABLE; g_nthreads = 1; T[0]->handle = pthread_self(); }
  cur = T[0];
  cur->state = RUNNABLE; cur->team = nullptr; cur->tnum = 0;
  for (int i = 0; i < g_nthreads; ++i) { T[i]->vc = VC{}; T[i]->vc.c[i] = 1; T[i]->is_app = false; }
  g_live = 1; g_multi = false; g_step = 0; g_last_switch_step = 0; g_replay_pos = 0; g_pct_pos = 0; g_pct_low = 0; g_pause = 0;
  g_srng.seed(cfg->sched_seed);
  if (cfg->sched_mode == QS_SCHED_PCT) {
    for (int i = 0; i < cfg->pct_depth; ++i) g_pct_points->push_back(1 + g_srng.below(cfg->pct_horizon ? cfg->pct_horizon : 1));
    for (size_t i = 0; i < g_pct_points->size(); ++i)
      for (size_t j = i + 1; j < g_pct_points->size(); ++j)
        if ((*g_pct_points)[j] < (*g_pct_points)[i]) std::swap((*g_pct_points)[i], (*g_pct_points)[j]);
    T[0]->prio = static_cast<int>(g_srng.below(1000000)) + 1;
  }
  plan_next_mem();
  clock_begin();
  random_begin();
  memory_begin();
  g_active = true;
}

QS_EXPORT void qs_end(void) {
  g_stats.steps = g_step;
  g_stats.sim_seconds = clock_sim_seconds();
  g_active = false;
}

QS_EXPORT void qs_get_stats(qs_stats* o) { g_stats.steps = g_step; *o = g_stats; }
QS_EXPORT size_t qs_get_switches(const qs_switch** o) { *o = g_log ? g_log->data() : nullptr; return g_log ? g_log->size() : 0; }
QS_EXPORT size_t qs_get_races(qs_race* o, size_t max) {
  size_t n = g_races ? g_races->size() : 0;
  if (n > max) n = max;
  for (size_t i = 0; i < n; ++i) o[i] = (*g_races)[i];
  return n;
}
QS_EXPORT uint64_t qs_draw(uint64_t b) { return g_srng.below(b); }

struct AppArg { qs_thread_fn fn; void* arg; };
static void app_main(void* p) { AppArg* a = static_cast<AppArg*>(p); a->fn(a->arg); }

QS_EXPORT void qs_run_threads(int n, qs_thread_fn fn, void* const* args) {
  AppArg a[QS_MAX_THREADS];
  Thread* th[QS_MAX_THREADS];
  {
    RtScope s;
    for (int i = 0; i < n; ++i) {
      a[i] = AppArg{ fn, args[i] };
      th[i] = spawn(app_main, &a[i], nullptr, 0);
      if (!th[i]) fatal("internal", "too many application threads");
      th[i]->is_app = true;
    }
  }
  sync_point(7);
  RtScope s;
  for (int i = 0; i < n; ++i) {
    while (!th[i]->finished) block_on(th[i]);
    hb_acquire(reinterpret_cast<uintptr_t>(th[i]));
    th[i]->is_app = false;
  }
}

// ------------------------------------------------------------------------------------------------ libgomp entry points
typedef void (*omp_fn)(void*);
QS_EXPORT void GOMP_parallel(omp_fn fn, void* data, unsigned n, unsigned) { parallel(fn, data, n); }

static void ws_init(WorkShare& w, long s, long e, long i, long c, int guided, int st) {
  w.init = true; w.start = w.next = s; w.end = e; w.incr = i ? i : 1; w.chunk = st ? c : (c > 0 ? c : 1); w.guided = guided; w.is_static = st;
}
static void ws_init_u(WorkShare& w, bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, int guided, int st) {
  w.init = true; w.ull = true; w.up = up; w.ustart = w.unext = s; w.uend = e; w.uincr = i ? i : 1; w.uchunk = st ? c : (c ? c : 1); w.guided = guided; w.is_static = st;
}
static bool serial_team() { return !simulated() || !cur->team; }

static bool loop_start(long s, long e, long i, long c, long* is, long* ie, int guided, int st) {
  if (serial_team()) { if (i > 0 ? s >= e : s <= e) return false; *is = s; *ie = e; return true; }
  sync_point(8);
  RtScope sc;
  bool fresh;
  WorkShare& w = ws_enter(fresh);
  if (fresh) ws_init(w, s, e, i, c, guided, st);
  return ws_next(is, ie);
}
static bool loop_next(long* is, long* ie) {
  if (serial_team()) return false;
  sync_point(9);
  RtScope sc;
  return ws_next(is, ie);
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c,
                        unsigned long long* is, unsigned long long* ie, int guided, int st) {
  if (serial_team()) { if (up ? s >= e : s <= e) return false; *is = s; *ie = e; return true; }
  sync_point(8);
  RtScope sc;
  bool fresh;
  WorkShare& w = ws_enter(fresh);
  if (fresh) ws_init_u(w, up, s, e, i, c, guided, st);
  return ws_next_u(is, ie);
}
static bool uloop_next(unsigned long long* is, unsigned long long* ie) {
  if (serial_team()) return false;
  sync_point(9);
  RtScope sc;
  return ws_next_u(is, ie);
}

#define LOOPS(NAME, GUIDED, STATIC) \
  QS_EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, a, b, GUIDED, STATIC); } \
  QS_EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
  QS_EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, \
      unsigned long long* a, unsigned long long* b) { return uloop_start(up, s, e, i, c, a, b, GUIDED, STATIC); } \
  QS_EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return uloop_next(a, b); } \
  QS_EXPORT void GOMP_parallel_loop_##NAME(omp_fn fn, void* data, unsigned n, long s, long e, long i, long c, unsigned) { \
    if (!simulated()) { fn(data); return; } \
    parallel([](void* p) { auto* a = static_cast<std::pair<omp_fn, void*>*>(p); { RtScope sc; bool f; ws_enter(f); } a->first(a->second); }, \
             new std::pair<omp_fn, void*>(fn, data), n, \
             [=](Team& t) { t.ws.push_back(WorkShare{}); ws_init(t.ws[0], s, e, i, c, GUIDED, STATIC); }); }
LOOPS(static, 0, 1)
LOOPS(dynamic, 0, 0)
LOOPS(guided, 1, 0)
LOOPS(nonmonotonic_dynamic, 0, 0)
LOOPS(nonmonotonic_guided, 1, 0)

#define RTLOOPS(NAME) \
  QS_EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, a, b, 0, 0); } \
  QS_EXPORT bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
  QS_EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, \
      unsigned long long* a, unsigned long long* b) { return uloop_start(up, s, e, i, 1, a, b, 0, 0); } \
  QS_EXPORT bool GOMP_loop_ull_##NAME##_next(unsigned long long* a, unsigned long long* b) { return uloop_next(a, b); }
RTLOOPS(runtime)
RTLOOPS(maybe_nonmonotonic_runtime)
RTLOOPS(nonmonotonic_runtime)

QS_EXPORT void GOMP_loop_end(void) { if (!serial_team()) barrier(); }
QS_EXPORT void GOMP_loop_end_nowait(void) { if (!serial_team()) sync_point(10); }
QS_EXPORT bool GOMP_loop_end_cancel(void) { if (!serial_team()) barrier(); return false; }
QS_EXPORT void GOMP_barrier(void) { if (!serial_team()) barrier(); }
QS_EXPORT bool GOMP_barrier_cancel(void) { if (!serial_team()) barrier(); return false; }
QS_EXPORT bool GOMP_cancel(int, bool) { return false; }
QS_EXPORT bool GOMP_cancellation_point(int) { return false; }

QS_EXPORT bool GOMP_single_start(void) {
  if (serial_team()) return true;
  sync_point(11);
  uint64_t k = ++cur->single_gen;
  if (cur->team->singles < k) { cur->team->singles = k; return true; }
  return false;
}
QS_EXPORT void* GOMP_single_copy_start(void) {
  if (serial_team()) return nullptr;
  uint64_t k = ++cur->single_gen;
  if (cur->team->singles < k) { cur->team->singles = k; return nullptr; }
  barrier();
  return cur->team->copypriv;
}
QS_EXPORT void GOMP_single_copy_end(void* p) { if (serial_team()) return; cur->team->copypriv = p; barrier(); }

static unsigned sect_next() {
  WorkShare& w = ws_current();
  if (w.snext >= w.sections) return 0;
  return ++w.snext;
}
// outside of a team the sections are executed one after the other by the calling thread
static unsigned g_serial_sections = 0, g_serial_section = 0;
QS_EXPORT unsigned GOMP_sections_start(unsigned n) {
  if (serial_team()) { g_serial_sections = n; g_serial_section = n ? 1 : 0; return g_serial_section; }
  sync_point(12);
  RtScope sc;
  bool f;
  WorkShare& w = ws_enter(f);
  if (f) { w.sections = n; w.snext = 0; }
  return sect_next();
}
QS_EXPORT unsigned GOMP_sections_next(void) {
  if (serial_team()) return g_serial_section < g_serial_sections ? ++g_serial_section : 0;
  sync_point(12);
  RtScope sc;
  return sect_next();
}
QS_EXPORT void GOMP_sections_end(void) { if (!serial_team()) barrier(); }
QS_EXPORT void GOMP_sections_end_nowait(void) {}
QS_EXPORT void GOMP_parallel_sections(omp_fn fn, void* data, unsigned n, unsigned count, unsigned) {
  if (!simulated()) { g_serial_sections = count; g_serial_section = 0; fn(data); return; }
  parallel([](void* p) { auto* a = static_cast<std::pair<omp_fn, void*>*>(p); { RtScope sc; bool f; ws_enter(f); } a->first(a->second); },
           new std::pair<omp_fn, void*>(fn, data), n, [=](Team& t) { t.ws.push_back(WorkShare{}); t.ws[0].init = true; t.ws[0].sections = count; });
}

static char g_critical, g_atomic;
QS_EXPORT void GOMP_critical_start(void) { if (simulated()) lock_acquire(reinterpret_cast<uintptr_t>(&g_critical)); }
QS_EXPORT void GOMP_critical_end(void) { if (simulated()) lock_release(reinterpret_cast<uintptr_t>(&g_critical)); }
QS_EXPORT void GOMP_critical_name_start(void** p) { if (simulated()) lock_acquire(reinterpret_cast<uintptr_t>(p)); }
QS_EXPORT void GOMP_critical_name_end(void** p) { if (simulated()) lock_release(reinterpret_cast<uintptr_t>(p)); }
QS_EXPORT void GOMP_atomic_start(void) { if (simulated()) lock_acquire(reinterpret_cast<uintptr_t>(&g_atomic)); }
QS_EXPORT void GOMP_atomic_end(void) { if (simulated()) lock_release(reinterpret_cast<uintptr_t>(&g_atomic)); }
QS_EXPORT void GOMP_ordered_start(void) {}
QS_EXPORT void GOMP_ordered_end(void) {}

QS_EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  sync_point(13);
  if (cpy) {
    char* buf = static_cast<char*>(malloc(static_cast<size_t>(size + align)));
    char* arg = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf) + static_cast<uintptr_t>(align) - 1) & ~(static_cast<uintptr_t>(align) - 1));
    cpy(arg, data);
    fn(arg);
    free(buf);
  } else {
    fn(data);
  }
}
QS_EXPORT void GOMP_taskwait(void) { sync_point(13); }
QS_EXPORT void GOMP_taskyield(void) { sync_point(13); }
QS_EXPORT void GOMP_taskgroup_start(void) {}
QS_EXPORT void GOMP_taskgroup_end(void) {}

QS_EXPORT int omp_get_num_threads(void) { return simulated() ? team_size() : 1; }
QS_EXPORT int omp_get_thread_num(void) { return simulated() && cur->team ? cur->tnum : 0; }
QS_EXPORT int omp_get_max_threads(void) { return simulated() ? (cur->team && cur->team->n > 1 ? 1 : g_cfg.team) : 1; }
QS_EXPORT int omp_get_num_procs(void) { return simulated() ? g_cfg.team : 1; }
QS_EXPORT int omp_in_parallel(void) { return simulated() && team_size() > 1; }
QS_EXPORT void omp_set_num_threads(int n) { if (simulated() && n >= 1) g_cfg.team = n > 8 ? 8 : n; }
QS_EXPORT void omp_set_dynamic(int) {}
QS_EXPORT int omp_get_dynamic(void) { return 0; }
QS_EXPORT void omp_set_nested(int) {}
QS_EXPORT int omp_get_nested(void) { return 0; }
QS_EXPORT void omp_set_max_active_levels(int) {}
QS_EXPORT int omp_get_max_active_levels(void) { return 1; }
QS_EXPORT int omp_get_level(void) { return simulated() && cur->team ? 1 : 0; }
QS_EXPORT int omp_get_active_level(void) { return simulated() && team_size() > 1; }
QS_EXPORT int omp_get_thread_limit(void) { return 8; }
QS_EXPORT void omp_set_schedule(int, int) {}
QS_EXPORT double omp_get_wtick(void) { return 1e-9; }
QS_EXPORT void omp_init_lock(void* p) { *static_cast<int*>(p) = 0; }
QS_EXPORT void omp_destroy_lock(void*) {}
QS_EXPORT void omp_set_lock(void* p) { if (simulated()) lock_acquire(reinterpret_cast<uintptr_t>(p)); }
QS_EXPORT void omp_unset_lock(void* p) { if (simulated()) lock_release(reinterpret_cast<uintptr_t>(p)); }
QS_EXPORT int omp_test_lock(void* p) { return simulated() ? lock_try(reinterpret_cast<uintptr_t>(p)) : 1; }
QS_EXPORT void omp_init_nest_lock(void* p) { *static_cast<int*>(p) = 0; }
QS_EXPORT void omp_destroy_nest_lock(void*) {}
QS_EXPORT void omp_set_nest_lock(void* p) { if (simulated()) lock_acquire(reinterpret_cast<uintptr_t>(p), true); }
QS_EXPORT void omp_unset_nest_lock(void* p) { if (simulated()) lock_release(reinterpret_cast<uintptr_t>(p)); }

// ------------------------------------------------------------------------------------------------ pthread primitives
template<class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

struct PArg { void* (*fn)(void*); void* arg; void* ret; };
static void pmain(void* p) { PArg* a = static_cast<PArg*>(p); a->ret = a->fn(a->arg); }

QS_EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!simulated()) return real_pthread_create(t, at, fn, arg);
  Thread* n;
  {
    RtScope s;
    n = spawn(pmain, new PArg{ fn, arg, nullptr }, nullptr, 0);
    if (!n) return EAGAIN;
    n->is_app = true;
    *t = n->handle;
  }
  sync_point(14);
  return 0;
}
QS_EXPORT int pthread_join(pthread_t t, void** ret) {
  if (g_active) {
    RtScope s;
    for (int i = 1; i < g_nthreads; ++i)
      if (T[i]->is_app && pthread_equal(T[i]->handle, t)) {
        while (!T[i]->finished) block_on(T[i]);
        hb_acquire(reinterpret_cast<uintptr_t>(T[i]));
        T[i]->is_app = false;
        if (ret) *ret = static_cast<PArg*>(T[i]->arg)->ret;
        return 0;
      }
  }
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
  return f(t, ret);
}
QS_EXPORT int pthread_detach(pthread_t t) {
  if (g_active) return 0;
  static auto f = real<int (*)(pthread_t)>("pthread_detach");
  return f(t);
}
QS_EXPORT int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
  lock_acquire(reinterpret_cast<uintptr_t>(m), m->__data.__kind == PTHREAD_MUTEX_RECURSIVE);
  return 0;
}
QS_EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  return lock_try(reinterpret_cast<uintptr_t>(m)) ? 0 : EBUSY;
}
QS_EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
  lock_release(reinterpret_cast<uintptr_t>(m));
  return 0;
}
QS_EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
  rlock_acquire(reinterpret_cast<uintptr_t>(m));
  return 0;
}
QS_EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
  lock_acquire(reinterpret_cast<uintptr_t>(m));
  return 0;
}
QS_EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
  rwlock_release(reinterpret_cast<uintptr_t>(m));
  return 0;
}
QS_EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!simulated()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
  {
    RtScope s;
    uintptr_t a = reinterpret_cast<uintptr_t>(m);
    lock_at(a).owner = nullptr; hb_release(a); wake_all(m);
    block_on(c);
  }
  lock_acquire(reinterpret_cast<uintptr_t>(m));
  return 0;
}
static int timed_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  bool to;
  {
    RtScope s;
    uintptr_t a = reinterpret_cast<uintptr_t>(m);
    lock_at(a).owner = nullptr; hb_release(a); wake_all(m);
    cur->timed = true; cur->timed_out = false;
    block_on(c);
    cur->timed = false; to = cur->timed_out;
  }
  lock_acquire(reinterpret_cast<uintptr_t>(m));
  return to ? ETIMEDOUT : 0;
}
QS_EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!simulated()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return f(c, m, ts); }
  return timed_wait(c, m);
}
QS_EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!simulated()) { static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return f(c, m, k, ts); }
  return timed_wait(c, m);
}
QS_EXPORT int pthread_cond_signal(pthread_cond_t* c) {
  if (!simulated()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
  { RtScope s; wake_one(c); }
  sync_point(15);
  return 0;
}
QS_EXPORT int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!simulated()) { static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
  { RtScope s; wake_all(c); }
  sync_point(15);
  return 0;
}
QS_EXPORT int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!simulated()) { static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
  uintptr_t a = reinterpret_cast<uintptr_t>(o) + 1;
  lock_acquire(a);
  if (*o == 2) { lock_release(a); return 0; }
  try { fn(); } catch (...) { lock_release(a); throw; }
  *o = 2;
  lock_release(a);
  return 0;
}
QS_EXPORT int sched_yield(void) {
  if (!simulated() || !g_multi) return static_cast<int>(syscall(SYS_sched_yield));
  RtScope s;
  ++g_step;
  limit_check();
  // a yielding thread lets the others run
  cur->state = BLOCKED;
  Thread* t = decide(false, false);
  cur->state = RUNNABLE;
  if (t && t != cur) switch_to(t);
  plan_next_mem();
  return 0;
}
QS_EXPORT int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!simulated()) { static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b); }
  clock_advance_ns(static_cast<uint64_t>(a->tv_sec) * 1000000000ull + static_cast<uint64_t>(a->tv_nsec));
  sched_yield();
  return 0;
}
QS_EXPORT int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  if (!simulated()) { static auto f = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(k, fl, a, b); }
  if (!fl) clock_advance_ns(static_cast<uint64_t>(a->tv_sec) * 1000000000ull + static_cast<uint64_t>(a->tv_nsec));
  else clock_advance_ns(1000000);
  sched_yield();
  return 0;
}

// function-local statics: another thread may be preempted in the middle of an initialisation
QS_EXPORT int qs_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
QS_EXPORT int qs_guard_acquire(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  char* busy = done + 1;
  if (__atomic_load_n(done, __ATOMIC_ACQUIRE)) { if (g_multi && !g_in_rt) { RtScope s; hb_acquire(reinterpret_cast<uintptr_t>(g)); } return 0; }
  if (!g_active || g_in_rt) { *busy = 1; return 1; }
  sync_point(16);
  for (;;) {
    RtScope s;
    if (*done) { hb_acquire(reinterpret_cast<uintptr_t>(g)); return 0; }
    if (!*busy) { *busy = 1; return 1; }
    if (!g_multi) fatal("deadlock", "recursive initialisation of a static");
    block_on(g);
  }
}
QS_EXPORT void qs_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
QS_EXPORT void qs_guard_release(uint64_t* g) {
  char* done = reinterpret_cast<char*>(g);
  done[1] = 0;
  __atomic_store_n(done, 1, __ATOMIC_RELEASE);
  if (g_active && !g_in_rt) {
    { RtScope s; hb_release(reinterpret_cast<uintptr_t>(g)); wake_all(g); }
    sync_point(16);
  }
}
QS_EXPORT void qs_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
QS_EXPORT void qs_guard_abort(uint64_t* g) {
  reinterpret_cast<char*>(g)[1] = 0;
  if (g_active && !g_in_rt) { RtScope s; wake_all(g); }
}

// ------------------------------------------------------------------------------------------------ ThreadSanitizer entry points
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
QS_EXPORT void __tsan_init(void) {}
QS_EXPORT void __tsan_func_entry(void*) {
  if (!g_multi) { ++g_stats.serial_steps; if (__builtin_expect((g_stats.serial_steps & 0xFFFFF) == 0, 0) && g_active) limit_check(); }
}
QS_EXPORT void __tsan_func_exit(void) {}
#define RW(N) \
  QS_EXPORT void __tsan_read##N(void* p) { access_hook(p, N, 0, PC); } \
  QS_EXPORT void __tsan_write##N(void* p) { access_hook(p, N, F_WRITE, PC); } \
  QS_EXPORT void __tsan_unaligned_read##N(void* p) { access_hook(p, N, 0, PC); } \
  QS_EXPORT void __tsan_unaligned_write##N(void* p) { access_hook(p, N, F_WRITE, PC); } \
  QS_EXPORT void __tsan_volatile_read##N(void* p) { access_hook(p, N, 0, PC); } \
  QS_EXPORT void __tsan_volatile_write##N(void* p) { access_hook(p, N, F_WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
QS_EXPORT void __tsan_read_range(void* p, unsigned long n) { if (n) access_hook(p, n, 0, PC); }
QS_EXPORT void __tsan_write_range(void* p, unsigned long n) { if (n) access_hook(p, n, F_WRITE, PC); }
QS_EXPORT void __tsan_vptr_update(void** p, void*) { access_hook(p, 8, F_WRITE, PC); }
QS_EXPORT void __tsan_vptr_read(void** p) { access_hook(p, 8, 0, PC); }

QS_EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n && (g_multi | g_memcheck)) { access_hook(const_cast<void*>(s), n, 0, PC); access_hook(d, n, F_WRITE, PC); }
  return memcpy(d, s, n);
}
QS_EXPORT void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n && (g_multi | g_memcheck)) { access_hook(const_cast<void*>(s), n, 0, PC); access_hook(d, n, F_WRITE, PC); }
  return memmove(d, s, n);
}
QS_EXPORT void* __wrap_memset(void* d, int v, size_t n) {
  if (n && (g_multi | g_memcheck)) access_hook(d, n, F_WRITE, PC);
  return memset(d, v, n);
}
static void atomic_pre(const volatile void* p, size_t n, bool write, uintptr_t pc) {
  if (!g_multi || g_pause || g_in_rt) return;
  ++g_step;
  if (g_step >= g_next) mem_decision();
  if (g_cfg.track_races) race_access(reinterpret_cast<uintptr_t>(p), n, static_cast<uint8_t>(F_ATOMIC | (write ? F_WRITE : 0)), pc);
}
static void atomic_sync(const volatile void* p, int mo, bool load, bool store) {
  if (!g_multi || g_pause || g_in_rt) return;
  RtScope s;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (load && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_acquire(a);
  if (store && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) hb_release(a);
}
#define ATOMICS(BITS, TY) \
  QS_EXPORT TY __tsan_atomic##BITS##_load(const volatile TY* a, int mo) { atomic_pre(a, sizeof(TY), false, PC); TY v = *a; atomic_sync(a, mo, true, false); return v; } \
  QS_EXPORT void __tsan_atomic##BITS##_store(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); atomic_sync(a, mo, false, true); *a = v; } \
  QS_EXPORT TY __tsan_atomic##BITS##_exchange(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = v; atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_add(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(o + v); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_sub(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(o - v); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_and(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(o & v); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_or(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(o | v); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_xor(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(o ^ v); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT TY __tsan_atomic##BITS##_fetch_nand(volatile TY* a, TY v, int mo) { atomic_pre(a, sizeof(TY), true, PC); TY o = *a; *a = static_cast<TY>(~(o & v)); atomic_sync(a, mo, true, true); return o; } \
  QS_EXPORT bool __tsan_atomic##BITS##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int fmo) { \
    atomic_pre(a, sizeof(TY), true, PC); TY o = *a; if (o == *e) { *a = v; atomic_sync(a, mo, true, true); return true; } *e = o; atomic_sync(a, fmo, true, false); return false; } \
  QS_EXPORT bool __tsan_atomic##BITS##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int fmo) { \
    atomic_pre(a, sizeof(TY), true, PC); TY o = *a; if (o == *e) { *a = v; atomic_sync(a, mo, true, true); return true; } *e = o; atomic_sync(a, fmo, true, false); return false; } \
  QS_EXPORT TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { \
    atomic_pre(a, sizeof(TY), true, PC); TY o = *a; if (o == e) { *a = v; atomic_sync(a, mo, true, true); } else atomic_sync(a, fmo, true, false); return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
static char g_fence;
QS_EXPORT void __tsan_atomic_thread_fence(int) { if (g_multi && !g_in_rt && !g_pause) { RtScope s; hb_acquire(reinterpret_cast<uintptr_t>(&g_fence)); hb_release(reinterpret_cast<uintptr_t>(&g_fence)); } }
QS_EXPORT void __tsan_atomic_signal_fence(int) {}

// The copy of a process made by fork has only the thread that called it; forget the others.
QS_EXPORT void qs_after_fork(void) {
  if (g_nthreads > 1) { for (int i = 1; i < g_nthreads; ++i) T[i] = nullptr; g_nthreads = 1; }
  if (g_nthreads) { cur = T[0]; cur->state = RUNNABLE; }
}
