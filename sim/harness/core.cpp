#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <algorithm>

namespace core {

Plan plan;
Result res;
bool replaying = false;
std::map<std::string, std::vector<qs_switch>> replay_sw;
std::string stage = "start";
End on_terminate = End::bad;

uint64_t mix(uint64_t x) { x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; return x ^ (x >> 31); }
uint64_t hash_str(const std::string& s, uint64_t h) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

static std::string vfmt(const char* f, va_list ap) {
  char b[4096];
  vsnprintf(b, sizeof b, f, ap);
  return b;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }
void violation(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Violation(s); }
std::string first_lines(const std::string& s, size_t n) { std::string o; for (char c : s) { if (o.size() >= n) break; o += (c == '\n' ? ' ' : c); } return o; }

Rng Plan::rng(const std::string& key) const { return Rng(mix(seed * 0x9E3779B97F4A7C15ull + 0x1234567) ^ hash_str(prop + "/" + key)); }
std::string& Plan::slot(const std::string& key, const std::string& value, const std::string& simple) {
  auto f = fixed.find(key);
  Used& u = used[key];
  u.value = f != fixed.end() ? f->second : value;
  u.simple = simple;
  return u.value;
}
int64_t Plan::i(const std::string& key, int64_t lo, int64_t hi, int64_t simple) {
  Rng r = rng(key);
  int64_t v = lo + static_cast<int64_t>(r.below(static_cast<uint64_t>(hi - lo + 1)));
  v = strtoll(slot(key, std::to_string(v), std::to_string(simple)).c_str(), nullptr, 10);
  return std::min(hi, std::max(lo, v));
}
double Plan::d(const std::string& key, double lo, double hi, double simple) {
  Rng r = rng(key);
  double v = strtod(slot(key, fmt("%.17g", r.range(lo, hi)), fmt("%.17g", simple)).c_str(), nullptr);
  return std::min(hi, std::max(lo, v));
}
bool Plan::chance(const std::string& key, int permille, bool simple) {
  Rng r = rng(key);
  bool v = r.below(1000) < static_cast<uint64_t>(permille);
  return slot(key, v ? "1" : "0", simple ? "1" : "0") == "1";
}
int Plan::pick(const std::string& key, const std::vector<int>& w, int simple) {
  int sum = 0;
  for (int x : w) sum += x;
  Rng r = rng(key);
  int k = static_cast<int>(r.below(static_cast<uint64_t>(sum))), v = 0;
  while (k >= w[static_cast<size_t>(v)]) k -= w[static_cast<size_t>(v++)];
  v = static_cast<int>(strtol(slot(key, std::to_string(v), std::to_string(simple)).c_str(), nullptr, 10));
  return std::min(static_cast<int>(w.size()) - 1, std::max(0, v));
}
uint64_t Plan::u(const std::string& key, uint64_t simple) {
  Rng r = rng(key);
  return strtoull(slot(key, std::to_string(r.next() >> 16), std::to_string(simple)).c_str(), nullptr, 10);
}

bool memory_checked = false;
qs_config base_config() {
  qs_config c;
  memset(&c, 0, sizeof c);
  c.team = 1;
  c.sched_mode = QS_SCHED_RUN_TO_BLOCK;
  c.sched_seed = 1;
  c.mem_period = 10000;
  c.pct_depth = 3;
  c.pct_horizon = 100000;
  c.stall_tid = -1;
  c.rng_mode = QS_RNG_CONST;
  c.rng_value = 4711;
  c.clock_seed = 1;
  c.max_steps = plan.thorough() || plan.prop == "C10" ? 15000000000ull : 4000000000ull;
  c.check_memory = memory_checked;
  return c;
}
void draw_schedule(qs_config& c, const std::string& p, int min_team, bool allow_mem) {
  static const int teams[] = { 1, 2, 3, 4, 5, 6, 7, 8 };
  int t = teams[plan.pick(p + ".team", { 1, 6, 5, 5, 3, 2, 2, 4 }, 1)];
  c.team = std::max(min_team, t);
  static const int modes[] = { QS_SCHED_RUN_TO_BLOCK, QS_SCHED_RANDOM_SYNC, QS_SCHED_RANDOM_MEM, QS_SCHED_PCT, QS_SCHED_STALL, QS_SCHED_ROUND_ROBIN };
  c.sched_mode = modes[plan.pick(p + ".mode", { 1, 6, allow_mem ? 6 : 0, 5, 3, 1 }, 0)];
  c.sched_seed = plan.u(p + ".seed");
  static const uint64_t periods[] = { 1500, 5000, 20000, 100000, 500000 };
  c.mem_period = periods[plan.pick(p + ".mem_period", { 1, 2, 3, 3, 2 }, 3)];
  c.pct_depth = static_cast<int>(plan.i(p + ".pct_depth", 1, 6, 2));
  static const uint64_t horizons[] = { 2000, 50000, 1000000, 20000000 };
  c.pct_horizon = horizons[plan.pick(p + ".pct_horizon", { 1, 2, 2, 2 }, 2)];
  c.stall_tid = static_cast<int>(plan.i(p + ".stall", 0, 7, 1));
}

static int g_open_phases = 0;
Phase::Phase(const std::string& name, const qs_config& c0) {
  qs_config c = c0;
  res.phases.emplace_back();
  PhaseRec& r = res.phases.back();
  r.name = name;
  if (replaying && c.sched_mode != QS_SCHED_RUN_TO_BLOCK && replay_sw.count(name)) {
    c.sched_mode = QS_SCHED_REPLAY;
    auto& v = replay_sw[name];
    c.replay = v.data(); c.replay_len = v.size();
  }
  r.mode = c.sched_mode; r.team = c.team;
  stage = name;
  qs_disk_set_faults(nullptr, 0, -1, 0, 0, 0);
  open = true;
  ++g_open_phases;
  qs_begin(&c);
}
void Phase::end() {
  if (!open) return;
  open = false;
  --g_open_phases;
  PhaseRec& r = res.phases.back();
  qs_end();
  qs_get_stats(&r.st);
  const qs_switch* sw;
  size_t n = qs_get_switches(&sw);
  r.sw.assign(sw, sw + n);
  r.races.resize(QS_MAX_RACES);
  r.races.resize(qs_get_races(r.races.data(), QS_MAX_RACES));
  for (int k = 0; k < QS_F_KIND_COUNT; ++k) r.fired[k] = qs_disk_fired(k);
  res.add_hash(r.st.trace_hash);
  res.add_hash(r.st.steps);
  res.sched_hash = mix(res.sched_hash ^ r.st.trace_hash);
}
Phase::~Phase() { end(); }
PhaseRec& last_phase() { return res.phases.back(); }
void set_faults(const Faults& f) { qs_disk_set_faults(f.list.data(), f.list.size(), f.capacity, f.seed, f.short_permille, f.eintr_permille); }

std::string race_text(const qs_race& r) {
  return fmt("%s by thread %d at @%lx@ and %s by thread %d at @%lx@", r.write_a ? "write" : "read", r.tid_a, static_cast<unsigned long>(r.pc_a),
             r.write_b ? "write" : "read", r.tid_b, static_cast<unsigned long>(r.pc_b));
}
void check_races(const PhaseRec& p) {
  if (!p.races.empty()) violation("data race in phase '%s': %s (%zu places, %llu accesses)", p.name.c_str(), race_text(p.races[0]).c_str(), p.races.size(), static_cast<unsigned long long>(p.st.races));
}

// ------------------------------------------------------------------------------------------------ forked copies
static int g_sub_fd = -1;
static void sub_write(const std::string& s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t n = ::write(g_sub_fd, s.data() + o, s.size() - o); if (n <= 0) break; o += static_cast<size_t>(n); }
}
static std::string pack(char kind, const std::string& text, const std::map<std::string, double>& before) {
  // kind, counters, phases' fault counts, hashes, text
  std::string o(1, kind);
  o += '\n';
  for (auto& [k, v] : res.count) { auto it = before.find(k); double d = v - (it == before.end() ? 0 : it->second); if (d != 0) o += fmt("c %s %.17g\n", k.c_str(), d); }
  o += fmt("h %llu %llu\n", static_cast<unsigned long long>(res.hash), static_cast<unsigned long long>(res.sched_hash));
  o += fmt("o %zu\n", text.size());
  o += text;
  return o;
}
static std::map<std::string, double>* g_before = nullptr;
static size_t g_phases_before = 0;
static void close_stats() {
  // phases of the copy are summed into counters that travel back
  for (size_t k = g_phases_before; k < res.phases.size(); ++k) {
    auto& p = res.phases[k];
    auto& s = p.st;
    auto add = [&](const char* n, uint64_t v) { if (v) res.count[std::string("sub.") + n] += static_cast<double>(v); };
    add("phases", 1); add("steps", s.steps + s.serial_steps); add("switches", s.switches); add("preemptions", s.preemptions); add("sync_points", s.sync_points);
    add("rng_draws", s.rng_draws); add("clock_reads", s.clock_reads); add("clock_jumps", s.clock_jumps); add("clock_backward", s.clock_backward); add("clock_stalls", s.clock_stalls); add("allocs", s.allocs); add("checked_allocs", s.checked_allocs); add("checked_accesses", s.checked_accesses); add("alloc_failures", s.alloc_failures);
    res.count["sub.sim_seconds"] += s.sim_seconds;
    for (int f = 0; f < QS_F_KIND_COUNT; ++f) add(fmt("fired%d", f).c_str(), p.fired[f]);
  }
}
// called from the terminate / fatal handlers of main.cpp; true when this process is a forked copy
bool sub_abort(char kind, const std::string& msg) {
  if (g_sub_fd < 0) return false;
  if (qs_active()) { qs_pause(); }
  auto& p = res.phases;
  if (!p.empty() && p.size() > g_phases_before) { qs_get_stats(&p.back().st); for (int k = 0; k < QS_F_KIND_COUNT; ++k) p.back().fired[k] = qs_disk_fired(k); res.add_hash(p.back().st.trace_hash); res.sched_hash = mix(res.sched_hash ^ p.back().st.trace_hash); }
  close_stats();
  sub_write(pack(kind, msg, *g_before));
  _exit(0);
}

SubResult in_fork(const std::function<std::string()>& f, int seconds) {
  SubResult r;
  int fd[2];
  if (pipe(fd) != 0) { r.kind = SubResult::stuck; r.msg = "pipe failed"; return r; }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    g_sub_fd = fd[1];
    qs_after_fork();
    std::map<std::string, double> before = res.count;
    g_before = &before;
    g_phases_before = res.phases.size();
    alarm(static_cast<unsigned>(seconds));
    std::string out;
    char kind = 'o';
    try { out = f(); }
    catch (const Violation& v) { kind = 'v'; out = v.what(); }
    catch (const Skip& v) { kind = 's'; out = v.what(); }
    catch (...) { if (qs_active()) qs_pause(); kind = 'x'; out = "unexpected exception: " + first_lines(api::exception_text(std::current_exception()), 300); }
    if (qs_active()) { qs_pause(); }
    close_stats();
    sub_write(pack(kind, out, before));
    _exit(0);
  }
  close(fd[1]);
  std::string all;
  char b[65536];
  for (;;) { ssize_t n = ::read(fd[0], b, sizeof b); if (n <= 0) { if (n < 0 && errno == EINTR) continue; break; } all.append(b, static_cast<size_t>(n)); }
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) {
    if (memory_checked && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS)) violation("memory: killed by signal %d", WTERMSIG(st));
    r.sig = WTERMSIG(st);
    r.kind = r.sig == SIGALRM || r.sig == SIGKILL ? SubResult::timeout : SubResult::signalled;
    r.msg = fmt("killed by signal %d", r.sig);
    res.add_hash(static_cast<uint64_t>(r.sig));
    return r;
  }
  if (all.empty()) { r.kind = SubResult::stuck; r.msg = fmt("no result, exit status %d", st); return r; }
  size_t pos = 2;
  for (;;) {
    size_t e = all.find('\n', pos);
    if (e == std::string::npos) { r.kind = SubResult::stuck; r.msg = "broken result"; return r; }
    std::string line = all.substr(pos, e - pos);
    pos = e + 1;
    if (line[0] == 'c') { size_t sp = line.rfind(' '); res.count[line.substr(2, sp - 2)] += strtod(line.c_str() + sp, nullptr); }
    else if (line[0] == 'h') { unsigned long long h1, h2; if (sscanf(line.c_str(), "h %llu %llu", &h1, &h2) == 2) { res.hash = h1; res.sched_hash = h2; } }
    else if (line[0] == 'o') { r.out = all.substr(pos); break; }
  }
  switch (all[0]) {
    case 'o': r.kind = SubResult::ok; break;
    case 'v': r.kind = SubResult::violation; r.msg = r.out; break;
    case 's': r.kind = SubResult::ok; r.msg = "skip"; break;
    case 't': r.kind = SubResult::terminated; r.msg = r.out; break;
    default: r.kind = SubResult::stuck; r.msg = r.out; break;
  }
  // judged at once: the steps around this copy may take its end for something else
  if (memory_checked && (all[0] == 'f' || all[0] == 'g') && r.msg.compare(0, 8, "memory: ") == 0) violation("%s", r.msg.c_str());
  res.add_hash(hash_str(r.out));
  return r;
}

// ------------------------------------------------------------------------------------------------ digests
static uint64_t bits(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
uint64_t digest(const api::Snapshot& s, bool with_times) {
  uint64_t total = 0;
  for (auto& c : s.cells) {
    uint64_t h = mix(c.id * 2 + c.trimmed);
    for (auto& p : c.pts) for (double x : p) h = mix(h ^ bits(x)) + 1;
    for (size_t k = 0; k < 3; ++k) h = mix(h ^ bits(c.lo[k])) + bits(c.hi[k]);
    total += h;
  }
  for (auto& c : s.conds) {
    uint64_t h = mix(c.id + 77), sum = 0;
    for (auto& g : c.segs) { uint64_t q = mix(g.active ? g.parent + 1 : 0); for (auto& t : g.tris) for (auto& v : t) for (double x : v) q = mix(q ^ bits(x)) + 1; sum += q; }
    total += mix(h ^ sum);
  }
  if (with_times) for (auto& [k, v] : s.info) total += mix(hash_str(k) ^ bits(v));
  return mix(total);
}
} // namespace core
