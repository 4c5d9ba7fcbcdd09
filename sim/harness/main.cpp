// Driver: runs one property with one seed (or a replay file) per forked child and reports one JSON line for each.
#include "props.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <sched.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

using namespace core;

static int g_out = 3;
static bool g_full = false;     // report plan and schedules even when nothing failed
static int g_seconds = 240;
static volatile bool g_reported = false;

static std::string quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += static_cast<char>(c);
  }
  return o + "\"";
}
static void report() {
  if (g_reported) return;
  g_reported = true;
  res.add_hash(hash_str(res.status + res.msg));
  std::string o = fmt("{\"prop\":\"%s\",\"seed\":%llu,\"status\":\"%s\",\"hash\":\"%016llx\",\"sched\":\"%016llx\"", plan.prop.c_str(), static_cast<unsigned long long>(plan.seed), res.status.c_str(),
                      static_cast<unsigned long long>(res.hash), static_cast<unsigned long long>(res.sched_hash));
  o += ",\"msg\":" + quote(res.msg) + ",\"stage\":" + quote(stage) + ",\"where\":" + quote(res.where) + ",\"count\":{";
  bool first = true;
  for (auto& [k, v] : res.count) { o += (first ? "" : ",") + quote(k) + ":" + fmt("%.10g", v); first = false; }
  o += "},\"phases\":[";
  first = true;
  const bool detail = g_full || res.status == "violation";
  for (auto& p : res.phases) {
    auto& s = p.st;
    o += first ? "{" : ",{";
    first = false;
    o += "\"name\":" + quote(p.name) + fmt(",\"mode\":%d,\"team\":%d,\"steps\":%llu,\"serial\":%llu,\"sync\":%llu,\"switches\":%llu,\"preempt\":%llu,\"regions\":%llu,\"live\":%llu", p.mode, p.team,
      (unsigned long long)s.steps, (unsigned long long)s.serial_steps, (unsigned long long)s.sync_points, (unsigned long long)s.switches, (unsigned long long)s.preemptions, (unsigned long long)s.regions, (unsigned long long)s.max_live);
    o += fmt(",\"rng\":%llu,\"clock\":%llu,\"jumps\":%llu,\"back\":%llu,\"stalls\":%llu,\"sim_s\":%.6g,\"allocs\":%llu,\"oom\":%llu,\"races\":%llu,\"contention\":%llu,\"chunks\":%llu,\"tracked\":%llu,\"trace\":\"%016llx\",\"fired\":[",
      (unsigned long long)s.rng_draws, (unsigned long long)s.clock_reads, (unsigned long long)s.clock_jumps, (unsigned long long)s.clock_backward, (unsigned long long)s.clock_stalls, s.sim_seconds, (unsigned long long)s.allocs, (unsigned long long)s.alloc_failures,
      (unsigned long long)s.races, (unsigned long long)s.lock_contention, (unsigned long long)s.chunks, (unsigned long long)s.accesses_tracked, (unsigned long long)s.trace_hash);
    for (int k = 0; k < QS_F_KIND_COUNT; ++k) o += fmt(k ? ",%llu" : "%llu", (unsigned long long)p.fired[k]);
    o += "]";
    if (detail && p.mode != QS_SCHED_RUN_TO_BLOCK) {
      o += ",\"sw\":[";
      const size_t n = std::min<size_t>(p.sw.size(), 200000);
      for (size_t k = 0; k < n; ++k) o += fmt(k ? ",[%llu,%d]" : "[%llu,%d]", (unsigned long long)p.sw[k].step, p.sw[k].tid);
      o += "]";
    }
    o += "}";
  }
  o += "]";
  if (detail) {
    o += ",\"plan\":{";
    first = true;
    for (auto& [k, u] : plan.used) { o += (first ? "" : ",") + quote(k) + ":[" + quote(u.value) + "," + quote(u.simple) + "]"; first = false; }
    o += "}";
  }
  o += "}\n";
  size_t at = 0;
  while (at < o.size()) { ssize_t n = write(g_out, o.data() + at, o.size() - at); if (n <= 0) break; at += static_cast<size_t>(n); }
}
static void record_open_phase() {
  if (!qs_active()) return;
  qs_pause();
  if (res.phases.empty()) return;
  PhaseRec& r = res.phases.back();
  qs_get_stats(&r.st);
  const qs_switch* sw;
  size_t n = qs_get_switches(&sw);
  r.sw.assign(sw, sw + n);
  for (int k = 0; k < QS_F_KIND_COUNT; ++k) r.fired[k] = qs_disk_fired(k);
  res.add_hash(r.st.trace_hash);
  res.sched_hash = mix(res.sched_hash ^ r.st.trace_hash);
}
static std::string current_exception_text() {
  std::exception_ptr e = std::current_exception();
  return e ? first_lines(api::exception_text(e)) : std::string("no exception");
}
static void on_terminate_call() {
  static volatile int depth = 0;
  if (depth)  _exit(97);
  if (qs_active()) qs_pause();
  const std::string m = current_exception_text();
  sub_abort('t', m);
  record_open_phase();
  res.status = plan.prop == "C21" ? "ok" : "violation"; // C21 judges memory only
  res.msg = "the process is terminated: " + m;
  report();
  _exit(0);
}
static void on_fatal(const char* kind, const char* msg) {
  if (qs_active()) qs_pause();
  sub_abort('f', fmt("%s: %s", kind, msg));
  record_open_phase();
  // running long is judged by the property on termination only
  // (a replay may ask for a verdict: when no run at all comes to an end)
  res.status = strcmp(kind, "internal") == 0 ? "error" : strcmp(kind, "memory") == 0 || plan.fixed.count("judge_termination") ? "violation" : plan.prop == "C21" ? "slow" : strcmp(kind, "step_limit") == 0 && (res.no_step_claim || (plan.prop != "C19" && plan.prop != "C10" && plan.prop != "C15")) ? "slow" : "violation";
  res.msg = fmt("%s: %s", kind, msg);
  report();
  _exit(0);
}
static void on_signal(int sig) {
  static volatile int depth = 0;
  if (depth)  { signal(sig, SIG_DFL); raise(sig); _exit(98); }
  depth = 1;
  if (qs_active()) qs_pause();
  const char* kind = memory_checked && (sig == SIGSEGV || sig == SIGBUS) ? "memory: " : "";
  sub_abort('g', fmt("%skilled by signal %d", kind, sig));
  record_open_phase();
  res.status = plan.prop == "C21" && !*kind ? "ok" : "violation";
  res.msg = fmt("%skilled by signal %d (%s)", kind, sig, strsignal(sig));
  report();
  _exit(0);
}

static void run_child() {
  std::set_terminate(on_terminate_call);
  qs_set_callbacks(on_fatal, props::on_crash);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
  alarm(static_cast<unsigned>(g_seconds));
  try { props::run(); }
  catch (const Violation& v) { res.status = "violation"; res.msg = v.what(); }
  catch (const Skip& v) { res.status = "skip"; res.msg = v.what(); }
  catch (...) {
    // an exception that no step expected
    std::exception_ptr e = std::current_exception();
    if (qs_active()) record_open_phase();
    res.status = "violation";
    res.msg = "unexpected exception: " + first_lines(api::exception_text(e), 600);
  }
  if (qs_active()) record_open_phase();
  report();
  _exit(0);
}
static void spawn() {
  pid_t p = fork();
  if (p == 0) run_child();
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
    const bool to = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL);
    char b[256];
    int n = snprintf(b, sizeof b, "{\"prop\":\"%s\",\"seed\":%llu,\"status\":\"%s\",\"hash\":\"0\",\"sched\":\"0\",\"msg\":\"%s %d\",\"count\":{},\"phases\":[]}\n", plan.prop.c_str(), (unsigned long long)plan.seed,
                     to ? "timeout" : "error", WIFSIGNALED(st) ? "killed by signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    if (write(g_out, b, static_cast<size_t>(n)) < 0) _exit(3);
  }
}
static bool load_replay(const char* file) {
  std::ifstream f(file);
  if (!f) return false;
  std::string k;
  std::string phase;
  while (f >> k) {
    if (k == "prop") f >> plan.prop;
    else if (k == "tier") f >> plan.tier;
    else if (k == "seed") f >> plan.seed;
    else if (k == "set") { std::string a, b; f >> a >> b; plan.fixed[a] = b; }
    else if (k == "phase") { f.get(); std::getline(f, phase); replay_sw[phase]; replaying = true; }
    else if (k == "switch") { qs_switch s; f >> s.step >> s.tid; replay_sw[phase].push_back(s); }
    else { std::string rest; std::getline(f, rest); }
  }
  return !plan.prop.empty();
}

int main(int argc, char** argv) {
  // same addresses in every process
  const int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("QSIM_REEXEC")) {
    setenv("QSIM_REEXEC", "1", 1);
    if (personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  mallopt(M_ARENA_MAX, 1);
  if (argc < 3) { fprintf(stderr, "usage: queso_sim batch PROP TIER FIRST STRIDE COUNT SECONDS CPU OUT | replay FILE OUT [full] | list\n"); return 2; }
  const std::string mode = argv[1];
  auto silence = [] { int n = open("/dev/null", O_RDWR); dup2(n, 1); if (!getenv("QSIM_VERBOSE")) dup2(n, 2); };
  if (mode == "batch" && argc >= 10) {
    plan.prop = argv[2];
    plan.tier = argv[3];
    const uint64_t first = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10);
    const double seconds = strtod(argv[7], nullptr);
    const int cpu = atoi(argv[8]);
    if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
    int f = open(argv[9], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f < 0) return 2;
    dup2(f, g_out);
    if (f != g_out) close(f);
    silence();
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t k = 0; k < count; ++k) {
      plan.seed = first + k * stride;
      spawn();
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (static_cast<double>(t1.tv_sec - t0.tv_sec) > seconds) break;
    }
    return 0;
  }
  if (mode == "replay" && argc >= 4) {
    if (!load_replay(argv[2])) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    g_full = argc > 4;
    if (argc > 5) g_seconds = atoi(argv[5]);
    int f = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (f < 0) return 2;
    dup2(f, g_out);
    if (f != g_out) close(f);
    silence();
    spawn();
    return 0;
  }
  return 2;
}
