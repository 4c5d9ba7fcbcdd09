// Core of the harness: plans (everything a run decides, drawn from one seed), simulated phases, results.
#pragma once
#include "../rt/qsim.h"
#include "api.h"
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace core {

uint64_t mix(uint64_t x);
uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { return mix(s += 0x9E3779B97F4A7C15ull); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
  double range(double a, double b) { return a + (b - a) * unit(); }
};

struct Violation : std::runtime_error { using std::runtime_error::runtime_error; };
struct Skip : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Every decision of a run is a named value. Each is drawn from the run's seed and its own name only, so that replacing
// one value (by a replay file or by the minimiser) leaves all others as they were.
class Plan {
public:
  std::string prop, tier = "quick";
  uint64_t seed = 1;
  std::map<std::string, std::string> fixed;                 // values set from outside
  struct Used { std::string value, simple; };
  std::map<std::string, Used> used;

  int64_t i(const std::string& key, int64_t lo, int64_t hi, int64_t simple);
  double d(const std::string& key, double lo, double hi, double simple);
  bool chance(const std::string& key, int permille, bool simple = false);
  int pick(const std::string& key, const std::vector<int>& weights, int simple = 0);
  uint64_t u(const std::string& key, uint64_t simple = 1);
  bool thorough() const { return tier == "thorough"; }
private:
  Rng rng(const std::string& key) const;
  std::string& slot(const std::string& key, const std::string& value, const std::string& simple);
};

struct PhaseRec {
  std::string name;
  qs_stats st{};
  std::vector<qs_switch> sw;
  std::vector<qs_race> races;
  uint64_t fired[QS_F_KIND_COUNT] = {};
  int mode = 0, team = 0;
};

struct Result {
  std::string status = "ok", msg, where;
  std::map<std::string, double> count;    // counters and probes
  uint64_t hash = 1469598103934665603ull; // everything observed: schedules and results
  uint64_t sched_hash = 1469598103934665603ull;
  std::vector<PhaseRec> phases;
  bool no_step_claim = false;               // invalid input: running long is not judged
  void add_hash(uint64_t v) { hash = mix(hash ^ v); }
  void probe(const std::string& k, double n = 1) { count[k] += n; }
};

extern Plan plan;
extern Result res;
extern bool replaying;                                        // schedules come from the replay file
extern std::map<std::string, std::vector<qs_switch>> replay_sw;
extern std::string stage;                                     // what the run is doing, for messages

// how an abnormal end of the process is judged while it can happen
enum class End { bad, accepted };
extern End on_terminate;

// --- phases: stretches of simulated execution ---
struct Faults { std::vector<qs_fault> list; int64_t capacity = -1; uint64_t seed = 0; int short_permille = 0, eintr_permille = 0; };
extern bool memory_checked;                                   // all phases run with checked memory
qs_config base_config();                                      // team 1, run to block, constant randomness, steady clock
void draw_schedule(qs_config& c, const std::string& prefix, int min_team = 1, bool allow_mem = true);
struct Phase {
  Phase(const std::string& name, const qs_config& c);
  ~Phase();
  void end();
  bool open = false;
};
PhaseRec& last_phase();
void set_faults(const Faults& f);
std::string race_text(const qs_race& r);
void check_races(const PhaseRec& p);                          // violation when a race was seen

// runs f in a forked copy of this process
struct SubResult {
  enum Kind { ok, violation, terminated, signalled, timeout, stuck } kind = ok;
  int sig = 0;
  std::string msg;                                            // violation text, terminate text
  std::string out;                                            // what f returned
};
SubResult in_fork(const std::function<std::string()>& f, int seconds = 30);

bool sub_abort(char kind, const std::string& msg);

// harness code inside a phase that must not be simulated
struct Pause { Pause() { qs_pause(); } ~Pause() { qs_resume(); } };

uint64_t digest(const api::Snapshot& s, bool with_times = false);
std::string first_lines(const std::string& s, size_t n = 300);

} // namespace core
