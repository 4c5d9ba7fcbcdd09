// What a run of each property does: a workload drawn from the plan, executed under schedules, random values, clocks and
// faults drawn from the plan, and judged against the reference geometry or against another simulated execution.
#include "props.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <random>
#include <set>
#include <unistd.h>

using namespace core;
using geo::V3;
using geo::operator+;
using geo::operator-;
using geo::operator*;
namespace props {

using ModelP = std::shared_ptr<api::Model>;
using ull = unsigned long long;

static void note(const cases::Case& c) { if (!res.where.empty()) res.where += " | "; res.where += c.text; }

// runs f inside a phase; returns the text of an exception, or "" when it ended normally
static std::string guarded(const std::function<void()>& f) {
  try { f(); }
  catch (const Violation&) { throw; }
  catch (const Skip&) { throw; }
  catch (...) {
    Pause p;
    const std::string t = first_lines(api::exception_text(std::current_exception()), 500);
    return t.empty() ? "exception without text" : t;
  }
  return "";
}
// Runs f with the stack pointer moved down, so that the frames it leaves lie below the frames of what comes later with a smaller depth.
__attribute__((noinline)) static std::string deep(size_t bytes, const std::function<void()>& f) {
  volatile char* a = static_cast<volatile char*>(__builtin_alloca(bytes));
  a[0] = 0;
  std::string e = guarded(f);
  a[bytes - 1] = e.empty();
  return e;
}
static std::string in_phase(const std::string& name, const qs_config& cfg, const std::function<void()>& f) {
  Phase p(name, cfg);
  // with checked memory every phase starts a little higher than the one before
  std::string e = cfg.check_memory ? deep(static_cast<size_t>(4096 + 24576 * (15 - (res.phases.size() - 1) % 16)), f) : guarded(f);
  p.end();
  return e;
}
struct Built { ModelP m; api::Snapshot s; };
static Built build_in(const std::string& name, const qs_config& cfg, const cases::Case& c, bool conds = true) {
  Built b;
  const std::string e = in_phase(name, cfg, [&] { b.m = cases::build(c, conds); });
  if (!e.empty()) violation("building the model fails in phase '%s': %s", name.c_str(), e.c_str());
  b.s = api::snapshot(*b.m);
  res.add_hash(digest(b.s));
  res.probe("builds");
  return b;
}
static qs_config drawn_cfg(const std::string& prefix, int min_team = 1, bool mem = true) {
  qs_config c = base_config();
  draw_schedule(c, prefix, min_team, mem);
  return c;
}
static void draw_rng(qs_config& c, const std::string& p) {
  static const int modes[] = { QS_RNG_CONST, QS_RNG_STREAM, QS_RNG_COUNTER, QS_RNG_REPEAT };
  c.rng_mode = modes[plan.pick(p + ".rng", { 2, 5, 1, 2 }, 0)];
  c.rng_seed = plan.u(p + ".rng_seed");
  static const uint32_t vals[] = { 4711, 0, 1, 0xffffffffu, 0x80000000u };
  c.rng_value = plan.chance(p + ".rng_special", 500) ? vals[plan.pick(p + ".rng_special_value", { 1, 2, 1, 2, 1 }, 0)] : static_cast<uint32_t>(plan.u(p + ".rng_value"));
}
// what uninitialised memory holds is a draw like any other
static void draw_heap(qs_config& c, const std::string& p) {
  static const int bytes[] = { 0, 0x100, 0x1ff, 0x13f, 0x17f, 0x1bf, 0x101, 0x200 };
  c.heap_fill = bytes[plan.pick(p + ".heap", { 2, 2, 2, 2, 1, 1, 1, 4 }, 0)];
}
static void disk_dirs() {
  qs_disk_reset();
  for (const char* d : { "/sim", "/sim/in", "/sim/out", "/sim/out2" }) qs_disk_mkdir(d);
}
static void put(const std::string& path, const std::string& data) { qs_disk_put(path.c_str(), data.data(), data.size()); }

// ================================================================================================ C01
static void c01() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 90 : 48;
  o.long_cells = 20;
  auto c = cases::draw(o);
  note(c);
  auto a = build_in("one thread", base_config(), c);
  const int n = static_cast<int>(plan.i("runs", 1, 3, 1));
  for (int k = 0; k < n; ++k) {
    const std::string q = k == 0 ? "sched" : "sched" + std::to_string(k);
    qs_config g = drawn_cfg(q, 2);
    draw_heap(g, q);
    auto b = build_in(k == 0 ? "many threads" : fmt("many threads %d", k + 1), g, c);
    const std::string d = cases::same_exact(a.s, b.s);
    if (!d.empty()) violation("with %d threads instead of one: %s", last_phase().team, d.c_str());
  }
}

// ================================================================================================ C02
static void c02() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 64 : 36;
  auto c = cases::draw(o);
  note(c);
  auto a = build_in("reference", base_config(), c);
  for (int k = 0; k < 3; ++k) {
    qs_config q = base_config();
    draw_rng(q, "r" + std::to_string(k));
    draw_heap(q, "r" + std::to_string(k));
    if (k == 2 && plan.chance("threads", 500)) { draw_schedule(q, "sched", 2); }
    auto b = build_in("random values " + std::to_string(k + 1), q, c);
    const std::string d = cases::same_close(a.s, b.s, c);
    if (!d.empty()) violation("%s", d.c_str());
    res.probe("rng_draws", static_cast<double>(last_phase().st.rng_draws));
  }
}

// ================================================================================================ C03
static void c03() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 64 : 32;
  o.long_cells = 16;
  auto c = cases::draw(o);
  note(c);
  auto q = drawn_cfg("sched", 2);
  q.track_races = 1;
  disk_dirs();
  ModelP m;
  const std::string e = in_phase("tracked build", q, [&] { m = cases::build(c); });
  check_races(last_phase());
  if (!e.empty()) violation("building the model fails: %s", e.c_str());
  res.probe("accesses", static_cast<double>(last_phase().st.accesses_tracked));
  if (plan.chance("inside_queries", 400)) {
    // classification alone, with more threads than cells along the direction of the split
    auto q2 = drawn_cfg("sched2", 2);
    q2.track_races = 1;
    std::shared_ptr<api::Brep> b;
    in_phase("tracked classification", q2, [&] { b = api::brep(c.mesh); api::classify(*b, c.spec); });
    check_races(last_phase());
  }
}

static cases::Case sibling(const cases::Case& c, const std::string& p);

// ================================================================================================ C04
struct Task { std::function<void()> f; std::string error; };
static void task_entry(void* p) {
  Task& t = *static_cast<Task*>(p);
  t.error = guarded(t.f);
}
static void run_tasks(std::vector<Task>& ts) {
  std::vector<void*> a;
  for (auto& t : ts) a.push_back(&t);
  qs_run_threads(static_cast<int>(ts.size()), task_entry, a.data());
}
static std::vector<V3> probe_points(const std::string& key, int n) {
  Rng r(plan.u(key));
  std::vector<V3> p;
  for (int k = 0; k < n; ++k) p.push_back({ r.range(0.02, 0.98), r.range(0.02, 0.98), r.range(0.02, 0.98) });
  return p;
}
static void c04() {
  cases::Opt o;
  o.max_cells = 12;
  o.max_triangles = 200;
  const int kind = plan.pick("kind", { 3, 3, 2, 2 }, 0);
  const int n = static_cast<int>(plan.i("threads", 2, 4, 2));
  static const char* kinds[] = { "builds", "reads", "files", "mixed" };
  res.probe(std::string("kind.") + kinds[kind]);
  auto cfg = drawn_cfg("sched", 1);
  if (cfg.sched_mode == QS_SCHED_RUN_TO_BLOCK) cfg.sched_mode = QS_SCHED_RANDOM_SYNC;
  cfg.team = std::min(cfg.team, 3);
  cfg.track_races = 1;
  if (kind == 0) {
    std::vector<cases::Case> cs;
    std::vector<api::Snapshot> solo;
    const bool same = plan.chance("same_case", 300), sib = !same && plan.chance("siblings", 400);
    for (int k = 0; k < n; ++k) {
      cs.push_back(k > 0 && sib ? sibling(cs[0], fmt("c%d.", k)) : cases::draw(o, same ? "c0." : fmt("c%d.", k)));
      if (k < 2) note(cs.back());
      solo.push_back(build_in(fmt("alone %d", k), base_config(), cs.back()).s);
    }
    std::vector<ModelP> ms(static_cast<size_t>(n));
    std::vector<Task> ts(static_cast<size_t>(n));
    for (size_t k = 0; k < ts.size(); ++k) ts[k].f = [&, k] { ms[k] = cases::build(cs[k]); };
    { Phase p("side by side", cfg); run_tasks(ts); p.end(); }
    check_races(last_phase());
    for (size_t k = 0; k < ts.size(); ++k) {
      if (!ts[k].error.empty()) violation("building side by side fails: %s", ts[k].error.c_str());
      const std::string d = cases::same_exact(solo[k], api::snapshot(*ms[k]));
      if (!d.empty()) violation("built side by side with others: %s", d.c_str());
    }
  } else if (kind == 1) {
    auto c = cases::draw(o);
    note(c);
    auto ref = build_in("build", base_config(), c);
    const auto pts = probe_points("probes", 6);
    static const int whats[] = { 63, 1, 2, 4, 8, 16, 32, 27 };
    std::vector<int> what;
    for (int k = 0; k < n; ++k) what.push_back(whats[plan.pick(fmt("what%d", k), { 4, 1, 2, 2, 1, 2, 2, 1 }, 0)]);
    // the reading threads must be the first to read a model of their own, the expected values come from a second one
    auto m2 = build_in("build again", base_config(), c);
    std::vector<uint64_t> want, got(static_cast<size_t>(n), 0);
    in_phase("alone", base_config(), [&] { for (int w : what) want.push_back(api::read_everything(*m2.m, pts, w)); });
    ModelP fresh;
    in_phase("build for reading", base_config(), [&] { fresh = cases::build(c); });
    std::vector<Task> ts(static_cast<size_t>(n));
    for (size_t k = 0; k < ts.size(); ++k) ts[k].f = [&, k] { got[k] = api::read_everything(*fresh, pts, what[k]); };
    { Phase p("read side by side", cfg); run_tasks(ts); p.end(); }
    check_races(last_phase());
    for (size_t k = 0; k < ts.size(); ++k) {
      if (!ts[k].error.empty()) violation("reading side by side fails: %s", ts[k].error.c_str());
      if (got[k] != want[k]) violation("thread %zu reads other values (selection %d) while others read the same model", k, what[k]);
    }
  } else if (kind == 2) {
    // models and meshes written and read at the same time
    disk_dirs();
    std::vector<cases::Case> cs;
    std::vector<Built> bs;
    o.max_cells = 8;
    for (int k = 0; k < n; ++k) {
      cs.push_back(cases::draw(o, fmt("c%d.", k)));
      cs.back().spec.out = fmt("/sim/out%d", k);
      qs_disk_mkdir(cs.back().spec.out.c_str());
      if (k < 2) note(cs.back());
      bs.push_back(build_in(fmt("alone %d", k), base_config(), cs.back()));
    }
    geo::Mesh fm = cs[0].mesh;
    geo::to_float(fm);
    put("/sim/in/a.stl", geo::stl_binary(fm, "part"));
    put("/sim/in/b.stl", geo::stl_ascii(fm, "part", 0));
    api::MeshOut r0;
    in_phase("read alone", base_config(), [&] { r0 = api::read_stl("/sim/in/a.stl"); });
    std::vector<Task> ts(static_cast<size_t>(n) + 1);
    for (size_t k = 0; k + 1 < ts.size(); ++k) ts[k].f = [&, k] { api::write(*bs[k].m); };
    api::MeshOut r1;
    ts.back().f = [&] { r1 = api::read_stl("/sim/in/a.stl"); };
    { Phase p("files side by side", cfg); run_tasks(ts); p.end(); }
    check_races(last_phase());
    for (size_t k = 0; k < ts.size(); ++k) if (!ts[k].error.empty()) violation("reading or writing side by side fails: %s", ts[k].error.c_str());
    for (size_t k = 0; k < bs.size(); ++k) cases::check_files(bs[k].s, cs[k], false);
    if (r0.v != r1.v || r0.t != r1.t) violation("an STL file read while others write gives another mesh");
  } else {
    // one thread builds while others read a finished model
    auto c = cases::draw(o, "c0.");
    auto c2 = cases::draw(o, "c1.");
    note(c); note(c2);
    auto a = build_in("alone 0", base_config(), c);
    auto b = build_in("alone 1", base_config(), c2);
    const auto pts = probe_points("probes", 4);
    const int what = 1 | 2 | 8 | 32;
    uint64_t want = 0, got = 0;
    in_phase("read alone", base_config(), [&] { want = api::read_everything(*a.m, pts, what); });
    ModelP m;
    std::vector<Task> ts(2);
    ts[0].f = [&] { m = cases::build(c2); };
    ts[1].f = [&] { got = api::read_everything(*a.m, pts, what); };
    { Phase p("side by side", cfg); run_tasks(ts); p.end(); }
    check_races(last_phase());
    for (auto& t : ts) if (!t.error.empty()) violation("building and reading side by side fails: %s", t.error.c_str());
    if (got != want) violation("reading a finished model gives other values while another model is built");
    const std::string d = cases::same_exact(b.s, api::snapshot(*m));
    if (!d.empty()) violation("built while another model is read: %s", d.c_str());
  }
}

// ================================================================================================ C05
static void classify_case(const cases::Case& c, const std::string& p) {
  const auto boxes = cases::grid_boxes(c.spec);
  std::vector<int> want;
  for (auto& b : boxes) want.push_back(cases::expected_state(c.mesh, b, c.size));
  const int n = static_cast<int>(plan.i(p + "runs", 2, 4, 1));
  for (int k = 0; k <= n; ++k) {
    qs_config q = base_config();
    const std::string sp = p + "sched" + std::to_string(k);
    if (k > 0) { draw_schedule(q, sp, 2); draw_rng(q, sp); draw_heap(q, sp); }
    std::vector<int> got;
    std::shared_ptr<api::Brep> b;
    const std::string e = in_phase(fmt("%sclassify %d", p.c_str(), k), q, [&] { b = api::brep(c.mesh); got = api::classify(*b, c.spec); });
    if (!e.empty()) violation("classification fails: %s", e.c_str());
    if (got.size() != want.size()) violation("%zu classifications for %zu cells", got.size(), want.size());
    static const char* names[] = { "inside", "outside", "cut" };
    for (size_t i = 0; i < got.size(); ++i) {
      res.add_hash(static_cast<uint64_t>(got[i]));
      if (want[i] >= 0) {
        if (got[i] != want[i]) violation("cell %zu is classified as %s, it is %s (%d threads)", i + 1, names[got[i]], names[want[i]], q.team);
      } else {
        const int truth = want[i] == -1 ? 0 : 1;
        if (got[i] != 2 && got[i] != truth) violation("cell %zu touches the surface from %s but is classified as %s (%d threads)", i + 1, names[truth], names[got[i]], q.team);
      }
    }
    res.probe("cells.classified", static_cast<double>(got.size()));
  }
  for (int w : want) res.probe(w == 0 ? "cells.inside" : w == 1 ? "cells.outside" : w == 2 ? "cells.cut" : "cells.touching");
}
static void c05() {
  cases::Opt o;
  o.touch = true;
  o.max_cells = plan.thorough() ? 4000 : 1500;
  o.long_cells = 40;
  o.max_conds = 0;
  o.window = true;
  auto c = cases::draw(o);
  if (plan.chance("block", 500)) {
    // several small grids in blocks with voids, cut into many parts
    const int n = static_cast<int>(plan.i("blocks", 1, 8, 1));
    for (int k = 0; k < n; ++k) {
      const std::string p = fmt("b%d.", k);
      auto x = c;
      const size_t ax = static_cast<size_t>(plan.i(p + "axis", 0, 2, 0));
      for (size_t j = 0; j < 3; ++j) x.spec.n[j] = static_cast<int>(j == ax ? plan.i(p + "long", 4, 24, 6) : plan.i(p + fmt("n%zu", j), 1, 5, 2));
      x.text = fmt("grid %dx%dx%d", x.spec.n[0], x.spec.n[1], x.spec.n[2]);
      cases::block_with_voids(x, p);
      note(x);
      classify_case(x, p);
    }
    return;
  }
  // finer grids than for whole models
  for (size_t k = 0; k < 3; ++k) {
    const int f = static_cast<int>(plan.i(fmt("refine%zu", k), 1, 3, 1));
    if (c.spec.n[0] * c.spec.n[1] * c.spec.n[2] * f <= o.max_cells) c.spec.n[k] *= f;
  }
  c.text += fmt(", refined to %dx%dx%d", c.spec.n[0], c.spec.n[1], c.spec.n[2]);
  note(c);
  classify_case(c, "");
}

// ================================================================================================ C06 .. C09
static cases::Case model_case(const cases::Opt& o) {
  auto c = cases::draw(o);
  note(c);
  return c;
}
static Built drawn_build(const cases::Case& c, bool conds) {
  qs_config q = base_config();
  draw_schedule(q, "sched", 1);
  draw_rng(q, "sched");
  draw_heap(q, "sched");
  if (!plan.chance("foreign", 250)) return build_in("build", q, c, conds);
  // the same mesh through the adapter for foreign mesh types
  Built b;
  const std::string e = in_phase("build", q, [&] { b.m = api::create(c.spec); api::create_volume_foreign(*b.m, c.mesh); });
  if (!e.empty()) violation("building the model from a foreign mesh fails: %s", e.c_str());
  res.probe("foreign");
  if (conds) for (size_t k = 0; k < c.cmesh.size(); ++k) {
    const std::string e2 = in_phase(fmt("condition %zu", k), q, [&] { api::create_condition(*b.m, c.cmesh[k], c.spec.conds[k]); });
    if (!e2.empty()) violation("building a condition fails: %s", e2.c_str());
  }
  b.s = api::snapshot(*b.m);
  res.add_hash(digest(b.s));
  return b;
}
static void c06() {
  cases::Opt o;
  o.touch = true;
  o.max_cells = plan.thorough() ? 120 : 60;
  o.long_cells = 24;
  o.max_conds = 0;
  o.dense = plan.chance("dense", 400);
  if (o.dense) o.max_cells = 160;
  auto c = model_case(o);
  if (plan.chance("through_builders", 300)) {
    // the grid of the library, filled by its builders from a parallel loop, then walked in all six directions
    auto q = drawn_cfg("sched", 1);
    api::WalkResult w;
    const std::string e = in_phase("fill and walk a grid", q, [&] { w = api::grid_walk(c.spec, c.mesh, plan.chance("reverse", 500)); });
    if (!e.empty()) violation("filling a grid fails: %s", e.c_str());
    if (!w.error.empty()) violation("%s", w.error.c_str());
    res.probe("walk.steps", static_cast<double>(w.steps));
    res.add_hash(w.cells * 1000003 + w.steps);
    return;
  }
  auto b = drawn_build(c, false);
  cases::check_storage(b.s, c);
}
// only the first half of the work on a cut cell: its closed mesh, for many more boxes than in a build
static void c07_clip() {
  cases::Opt o;
  o.touch = true;
  o.window = true;
  o.simple_bodies = plan.chance("simple", 700);
  o.max_cells = plan.thorough() ? 200 : 100;
  o.max_conds = 0;
  auto c = model_case(o);
  qs_config q = base_config();
  draw_schedule(q, "sched", 1);
  draw_rng(q, "sched");
  draw_heap(q, "sched");
  std::vector<std::pair<V3, V3>> boxes;
  for (auto& b : cases::grid_boxes(c.spec)) boxes.push_back({ b.lo, b.hi });
  std::vector<api::Clip> got;
  const std::string e = in_phase("cut cells", q, [&] { got = api::clip(c.mesh, boxes, c.spec.min_ratio, static_cast<uint64_t>(c.spec.min_triangles), c.spec.neglect); });
  if (!e.empty()) violation("cutting cells fails: %s", e.c_str());
  int off = 0;
  for (size_t k = 0; k < boxes.size(); ++k) {
    if (!got[k].cut) continue;
    const auto [lo, hi] = boxes[k];
    const double cell = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
    const double vol = geo::volume_in_box(c.mesh, lo, hi), share = vol / cell;
    if (!got[k].made) {
      if (share > std::max(c.spec.min_ratio * 1.01, 1e-6) && share < 1 - 1e-9) violation("cut cell %zu with material share %.6g is lost", k + 1, share);
      continue;
    }
    res.probe("clip.judged");
    res.add_hash(static_cast<uint64_t>(got[k].mesh.t.size()));
    if (share < 1e-6) continue;
    const double v = geo::volume(got[k].mesh), err = std::abs(v - vol) / vol;
    res.count["clip.max_volume_error"] = std::max(res.count["clip.max_volume_error"], err);
    if (!(err < 0.011)) violation("cut cell %zu: its closed mesh encloses %.9g, the material in the cell is %.9g", k + 1, v, vol);
    if (err > 1e-3 || (err > 1e-4 && ++off > 1)) violation("cut cell %zu: its closed mesh encloses %.9g, the material in the cell is %.9g, and %d other cells are off as well", k + 1, v, vol, off - 1);
  }
}
static void c07() {
  if (plan.chance("clip_only", 550)) return c07_clip();
  cases::Opt o;
  o.touch = true;
  o.max_cells = plan.thorough() ? 48 : 27;
  o.max_conds = 0;
  o.alpha = true;
  o.slivers = plan.chance("slivers", 150);
  if (o.slivers) { o.max_cells = 4; o.max_order = 2; o.alpha = false; }
  auto c = model_case(o);
  auto b = drawn_build(c, false);
  cases::check_cut_cells(b.s, c);
}
static void c08() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 200 : 120;
  o.long_cells = 24;
  o.max_conds = 0;
  o.simple_bodies = plan.chance("simple", 600);
  o.dense = plan.chance("dense", 800);
  if (o.dense) o.max_cells = 250;
  auto c = model_case(o);
  if (c.spec.method < 3 && c.spec.grid == 0 && std::min({ c.spec.order[0], c.spec.order[1], c.spec.order[2] }) >= 2 && plan.chance("assembled", 700)) c.spec.method = 3 + plan.pick("assembled_kind", { 2, 1, 1 }, 0);
  auto b = drawn_build(c, false);
  cases::check_full_cells(b.s, c);
}
static void c09() {
  cases::Opt o;
  o.touch = true;
  o.max_cells = plan.thorough() ? 90 : 48;
  o.long_cells = 16;
  o.min_conds = 1;
  o.max_conds = 3;
  auto c = cases::draw(o);
  if (c.cmesh.empty()) throw Skip("no condition");
  note(c);
  auto b = drawn_build(c, true);
  cases::check_conditions(b.s, c);
}

// ================================================================================================ C10
static void c10() {
  cases::Opt o;
  o.max_cells = 64;
  o.max_conds = 0;
  o.max_triangles = 1200;
  auto c = cases::draw(o);
  note(c);
  V3 lo, hi;
  geo::bounds(c.mesh, lo, hi);
  std::vector<V3> pts;
  Rng r(plan.u("points"));
  const int n = static_cast<int>(plan.i("n_points", 5, 40, 1));
  for (int k = 0; k < n; ++k) {
    V3 p;
    const int kind = static_cast<int>(r.below(5));
    for (size_t j = 0; j < 3; ++j) p[j] = lo[j] + (hi[j] - lo[j]) * r.range(-0.1, 1.1);
    if (kind == 1) for (size_t j = 0; j < 3; ++j) if (r.below(2)) p[j] = c.mesh.v[r.below(c.mesh.v.size())][j];   // shares coordinates with corners
    if (kind == 2) { const V3 &a = c.mesh.v[r.below(c.mesh.v.size())], &b = c.mesh.v[r.below(c.mesh.v.size())]; p = a + 0.5 * (b - a); }
    if (kind == 3) { const size_t t = r.below(c.mesh.t.size()); const V3 cen = (1.0 / 3) * (c.mesh.p(t, 0) + c.mesh.p(t, 1) + c.mesh.p(t, 2)); V3 nn = geo::cross(c.mesh.p(t, 1) - c.mesh.p(t, 0), c.mesh.p(t, 2) - c.mesh.p(t, 0)); nn = (1 / geo::norm(nn)) * nn; p = cen + (c.size * (r.below(2) ? 1e-4 : -1e-4)) * nn; }
    if (kind == 4) { p = 0.5 * (lo + hi); const size_t ax = r.below(3); p[ax] = lo[ax] + (hi[ax] - lo[ax]) * static_cast<double>(r.below(9)) / 8; }
    pts.push_back(p);
  }
  const int m = static_cast<int>(plan.i("runs", 1, 3, 1));
  for (int k = 0; k < m; ++k) {
    qs_config q = base_config();
    draw_rng(q, "r" + std::to_string(k));
    draw_heap(q, "r" + std::to_string(k));
    std::vector<int> got;
    const std::string e = in_phase(fmt("queries %d", k), q, [&] {
      auto b = api::brep(c.mesh);
      for (auto& p : pts) got.push_back(api::is_inside(*b, p));
    });
    if (!e.empty()) violation("an inside query fails: %s", e.c_str());
    for (size_t i = 0; i < pts.size(); ++i) {
      res.add_hash(static_cast<uint64_t>(got[i]));
      if (geo::distance(c.mesh, pts[i]) < 1e-6 * c.size) { res.probe("points.on_surface"); continue; }
      const bool want = geo::winding(c.mesh, pts[i]) > 0.5;
      res.probe(want ? "points.inside" : "points.outside");
      if (static_cast<bool>(got[i]) != want) violation("point (%.17g %.17g %.17g), %.3g from the surface, is reported as %s the body", pts[i][0], pts[i][1], pts[i][2], geo::distance(c.mesh, pts[i]), got[i] ? "inside" : "outside");
    }
    const double per = static_cast<double>(last_phase().st.rng_draws) / static_cast<double>(pts.size());
    res.count["max_draws_per_query"] = std::max(res.count["max_draws_per_query"], per);
  }
  if (plan.chance("aimed", 700)) {
    // the worst the random source can do: the first rays it leads to all meet corners of the mesh. The body is the hull of
    // points on a sphere, among them those where the rays meet the sphere.
    Rng ra(plan.u("aim_seed"));
    const int rays = static_cast<int>(plan.i("aim_rays", 1, 9, 1));
    const double R = ra.range(0.5, 4);
    V3 cen;
    for (auto& x : cen) x = ra.range(-1, 1);
    V3 p = cen;
    const bool inside = ra.below(2) != 0;
    for (auto& x : p) x += inside ? R * ra.range(-0.2, 0.2) : R * ra.range(-1.4, -0.9);
    const bool edges = ra.below(2) != 0, slanted = ra.below(4) == 0;
    uint32_t first = static_cast<uint32_t>(plan.u("aim_value")), value = first;
    std::vector<V3> v;
    struct Site { V3 at; double reach; };
    std::vector<Site> hits;
    for (int k = 0; k < 300 && static_cast<int>(hits.size()) < rays; ++k) {   // a value whose first directions are not too close to each other
      std::mt19937 gen(first + static_cast<uint32_t>(k));
      std::uniform_real_distribution<> dir(0.5, 1.5);
      std::vector<V3> a;
      std::vector<Site> sites;
      while (static_cast<int>(sites.size()) < rays) {
        const double x = dir(gen), y = dir(gen), z = dir(gen);
        V3 d{ x, y, z };
        d = (1 / geo::norm(d)) * d;
        const V3 o = p - cen;
        const double b = geo::dot(o, d), q = b * b - geo::dot(o, o) + R * R;
        if (q < 0.2 * R * R) break;                            // misses the sphere or grazes it
        const bool leaves = inside || ra.below(2);
        double t = -b + (leaves ? 1 : -1) * std::sqrt(q);
        V3 h = p + t * d, e{ 0, 0, 0 };
        double reach = 0.07 * R;
        if (edges) {   // the middle of an edge, which is a chord through a point of the ray just below the sphere
          t += (leaves ? -0.005 : 0.005) * R;
          h = p + t * d;
          const V3 n = h - cen;
          const double half = std::sqrt(R * R - geo::dot(n, n));
          e = geo::cross(n, V3{ ra.range(-1, 1), ra.range(-1, 1), ra.range(-1, 1) });
          e = (half / geo::norm(e)) * e;
          reach = half;
        }
        bool ok = true;
        for (auto& w : sites) if (geo::norm(w.at - h) < 1.1 * (w.reach + reach)) ok = false;
        if (!ok) break;
        sites.push_back({ h, reach });
        if (edges) { a.push_back(h + e); a.push_back(h - e); } else a.push_back(h);
      }
      if (sites.size() > hits.size()) { hits = sites; v = a; value = first + static_cast<uint32_t>(k); }
    }
    const size_t hit = hits.size(), given = v.size();
    for (int k = 0; k < 400 && v.size() < given + 24; ++k) {
      V3 d{ ra.range(-1, 1), ra.range(-1, 1), ra.range(-1, 1) };
      if (k < 6) { d = { 0.01 * d[0], 0.01 * d[1], 0.01 * d[2] }; d[static_cast<size_t>(k / 2)] += k % 2 ? 1 : -1; }
      if (geo::norm(d) < 0.1) continue;
      const V3 h = cen + (R / geo::norm(d)) * d;
      bool ok = true;
      for (auto& w : v) if (geo::norm(w - h) < 0.2 * R) ok = false;
      for (auto& w : hits) if (geo::norm(w.at - h) < w.reach + 0.05 * R) ok = false;
      if (ok) v.push_back(h);
    }
    geo::Mesh m = geo::hull(v);
    if (slanted) {   // a block whose edges have the directions of the first three rays: each ray is parallel to four of its faces
      V3 d[3];
      double vol = 0;
      for (int k = 0; k < 100 && vol < 0.1; ++k) {
        value = first + static_cast<uint32_t>(k);
        std::mt19937 gen(value);
        std::uniform_real_distribution<> dir(0.5, 1.5);
        for (auto& x : d) { const double a = dir(gen), b = dir(gen), e = dir(gen); x = { a, b, e }; x = (1 / geo::norm(x)) * x; }
        vol = std::fabs(geo::dot(d[0], geo::cross(d[1], d[2])));
      }
      m = geo::box({ -R, -R, -R }, { R, R, R });
      for (auto& x : m.v) x = cen + x[0] * d[0] + (x[1] * d[1] + x[2] * d[2]);
      if (geo::volume(m) < 0) geo::flip(m);
      if (inside) p = cen + (R * ra.range(-0.9, 0.9)) * d[0] + ((R * ra.range(-0.9, 0.9)) * d[1] + (R * ra.range(-0.9, 0.9)) * d[2]);
    }
    if (hit > 0 && geo::is_closed(m) && geo::distance(m, p) > 1e-3 * R) {
      qs_config q = base_config();
      q.rng_mode = QS_RNG_CONST;
      q.rng_value = value;
      bool got = false;
      const std::string e = in_phase("aimed query", q, [&] { auto b = api::brep(m); got = api::is_inside(*b, p); });
      if (!e.empty()) violation("an inside query fails: %s", e.c_str());
      const bool want = geo::winding(m, p) > 0.5;
      res.count["aimed_rays"] += static_cast<double>(hit);
      if (slanted) res.probe("aimed.parallel_faces");
      else if (hit >= 5) res.probe(edges ? "aimed.five_edges" : "aimed.five_corners");
      res.probe(want ? "points.aimed_inside" : "points.aimed_outside");
      if (got != want) violation("point (%.17g %.17g %.17g), %.3g from the surface, is reported as %s the body, the first %zu rays %s", p[0], p[1], p[2], geo::distance(m, p), got ? "inside" : "outside", slanted ? size_t{ 3 } : hit, slanted ? "are parallel to faces" : edges ? "meet edges" : "meet corners");
    }
  }
  if (plan.chance("clipped", 400)) {
    // queries for the part of the body within one cell of a finished model
    auto c2 = c;
    while (c2.spec.n[0] * c2.spec.n[1] * c2.spec.n[2] > 18) { size_t big = 0; for (size_t j = 1; j < 3; ++j) if (c2.spec.n[j] > c2.spec.n[big]) big = j; --c2.spec.n[big]; }
    const auto boxes = cases::grid_boxes(c2.spec);
    qs_config q = base_config();
    draw_rng(q, "clip");
    auto b = build_in("build for queries", q, c2, false);
    qs_config q2 = base_config();
    draw_rng(q2, "clipq");
    const auto rel = probe_points("clip_points", 4);
    std::vector<std::tuple<uint64_t, V3, int>> got;
    std::vector<uint64_t> ids;
    for (auto& x : b.s.cells) if (x.trimmed) ids.push_back(x.id);
    const std::string e = in_phase("queries in cells", q2, [&] {
      for (uint64_t id : ids) for (auto& p : rel) {
        const auto& bx = boxes[id - 1];
        V3 x{ bx.lo[0] + p[0] * (bx.hi[0] - bx.lo[0]), bx.lo[1] + p[1] * (bx.hi[1] - bx.lo[1]), bx.lo[2] + p[2] * (bx.hi[2] - bx.lo[2]) };
        got.push_back({ id, x, api::inside_active_domain(*b.m, id, x) });
      }
    });
    if (!e.empty()) violation("an inside query for a cell fails: %s", e.c_str());
    for (auto& [id, x, g] : got) {
      if (geo::distance(c.mesh, x) < 1e-5 * c.size) continue;
      const bool want = geo::winding(c.mesh, x) > 0.5;
      res.probe("points.in_cells");
      if (static_cast<bool>(g) != want) violation("cell %llu: point (%.17g %.17g %.17g), %.3g from the surface, is reported as %s the active part", static_cast<ull>(id), x[0], x[1], x[2], geo::distance(c.mesh, x), g ? "inside" : "outside");
    }
  }
}

// ================================================================================================ C11
static Faults benign(const std::string& p) {
  Faults f;
  f.seed = plan.u(p + ".io_seed");
  static const int pm[] = { 0, 100, 500, 950 };
  f.short_permille = pm[plan.pick(p + ".short", { 1, 3, 3, 2 }, 0)];
  f.eintr_permille = pm[plan.pick(p + ".eintr", { 2, 3, 2, 1 }, 0)] / 2;
  const int n = static_cast<int>(plan.i(p + ".stalls", 0, 3, 0));
  for (int k = 0; k < n; ++k) f.list.push_back({ -1, plan.i(fmt("%s.stall%d", p.c_str(), k), 0, 40, 0), QS_F_STALL, plan.i(fmt("%s.stall_ms%d", p.c_str(), k), 1, 100000, 1), 0 });
  return f;
}
static void check_mesh_vtk(const geo::Mesh& m, const std::string& path) {
  const std::string d = cases::disk_file(path);
  size_t p = 0;
  auto line = [&] { size_t e = d.find('\n', p); if (e == std::string::npos) violation("the VTK file of a mesh ends in its header"); std::string r = d.substr(p, e - p); p = e + 1; return r; };
  line(); line();
  const bool bin = line() == "BINARY";
  line();
  std::string l = line();
  size_t n = 0, t = 0, z = 0;
  if (sscanf(l.c_str(), "POINTS %zu", &n) != 1 || n > d.size()) violation("the VTK file of a mesh announces '%s'", l.c_str());
  auto f64 = [&] { uint64_t v = 0; if (p + 8 > d.size()) violation("the VTK file of a mesh is too short"); for (int k = 0; k < 8; ++k) v = v << 8 | static_cast<unsigned char>(d[p++]); double x; memcpy(&x, &v, 8); return x; };
  auto u32 = [&] { uint32_t v = 0; if (p + 4 > d.size()) violation("the VTK file of a mesh is too short"); for (int k = 0; k < 4; ++k) v = v << 8 | static_cast<unsigned char>(d[p++]); return v; };
  const char* cur = nullptr;
  auto num = [&] { if (!cur) cur = d.c_str() + p; char* e; double x = strtod(cur, &e); if (e == cur) violation("the VTK file of a mesh is too short"); cur = e; return x; };
  std::vector<V3> pts(n);
  for (auto& v : pts) for (double& x : v) x = bin ? f64() : num();
  if (bin) { if (p < d.size() && d[p] == '\n') ++p; }
  else {
    if (cur) p = static_cast<size_t>(cur - d.c_str());
    p = d.find("CELLS ", p);
    if (p == std::string::npos) violation("the VTK file of a mesh has no cells");
    cur = nullptr;
  }
  l = line();
  if (sscanf(l.c_str(), "CELLS %zu %zu", &t, &z) != 2 || t != m.t.size() || z != 4 * t) violation("the VTK file of a mesh announces '%s', the mesh has %zu triangles", l.c_str(), m.t.size());
  auto idx = [&] { return bin ? static_cast<double>(u32()) : num(); };
  for (size_t k = 0; k < t; ++k) {
    if (idx() != 3) violation("the VTK file of a mesh has a cell that is no triangle");
    for (int j = 0; j < 3; ++j) {
      const double i = idx();
      if (!(i >= 0 && i < static_cast<double>(n))) violation("the VTK file of a mesh has a vertex index out of range");
      const V3 &g = pts[static_cast<size_t>(i)], w = m.p(k, j);
      for (size_t a = 0; a < 3; ++a) if (!(bin ? g[a] == w[a] : std::abs(g[a] - w[a]) <= 1e-4 * std::abs(w[a]) + 1e-9)) violation("the VTK file of a mesh has coordinate %.17g instead of %.17g in triangle %zu", g[a], w[a], k);
    }
  }
  if (bin) { if (p < d.size() && d[p] == '\n') ++p; }
  else { if (cur) p = static_cast<size_t>(cur - d.c_str()); p = std::min(d.find("CELL_TYPES ", p), d.size()); cur = nullptr; }
  if (p >= d.size()) violation("the VTK file of a mesh has no cell types");
  l = line();
  if (l != fmt("CELL_TYPES %zu", t)) violation("the VTK file of a mesh announces '%s' for %zu triangles", l.c_str(), t);
  for (size_t k = 0; k < t; ++k) if (idx() != 5) violation("the VTK file of a mesh has a cell that is not typed as a triangle");
}
static void check_mesh_stl(const geo::Mesh& m, const std::string& path, bool bin) {
  const std::string d = cases::disk_file(path);
  auto normal = [&](size_t k) { V3 n = geo::cross(m.p(k, 1) - m.p(k, 0), m.p(k, 2) - m.p(k, 0)); return (1 / geo::norm(n)) * n; };
  if (bin) {
    auto f = cases::parse_stl_binary(d);
    if (!f.error.empty()) violation("the STL file of a mesh %s", f.error.c_str());
    if (f.tris.size() != m.t.size()) violation("the STL file of a mesh has %zu triangles, the mesh %zu", f.tris.size(), m.t.size());
    for (size_t k = 0; k < m.t.size(); ++k) {
      for (int v = 0; v < 3; ++v) for (size_t j = 0; j < 3; ++j) if (f.tris[k][3 + 3 * static_cast<size_t>(v) + j] != static_cast<float>(m.p(k, v)[j])) violation("the STL file of a mesh has another corner in triangle %zu", k);
      const V3 n = normal(k);
      for (size_t j = 0; j < 3; ++j) if (std::abs(static_cast<double>(f.tris[k][j]) - n[j]) > 1e-6) violation("the STL file of a mesh has another normal in triangle %zu", k);
    }
    return;
  }
  size_t p = 0, k = 0;
  if (d.compare(0, 5, "solid") != 0) violation("the text STL file of a mesh does not start with 'solid'");
  while ((p = d.find("vertex", p)) != std::string::npos) {
    double x[3];
    if (sscanf(d.c_str() + p, "vertex %lf %lf %lf", &x[0], &x[1], &x[2]) != 3) violation("the text STL file of a mesh has a broken vertex");
    if (k / 3 >= m.t.size()) violation("the text STL file of a mesh has too many vertices");
    for (size_t j = 0; j < 3; ++j) { const double w = m.p(k / 3, static_cast<int>(k % 3))[j]; if (std::abs(x[j] - w) > 1e-5 * std::abs(w) + 1e-6) violation("the text STL file of a mesh has coordinate %.12g instead of %.12g", x[j], w); }
    ++k; p += 6;
  }
  if (k != 3 * m.t.size()) violation("the text STL file of a mesh has %zu vertices, the mesh %zu triangles", k, m.t.size());
  if (d.find("endsolid") == std::string::npos) violation("the text STL file of a mesh has no end");
}
static void c11() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 60 : 24;
  o.max_conds = 2;
  const bool big = plan.chance("big_model", 60); // blocks of more than one write buffer
  cases::Case c;
  if (big) {
    c.spec.n = { 22, 22, 12 };
    c.spec.order = { 1, 1, 1 };
    c.mesh = geo::box(c.spec.lo, c.spec.hi);
    c.text = "22 x 22 x 12 full cells";
    geo::Mesh s;
    for (int i = 0; i < 150; ++i) for (int j = 0; j < 150; ++j) { const double h = 1.0 / 150; const int n = static_cast<int>(s.v.size()); s.v.push_back({ i * h + 1e-4, j * h + 1e-4, 0.4 }); s.v.push_back({ (i + 1) * h - 1e-4, j * h + 1e-4, 0.41 }); s.v.push_back({ i * h + 1e-4, (j + 1) * h - 1e-4, 0.41 }); s.t.push_back({ n, n + 1, n + 2 }); }
    c.cmesh.push_back(s);
    c.spec.conds.emplace_back();
    res.probe("big_models");
  } else c = cases::draw(o);
  note(c);
  disk_dirs();
  auto b = build_in("build", big ? base_config() : drawn_cfg("sched"), c);
  const Faults f = benign("write");
  for (int k = 0; k < 2; ++k) {
    Phase p(k == 0 ? "write, calm" : "write, slow and interrupted", base_config());
    if (k == 1) set_faults(f);
    const std::string e = guarded([&] { api::write(*b.m); });
    const size_t fds = qs_disk_open_fds();
    p.end();
    if (!e.empty()) violation("writing the model fails: %s", e.c_str());
    if (fds) violation("%zu files are still open after writing the model", fds);
    b.s = api::snapshot(*b.m);
    for (auto& n : cases::expected_files(c, b.s)) if (!cases::disk_has(n)) violation("%s is not written", n.c_str());
    cases::check_files(b.s, c);
    res.add_hash(cases::disk_digest("/sim/out", true));
  }
  // meshes
  geo::Mesh m = c.mesh;
  const int what = plan.pick("mesh_format", { 1, 1, 1, 1 }, 0);
  const bool vtk = what & 1, bin = !(what & 2);
  if (plan.chance("big_mesh", 120)) { while (m.t.size() < 22000) geo::subdivide(m); res.probe("big_meshes"); }
  {
    Phase p("write mesh", base_config());
    set_faults(benign("mesh"));
    const std::string e = guarded([&] { api::write_mesh(m, "/sim/out2/mesh", vtk, bin); });
    p.end();
    if (!e.empty()) violation("writing a mesh fails: %s", e.c_str());
  }
  if (vtk) check_mesh_vtk(m, "/sim/out2/mesh"); else check_mesh_stl(m, "/sim/out2/mesh", bin);
  res.probe(vtk ? (bin ? "mesh.vtk_binary" : "mesh.vtk_text") : (bin ? "mesh.stl_binary" : "mesh.stl_text"));
}

// ================================================================================================ C12
static void c12() {
  cases::Opt o;
  o.max_cells = 12;
  o.max_conds = 2;
  o.max_triangles = 150;
  auto c = cases::draw(o);
  note(c);
  disk_dirs();
  auto b = build_in("build", base_config(), c);
  const int target = plan.pick("target", { 5, 1, 1, 1, 1 }, 0);
  std::function<void()> job = [&] { api::write(*b.m); };
  if (target) job = [&] { api::write_mesh(c.mesh, "/sim/out2/mesh", target & 1, target < 3); };
  static const char* names[] = { "model", "VTK mesh, binary", "STL mesh, binary", "VTK mesh, text", "STL mesh, text" };
  res.probe(std::string("target.") + names[target]);
  uint64_t ops[QS_OP_COUNT], bytes;
  {
    Phase p("count operations", base_config());
    const std::string e = guarded(job);
    for (int k = 0; k < QS_OP_COUNT; ++k) ops[k] = qs_disk_ops(k);
    bytes = qs_disk_bytes_written();
    p.end();
    if (!e.empty()) violation("writing fails: %s", e.c_str());
  }
  struct Exp { Faults f; std::string what; };
  std::vector<Exp> exps;
  auto add = [&](int op, int64_t nth, int err, int sticky, const char* name) { Exp x; x.f.list.push_back({ op, nth, QS_F_ERROR, err, sticky }); x.what = fmt("%s %lld fails with errno %d%s", name, static_cast<long long>(nth), err, sticky ? " from then on" : ""); exps.push_back(x); };
  for (uint64_t k = 0; k < ops[QS_OP_OPEN]; ++k) { add(QS_OP_OPEN, static_cast<int64_t>(k), EACCES, 0, "open"); }
  for (uint64_t k = 0; k < ops[QS_OP_WRITE]; ++k) { add(QS_OP_WRITE, static_cast<int64_t>(k), ENOSPC, 1, "write"); add(QS_OP_WRITE, static_cast<int64_t>(k), EIO, 0, "write"); }
  for (uint64_t k = 0; k < ops[QS_OP_CLOSE]; ++k) add(QS_OP_CLOSE, static_cast<int64_t>(k), EIO, 0, "close");
  // full disks
  Rng r(plan.u("capacities"));
  const int nc = plan.thorough() ? 40 : 10;
  int64_t used = 0;
  { const char* nm[256]; const size_t n = qs_disk_list(nm, 256); for (size_t k = 0; k < n; ++k) { const void* d; size_t z; if (qs_disk_get(nm[k], &d, &z)) used += static_cast<int64_t>(z); } }
  for (int k = 0; k < nc && bytes > 0; ++k) {
    Exp x;
    const int64_t room = k == 0 ? static_cast<int64_t>(bytes) - 1 : static_cast<int64_t>(r.below(bytes));
    x.f.capacity = room;
    x.what = fmt("the disk is full after %lld of %llu bytes", static_cast<long long>(room), static_cast<ull>(bytes));
    exps.push_back(x);
  }
  // a short write followed by a failing one
  for (int k = 0; k < 3 && ops[QS_OP_WRITE] > 0; ++k) {
    Exp x;
    const int64_t at = static_cast<int64_t>(r.below(ops[QS_OP_WRITE]));
    x.f.list.push_back({ QS_OP_WRITE, at, QS_F_SHORT, static_cast<int64_t>(1 + r.below(40)), 0 });
    x.f.list.push_back({ QS_OP_WRITE, at + 1, QS_F_ERROR, EIO, 1 });
    x.what = fmt("write %lld is short and later ones fail", static_cast<long long>(at));
    exps.push_back(x);
  }
  // too many at one time are thinned out by the seed, and one can be picked by the replay file
  const size_t limit = plan.thorough() ? 400 : 60;
  const int64_t only = plan.i("only", -1, -1, -1);
  const auto forced = plan.fixed.find("experiment");
  size_t at = 0;
  for (auto& x : exps) {
    ++at;
    if (forced != plan.fixed.end()) { if (at != strtoull(forced->second.c_str(), nullptr, 10)) continue; }
    else if (exps.size() > limit && r.below(exps.size()) >= limit) continue;
    (void)only;
    auto s = in_fork([&]() -> std::string {
      disk_dirs();
      Phase p("write, failing", base_config());
      set_faults(x.f);
      bool threw = !guarded(job).empty();
      uint64_t fired = 0;
      for (int k : { static_cast<int>(QS_F_ERROR) }) fired += qs_disk_fired(k);
      p.end();
      return threw ? "exception" : fired ? "success" : "not reached";
    });
    res.probe("faults");
    if (s.kind == SubResult::violation) violation("%s (%s): %s", names[target], x.what.c_str(), s.msg.c_str());
    if (s.kind != SubResult::ok) { plan.used["experiment"] = { std::to_string(at), std::to_string(at) }; violation("writing (%s) when %s: %s", names[target], x.what.c_str(), s.kind == SubResult::terminated ? ("the process is terminated: " + s.msg).c_str() : s.msg.c_str()); }
    if (s.out == "success") { plan.used["experiment"] = { std::to_string(at), std::to_string(at) }; violation("writing (%s) reports success although %s", names[target], x.what.c_str()); }
    if (s.out == "exception") res.probe("faults.reported"); else res.probe("faults.not_reached");
  }
}

// ================================================================================================ C13
static std::function<void()> g_crash_handler;
void on_crash() {
  qs_pause();
  if (g_crash_handler) g_crash_handler();
  sub_abort('o', "crash without a handler");
  _exit(1);
}
// 0 missing, 1 incomplete, 2 complete
static int file_state(const std::string& path, const std::string& ref) {
  if (!cases::disk_has(path)) return 0;
  return cases::disk_file(path) == ref ? 2 : 1;
}
static void c13() {
  cases::Opt o;
  o.max_cells = 12;
  o.max_conds = 2;
  o.max_triangles = 150;
  auto c = cases::draw(o);
  note(c);
  disk_dirs();
  auto b = build_in("build", base_config(), c);
  uint64_t ops = 0, bytes = 0;
  std::map<std::string, std::string> ref;
  std::vector<uint64_t> sizes;
  {
    auto s = in_fork([&]() -> std::string {
      Phase p("write completely", base_config());
      const std::string e = guarded([&] { api::write(*b.m); });
      std::string out;
      uint64_t all = 0;
      for (int k = 0; k < QS_OP_COUNT; ++k) all += qs_disk_ops(k);
      out = fmt("%llu %llu %llu", static_cast<ull>(all), static_cast<ull>(qs_disk_ops(QS_OP_WRITE)), static_cast<ull>(qs_disk_bytes_written()));
      p.end();
      if (!e.empty()) violation("writing the model fails: %s", e.c_str());
      for (auto& n : cases::expected_files(c, b.s)) { const std::string d = cases::disk_file(n); out += fmt("\n%s %zu\n", n.c_str(), d.size()) + d; }
      return out;
    });
    if (s.kind != SubResult::ok) violation("writing the model: %s", s.msg.c_str());
    size_t pos = s.out.find('\n');
    ull a1 = 0, a2 = 0, a3 = 0;
    sscanf(s.out.c_str(), "%llu %llu %llu", &a1, &a2, &a3);
    ops = a1; bytes = a3;
    while (pos != std::string::npos && pos < s.out.size()) {
      ++pos;
      const size_t e = s.out.find('\n', pos);
      const std::string h = s.out.substr(pos, e - pos);
      const size_t sp = h.rfind(' ');
      const size_t n = strtoull(h.c_str() + sp, nullptr, 10);
      ref[h.substr(0, sp)] = s.out.substr(e + 1, n);
      pos = e + 1 + n;
    }
  }
  const std::string info = c.spec.out + "/model_info.json";
  Rng r(plan.u("crash_seed"));
  const size_t limit = plan.thorough() ? 300 : 50;
  struct Exp { int64_t nth; int64_t bytes; };
  std::vector<Exp> exps;
  for (uint64_t k = 0; k < ops; ++k) { exps.push_back({ static_cast<int64_t>(k), 0 }); exps.push_back({ static_cast<int64_t>(k), static_cast<int64_t>(1 + r.below(4000)) }); exps.push_back({ static_cast<int64_t>(k), int64_t{ 1 } << 40 }); }
  (void)bytes;
  const auto forced = plan.fixed.find("experiment");
  const int keep = plan.pick("old_files", { 3, 1 }, 0); // the directory holds the files of an earlier run of another model: only file states are judged then
  size_t at = 0;
  for (auto& x : exps) {
    ++at;
    if (forced != plan.fixed.end()) { if (at != strtoull(forced->second.c_str(), nullptr, 10)) continue; }
    else if (exps.size() > limit && r.below(exps.size()) >= limit) continue;
    auto s = in_fork([&]() -> std::string {
      disk_dirs();
      (void)keep;
      g_crash_handler = [&] {
        // what a fresh process finds
        std::string verdict = "ok";
        const int st = file_state(info, ref[info]);
        if (st == 2) { for (auto& [n, d] : ref) if (file_state(n, d) != 2) { verdict = "the info file is complete, " + n + (cases::disk_has(n) ? " is not" : " is missing"); break; } }
        else if (st == 1) {
          // a file that a reader takes for complete: balanced JSON
          const std::string d = cases::disk_file(info);
          int depth = 0, seen = 0;
          for (char ch : d) { if (ch == '{' || ch == '[') { ++depth; seen = 1; } if (ch == '}' || ch == ']') --depth; }
          if (seen && depth == 0) { for (auto& [n, q] : ref) if (n != info && file_state(n, q) != 2) { verdict = "the info file looks complete, " + n + " is not"; break; } }
          res.probe("info.partial");
        } else res.probe("info.missing");
        if (st == 2) res.probe("info.complete");
        sub_abort(verdict == "ok" ? 'o' : 'v', verdict);
      };
      Phase p("write, crashing", base_config());
      Faults f;
      f.list.push_back({ -1, x.nth, QS_F_CRASH, x.bytes, 0 });
      set_faults(f);
      const std::string e = guarded([&] { api::write(*b.m); });
      p.end();
      return "not reached";
    });
    res.probe("crashes");
    if (s.kind == SubResult::violation) { plan.used["experiment"] = { std::to_string(at), std::to_string(at) }; violation("crash at operation %lld (%lld bytes of it stored): %s", static_cast<long long>(x.nth), static_cast<long long>(std::min<int64_t>(x.bytes, 1 << 30)), s.msg.c_str()); }
    if (s.kind != SubResult::ok) violation("crash at operation %lld: %s", static_cast<long long>(x.nth), s.msg.c_str());
  }
}

// ================================================================================================ C14, C15
static std::string draw_stl(const geo::Mesh& m, bool bin, std::string& text) {
  if (!bin) {
    const int style = static_cast<int>(plan.i("ascii_style", 0, 3, 0));
    text = fmt("text style %d", style);
    static const char* names[] = { "part", "", "two words", "facet" };
    return geo::stl_ascii(m, names[plan.pick("solid_name", { 3, 1, 1, 1 }, 0)], style, plan.pick("stored_normals", { 4, 1, 1 }, 0));
  }
  static const char* heads[] = { "part", "solid part", "solid", "solid facet normal in a binary header", "", "solid part\nwritten by another program" };
  const int h = plan.pick("header", { 2, 2, 1, 1, 1, 1 }, 0);
  const bool blanks = plan.chance("header_blanks", 300);
  const int normals = plan.pick("stored_normals", { 4, 1, 1 }, 0);
  const bool colours = plan.chance("colours", 250);
  text = fmt("binary, header '%s'%s%s%s", heads[h], blanks ? " and blanks" : "", normals ? ", other normals" : "", colours ? ", colours" : "");
  return geo::stl_binary(m, heads[h], blanks ? ' ' : '\0', normals, colours);
}
static std::string mesh_matches(const api::MeshOut& r, const geo::Mesh& m) {
  if (r.t.size() != m.t.size()) return fmt("%zu triangles instead of %zu", r.t.size(), m.t.size());
  if (r.n.size() != r.t.size()) return "another number of normals than triangles";
  for (size_t k = 0; k < m.t.size(); ++k) {
    for (size_t j = 0; j < 3; ++j) {
      if (r.t[k][j] >= r.v.size()) return "a vertex index out of range";
      for (size_t a = 0; a < 3; ++a) { const double g = r.v[r.t[k][j]][a], w = m.p(k, static_cast<int>(j))[a]; if (std::abs(g - w) > 1e-9 + 1e-6 * std::abs(w)) return fmt("triangle %zu, corner %zu: coordinate %.12g instead of %.12g", k, j, g, w); }
    }
    V3 n = geo::cross(m.p(k, 1) - m.p(k, 0), m.p(k, 2) - m.p(k, 0));
    const double l = geo::norm(n);
    n = (1 / l) * n;
    if (geo::norm(n - r.n[k]) > 1e-4) return fmt("triangle %zu: normal does not fit the order of its corners", k);
  }
  // shared vertices
  std::set<V3> distinct(r.v.begin(), r.v.end());
  if (distinct.size() != r.v.size()) return fmt("%zu vertices at %zu different places", r.v.size(), distinct.size());
  std::set<V3> want;
  for (size_t k = 0; k < m.t.size(); ++k) for (int j = 0; j < 3; ++j) want.insert(m.p(k, j));
  if (want.size() != r.v.size()) return fmt("%zu vertices instead of %zu", r.v.size(), want.size());
  return "";
}
static geo::Mesh stl_mesh(cases::Opt& o, std::string& text) {
  o.float_mesh = true;
  geo::Mesh m = cases::draw_body("", o, text);
  if (!geo::is_closed(m)) throw Skip("degenerate body");
  V3 lo, hi;
  geo::bounds(m, lo, hi);
  const double s = std::max({ hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2] });
  // readers identify vertices closer than a fixed distance: keep the corners apart
  double apart = 1e300, thin = 1e300;
  for (size_t t = 0; t < m.t.size(); ++t) for (int j = 0; j < 3; ++j) apart = std::min(apart, geo::norm(m.p(t, j) - m.p(t, (j + 1) % 3)));
  for (size_t t = 0; t < m.t.size(); ++t) thin = std::min(thin, geo::norm(geo::cross(m.p(t, 1) - m.p(t, 0), m.p(t, 2) - m.p(t, 0))));
  if (apart < 1e-5 || thin < 1e-6 * s * s) throw Skip("body with tiny triangles");
  return m;
}
static void c14() {
  cases::Opt o;
  o.max_triangles = plan.thorough() ? 1500 : 400;
  std::string bt, ft;
  geo::Mesh m = stl_mesh(o, bt);
  const bool bin = plan.chance("binary", 500);
  const std::string data = draw_stl(m, bin, ft);
  res.where = bt + fmt(", %zu triangles, ", m.t.size()) + ft;
  disk_dirs();
  put("/sim/in/mesh.stl", data);
  api::MeshOut a, b;
  std::string e = in_phase("read, calm", base_config(), [&] { a = api::read_stl("/sim/in/mesh.stl"); });
  if (!e.empty()) violation("reading a valid file (%s) fails: %s", ft.c_str(), e.c_str());
  std::string d = mesh_matches(a, m);
  if (!d.empty()) violation("reading a file (%s): %s", ft.c_str(), d.c_str());
  const int n = static_cast<int>(plan.i("runs", 1, 4, 1));
  for (int k = 0; k < n; ++k) {
    Phase p(fmt("read, interrupted %d", k), base_config());
    set_faults(benign(fmt("read%d", k)));
    e = guarded([&] { b = api::read_stl("/sim/in/mesh.stl"); });
    const size_t fds = qs_disk_open_fds();
    p.end();
    if (!e.empty()) violation("reading a valid file (%s) in pieces fails: %s", ft.c_str(), e.c_str());
    if (a.v != b.v || a.t != b.t || a.n != b.n) violation("reading a file (%s) in pieces gives another mesh", ft.c_str());
    if (fds) violation("%zu files are still open after reading", fds);
    for (auto& v : b.v) for (double x : v) { uint64_t u; memcpy(&u, &x, 8); res.add_hash(u); }
  }
  // the other encoding
  put("/sim/in/other.stl", bin ? geo::stl_ascii(m, "part", static_cast<int>(plan.i("other_style", 0, 2, 0))) : geo::stl_binary(m, "part"));
  api::MeshOut x;
  e = in_phase("read other encoding", base_config(), [&] { x = api::read_stl("/sim/in/other.stl"); });
  if (!e.empty()) violation("reading the other encoding fails: %s", e.c_str());
  if (a.v.size() != x.v.size() || a.t != x.t) violation("text and binary files with the same coordinates give different meshes");
  for (size_t k = 0; k < a.v.size(); ++k) for (size_t j = 0; j < 3; ++j) if (std::abs(a.v[k][j] - x.v[k][j]) > 1e-12 * std::abs(a.v[k][j])) violation("text and binary files with the same coordinates give vertices %.17g and %.17g", a.v[k][j], x.v[k][j]);
  for (size_t k = 0; k < a.n.size(); ++k) if (geo::norm(a.n[k] - x.n[k]) > 1e-6) violation("text and binary files give different normals");
  // several solids in one text file belong to one mesh only as far as the reader goes: not part of the property
}
static void c15() {
  cases::Opt o;
  o.max_triangles = 60;
  o.simple_bodies = true;
  std::string bt, ft;
  geo::Mesh m = stl_mesh(o, bt);
  const bool bin = plan.chance("binary", 500);
  const std::string data = draw_stl(m, bin, ft);
  res.where = bt + fmt(", %zu triangles, ", m.t.size()) + ft;
  disk_dirs();
  qs_config cfg = base_config();
  cfg.alloc_limit = uint64_t{ 1 } << 31;
  cfg.max_steps = 400000000ull;
  enum { Cut, ReadErr, Eof, Missing, OpenErr, LostLine, LostCoord, MoreAnnounced };
  struct Exp { int kind; int64_t at; int64_t arg; };
  std::vector<Exp> exps;
  put("/sim/in/mesh.stl", data);
  uint64_t reads = 0;
  {
    Phase p("count reads", cfg);
    const std::string e = guarded([&] { api::read_stl("/sim/in/mesh.stl"); });
    reads = qs_disk_ops(QS_OP_READ);
    p.end();
    if (!e.empty()) violation("reading a valid file (%s) fails: %s", ft.c_str(), e.c_str());
  }
  // every truncation point, thinned out for long files; text files count as complete from "endsolid" on
  size_t full = data.size();
  if (!bin) full = data.rfind("endsolid") + 8;
  Rng r(plan.u("cuts"));
  const size_t cuts = plan.thorough() ? 3000 : 250;
  std::set<size_t> where;
  if (full <= cuts) for (size_t k = 0; k < full; ++k) where.insert(k);
  else {
    for (size_t k = 0; k < cuts * 2 / 3; ++k) where.insert(r.below(full));
    for (size_t k = 0; k < 20; ++k) { where.insert(full - 1 - k); where.insert(k); }
    // ends of triangles
    if (bin) for (size_t k = 0; k < m.t.size(); ++k) where.insert(84 + 50 * k);
    else { size_t p = 0; while ((p = data.find("endfacet", p)) != std::string::npos) { p += 8; if (p < full) where.insert(p); if (p + 1 < full) where.insert(p + 1); } }
  }
  for (size_t k : where) exps.push_back({ Cut, static_cast<int64_t>(k), 0 });
  for (uint64_t k = 0; k < reads; ++k) { exps.push_back({ ReadErr, static_cast<int64_t>(k), EIO }); exps.push_back({ Eof, static_cast<int64_t>(k), 0 }); }
  exps.push_back({ Missing, 0, 0 });
  exps.push_back({ OpenErr, 0, EACCES });
  exps.push_back({ OpenErr, 1, EACCES });
  // read errors and lost data in the middle of a file that arrives in small pieces
  for (int k = 0; k < 12; ++k) exps.push_back({ r.below(2) ? ReadErr : Eof, static_cast<int64_t>(r.below(60)), -EIO });
  // damage in the middle: lines of a facet or coordinates of a vertex are missing, more triangles announced than stored
  std::vector<std::pair<size_t, size_t>> lines;
  if (!bin) {
    for (size_t a = 0; a < data.size();) {
      size_t b = data.find('\n', a);
      if (b == std::string::npos) b = data.size(); else ++b;
      lines.push_back({ a, b });
      a = b;
    }
    for (int k = 0; k < 10 && lines.size() > 8; ++k) exps.push_back({ LostLine, static_cast<int64_t>(1 + r.below(m.t.size() * 7)), 0 });
    for (int k = 0; k < 10 && lines.size() > 8; ++k) exps.push_back({ LostCoord, static_cast<int64_t>(1 + r.below(m.t.size()) * 7 + 2 + r.below(3)), static_cast<int64_t>(1 + r.below(3)) });
  }
  else for (int64_t k : { int64_t{ 1 }, int64_t{ 2 }, static_cast<int64_t>(3 + r.below(1000)) }) exps.push_back({ MoreAnnounced, k, 0 });
  auto damaged = [&](const Exp& x) -> std::string {
    std::string d = data;
    if (x.kind == Cut) return data.substr(0, static_cast<size_t>(x.at));
    if (x.kind == LostLine) { auto [a, b] = lines.at(static_cast<size_t>(x.at)); d.erase(a, b - a); }
    if (x.kind == LostCoord) {
      // keeps the line, takes its last numbers away
      auto [a, b] = lines.at(static_cast<size_t>(x.at));
      size_t e = b - 1;
      for (int64_t k = 0; k < x.arg; ++k) { while (e > a && isspace(static_cast<unsigned char>(d[e - 1]))) --e; while (e > a && !isspace(static_cast<unsigned char>(d[e - 1]))) --e; }
      d.erase(e, b - 1 - e);
    }
    if (x.kind == MoreAnnounced) { uint32_t n; memcpy(&n, &d[80], 4); n += static_cast<uint32_t>(x.at); memcpy(&d[80], &n, 4); }
    return d;
  };
  const auto forced = plan.fixed.find("experiment");
  size_t at = 0;
  for (auto& x : exps) {
    ++at;
    if (forced != plan.fixed.end() && at != strtoull(forced->second.c_str(), nullptr, 10)) continue;
    std::string what;
    std::string path = "/sim/in/mesh.stl";
    Faults f;
    put(path, damaged(x));
    const bool pieces = x.arg < 0;
    if (pieces) { f.seed = static_cast<uint64_t>(x.at); f.short_permille = 900; }
    switch (x.kind) {
      case Cut: what = fmt("cut off after %lld of %zu bytes", static_cast<long long>(x.at), data.size()); break;
      case ReadErr: what = fmt("read %lld fails%s", static_cast<long long>(x.at), pieces ? " (small pieces)" : ""); f.list.push_back({ QS_OP_READ, x.at, QS_F_ERROR, EIO, 1 }); break;
      case Eof: what = fmt("no more data from read %lld on%s", static_cast<long long>(x.at), pieces ? " (small pieces)" : ""); f.list.push_back({ QS_OP_READ, x.at, QS_F_EOF, 0, 1 }); break;
      case LostLine: what = fmt("line %lld is lost", static_cast<long long>(x.at) + 1); break;
      case LostCoord: what = fmt("%lld coordinates of line %lld are lost", static_cast<long long>(x.arg), static_cast<long long>(x.at) + 1); break;
      case MoreAnnounced: what = fmt("%lld more triangles announced than stored", static_cast<long long>(x.at)); break;
      case Missing: what = "the file is missing"; path = "/sim/in/none.stl"; break;
      default: what = fmt("open %lld fails", static_cast<long long>(x.at)); f.list.push_back({ QS_OP_OPEN, x.at, QS_F_ERROR, x.arg, 0 });
    }
    api::MeshOut got;
    std::string e;
    uint64_t fired = 0;
    size_t fds = 0;
    auto attempt = [&] {
      Phase p("read damaged", cfg);
      set_faults(f);
      e = guarded([&] { got = api::read_stl(path); });
      fired = qs_disk_fired(QS_F_ERROR) + qs_disk_fired(QS_F_EOF);
      fds = qs_disk_open_fds();
      p.end();
      res.phases.pop_back();
      res.add_hash(hash_str(e));
    };
    attempt();
    res.probe("experiments");
    if (!e.empty()) { res.probe("reported"); continue; }
    const bool hit = x.kind == Cut || x.kind == Missing || x.kind >= LostLine || fired > 0;
    if (!hit) { res.probe("not_reached"); continue; }
    // returned normally: only right when nothing is missing
    if (mesh_matches(got, m).empty() && (x.kind == ReadErr || x.kind == Eof)) { res.probe("complete_anyway"); continue; }
    plan.used["experiment"] = { std::to_string(at), std::to_string(at) };
    violation("%s file, %s: reading returns normally with %zu of %zu triangles", bin ? "binary" : "text", what.c_str(), got.t.size(), m.t.size());
  }
  // a model built from a damaged file
  if (plan.chance("model", 300) && forced == plan.fixed.end()) {
    put("/sim/in/mesh.stl", data.substr(0, full / 2 + r.below(full / 2)));
    api::Spec s;
    V3 lo, hi;
    geo::bounds(m, lo, hi);
    s.lo = lo; s.hi = hi;
    s.input = "/sim/in/mesh.stl";
    std::string e;
    { Phase p("model from damaged file", cfg); e = guarded([&] { auto q = api::create(s); api::create_all(*q); }); p.end(); }
    res.probe("models");
    if (e.empty()) violation("building a model from a cut off file returns normally");
  }
}

// ================================================================================================ C16
static void c16() {
  cases::Opt o;
  o.max_cells = 24;
  o.max_conds = 2;
  o.dense = plan.chance("dense", 250);
  auto c = cases::draw(o);
  note(c);
  disk_dirs();
  auto a = build_in("steady clock", base_config(), c);
  in_phase("write, steady clock", base_config(), [&] { api::write(*a.m); });
  const uint64_t files = cases::disk_digest("/sim/out", true);
  qs_config q = base_config();
  if (plan.chance("threads", 500)) draw_schedule(q, "sched", 1, false);
  static const int pm[] = { 20, 200, 600, 1000 };
  static const double sc[] = { 1e-6, 1, 3600, 3e7, 1e9 };
  auto clock = [&](qs_config& g, const std::string& p) {
    g.clock_seed = plan.u(p + ".clock");
    g.clock_jump_permille = pm[plan.pick(p + ".jumps", { 1, 2, 2, 1 }, 1)];
    g.clock_jump_scale = sc[plan.pick(p + ".jump_size", { 1, 2, 2, 1, 1 }, 1)];
    g.clock_sticky = plan.chance(p + ".sticky", 200);
    static const int sp[] = { 0, 100, 30, 400 };
    g.clock_stall_permille = sp[plan.pick(p + ".stalls", { 5, 2, 2, 1 }, 0)];
    static const double st[] = { 1e-3, 1, 1e4 };
    g.clock_stall_scale = st[plan.pick(p + ".stall_size", { 1, 1, 1 }, 0)];
  };
  clock(q, "build");
  Built b;
  double at[3] = {};
  const std::string eb = in_phase("jumping clock", q, [&] {
    b.m = api::create(c.spec);
    api::set_mesh(*b.m, c.mesh);
    at[0] = qs_sim_seconds();
    api::create_volume(*b.m);
    at[1] = qs_sim_seconds();
    for (size_t k = 0; k < c.cmesh.size(); ++k) api::create_condition(*b.m, c.cmesh[k], c.spec.conds[k]);
    at[2] = qs_sim_seconds();
  });
  if (!eb.empty()) violation("building the model fails while the clock jumps: %s", eb.c_str());
  b.s = api::snapshot(*b.m);
  res.add_hash(digest(b.s));
  double passed = last_phase().st.sim_seconds;
  for (auto& [k, v] : b.s.info) {
    const bool vol = k.compare(0, 34, "elapsed_time_info.volume_time_info") == 0, con = k.compare(0, 38, "elapsed_time_info.conditions_time_info") == 0;
    if (!vol && !con) continue;
    const double real = vol ? at[1] - at[0] : at[2] - at[1];
    res.probe("times");
    if (v > real * (1 + 1e-9) + 1e-6) violation("reported %s is %.9g s, but that stage took %.9g s while the clock jumped", k.c_str(), v, real);
  }
  std::string d = cases::same_exact(a.s, b.s);
  qs_config q2 = base_config();
  clock(q2, "write");
  disk_dirs();
  const std::string e = in_phase("write, jumping clock", q2, [&] { api::write(*b.m); });
  if (!e.empty()) violation("writing fails while the clock jumps: %s", e.c_str());
  passed += last_phase().st.sim_seconds;
  b.s = api::snapshot(*b.m);
  auto times = [&](const api::Snapshot& s) {
    double sum = 0, total = -1;
    for (auto& [k, v] : s.info) {
      if (k.compare(0, 12, "elapsed_time") != 0) continue;
      if (!std::isfinite(v) || v < 0) violation("reported %s is %g s while the clock jumps", k.c_str(), v);
      if (k == "elapsed_time_info.total") total = v;
      else if (k.size() > 6 && k.compare(k.size() - 6, 6, ".total") == 0) sum += v;
    }
    if (total < 0) violation("no total time is reported");
    if (std::abs(total - sum) > 1e-9 * std::max(1.0, sum)) violation("the reported total time is %.12g s, its parts add up to %.12g s", total, sum);
  };
  times(b.s);
  for (auto& [k, v] : b.s.info) if (k.compare(0, 12, "elapsed_time") == 0 && v > passed * 1.000001 + 1e-6) violation("reported %s is %.9g s, but only %.9g s passed while the clock jumped", k.c_str(), v, passed);
  times(a.s);
  if (!d.empty()) violation("the model changes when the clock jumps: %s", d.c_str());
  if (cases::disk_digest("/sim/out", true) != files && q.team == 1) violation("the files change when the clock jumps");
  std::vector<std::array<double, 3>> ts;
  qs_config q3 = base_config();
  clock(q3, "timer");
  in_phase("timer", q3, [&] { api::timer_probe(ts, 50); });
  if (ts.size() != 50) violation("the timer fails");
  for (auto& t : ts) if (!(t[0] >= t[1] - 1e-9 - 1e-12 * t[2] && t[0] <= t[2] * (1 + 1e-12) + 1e-9)) violation("the timer measures %.12g s while the clock jumps, between %.12g and %.12g s passed", t[0], t[1], t[2]);
  for (auto& p : res.phases) { res.probe("clock.jumps", static_cast<double>(p.st.clock_jumps)); res.probe("clock.backward", static_cast<double>(p.st.clock_backward)); res.probe("clock.stalls", static_cast<double>(p.st.clock_stalls)); }
}

// ================================================================================================ C17
static void c17() {
  cases::Opt o;
  o.max_cells = 9;
  o.max_conds = 1;
  o.max_order = 2;
  o.max_triangles = 60;
  auto c = cases::draw(o);
  note(c);
  disk_dirs();
  geo::Mesh fm = c.mesh;
  geo::to_float(fm);
  put("/sim/in/a.stl", geo::stl_binary(fm, "part"));
  put("/sim/in/b.stl", geo::stl_ascii(fm, "part", 0));
  const int job = plan.pick("job", { 4, 2, 1, 1 }, 0);
  static const char* names[] = { "build", "write", "read binary STL", "read text STL" };
  res.probe(std::string("job.") + names[job]);
  auto ref = build_in("reference", base_config(), c);
  ModelP model = ref.m;
  api::MeshOut mesh, mesh0;
  api::Snapshot snap0 = ref.s;
  uint64_t files0 = 0;
  ModelP out;
  const std::function<void()> work = [&] { // made here: its own memory is not part of the job
    if (job == 0) out = cases::build(c);
    else if (job == 1) api::write(*model);
    else if (job == 2) mesh = api::read_stl("/sim/in/a.stl");
    else mesh = api::read_stl("/sim/in/b.stl");
  };
  auto judge = [&]() -> std::string {
    if (job == 0) { const std::string d = cases::same_exact(snap0, api::snapshot(*out)); return d.empty() ? "same" : "different: " + d; }
    if (job == 1) return cases::disk_digest("/sim/out", true) == files0 ? "same" : "different: the files are not complete";
    return mesh.v == mesh0.v && mesh.t == mesh0.t && mesh.n == mesh0.n ? "same" : "different: another mesh";
  };
  uint64_t n = 0;
  {
    Phase p("count allocations", base_config());
    qs_reset_alloc_count();
    const std::string e = guarded(work);
    qs_stats s;
    qs_get_stats(&s);
    n = s.allocs;
    p.end();
    if (!e.empty()) violation("%s fails: %s", names[job], e.c_str());
    if (job == 1) files0 = cases::disk_digest("/sim/out", true);
    mesh0 = mesh;
  }
  if (n == 0) throw Skip("no allocations");
  Rng r(plan.u("points"));
  const int m = plan.thorough() ? 60 : 14;
  const auto forced = plan.fixed.find("experiment");
  for (int k = 1; k <= m; ++k) {
    const uint64_t at = r.below(8) == 0 ? 1 + r.below(std::min<uint64_t>(n, 50)) : 1 + r.below(n);
    const int sticky = r.below(3) == 0;
    const bool threads = r.below(3) == 0;
    const uint64_t sseed = r.next();
    if (forced != plan.fixed.end() && k != atoi(forced->second.c_str())) continue;
    auto s = in_fork([&]() -> std::string {
      qs_config q = base_config();
      if (threads) { q.team = 3; q.sched_mode = QS_SCHED_RANDOM_SYNC; q.sched_seed = sseed; }
      std::string e;
      disk_dirs();
      put("/sim/in/a.stl", geo::stl_binary(fm, "part"));
      put("/sim/in/b.stl", geo::stl_ascii(fm, "part", 0));
      uint64_t failed = 0;
      {
        Phase p("failing allocation", q);
        qs_reset_alloc_count();
        qs_set_alloc_failure(static_cast<int64_t>(at), sticky, 0);
        e = guarded(work);
        qs_set_alloc_failure(0, 0, 0);
        qs_stats st;
        qs_get_stats(&st);
        failed = st.alloc_failures;
        p.end();
      }
      if (e.empty()) { const std::string j = judge(); if (j != "same") violation("success is reported, but the result is %s", j.c_str()); return failed ? "same result" : "not reached"; }
      // after the failure the same process must be able to do it
      disk_dirs();
      put("/sim/in/a.stl", geo::stl_binary(fm, "part"));
      put("/sim/in/b.stl", geo::stl_ascii(fm, "part", 0));
      const std::string e2 = in_phase("again", base_config(), work);
      if (!e2.empty()) violation("a second attempt with enough memory fails: %s", e2.c_str());
      const std::string j = judge();
      if (j != "same") violation("a second attempt with enough memory gives a result that is %s", j.c_str());
      return "exception";
    });
    res.probe("failures");
    auto fail = [&](const std::string& msg) { plan.used["experiment"] = { std::to_string(k), std::to_string(k) }; violation("%s, allocation %llu of %llu fails%s%s: %s", names[job], static_cast<ull>(at), static_cast<ull>(n), sticky ? " and all later ones" : "", threads ? ", three threads" : "", msg.c_str()); };
    switch (s.kind) {
      case SubResult::ok: res.probe("failures." + s.out); break;
      case SubResult::terminated: res.probe("failures.process_stopped"); break;
      case SubResult::violation: fail(s.msg); break;
      default: fail(s.msg);
    }
  }
}

// ================================================================================================ C18
// A case that differs from c in one or two respects only: whatever is remembered from one build and used for another must depend on all of them.
static cases::Case sibling(const cases::Case& c, const std::string& p) {
  cases::Case s = c;
  const int n = static_cast<int>(plan.i(p + "sib_changes", 1, 2, 1));
  for (int k = 0; k < n; ++k) {
    const std::string q = fmt("%ssib%d", p.c_str(), k);
    const int kind = plan.pick(q, { 6, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2 }, 0);
    auto& z = s.spec;
    const int mn = std::min({ z.order[0], z.order[1], z.order[2] });
    const V3 mid = 0.5 * (z.lo + z.hi);
    switch (kind) {
      case 0: { // another rule
        const bool ggq = z.grid == 0 && mn >= 2;
        int m = static_cast<int>(plan.i(q + ".method", 0, 5, 0));
        if (z.method >= 3 && plan.chance(q + ".assembled", 850)) m = z.method == 3 ? 4 + m % 2 : 3;
        z.method = m >= 3 && !ggq ? m - 3 : m;
        if (z.method == 2 && mn < 2) z.method = 1;
        break;
      }
      case 1: { const size_t j = static_cast<size_t>(plan.i(q + ".axis", 0, 2, 0)); z.order[j] = z.order[j] >= 3 ? 2 : z.order[j] + 1; break; }
      case 2: { const double f = plan.d(q + ".scale", 0.8, 0.999, 0.9); for (auto& v : s.mesh.v) v = mid + f * (v - mid); break; } // same number of triangles
      case 3: { const V3 t{ 0.03 * (z.hi[0] - z.lo[0]), 0, 0 }; for (auto& v : s.mesh.v) v = v + t; for (auto& m : s.cmesh) for (auto& v : m.v) v = v + t; z.lo = z.lo + t; z.hi = z.hi + t; break; }
      case 4: { const size_t j = static_cast<size_t>(plan.i(q + ".axis", 0, 2, 0)); z.n[j] = z.n[j] > 2 ? z.n[j] - 1 : z.n[j] + 1; break; }
      case 5: { const size_t j = static_cast<size_t>(plan.i(q + ".axis", 0, 2, 0)); z.hi[j] += 0.1 * (z.hi[j] - z.lo[j]); break; }
      case 6: { const size_t j = static_cast<size_t>(plan.i(q + ".axis", 0, 2, 0)); z.phi[j] += 1; break; }
      case 7: z.residual = z.residual == 1e-6 ? 1e-4 : 1e-6; z.min_triangles = z.min_triangles == 100 ? 20 : 100; break;
      case 8: z.min_ratio = z.min_ratio == 0.2 ? 1e-3 : 0.2; break;
      case 9: if (z.method < 3) z.grid = 1 - z.grid; break;
      default: // the conditions, under the same names
        if (s.cmesh.empty()) break;
        if (s.cmesh.size() > 1) { std::swap(s.cmesh[0], s.cmesh[1]); break; }
        for (auto& v : s.cmesh[0].v) v = mid + 0.9 * (v - mid);
    }
    res.probe(fmt("sibling.%d", kind));
  }
  s.text = "sibling of " + c.text;
  return s;
}
// the model of a case from its files
static ModelP build_from_files(cases::Case c) {
  { Pause p;
    put(c.spec.input, geo::stl_binary(c.mesh, "part"));
    for (size_t k = 0; k < c.cmesh.size(); ++k) put(c.spec.conds[k].file = fmt("/sim/in/c%zu.stl", k), geo::stl_binary(c.cmesh[k], "surface")); }
  auto m = api::create(c.spec);
  api::create_all(*m);
  return m;
}
static void history_step(const std::string& p, int kind, const cases::Opt& o, int k, const cases::Case& last, std::vector<ModelP>& alive) {
  switch (kind) {
    case 6: { // almost the same
      auto c = sibling(last, p);
      const bool files = plan.chance(p + "files", 300);
      ModelP m;
      guarded([&] { m = files ? build_from_files(c) : cases::build(c); if (plan.chance(p + "write", 300)) api::write(*m); });
      if (m && plan.chance(p + "alive", 300)) alive.push_back(m);
      res.probe("history.sibling");
      break;
    }
    case 0: { auto c = cases::draw(o, p); guarded([&] { auto m = cases::build(c); }); res.probe("history.build"); break; }
    case 1: { // a build that fails: surface outside of the grid
      auto c = cases::draw(o, p);
      for (size_t j = 0; j < 3; ++j) { c.spec.hi[j] = 0.5 * (c.spec.lo[j] + c.spec.hi[j]); }
      guarded([&] { auto m = cases::build(c); });
      res.probe("history.failed_build");
      break;
    }
    case 2: {
      std::string t;
      geo::Mesh m = cases::draw_body(p, o, t);
      const std::string d = geo::stl_binary(m, "x");
      put("/sim/in/h.stl", d.substr(0, d.size() / 2));
      guarded([&] { api::read_stl("/sim/in/h.stl"); });
      res.probe("history.damaged_file");
      break;
    }
    case 3: {
      std::string t;
      geo::Mesh m = cases::draw_body(p, o, t);
      put("/sim/in/h.stl", geo::stl_ascii(m, "x", k % 3));
      guarded([&] { api::read_stl("/sim/in/h.stl"); });
      guarded([&] { api::write_mesh(m, fmt("/sim/out2/m%d", k), k & 1, k & 2); });
      res.probe("history.mesh_files");
      break;
    }
    case 4: { // a write that fails
      auto c = cases::draw(o, p);
      guarded([&] {
        auto m = cases::build(c);
        Faults f;
        f.list.push_back({ QS_OP_OPEN, 1, QS_F_ERROR, EACCES, 0 });
        set_faults(f);
        try { api::write(*m); } catch (...) { set_faults(Faults{}); throw; }
        set_faults(Faults{});
      });
      set_faults(Faults{});
      res.probe("history.failed_write");
      break;
    }
    default: {
      auto c = cases::draw(o, p);
      std::string t;
      c.mesh = cases::damage(c.mesh, p, t)[0];
      guarded([&] { auto m = cases::build(c); });
      res.probe("history.damaged_mesh");
    }
  }
}
static void c18() {
  qs_config last = base_config();
  draw_heap(last, "final");
  cases::Opt o;
  o.max_cells = 18;
  o.max_conds = 2;
  o.max_triangles = 250;
  auto of = o;
  if (plan.chance("dense", 400)) { of.dense = true; of.max_cells = 64; of.max_triangles = 120; }
  auto c = cases::draw(of, "final.");
  if (of.dense && c.spec.grid == 0 && std::min({ c.spec.order[0], c.spec.order[1], c.spec.order[2] }) >= 2 && plan.chance("assembled", 700)) c.spec.method = 3 + plan.pick("assembled_kind", { 1, 1, 1 }, 0);
  bool full = false;
  if (plan.chance("mostly_full", 350)) {
    full = true; // many full cells, few cut ones: cheap, and the rules of full cells matter
    auto& z = c.spec;
    Rng r(plan.u("mostly_full_seed"));
    for (auto& q : z.n) q = 2 + static_cast<int>(r.below(3));
    if (z.grid == 0 && z.order[0] == 1 && r.below(4) != 0) z.order = { 2, 2, 2 };
    if (z.grid == 0 && std::min({ z.order[0], z.order[1], z.order[2] }) >= 2) z.method = 3 + static_cast<int>(r.below(3));
    const size_t ax = r.below(3);
    V3 hi = z.hi;
    hi[ax] -= (z.hi[ax] - z.lo[ax]) / z.n[ax] * r.range(0.1, 0.9);
    c.mesh = geo::box(z.lo, hi);
    c.cmesh.clear();
    z.conds.clear();
    c.text = fmt("block that fills grid %dx%dx%d, order %d%d%d, method %d", z.n[0], z.n[1], z.n[2], z.order[0], z.order[1], z.order[2], z.method);
    res.probe("mostly_full");
  }
  o.max_cells = plan.thorough() ? 18 : 10;
  o.max_triangles = plan.thorough() ? 250 : 130;
  auto ok = o;
  ok.max_cells = 8;
  auto keep = cases::draw(ok, "kept.");
  note(c);
  const bool final_files = plan.chance("final_files", 250);
  std::vector<ModelP> alive;
  auto run_final = [&](const std::string& name, const qs_config& cfg) -> uint64_t {
    disk_dirs();
    Built b;
    if (final_files) {
      const std::string e = in_phase(name, cfg, [&] { b.m = build_from_files(c); });
      if (!e.empty()) violation("building the model from its files fails in phase '%s': %s", name.c_str(), e.c_str());
      b.s = api::snapshot(*b.m);
      res.add_hash(digest(b.s));
    } else b = build_in(name, cfg, c);
    disk_dirs();
    in_phase(name + ", write", base_config(), [&] { api::write(*b.m); });
    return mix(digest(b.s) ^ cases::disk_digest("/sim/out", true));
  };
  disk_dirs();
  auto fresh = in_fork([&]() -> std::string { return fmt("%016llx", static_cast<ull>(run_final("first in the process", base_config()))); });
  if (fresh.kind != SubResult::ok) violation("building the model in a fresh process: %s", fresh.msg.c_str());
  auto kept = build_in("earlier model", base_config(), keep);
  const auto pts = probe_points("probes", 3);
  const uint64_t kept_digest = api::read_everything(*kept.m, pts, 1 | 2 | 8 | 16);
  const int n = static_cast<int>(plan.i("steps", 1, plan.thorough() ? 6 : 4, 1));
  for (int k = 0; k < n; ++k) {
    const std::string p = fmt("h%d.", k);
    const int kind = plan.pick(p + "kind", full ? std::vector<int>{ 1, 1, 1, 1, 1, 1, 16 } : std::vector<int>{ 3, 2, 2, 2, 2, 2, 9 }, 0);
    qs_config q = base_config();
    draw_schedule(q, p + "sched", 1, false);
    draw_rng(q, p);
    draw_heap(q, p);
    q.max_steps = 3000000000ull;
    // draws of the case may find the body unsuitable: that step is left out
    try { Phase ph(fmt("step %d", k), q); history_step(p, kind, o, k, c, alive); ph.end(); }
    catch (const Skip&) { res.probe("history.skipped"); }
  }
  const std::string d = cases::same_exact(kept.s, api::snapshot(*kept.m));
  if (!d.empty()) violation("an earlier model changed while others were built: %s", d.c_str());
  const uint64_t again = api::read_everything(*kept.m, pts, 1 | 2 | 8 | 16);
  if (again != kept_digest) violation("an earlier model gives other values after others were built");
  disk_dirs();
  const uint64_t g = run_final("after a history", last);
  if (fmt("%016llx", static_cast<ull>(g)) != fresh.out) violation("the same model gives another result after %d earlier operations than in a fresh process", n);
}

// ================================================================================================ C19
static void c19() {
  cases::Opt o;
  o.max_cells = plan.thorough() ? 60 : 36;
  o.long_cells = 20;
  o.max_conds = 2;
  auto c = cases::draw(o);
  std::string t;
  const bool broken = plan.chance("damaged", 600);
  if (broken) { c.mesh = cases::damage(c.mesh, "", t)[0]; c.text += ", " + t; res.probe("damaged." + t); res.no_step_claim = true; }
  note(c);
  auto one = [&](const std::string& name, qs_config q) {
    q.max_steps = broken ? 2000000000ull : plan.thorough() ? 20000000000ull : 6000000000ull;
    ModelP m;
    const std::string e = in_phase(name, q, [&] { m = cases::build(c); });
    if (!e.empty()) res.probe("ended_with_exception"); else res.probe("ended");
    return e;
  };
  qs_config q = base_config();
  draw_schedule(q, "sched", 2);
  if (plan.chance("stalled", 400)) { q.sched_mode = QS_SCHED_STALL; q.stall_tid = static_cast<int>(plan.i("stalled_thread", 0, q.team - 1, 0)); }
  draw_rng(q, "sched");
  const std::string e = one("build", q);
  if (!broken && !e.empty()) violation("building a valid model fails: %s", e.c_str());
  if (!broken) res.count["max_steps"] = std::max(res.count["max_steps"], static_cast<double>(last_phase().st.steps + last_phase().st.serial_steps));
}

// ================================================================================================ C20
// overwrites what earlier calls left on the stack: nothing of it may be in use any more
__attribute__((noinline)) static void scribble_stack(unsigned char byte) {
  volatile unsigned char a[1 << 19];
  for (size_t k = 0; k < sizeof a; ++k) a[k] = byte;
}
static void c20() {
  memory_checked = true;
  cases::Opt o;
  o.touch = true;
  o.max_cells = plan.thorough() ? 60 : 36;
  o.max_conds = 2;
  o.float_mesh = true;
  auto c = cases::draw(o);
  note(c);
  const bool from_files = plan.chance("from_files", 500);
  ModelP m;
  disk_dirs();
  auto cfg = drawn_cfg("sched", 1);
  draw_heap(cfg, "sched");
  qs_config answer = base_config();
  draw_rng(answer, "answers");
  draw_heap(answer, "answers");
  if (from_files) {
    put(c.spec.input, geo::stl_binary(c.mesh, "part"));
    for (size_t k = 0; k < c.cmesh.size(); ++k) put(c.spec.conds[k].file = fmt("/sim/in/c%zu.stl", k), geo::stl_binary(c.cmesh[k], "surface"));
    res.probe("from_files");
  }
  const std::string e = in_phase("build", cfg, [&] {
    if (from_files) { m = api::create(c.spec); api::create_all(*m); } else m = cases::build(c);
  });
  if (!e.empty()) violation("building the model fails: %s", e.c_str());
  const auto snap = api::snapshot(*m);
  const auto boxes = cases::grid_boxes(c.spec);
  // queries with an answer known from the reference geometry, and queries on the surface or in the plane of a triangle
  std::vector<api::Query> qs;
  std::vector<int> want; // -1: nothing known; -2 / -3: a box that touches the surface from inside / outside
  Rng r(plan.u("queries"));
  std::vector<const api::Cell*> cut, full;
  for (auto& x : snap.cells) (x.trimmed ? cut : full).push_back(&x);
  const int n = static_cast<int>(plan.i("n_queries", 10, 120, 10));
  for (int k = 0; k < n && !snap.cells.empty(); ++k) {
    const api::Cell& x = (full.empty() || (!cut.empty() && r.below(4))) ? *cut[r.below(cut.size())] : *full[r.below(full.size())];
    const V3 h = x.hi - x.lo;
    const double hm = std::max({ h[0], h[1], h[2] });
    api::Query q;
    q.cell = x.id;
    V3 p;
    for (size_t j = 0; j < 3; ++j) p[j] = x.lo[j] + h[j] * r.range(0.02, 0.98);
    bool near_surface = false;
    const int kind = static_cast<int>(r.below(4));
    if (kind == 1) {
      // on the surface or in the plane of one of its triangles
      size_t t = r.below(c.mesh.t.size());
      for (size_t i = 0; i < c.mesh.t.size(); ++i, t = (t + 1) % c.mesh.t.size()) {
        bool meets = true; // the triangle's box meets the cell
        for (size_t j = 0; j < 3; ++j) {
          const double a = c.mesh.p(t, 0)[j], b = c.mesh.p(t, 1)[j], d = c.mesh.p(t, 2)[j];
          meets = meets && std::max({ a, b, d }) > x.lo[j] && std::min({ a, b, d }) < x.hi[j];
        }
        if (meets) break;
      }
      V3 nn = geo::cross(c.mesh.p(t, 1) - c.mesh.p(t, 0), c.mesh.p(t, 2) - c.mesh.p(t, 0));
      nn = (1 / geo::norm(nn)) * nn;
      const V3 on = p - geo::dot(p - c.mesh.p(t, 0), nn) * nn;
      bool in = true;
      for (size_t j = 0; j < 3; ++j) in = in && on[j] > x.lo[j] && on[j] < x.hi[j];
      if (in) { p = on; res.probe("queries.in_plane_of_triangle"); }
    }
    if (kind == 2) for (size_t j = 0; j < 3; ++j) if (r.below(2)) { const double v = c.mesh.v[r.below(c.mesh.v.size())][j]; if (v > x.lo[j] && v < x.hi[j]) p[j] = v; }
    if (kind == 3) {
      q.box = true;
      V3 p2;
      for (size_t j = 0; j < 3; ++j) p2[j] = x.lo[j] + h[j] * r.range(0.02, 0.98);
      V3 lo, hi;
      for (size_t j = 0; j < 3; ++j) { lo[j] = std::min(p[j], p2[j]); hi[j] = std::max(p[j], p2[j]); if (hi[j] - lo[j] < 1e-3 * h[j]) hi[j] = lo[j] + 1e-3 * h[j]; }
      q.a = lo; q.b = hi;
      const double g = 1e-6 * c.size + 1e-5 * hm;
      V3 l2 = lo, h2 = hi;
      for (size_t j = 0; j < 3; ++j) { l2[j] -= g; h2[j] += g; lo[j] += g; hi[j] -= g; }
      const V3 mid = 0.5 * (lo + hi);
      want.push_back(!geo::crosses(c.mesh, l2, h2) ? (geo::winding(c.mesh, mid) > 0.5 ? 0 : 1) : lo[0] < hi[0] && lo[1] < hi[1] && lo[2] < hi[2] && geo::crosses(c.mesh, lo, hi) ? 2 : -1);
    } else {
      q.a = p;
      near_surface = geo::distance(c.mesh, p) < 1e-6 * c.size + 1e-5 * hm;
      want.push_back(near_surface ? -1 : geo::winding(c.mesh, p) > 0.5 ? 1 : 0);
    }
    if (r.below(3) == 0) {
      q.par = true;
      auto map = [&](const V3& g) { V3 u; for (size_t j = 0; j < 3; ++j) u[j] = x.plo[j] + (g[j] - x.lo[j]) / h[j] * (x.phi[j] - x.plo[j]); return u; };
      q.a = map(q.a);
      if (q.box) q.b = map(q.b);
    }
    qs.push_back(q);
    if (want.back() == -1) res.probe("queries.on_surface");
  }
  std::vector<int> first, later;
  std::vector<api::Domain> dom, dom2;
  scribble_stack(0xa5);
  std::string e1 = in_phase("queries", answer, [&] { first = api::ask(*m, qs); dom = api::domains(*m); });
  if (!e1.empty()) violation("a query of a finished model fails: %s", e1.c_str());
  res.probe("queries.left_to_the_whole_mesh", static_cast<double>(last_phase().st.rng_draws));
  static const char* states[] = { "inside", "outside", "cut" };
  for (size_t k = 0; k < qs.size(); ++k) {
    res.add_hash(static_cast<uint64_t>(first[k]));
    const ull id = qs[k].cell;
    if (first[k] == -1) violation("cell %llu is stored but not found by its queries", id);
    if (want[k] < 0) continue;
    res.probe("queries.judged");
    if (qs[k].box) { if (first[k] != want[k]) violation("cell %llu: a box (%.9g %.9g %.9g) - (%.9g %.9g %.9g) is reported as %s, it is %s", id, qs[k].a[0], qs[k].a[1], qs[k].a[2], qs[k].b[0], qs[k].b[1], qs[k].b[2], states[first[k]], states[want[k]]); }
    else if (first[k] != want[k]) violation("cell %llu: point (%.9g %.9g %.9g)%s is reported as %s the material", id, qs[k].a[0], qs[k].a[1], qs[k].a[2], qs[k].par ? ", parametric" : "", first[k] ? "inside" : "outside");
  }
  // boundary meshes, boundary points and bounds of the material in each cell
  std::map<uint64_t, const api::Cell*> cell_of;
  for (auto& x : snap.cells) cell_of[x.id] = &x;
  int off = 0;
  for (auto& d : dom) {
    const ull id = d.id;
    const auto& x = *cell_of.at(d.id);
    const V3 h = x.hi - x.lo;
    for (size_t j = 0; j < 3; ++j) {
      const double t = 1e-7 * h[j] + 1e-9 * c.size;
      if (d.lo[j] < x.lo[j] - t || d.hi[j] > x.hi[j] + t) violation("cell %llu: the bounds of its material leave the cell", id);
      const double s = (x.phi[j] - x.plo[j]) / h[j];
      if (std::abs(x.plo[j] + (d.lo[j] - x.lo[j]) * s - d.plo[j]) > t * s + 1e-9 * std::abs(x.plo[j]) || std::abs(x.plo[j] + (d.hi[j] - x.lo[j]) * s - d.phi[j]) > t * s + 1e-9 * std::abs(x.phi[j])) violation("cell %llu: the bounds of its material differ between global and parametric coordinates", id);
      for (auto& q : x.gpts) if (c.spec.alpha < 0 && (q[j] < d.lo[j] - t || q[j] > d.hi[j] + t)) violation("cell %llu: an integration point lies outside the bounds of the material", id);
      if (d.ips.size() != d.pips.size()) violation("cell %llu has %zu boundary points in global and %zu in parametric coordinates", id, d.ips.size(), d.pips.size());
      for (size_t k = 0; k < d.ips.size(); ++k) {
        if (d.ips[k][j] < d.lo[j] - t || d.ips[k][j] > d.hi[j] + t) violation("cell %llu: a boundary point lies outside the bounds of the material", id);
        if (std::abs(x.plo[j] + (d.ips[k][j] - x.lo[j]) * s - d.pips[k][j]) > t * s + 1e-9 * std::abs(x.plo[j])) violation("cell %llu: boundary points differ between global and parametric coordinates", id);
      }
    }
    const double vol = geo::volume_in_box(c.mesh, x.lo, x.hi), cell_area = 2 * (h[0] * h[1] + h[1] * h[2] + h[2] * h[0]);
    if (std::abs(d.ip_area - d.area) > 1e-9 * d.area) violation("cell %llu: boundary points weigh %.12g, the boundary mesh has area %.12g", id, d.ip_area, d.area);
    if (std::abs(d.ip_volume - d.volume) > 1e-9 * d.area * c.size) violation("cell %llu: boundary points enclose %.12g, the boundary mesh %.12g", id, d.ip_volume, d.volume);
    if (!d.trimmed && std::abs(d.area - cell_area) > 1e-9 * cell_area) violation("full cell %llu: the boundary mesh has area %.12g instead of %.12g", id, d.area, cell_area);
    const double err = std::abs(d.volume - vol) / vol;
    res.count["max_volume_error"] = std::max(res.count["max_volume_error"], err);
    if (err > 0.011 && vol > 1e-6 * h[0] * h[1] * h[2]) violation("cell %llu: the boundary mesh encloses %.9g, the material in the cell is %.9g", id, d.volume, vol);
    if (err > 1e-4 && ++off > 2) violation("cell %llu: the boundary mesh encloses %.9g, the material in the cell is %.9g, and %d other cells are off as well", id, d.volume, vol, off - 1);
    res.probe("domains.judged");
  }
  // the process goes on: other models come and go, memory is reused, the model moves
  const std::vector<V3> probes = { { 0.3, 0.4, 0.5 }, { 0.51, 0.62, 0.17 } };
  const uint64_t d1 = api::read_everything(*m, probes, 1 | 2 | 4 | 8 | 16);
  cases::Opt o2;
  o2.max_cells = 12;
  o2.max_conds = 1;
  o2.simple_bodies = true;
  const int others = static_cast<int>(plan.i("others", 0, 2, 1));
  for (int k = 0; k < others; ++k) {
    qs_config q = base_config();
    draw_heap(q, fmt("other%d", k));
    try {
      auto c2 = cases::draw(o2, fmt("other%d.", k));
      in_phase(fmt("other model %d", k), q, [&] { cases::build(c2); });
    }
    catch (const Skip&) {}
  }
  if (from_files && plan.chance("files_deleted", 500)) { disk_dirs(); res.probe("input_files_deleted"); }
  if (plan.chance("moved", 300)) { in_phase("move", base_config(), [&] { api::move_model(*m); }); res.probe("moved"); }
  scribble_stack(0x5a);
  e1 = in_phase("queries", answer, [&] { later = api::ask(*m, qs); dom2 = api::domains(*m); });
  if (!e1.empty()) violation("a query of a finished model fails later: %s", e1.c_str());
  for (size_t k = 0; k < qs.size(); ++k) if (first[k] != later[k]) violation("cell %llu: a query about (%.9g %.9g %.9g) is answered with %d at first and with %d later", static_cast<ull>(qs[k].cell), qs[k].a[0], qs[k].a[1], qs[k].a[2], first[k], later[k]);
  if (dom.size() != dom2.size()) violation("%zu cells at first, %zu later", dom.size(), dom2.size());
  for (size_t k = 0; k < dom.size(); ++k) if (dom[k].id != dom2[k].id || dom[k].area != dom2[k].area || dom[k].volume != dom2[k].volume || dom[k].ips != dom2[k].ips || dom[k].pips != dom2[k].pips) violation("cell %llu: its boundary is different later", static_cast<ull>(dom[k].id));
  if (api::read_everything(*m, probes, 1 | 2 | 4 | 8 | 16) != d1) violation("the finished model gives other values later");
  const std::string d = cases::same_exact(snap, api::snapshot(*m));
  if (!d.empty()) violation("the finished model changed: %s", d.c_str());
}

// ================================================================================================ C22
namespace settings {
using api::Val;
using api::Path;
struct Entry { int type; bool required; Val v; };
struct Node {
  std::string kind;
  std::map<std::string, Entry> vals;
  std::map<std::string, Node> subs;
  std::map<std::string, std::vector<Node>> lists;
};
static Val str(const std::string& s) { Val v; v.type = api::V_STRING; v.s = s; return v; }
static Val idx(uint64_t i) { Val v; v.type = api::V_INDEX; v.i = i; return v; }
static Val dbl(double d) { Val v; v.type = api::V_DOUBLE; v.d = d; return v; }
static Val boo(bool b) { Val v; v.type = api::V_BOOL; v.b = b; return v; }
static Node make(const std::string& kind) {
  using namespace api;
  Node n;
  n.kind = kind;
  auto sub = [&](Node& to, const char* name, std::map<std::string, Entry> vals) { to.subs[name].vals = std::move(vals); to.subs[name].kind = name; };
  Val gauss; gauss.type = V_METHOD;
  if (kind == "Settings") {
    sub(n, "general_settings", { { "input_filename", { V_STRING, true, {} } }, { "output_directory_name", { V_STRING, true, str("queso_output") } }, { "echo_level", { V_INDEX, true, idx(1) } }, { "write_output_to_file", { V_BOOL, true, boo(true) } } });
    sub(n, "background_grid_settings", { { "grid_type", { V_GRID, true, {} } }, { "lower_bound_xyz", { V_VEC3, true, {} } }, { "upper_bound_xyz", { V_VEC3, true, {} } }, { "lower_bound_uvw", { V_VEC3, true, {} } }, { "upper_bound_uvw", { V_VEC3, true, {} } },
                                        { "polynomial_order", { V_IVEC3, true, {} } }, { "number_of_elements", { V_IVEC3, true, {} } } });
    sub(n, "trimmed_quadrature_rule_settings", { { "moment_fitting_residual", { V_DOUBLE, true, dbl(1e-10) } }, { "min_element_volume_ratio", { V_DOUBLE, true, dbl(1e-3) } }, { "min_num_boundary_triangles", { V_INDEX, true, idx(100) } },
                                                 { "neglect_elements_if_stl_is_flawed", { V_BOOL, true, boo(true) } }, { "activate_fictitious_domain_with_alpha", { V_DOUBLE, false, {} } } });
    sub(n, "non_trimmed_quadrature_rule_settings", { { "integration_method", { V_METHOD, true, gauss } } });
    n.lists["conditions_settings_list"];
  } else if (kind == "ConditionSettings") {
    n.vals = { { "condition_id", { V_INDEX, true, {} } }, { "condition_type", { V_STRING, false, {} } }, { "input_filename", { V_STRING, true, {} } }, { "modulus", { V_DOUBLE, false, {} } }, { "direction", { V_VEC3, false, {} } },
               { "value", { V_VEC3, false, {} } }, { "penalty_factor", { V_DOUBLE, false, {} } } };
  } else if (kind == "ConditionInfo") {
    n.vals = { { "condition_id", { V_INDEX, true, {} } }, { "surf_area", { V_DOUBLE, true, {} } }, { "perc_surf_area_in_active_domain", { V_DOUBLE, true, {} } } };
  } else {
    sub(n, "embedded_geometry_info", { { "is_closed", { V_BOOL, true, {} } }, { "volume", { V_DOUBLE, true, {} } } });
    sub(n, "quadrature_info", { { "represented_volume", { V_DOUBLE, true, {} } }, { "percentage_of_geometry_volume", { V_DOUBLE, true, {} } }, { "tot_num_points", { V_INDEX, true, {} } }, { "num_of_points_per_full_element", { V_DOUBLE, true, {} } },
                                { "num_of_points_per_trimmed_element", { V_DOUBLE, true, {} } } });
    sub(n, "background_grid_info", { { "num_active_elements", { V_INDEX, true, {} } }, { "num_trimmed_elements", { V_INDEX, true, {} } }, { "num_full_elements", { V_INDEX, true, {} } }, { "num_inactive_elements", { V_INDEX, true, {} } } });
    sub(n, "elapsed_time_info", { { "total", { V_DOUBLE, true, dbl(0) } } });
    Node& e = n.subs["elapsed_time_info"];
    sub(e, "volume_time_info", { { "total", { V_DOUBLE, true, dbl(0) } }, { "classification_of_elements", { V_DOUBLE, true, dbl(0) } }, { "computation_of_intersections", { V_DOUBLE, true, dbl(0) } }, { "solution_of_moment_fitting_eqs", { V_DOUBLE, true, dbl(0) } },
                                  { "construction_of_ggq_rules", { V_DOUBLE, true, dbl(0) } } });
    sub(e, "conditions_time_info", { { "total", { V_DOUBLE, true, dbl(0) } } });
    sub(e, "write_files_time_info", { { "total", { V_DOUBLE, true, dbl(0) } } });
    n.lists["conditions_infos_list"];
  }
  return n;
}
static void nodes(Node& n, const Path& at, std::vector<std::pair<Path, Node*>>& out) {
  out.emplace_back(at, &n);
  for (auto& [name, s] : n.subs) { Path p = at; p.push_back(name); nodes(s, p, out); }
  for (auto& [name, l] : n.lists) for (size_t k = 0; k < l.size(); ++k) { Path p = at; p.push_back(fmt("%s#%zu", name.c_str(), k)); nodes(l[k], p, out); }
}
static std::string path_text(const Path& p) { std::string t; for (auto& s : p) t += s + "/"; return t; }
static bool complete(const Node& n) {
  for (auto& [k, e] : n.vals) if (e.required && e.v.type == api::V_UNSET) return false;
  for (auto& [k, s] : n.subs) if (!complete(s)) return false;
  for (auto& [k, l] : n.lists) for (auto& s : l) if (!complete(s)) return false;
  return true;
}
// may a model be built with these settings?
static bool valid(const Node& n) {
  if (!complete(n)) return false;
  const auto& b = n.subs.at("background_grid_settings").vals;
  const auto& o = b.at("polynomial_order").v.iv;
  const uint64_t mn = std::min({ o[0], o[1], o[2] }), mx = std::max({ o[0], o[1], o[2] });
  const uint64_t method = n.subs.at("non_trimmed_quadrature_rule_settings").vals.at("integration_method").v.i;
  if (mn < 1) return false;
  if (method == 2 && mn < 2) return false;
  return method < 3 || (mx <= 4 && mn >= 2 && b.at("grid_type").v.i == 0);
}
static std::string text(const Val& v) {
  switch (v.type) {
    case api::V_UNSET: return "(unset)" + v.s;
    case api::V_STRING: return "'" + v.s + "'";
    case api::V_INDEX: return fmt("%llu", static_cast<ull>(v.i));
    case api::V_DOUBLE: return fmt("%.17g", v.d);
    case api::V_BOOL: return v.b ? "true" : "false";
    case api::V_VEC3: return fmt("[%.17g, %.17g, %.17g]", v.v[0], v.v[1], v.v[2]);
    case api::V_IVEC3: return fmt("[%llu, %llu, %llu]", static_cast<ull>(v.iv[0]), static_cast<ull>(v.iv[1]), static_cast<ull>(v.iv[2]));
    default: return fmt("#%llu", static_cast<ull>(v.i));
  }
}
// the printed form, with ten digits
static std::string printed(const Val& v) {
  static const char* const methods[] = { "Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2" };
  switch (v.type) {
    case api::V_UNSET: return "\"Not Set.\"";
    case api::V_STRING: return "\"" + v.s + "\"";
    case api::V_DOUBLE: return fmt("%.10g", v.d);
    case api::V_VEC3: return fmt("[%.10g,%.10g,%.10g]", v.v[0], v.v[1], v.v[2]);
    case api::V_IVEC3: return fmt("[%llu,%llu,%llu]", static_cast<ull>(v.iv[0]), static_cast<ull>(v.iv[1]), static_cast<ull>(v.iv[2]));
    case api::V_METHOD: return fmt("\"%s\"", methods[v.i]);
    case api::V_GRID: return v.i == 0 ? "\"b_spline_grid\"" : "\"hexahedral_fe_grid\"";
    default: return text(v);
  }
}
// reads the printed text into "path/key" -> value as text; throws a message when it is not JSON
struct Reader {
  const std::string& s;
  size_t at = 0;
  std::map<std::string, std::string> out;
  void space() { while (at < s.size() && isspace(static_cast<unsigned char>(s[at]))) ++at; }
  char next() { space(); return at < s.size() ? s[at] : '\0'; }
  void need(char c) { if (next() != c) throw fmt("'%c' expected at byte %zu", c, at); ++at; }
  std::string quoted() { need('"'); std::string r; while (at < s.size() && s[at] != '"') r += s[at++]; need('"'); return r; }
  void value(const std::string& path) {
    if (next() == '{') { object(path + "/"); return; }
    if (next() == '"') { out[path] = "\"" + quoted() + "\""; return; }
    if (next() == '[') {
      ++at;
      if (next() == ']') { ++at; out[path] = "[]"; return; }
      if (next() == '{') { for (int k = 0;; ++k) { value(fmt("%s#%d", path.c_str(), k)); if (next() == ',') { ++at; continue; } need(']'); return; } }
      std::string t = "[";
      for (;;) { space(); while (at < s.size() && !strchr(", ]\n", s[at])) t += s[at++]; if (next() == ',') { ++at; t += ","; continue; } need(']'); out[path] = t + "]"; return; }
    }
    std::string t;
    while (at < s.size() && !strchr(",}] \n", s[at])) t += s[at++];
    if (t.empty()) throw fmt("a value expected at byte %zu", at);
    out[path] = t;
  }
  void object(const std::string& path) {
    need('{');
    if (next() == '}') { ++at; return; }
    for (;;) {
      const std::string k = quoted();
      need(':');
      if (out.count(path + k)) throw "'" + path + k + "' is there twice";
      value(path + k);
      if (next() == ',') { ++at; continue; }
      need('}');
      return;
    }
  }
};
static void expect_printed(const Node& n, const std::string& path, std::map<std::string, std::string>& out) {
  for (auto& [k, e] : n.vals) out[path + k] = printed(e.v);
  for (auto& [k, s] : n.subs) expect_printed(s, path + k + "/", out);
  for (auto& [k, l] : n.lists) { if (l.empty()) out[path + k] = "[]"; for (size_t i = 0; i < l.size(); ++i) expect_printed(l[i], fmt("%s%s#%zu/", path.c_str(), k.c_str(), i), out); }
}
// everything that can be read, against the reference; returns the first difference
static std::string differences(const api::Settings& d, Node& ref, bool typed) {
  std::vector<std::pair<Path, Node*>> all;
  { Pause p; nodes(ref, {}, all); }
  for (auto& [p, n] : all) {
    for (auto& [k, e] : n->vals) {
      const bool set = api::dict_is_set(d, p, k);
      if (set != (e.v.type != api::V_UNSET)) return path_text(p) + k + (set ? " is set, but nobody set it" : " is not set any more");
      if (!api::dict_has(d, p, k)) return path_text(p) + k + " is unknown";
      if (set) { const Val v = api::dict_get(d, p, k, e.type); if (!(v == e.v)) return path_text(p) + k + " is " + text(v) + " instead of " + text(e.v); }
      Val v;
      if (typed && (!p.empty() || n->kind == "ConditionSettings") && api::dict_get_typed(d, p, k, v) && !(v == e.v)) return path_text(p) + k + " is " + text(v) + " instead of " + text(e.v) + " by its C++ key";
    }
    for (auto& [k, l] : n->lists) { const uint64_t sz = api::dict_list_size(d, p, k); if (sz != l.size()) return path_text(p) + k + fmt(" has %llu entries instead of %zu", static_cast<ull>(sz), l.size()); }
  }
  return "";
}
static std::string printed_differences(const std::string& t, const Node& ref) {
  std::map<std::string, std::string> want;
  expect_printed(ref, "", want);
  Reader r{ t, 0, {} };
  try { r.object(""); if (r.next()) throw fmt("more text at byte %zu", r.at); }
  catch (const std::string& e) { return "the printed text is not JSON: " + e; }
  for (auto& [k, v] : want) { auto f = r.out.find(k); if (f == r.out.end()) return "'" + k + "' is not printed"; if (f->second != v) return "'" + k + "' is printed as " + f->second + " instead of " + v; }
  for (auto& [k, v] : r.out) if (!want.count(k)) return "'" + k + "' is printed, but not part of it";
  return "";
}
static const std::vector<std::string>& value_names() {
  static std::vector<std::string> r;
  if (r.empty()) {
    for (auto* k : { "Settings", "ConditionSettings", "ModelInfo", "ConditionInfo" }) {
      Node n = make(k);
      std::vector<std::pair<Path, Node*>> all;
      nodes(n, {}, all);
      for (auto& a : all) { for (auto& v : a.second->vals) r.push_back(v.first); for (auto& v : a.second->subs) r.push_back(v.first); for (auto& v : a.second->lists) r.push_back(v.first); }
    }
    for (auto* k : { "", "Input_Filename", "input_filename ", "echo", "order", "general_settings/echo_level", "0", "polynomial_orde" }) r.push_back(k);
  }
  return r;
}
static Val draw(const std::string& p, int type) {
  using namespace api;
  Val v;
  v.type = type;
  Rng r(plan.u(p + ".value"));
  static const double ds[] = { 0, 1, -1, 1e-10, 0.1, 1.0 / 3, 1e300, -1e-300, 123456.789, 4294967297.0 };
  auto dv = [&] { return r.below(2) ? ds[r.below(10)] : r.range(-10, 10); };
  switch (type) {
    case V_STRING: { static const char* const ss[] = { "", "a", "queso_output", "/sim/in/mesh.stl", "a rather long name of a file, longer than any short string buffer.stl", "x y" }; v.s = ss[r.below(6)]; if (r.below(4) == 0) v.s += std::string(r.below(300), 'q'); break; }
    case V_INDEX: v.i = r.below(3) ? r.below(200) : r.next() >> r.below(64); break;
    case V_DOUBLE: v.d = dv(); break;
    case V_BOOL: v.b = r.below(2); break;
    case V_VEC3: for (auto& x : v.v) x = dv(); break;
    case V_IVEC3: for (auto& x : v.iv) x = r.below(6); break;
    case V_METHOD: v.i = r.below(6); break;
    default: v.i = r.below(2);
  }
  return v;
}
struct Item { std::shared_ptr<api::Settings> d; Node ref; };
static void check_item(Item& it, const std::string& when, bool print) {
  const bool whole = complete(it.ref);
  bool threw = false;
  try { api::dict_check_required(*it.d); } catch (...) { threw = true; }
  { Pause p; if (threw == whole) violation("%s: %s", when.c_str(), whole ? "the check for required values refuses a complete dictionary" : "the check for required values accepts a dictionary in which one is missing"); }
  const std::string e = differences(*it.d, it.ref, whole);
  Pause p;
  if (!e.empty()) violation("%s: %s", when.c_str(), e.c_str());
  if (!print) return;
  qs_resume();
  const std::string t = api::dict_print(*it.d);
  qs_pause();
  const std::string f = printed_differences(t, it.ref);
  if (!f.empty()) violation("%s: %s", when.c_str(), f.c_str());
}
// an operation that has to be refused and to change nothing
static void refused(Item& it, const std::string& what, const std::function<void()>& f) {
  const std::string e = guarded(f);
  Pause p;
  if (e.empty()) violation("%s is accepted", what.c_str());
  res.probe("refused");
  qs_resume();
  const std::string d = differences(*it.d, it.ref, false);
  qs_pause();
  if (!d.empty()) violation("%s is refused, but changes something: %s", what.c_str(), d.c_str());
}
static void step(std::vector<Item>& items, int k) {
  using namespace api;
  const std::string p = fmt("s%d.", k);
  const size_t which = static_cast<size_t>(plan.i(p + "dict", 0, static_cast<int64_t>(items.size()) - 1, 0));
  Item& it = items[which];
  std::vector<std::pair<Path, Node*>> all;
  nodes(it.ref, {}, all);
  auto some = [&](const char* key) { return all[static_cast<size_t>(plan.u(p + key, 0) % all.size())]; };
  auto [path, node] = some("node");
  for (int t = 0; node->vals.empty() && t < 20; ++t) { auto n = some(fmt("node%d", t).c_str()); path = n.first; node = n.second; }
  const std::string where = fmt("step %d, %s %s", k, it.ref.kind.c_str(), path_text(path).c_str());
  const int op = plan.pick(p + "op", { 14, 3, 3, 2, 3, 6, 4, 2, 3, 2, 4, 2, 3, 3 }, 0);
  static const char* const names[] = { "set", "wrong_name", "wrong_type", "negative", "get_wrong", "set_by_cpp_key", "append", "move", "check", "print", "failing_allocation", "wrong_path", "fill", "model" };
  res.probe(fmt("op.%s", names[op]));
  auto pick_key = [&](const char* key) { auto i = node->vals.begin(); std::advance(i, static_cast<long>(plan.u(p + key, 0) % node->vals.size())); return i; };
  if (node->vals.empty() && (op <= 5 || op == 10)) return;
  switch (op) {
    case 0: {
      auto e = pick_key("key");
      Val v = draw(p + "v", e->second.type);
      const int how = plan.pick(p + "how", { 3, 1 }, 0);
      if (how == 1 && e->second.type == V_DOUBLE) { Val w = draw(p + "w", V_INDEX); w.i %= 1u << 30; v = dbl(static_cast<double>(w.i)); dict_set(*it.d, path, e->first, w); }
      else if (how == 1 && e->second.type == V_VEC3) { Val w = draw(p + "w", V_IVEC3); v.v = { static_cast<double>(w.iv[0]), static_cast<double>(w.iv[1]), static_cast<double>(w.iv[2]) }; dict_set(*it.d, path, e->first, w); }
      else if (how == 1 && e->second.type == V_INDEX) { v.i %= 1000; dict_set_signed(*it.d, path, e->first, static_cast<int>(v.i)); }
      else dict_set(*it.d, path, e->first, v);
      Pause q;
      e->second.v = v;
      break;
    }
    case 1: {
      const auto& names = value_names();
      const std::string key = names[static_cast<size_t>(plan.u(p + "name", 0) % names.size())];
      if (node->vals.count(key)) return;
      const Val v = draw(p + "v", 1 + static_cast<int>(plan.u(p + "type", 0) % 8));
      refused(it, where + "the unknown name '" + key + "'", [&] { dict_set(*it.d, path, key, v); });
      refused(it, where + "reading the unknown name '" + key + "'", [&] { dict_get(*it.d, path, key, v.type); });
      refused(it, where + "asking whether the unknown name '" + key + "' is set", [&] { dict_is_set(*it.d, path, key); });
      Pause q;
      if (!node->subs.count(key) && !node->lists.count(key)) { qs_resume(); const bool has = dict_has(*it.d, path, key); qs_pause(); if (has) violation("%s: the unknown name '%s' is said to exist", where.c_str(), key.c_str()); }
      break;
    }
    case 2: {
      auto e = pick_key("key");
      const int type = 1 + static_cast<int>(plan.u(p + "type", 0) % 8);
      if (type == e->second.type || (type == V_INDEX && e->second.type == V_DOUBLE) || (type == V_IVEC3 && e->second.type == V_VEC3)) return;
      const Val v = draw(p + "v", type);
      refused(it, where + e->first + fmt(" = %s, which has another type,", text(v).c_str()), [&] { dict_set(*it.d, path, e->first, v); });
      break;
    }
    case 3: {
      auto e = pick_key("key");
      const int v = -static_cast<int>(plan.chance(p + "large", 300) ? plan.i(p + "v", 1, 2000000000, 1) : plan.i(p + "v", 1, 3, 1));
      if (e->second.type == V_DOUBLE) { dict_set_signed(*it.d, path, e->first, v); Pause q; e->second.v = dbl(v); break; }
      refused(it, where + e->first + fmt(" = %d", v), [&] { dict_set_signed(*it.d, path, e->first, v); });
      break;
    }
    case 4: {
      auto e = pick_key("key");
      const int type = 1 + static_cast<int>(plan.u(p + "type", 0) % 8);
      if (e->second.v.type == type) return;
      refused(it, where + "reading " + e->first + (e->second.v.type == V_UNSET ? ", which is not set," : " as another type"), [&] { dict_get(*it.d, path, e->first, type); });
      break;
    }
    case 5: {
      auto e = pick_key("key");
      const Val v = draw(p + "v", e->second.type);
      if (path.empty() && node->kind != "ConditionSettings") return;
      bool done = dict_set_typed(*it.d, path, e->first, v);
      Pause q;
      if (done) e->second.v = v;
      break;
    }
    case 6: {
      if (it.ref.lists.empty()) return;
      const std::string list = it.ref.lists.begin()->first, kind = it.ref.kind == "Settings" ? "ConditionSettings" : "ConditionInfo";
      if (it.ref.lists.begin()->second.size() > 4) return;
      dict_append(*it.d, {}, list, kind);
      Pause q;
      it.ref.lists.begin()->second.push_back(make(kind));
      break;
    }
    case 7: dict_move(*it.d); check_item(it, where + "after moving it", false); break;
    case 8: {
      check_item(it, where + "", false);
      if (it.ref.kind != "Settings") return;
      bool threw = false;
      try { dict_check_settings(*it.d); } catch (...) { threw = true; }
      Pause q;
      res.probe(threw ? "settings.refused" : "settings.accepted");
      if (threw == valid(it.ref)) violation("%s: settings that %s are %s", where.c_str(), valid(it.ref) ? "fit together" : "are incomplete or do not fit together", threw ? "refused" : "accepted");
      break;
    }
    case 9: check_item(it, where + "", true); break;
    case 10: { // no memory while a value is set, or an entry appended
      auto e = pick_key("key");
      const bool append = !it.ref.lists.empty() && it.ref.lists.begin()->second.size() < 5 && plan.chance(p + "append", 300);
      const Val v = draw(p + "v", e->second.type);
      const int64_t at = plan.i(p + "at", 1, append ? 30 : 3, 1);
      const int sticky = plan.chance(p + "sticky", 300);
      const std::string kind = it.ref.kind == "Settings" ? "ConditionSettings" : "ConditionInfo";
      const std::string list = append ? it.ref.lists.begin()->first : "";
      std::string err;
      bool failed = false;
      qs_reset_alloc_count();
      qs_set_alloc_failure(at, sticky, 0);
      try { if (append) dict_append(*it.d, {}, list, kind); else dict_set(*it.d, path, e->first, v); }
      catch (...) { failed = true; }
      qs_set_alloc_failure(0, 0, 0);
      {
        Pause q;
        res.probe(failed ? "no_memory.failed" : "no_memory.done");
        if (!failed) { if (append) it.ref.lists.begin()->second.push_back(make(kind)); else e->second.v = v; }
      }
      const std::string d = differences(*it.d, it.ref, false);
      Pause q;
      if (!d.empty()) violation("%s, %s %s without memory: %s", where.c_str(), append ? "appending to" : "setting", append ? list.c_str() : e->first.c_str(), d.c_str());
      break;
    }
    case 11: {
      const auto& names = value_names();
      const std::string name = names[static_cast<size_t>(plan.u(p + "name", 0) % names.size())];
      if (!node->subs.count(name)) { Path b = path; b.push_back(name); refused(it, where + "the unknown sub dictionary '" + name + "'", [&] { dict_resolve(*it.d, b); }); }
      if (!node->lists.count(name)) refused(it, where + "the unknown list '" + name + "'", [&] { dict_list_size(*it.d, path, name); });
      if (plan.chance(p + "kind", 300)) { const std::string e = guarded([&] { dict_create(name); }); Pause q; if (e.empty()) violation("a dictionary of the unknown kind '%s' is created", name.c_str()); }
      break;
    }
    case 12: { // fill in what is missing, with values that a model can have
      Rng r(plan.u(p + "fill"));
      const int leave = plan.chance(p + "leave", 400) ? static_cast<int>(r.below(20)) : -1;
      int n = 0;
      for (auto& [q, nd] : all) for (auto& [key, e] : nd->vals) {
        const std::string vp = fmt("%sfill%d", p.c_str(), n);
        if ((e.v.type != V_UNSET && key != "number_of_elements" && key != "polynomial_order") || n++ == leave) continue;
        Val v = draw(vp, e.type);
        if (key == "number_of_elements") for (auto& x : v.iv) x = 1 + r.below(4);
        if (key == "polynomial_order") for (auto& x : v.iv) x = r.below(10) == 0 ? r.below(6) : 1 + r.below(4);
        if (key == "lower_bound_xyz") v.v = { 0, 0, 0 };
        if (key == "upper_bound_xyz") v.v = { 1, 1, 1 };
        dict_set(*it.d, q, key, v);
        Pause z;
        e.v = v;
      }
      break;
    }
    default: {
      if (it.ref.kind != "Settings" || dict_in_model(*it.d)) return;
      if (complete(it.ref)) {
        const auto& n = it.ref.subs.at("background_grid_settings").vals.at("number_of_elements").v.iv;
        if (n[0] * n[1] * n[2] == 0) return; // judged by nobody
      }
      const std::string e = guarded([&] { dict_to_model(*it.d); });
      {
        Pause q;
        res.probe(e.empty() ? "model.made" : "model.refused");
        if (e.empty() != valid(it.ref)) violation("%s: a model with settings that %s is %s%s", where.c_str(), valid(it.ref) ? "fit together" : "are incomplete or do not fit together", e.empty() ? "made" : "refused: ", e.c_str());
      }
      check_item(it, where + (e.empty() ? "in the model" : "after they were refused"), false);
    }
  }
}
} // namespace settings
static void c22() {
  using namespace settings;
  static const char* const kinds[] = { "Settings", "ConditionSettings", "ModelInfo", "ConditionInfo" };
  const int n = static_cast<int>(plan.i("dicts", 1, 3, 1));
  std::vector<Item> items;
  qs_config q = base_config();
  draw_heap(q, "heap");
  q.track_races = 1;
  {
    Phase ph("history", q);
    for (int k = 0; k < n; ++k) {
      const std::string kind = kinds[plan.pick(fmt("kind%d", k), { 6, 1, 2, 1 }, 0)];
      auto d = api::dict_create(kind);
      Pause p;
      items.push_back({ d, make(kind) });
      res.where += (k ? ", " : "") + kind;
    }
    for (auto& it : items) check_item(it, "fresh", true);
    const int steps = static_cast<int>(plan.i("steps", 1, plan.thorough() ? 120 : 60, 1));
    for (int k = 0; k < steps; ++k) step(items, k);
    for (auto& it : items) check_item(it, "at the end", true);
    ph.end();
  }
  // several threads read at once, as the builders do
  auto cfg = drawn_cfg("sched", 1);
  if (cfg.sched_mode == QS_SCHED_RUN_TO_BLOCK) cfg.sched_mode = QS_SCHED_RANDOM_SYNC;
  cfg.team = 1;
  cfg.track_races = 1;
  std::vector<Task> ts(static_cast<size_t>(plan.i("readers", 2, 4, 2)));
  std::vector<std::string> bad(ts.size());
  for (size_t k = 0; k < ts.size(); ++k) {
    const int what = static_cast<int>(plan.u(fmt("reader%zu", k), 0) % 3);
    ts[k].f = [&, k, what] {
      for (auto& it : items) {
        bool threw = false;
        if (what == 0 || complete(it.ref)) {
          try { api::dict_check_required(*it.d); } catch (...) { threw = true; }
          if (threw == complete(it.ref)) bad[k] = "the check for required values gives another answer while others read";
        }
        if (what == 2) { const std::string t = api::dict_print(*it.d); const std::string e = printed_differences(t, it.ref); if (!e.empty()) bad[k] = e; }
        const std::string e = differences(*it.d, it.ref, complete(it.ref));
        if (!e.empty()) bad[k] = e;
      }
    };
  }
  { Phase ph("read side by side", cfg); run_tasks(ts); ph.end(); }
  check_races(last_phase());
  for (size_t k = 0; k < ts.size(); ++k) {
    if (!ts[k].error.empty()) violation("reading side by side fails: %s", ts[k].error.c_str());
    if (!bad[k].empty()) violation("reading side by side: %s", bad[k].c_str());
  }
}

// ================================================================================================ C23
namespace surface {
using api::Tri;
struct Item { std::shared_ptr<api::Surface> s; std::vector<Tri> ref; bool closed = true; };
static double tri_area(const Tri& t) { return 0.5 * geo::norm(geo::cross(t.p[1] - t.p[0], t.p[2] - t.p[0])); }
static std::vector<std::array<double, 12>> canonical(const std::vector<Tri>& v) {
  std::vector<std::array<double, 12>> r;
  for (auto& t : v) {
    size_t f = 0;
    for (size_t k = 1; k < 3; ++k) if (t.p[k] < t.p[f]) f = k;
    std::array<double, 12> a;
    for (size_t k = 0; k < 3; ++k) for (size_t d = 0; d < 3; ++d) a[3 * k + d] = t.p[(f + k) % 3][d];
    for (size_t d = 0; d < 3; ++d) a[9 + d] = t.n[d];
    r.push_back(a);
  }
  std::sort(r.begin(), r.end());
  return r;
}
struct Sums { long double area = 0, vol = 0, v[36] = {}, abs_vol = 0; geo::V3 lo{ 1e300, 1e300, 1e300 }, hi{ -1e300, -1e300, -1e300 }; double min_area = 1e300, max_area = 0, size = 0; };
// area, volume, and the integrals over the surface of the monomials up to degree two with and without the normal
static Sums sums(const std::vector<Tri>& v) {
  Sums s;
  for (auto& t : v) {
    const double a = tri_area(t);
    s.area += a;
    s.min_area = std::min(s.min_area, a);
    s.max_area = std::max(s.max_area, a);
    long double c[3] = {};
    for (size_t d = 0; d < 3; ++d) for (auto& p : t.p) { c[d] += static_cast<long double>(p[d]) / 3; s.lo[d] = std::min(s.lo[d], p[d]); s.hi[d] = std::max(s.hi[d], p[d]); s.size = std::max(s.size, std::abs(p[d])); }
    for (size_t d = 0; d < 3; ++d) { s.vol += c[d] * t.n[d] * a / 3; s.abs_vol += std::abs(c[d] * t.n[d] * a / 3); }
    size_t k = 0;
    for (size_t e = 0; e < 4; ++e) {
      const long double w = a * (e < 3 ? t.n[e] : 1.0);
      for (size_t i = 0; i < 3; ++i) s.v[k++] += w * c[i];
      for (size_t i = 0; i < 3; ++i) for (size_t j = i; j < 3; ++j) {
        long double m = 0;
        for (size_t q = 0; q < 3; ++q) { const auto &x = t.p[q], &y = t.p[(q + 1) % 3]; m += (0.5L * (x[i] + y[i])) * (0.5L * (x[j] + y[j])) / 3; }
        s.v[k++] += w * m;
      }
    }
  }
  if (v.empty()) s.min_area = 0;
  return s;
}
// "" when the two lists of triangles describe the same surface
static std::string same_surface(const std::vector<Tri>& was, const std::vector<Tri>& is) {
  const Sums a = sums(was), b = sums(is);
  const double l = std::max(1e-300, a.size), scale = static_cast<double>(a.area);
  if (std::abs(static_cast<double>(a.area - b.area)) > 1e-10 * scale) return fmt("its area was %.17g and is %.17g", static_cast<double>(a.area), static_cast<double>(b.area));
  if (a.lo != b.lo || a.hi != b.hi) return "its bounding box has changed";
  for (size_t k = 0; k < 36; ++k) {
    const double tol = 1e-10 * scale * (k % 9 < 3 ? l : l * l);
    if (std::abs(static_cast<double>(a.v[k] - b.v[k])) > tol) return fmt("surface integral %zu was %.17g and is %.17g", k, static_cast<double>(a.v[k]), static_cast<double>(b.v[k]));
  }
  // each triangle lies in one that was there before and faces the same way
  const double eps = 1e-9;
  for (size_t k = 0; k < is.size(); ++k) {
    bool found = false;
    for (auto& p : was) {
      bool in = geo::norm(p.n - is[k].n) < 1e-9;
      const V3 n = geo::cross(p.p[1] - p.p[0], p.p[2] - p.p[0]);
      const double nn = geo::dot(n, n);
      if (nn == 0) { if (is[k] == p) { found = true; break; } continue; }
      const double len = std::sqrt(nn);
      for (auto& q : is[k].p) {
        if (!in) break;
        if (std::abs(geo::dot(n, q - p.p[0])) / len > eps * std::max(l, 1e-300)) in = false;
        for (size_t c = 0; c < 3 && in; ++c) if (geo::dot(n, geo::cross(p.p[(c + 1) % 3] - p.p[c], q - p.p[c])) / nn < -1e-6) in = false;
      }
      if (in) { const V3 m = geo::cross(is[k].p[1] - is[k].p[0], is[k].p[2] - is[k].p[0]); if (geo::dot(m, n) < 0) in = false; }
      if (in) { found = true; break; }
    }
    if (!found) return fmt("triangle %zu lies in none of the triangles that were there before, or faces another way", k);
  }
  return "";
}
static std::vector<Tri> tris(const Item& it, const std::string& when) {
  std::string broken;
  auto v = api::surf_tris(*it.s, broken);
  Pause p;
  if (!broken.empty()) violation("%s: %s", when.c_str(), broken.c_str());
  return v;
}
static std::string measures_wrong(const std::vector<Tri>& ref, bool closed, bool foreign, const api::Measures& m) {
  const Sums s = sums(ref);
  const double area = static_cast<double>(s.area), vol = static_cast<double>(s.vol), mag = static_cast<double>(s.abs_vol);
  const double ta = 1e-11 * area + 1e-300;
  // normals computed from corners that lie close together, far from the origin
  const double tn = foreign && s.min_area > 0 ? 1e-14 * (1 + s.size * s.size / s.min_area) : 0, tv = 1e-10 * mag + tn * area * s.size + 1e-300;
  if (!(std::abs(m.area - area) <= ta)) return fmt("Area gives %.17g for %.17g", m.area, area);
  if (!(std::abs(m.area_omp - area) <= ta)) return fmt("AreaOMP gives %.17g for %.17g", m.area_omp, area);
  // normals that the view computes itself are zero for triangles without area
  if (foreign && s.min_area < 1e-12) return "";
  if (!(std::abs(m.vol - m.vol_omp) <= tv)) return fmt("Volume gives %.17g, VolumeOMP %.17g", m.vol, m.vol_omp);
  if (closed) {
    if (!(std::abs(m.vol - std::abs(vol)) <= tv)) return fmt("Volume gives %.17g for %.17g", m.vol, std::abs(vol));
    for (size_t d = 0; d < 3; ++d) if (!(std::abs(m.dir[d] - std::abs(vol)) <= (1e-9 + tn) * (area * s.size) + 1e-300)) return fmt("Volume in direction %zu gives %.17g for %.17g", d, m.dir[d], std::abs(vol));
  }
  if (ref.empty()) { if (m.avg_ratio != 0) return "the average aspect ratio of an empty mesh is not zero"; return ""; }
  if (m.lo != s.lo || m.hi != s.hi) return "BoundingBox is wrong";
  if (s.min_area > 1e-12) {
    double mx = 0, sum = 0;
    for (auto& t : ref) {
      const double a = geo::norm(t.p[1] - t.p[0]), b = geo::norm(t.p[2] - t.p[1]), c = geo::norm(t.p[0] - t.p[2]);
      const double r = std::max({ a, b, c }) * (a + b + c) / (4 * std::sqrt(3.0) * tri_area(t));
      mx = std::max(mx, r);
      sum += r;
    }
    if (!(std::abs(m.max_ratio - mx) <= 1e-8 * mx)) return fmt("MaxAspectRatio gives %.17g for %.17g", m.max_ratio, mx);
    if (!(std::abs(m.avg_ratio - sum / static_cast<double>(ref.size())) <= 1e-8 * mx)) return fmt("AverageAspectRatio gives %.17g for %.17g", m.avg_ratio, sum / static_cast<double>(ref.size()));
    geo::V3 open{ 0, 0, 0 };
    for (auto& t : ref) open = open + tri_area(t) * t.n;
    if (area > 1e-10 && !(m.quality >= 0.999 * geo::norm(open) / area - 1e-9 - tn)) return fmt("EstimateQuality gives %.3g for a mesh whose faces leave %.3g open", m.quality, geo::norm(open) / area);
    if (closed && std::abs(vol) > 1e-9 && !(m.quality <= 1e-9 + (1e-9 + tn) * (area * s.size / std::abs(vol) + 1))) return fmt("EstimateQuality gives %.3g for a closed mesh", m.quality);
  }
  return "";
}
static void check_views(Item& it, const std::string& p, const std::string& when) {
  const bool foreign = plan.chance(p + "foreign", 400), normals = plan.chance(p + "normals", 500), all = plan.chance(p + "all", 400);
  const int how = static_cast<int>(plan.i(p + "how", 0, 3, 0));
  Rng r(plan.u(p + "ids"));
  std::vector<uint64_t> ids;
  if (!it.ref.empty()) for (uint64_t k = r.below(2 * it.ref.size() + 1); k > 0; --k) ids.push_back(r.below(it.ref.size()));
  const uint64_t stop = plan.chance(p + "stop", 300) ? 1 + r.below(it.ref.size() + 1) : ~uint64_t{ 0 };
  std::vector<Tri> got;
  if (foreign) api::surf_foreign(*it.s);
  const std::string e = guarded([&] { got = api::surf_view(*it.s, foreign, how, ids, all, stop, normals); });
  Pause q;
  res.probe("views");
  if (!e.empty()) violation("%s: looking at the mesh fails: %s", when.c_str(), e.c_str());
  if (all) { ids.clear(); for (uint64_t k = 0; k < it.ref.size(); ++k) ids.push_back(k); }
  if (ids.size() > stop) ids.resize(stop);
  if (got.size() != ids.size()) violation("%s: %zu triangles are seen instead of %zu (kind of access %d%s)", when.c_str(), got.size(), ids.size(), how, foreign ? ", foreign mesh" : "");
  for (size_t k = 0; k < ids.size(); ++k) {
    const Tri& t = it.ref[ids[k]];
    bool ok = got[k].p[0] == t.p[0] && got[k].p[1] == t.p[1] && got[k].p[2] == t.p[2];
    if (ok && normals && (!foreign || tri_area(t) > 1e-8)) ok = geo::norm(got[k].n - t.n) <= (foreign ? 1e-6 : 0);
    if (!ok) violation("%s: another triangle than %llu is seen (kind of access %d%s%s)", when.c_str(), static_cast<ull>(ids[k]), how, foreign ? ", foreign mesh" : "", normals ? ", with normals" : "");
  }
}
static void measure(Item& it, const std::string& p, const std::string& when) {
  const bool foreign = plan.chance(p + "mforeign", 300);
  if (foreign) api::surf_foreign(*it.s);
  api::Measures m;
  const std::string e = guarded([&] { m = api::surf_measure(*it.s, foreign); });
  Pause q;
  res.probe("measures");
  if (!e.empty()) violation("%s: measuring fails: %s", when.c_str(), e.c_str());
  const std::string w = measures_wrong(it.ref, it.closed, foreign, m);
  if (!w.empty()) violation("%s%s: %s", when.c_str(), foreign ? " (foreign mesh)" : "", w.c_str());
}
// still the same body for the library's queries?
static void inside(Item& it, const geo::Mesh& body, const std::string& p, const std::string& when) {
  const bool foreign = plan.chance(p + "bforeign", 300);
  if (foreign) api::surf_foreign(*it.s);
  Rng r(plan.u(p + "points"));
  V3 lo, hi;
  geo::bounds(body, lo, hi);
  const double size = geo::norm(hi - lo);
  std::vector<V3> pts;
  for (int k = 0; k < 12; ++k) {
    V3 x;
    for (size_t d = 0; d < 3; ++d) x[d] = r.range(lo[d], hi[d]);
    if (geo::distance(body, x) > 1e-3 * size) pts.push_back(x);
  }
  std::vector<int> got;
  const std::string e = guarded([&] { auto b = api::surf_brep(*it.s, foreign); for (auto& x : pts) got.push_back(api::is_inside(*b, x)); });
  Pause q;
  if (!e.empty()) violation("%s: queries fail: %s", when.c_str(), e.c_str());
  for (size_t k = 0; k < pts.size(); ++k) {
    res.probe("queries");
    const double w = geo::winding(body, pts[k]);
    if (std::abs(w) > 0.1 && std::abs(w - 1) > 0.1) continue;      // bodies that overlap
    if (got[k] != (w > 0.5)) violation("%s: the point %.17g %.17g %.17g is reported %s", when.c_str(), pts[k][0], pts[k][1], pts[k][2], got[k] ? "inside" : "outside");
  }
}
static geo::Mesh as_mesh(const std::vector<Tri>& v) {
  geo::Mesh m;
  for (auto& t : v) { const int n = static_cast<int>(m.v.size()); for (auto& q : t.p) m.v.push_back(q); m.t.push_back({ n, n + 1, n + 2 }); }
  return m;
}
static Item draw_item(const std::string& p) {
  Item it;
  std::string text;
  if (plan.chance(p + "made_box", 150)) {
    Rng r(plan.u(p + "box"));
    V3 lo, hi;
    for (size_t d = 0; d < 3; ++d) { lo[d] = r.range(-2, 2); hi[d] = lo[d] + r.range(0.01, 2); }
    text = "made box";
    const std::string e = guarded([&] { it.s = api::surf_box(lo, hi); });
    if (!e.empty()) violation("MakeMeshBox fails: %s", e.c_str());
    it.ref = tris(it, "a new box");
    Pause q;
    if (it.ref.size() != 12 || !geo::is_closed([&] { auto m = as_mesh(it.ref); geo::weld(m); return m; }())) violation("MakeMeshBox makes no closed mesh of twelve triangles");
    const double v = (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
    if (std::abs(geo::volume(as_mesh(it.ref)) - v) > 1e-10 * (v + 30)) violation("the box made by MakeMeshBox has the volume %.17g instead of %.17g", geo::volume(as_mesh(it.ref)), v);
    for (auto& t : it.ref) if (geo::dot(t.n, geo::cross(t.p[1] - t.p[0], t.p[2] - t.p[0])) < (1 - 1e-9) * 2 * tri_area(t)) violation("MakeMeshBox gives a triangle a normal that is not its own");
  } else {
    cases::Opt o;
    o.simple_bodies = true;
    o.max_triangles = plan.thorough() ? 400 : 120;
    geo::Mesh m;
    {
      Pause q;
      m = cases::draw_body(p, o, text);
      if (m.t.size() > static_cast<size_t>(o.max_triangles)) m = geo::box({ 0, 0, 0 }, { 1, 1, 1 });
      if (plan.chance(p + "far", 200)) { Rng r(plan.u(p + "shift")); const double s = std::pow(10.0, r.range(-2, 2)); geo::scale(m, { s, s * r.range(0.3, 1), s }, { r.range(-50, 50), r.range(-50, 50), r.range(-5, 5) }); }
    }
    it.s = api::surf_make(m);
    Pause q;
    std::string broken;
    it.ref = api::surf_tris(*it.s, broken);
    it.closed = geo::is_closed(m);
    if (m.t.size() != it.ref.size()) violation("a mesh of %zu triangles holds %zu", m.t.size(), it.ref.size());
    for (size_t k = 0; k < m.t.size(); ++k) for (int c = 0; c < 3; ++c) if (it.ref[k].p[c] != m.p(k, c)) violation("triangle %zu of a new mesh is not the one that was added", k);
  }
  Pause q;
  res.where += (res.where.empty() ? "" : ", ") + text;
  return it;
}
static void step(std::vector<Item>& items, int k) {
  const std::string p = fmt("s%d.", k);
  Item& it = items[static_cast<size_t>(plan.u(p + "item", 0) % items.size())];
  static const char* const names[] = { "refine", "append", "remove", "measure", "view", "copy", "move", "add", "clear", "inside" };
  const int kind = plan.pick(p + "kind", { 5, 4, 1, 3, 3, 1, 1, 1, 1, 2 }, 3);
  const std::string when = fmt("step %d, %s", k, names[kind]);
  const bool starve = plan.chance(p + "starve", 250);
  const int64_t at = starve ? plan.i(p + "at", 1, 40, 1) : 0;
  const int sticky = starve && plan.chance(p + "sticky", 300);
  res.probe(fmt("step.%s", names[kind]));
  auto starved = [&](const std::function<void()>& f) {
    bool failed = false;
    std::string text;
    if (at) { qs_reset_alloc_count(); qs_set_alloc_failure(at, sticky, 0); }
    try { f(); } catch (...) { failed = true; qs_set_alloc_failure(0, 0, 0); Pause q; text = api::exception_text(std::current_exception()); }
    if (at) qs_set_alloc_failure(0, 0, 0);
    Pause q;
    if (failed && !at) violation("%s fails: %s", when.c_str(), text.c_str());
    if (at) res.probe(failed ? "no_memory.failed" : "no_memory.done");
    return !failed;
  };
  switch (kind) {
    case 0: {
      const uint64_t limit = plan.thorough() ? 600 : 250;
      const uint64_t n = std::min<uint64_t>(limit, static_cast<uint64_t>(plan.i(p + "n", 0, static_cast<int64_t>(limit), 1)));
      const bool done = starved([&] { api::surf_refine(*it.s, n); });
      const auto now = tris(it, when);
      Pause q;
      const Sums s = sums(it.ref);
      if (it.ref.size() >= n && !(canonical(now) == canonical(it.ref))) violation("%s: a mesh of %zu triangles is changed when at least %llu are asked for", when.c_str(), it.ref.size(), static_cast<ull>(n));
      const std::string e = same_surface(it.ref, now);
      if (!e.empty()) violation("%s to %llu triangles%s: the surface changes: %s", when.c_str(), static_cast<ull>(n), done ? "" : " (which fails for lack of memory)", e.c_str());
      if (done && now.size() < n && s.max_area > 1e-8) violation("%s: %zu triangles instead of at least %llu", when.c_str(), now.size(), static_cast<ull>(n));
      if (now.size() > it.ref.size()) res.probe("refined");
      it.ref = now;
      break;
    }
    case 1: {
      Item o;
      if (items.size() > 1 && plan.chance(p + "other", 600)) {
        Item& x = items[static_cast<size_t>(plan.u(p + "which", 0) % items.size())];
        if (&x == &it) { o = x; o.s = api::surf_copy(*x.s); } else o = x;
      } else o = draw_item(p + "new.");
      if (it.ref.size() + o.ref.size() > (plan.thorough() ? 1500u : 600u)) break;
      const bool done = starved([&] { api::surf_append(*it.s, *o.s); });
      const auto now = tris(it, when);
      const auto other = tris(o, when);
      Pause q;
      auto both = it.ref;
      both.insert(both.end(), o.ref.begin(), o.ref.end());
      if (!(canonical(other) == canonical(o.ref))) violation("%s changes the mesh that is appended", when.c_str());
      if (done) {
        if (!(canonical(now) == canonical(both))) violation("%s: the result does not consist of the %zu and %zu triangles of the two meshes", when.c_str(), it.ref.size(), o.ref.size());
        it.closed = it.closed && o.closed;
      } else {
        const auto a = canonical(it.ref), b = canonical(both), c = canonical(now);
        if (!std::includes(c.begin(), c.end(), a.begin(), a.end()) || !std::includes(b.begin(), b.end(), c.begin(), c.end())) violation("%s, which fails for lack of memory: the mesh lost triangles or got some of neither mesh", when.c_str());
        if (c.size() != a.size()) it.closed = false;
      }
      it.ref = now;
      break;
    }
    case 2: {
      if (it.ref.empty()) break;
      const uint64_t j = plan.u(p + "triangle", 0) % it.ref.size();
      api::surf_remove(*it.s, j);
      const auto now = tris(it, when);
      Pause q;
      auto ref = it.ref;
      ref.erase(ref.begin() + static_cast<std::ptrdiff_t>(j));
      if (!(canonical(now) == canonical(ref))) violation("%s: another triangle than %llu of %zu is removed", when.c_str(), static_cast<ull>(j), it.ref.size());
      it.ref = now;
      it.closed = false;
      break;
    }
    case 3: measure(it, p, when); break;
    case 4: check_views(it, p, when); break;
    case 5: {
      if (items.size() >= 4) break;
      Item c = it;
      if (!starved([&] { c.s = api::surf_copy(*it.s); })) break;
      const auto now = tris(c, when);
      Pause q;
      if (!(now == it.ref)) violation("%s: the copy differs", when.c_str());
      c.ref = now;
      items.push_back(c);
      break;
    }
    case 6: api::surf_move(*it.s); break;
    case 7: {
      Rng r(plan.u(p + "corners"));
      V3 c[3];
      for (auto& x : c) x = { r.range(-1, 1), r.range(-1, 1), r.range(-1, 1) };
      api::surf_add(*it.s, c[0], c[1], c[2]);
      const auto now = tris(it, when);
      Pause q;
      if (now.size() != it.ref.size() + 1 || now.back().p[0] != c[0] || now.back().p[1] != c[1] || now.back().p[2] != c[2]) violation("%s: the triangle that was added is not found at the end", when.c_str());
      it.ref = now;
      it.closed = false;
      break;
    }
    case 8: {
      if (!plan.chance(p + "really", 300)) break;
      api::surf_clear(*it.s);
      it.ref.clear();
      it.closed = true;
      break;
    }
    case 9: {
      if (!it.closed || it.ref.size() > 300 || it.ref.empty()) break;
      geo::Mesh body;
      { Pause q; body = as_mesh(it.ref); }
      inside(it, body, p, when);
      break;
    }
  }
  const std::string e = guarded([&] { api::surf_check(*it.s); });
  const auto now = tris(it, when);
  Pause q;
  if (!e.empty()) violation("%s: the library's own check refuses the mesh: %s", when.c_str(), e.c_str());
  if (!(now == it.ref)) violation("%s: the triangles are not those that were there before", when.c_str());
}
} // namespace surface
static void c23() {
  using namespace surface;
  std::vector<Item> items;
  items.reserve(16);               // steps hold references
  qs_config q = drawn_cfg("history", 1);
  draw_heap(q, "history");
  q.track_races = 1;
  if (plan.chance("memory", 300)) memory_checked = true;
  {
    Phase ph("history", q);
    const int n = static_cast<int>(plan.i("meshes", 1, 3, 1));
    for (int k = 0; k < n; ++k) items.push_back(draw_item(fmt("m%d.", k)));
    const int steps = static_cast<int>(plan.i("steps", 1, plan.thorough() ? 40 : 16, 1));
    for (int k = 0; k < steps; ++k) step(items, k);
    for (size_t k = 0; k < items.size(); ++k) measure(items[k], fmt("end%zu.", k), fmt("mesh %zu at the end", k));
    ph.end();
  }
  check_races(last_phase());
  for (auto& it : items) for (auto& t : it.ref) for (auto& c : t.p) res.add_hash(core::hash_str(fmt("%a%a%a", c[0], c[1], c[2])));
  if (!plan.chance("side_by_side", 500)) return;
  // several threads measure the same meshes, each with a team, while each of them also changes a mesh of its own
  auto cfg = drawn_cfg("sched", 1);
  if (cfg.sched_mode == QS_SCHED_RUN_TO_BLOCK) cfg.sched_mode = QS_SCHED_RANDOM_SYNC;
  cfg.team = std::min(cfg.team, 3);
  cfg.track_races = 1;
  std::vector<Task> ts(static_cast<size_t>(plan.i("threads", 2, 4, 2)));
  std::vector<std::string> bad(ts.size());
  for (auto& it : items) api::surf_foreign(*it.s);
  for (size_t k = 0; k < ts.size(); ++k) {
    const int what = static_cast<int>(plan.u(fmt("thread%zu", k), 0) % 3);
    ts[k].f = [&, k, what] {
      for (auto& it : items) {
        const bool foreign = what == 1;
        const auto m = api::surf_measure(*it.s, foreign);
        { Pause p; const std::string e = measures_wrong(it.ref, it.closed, foreign, m); if (!e.empty()) bad[k] = e; }
        if (what != 2 || it.ref.size() > 300) continue;
        auto c = api::surf_copy(*it.s);
        api::surf_refine(*c, it.ref.size() + 10);
        api::surf_append(*c, *it.s);
        std::string broken;
        const auto v = api::surf_tris(*c, broken);
        Pause p;
        if (!broken.empty()) bad[k] = broken;
        else if (std::abs(static_cast<double>(sums(v).area - 2 * sums(it.ref).area)) > 1e-10 * static_cast<double>(sums(v).area)) bad[k] = "a refined copy with the original appended has not twice the area";
      }
    };
  }
  { Phase ph("side by side", cfg); run_tasks(ts); ph.end(); }
  check_races(last_phase());
  res.probe("side_by_side");
  for (size_t k = 0; k < ts.size(); ++k) {
    if (!ts[k].error.empty()) violation("working side by side fails: %s", ts[k].error.c_str());
    if (!bad[k].empty()) violation("working side by side: %s", bad[k].c_str());
  }
}

// ================================================================================================ C21
// The workloads of the other properties with checked memory; only accesses to memory that is not (or no longer) the
// library's are judged here, everything else is judged by the property the workload belongs to.
static void c21() {
  memory_checked = true;
  static void (*const what[])() = { c01, c02, c04, c07, c08, c09, c10, c11, c12, c13, c14, c15, c17, c18, c19, c20 };
  static const char* const names[] = { "C01", "C02", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C20" };
  const int k = plan.pick("workload", { 2, 2, 3, 2, 2, 2, 2, 2, 3, 2, 2, 3, 5, 5, 5, 5 }, 0);
  res.probe(fmt("workload.%s", names[k]));
  res.no_step_claim = true;
  try { what[k](); }
  catch (const Violation& v) {
    if (strncmp(v.what(), "memory: ", 8) == 0) throw;
    res.probe("failed_otherwise");
    res.where += std::string(" | ") + v.what();
  }
  catch (const Skip&) { throw; }
}

void run() {
  static const std::map<std::string, void (*)()> all = {
    { "C01", c01 }, { "C02", c02 }, { "C03", c03 }, { "C04", c04 }, { "C05", c05 }, { "C06", c06 }, { "C07", c07 }, { "C08", c08 }, { "C09", c09 }, { "C10", c10 },
    { "C11", c11 }, { "C12", c12 }, { "C13", c13 }, { "C14", c14 }, { "C15", c15 }, { "C16", c16 }, { "C17", c17 }, { "C18", c18 }, { "C19", c19 }, { "C20", c20 }, { "C21", c21 }, { "C22", c22 }, { "C23", c23 },
  };
  auto it = all.find(plan.prop);
  if (it == all.end()) { res.status = "error"; res.msg = "no such property"; return; }
  it->second();
}
} // namespace props
