// Helpers of the demonstrations: bodies, settings, files. Uses only the public interface of QuESo.
#pragma once
#include "queso/embedded_model.h"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/io/io_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <omp.h>
#include <string>
#include <vector>

using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
using P3 = std::array<double, 3>;

#define EXPECT(COND, ...) do { if (!(COND)) { fprintf(stderr, "WRONG: " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)

inline void add_tri(TriangleMesh& m, P3 a, P3 b, P3 c) {
  const IndexType n = m.NumOfVertices();
  Vector3d A{ a[0], a[1], a[2] }, B{ b[0], b[1], b[2] }, C{ c[0], c[1], c[2] };
  Vector3d N = Math::Cross(Vector3d(B - A), Vector3d(C - A));
  N *= 1.0 / Math::Norm(N);
  m.AddVertex(A); m.AddVertex(B); m.AddVertex(C);
  m.AddTriangle(Vector3i{ n, n + 1, n + 2 }, N);
}
inline void add_quad(TriangleMesh& m, P3 a, P3 b, P3 c, P3 d) { add_tri(m, a, b, c); add_tri(m, a, c, d); }
// closed box, outward normals; inward if "in"
inline void add_box(TriangleMesh& m, P3 l, P3 u, bool in = false) {
  auto q = [&](P3 a, P3 b, P3 c, P3 d) { if (in) add_quad(m, d, c, b, a); else add_quad(m, a, b, c, d); };
  q({ l[0], l[1], l[2] }, { l[0], u[1], l[2] }, { u[0], u[1], l[2] }, { u[0], l[1], l[2] });
  q({ l[0], l[1], u[2] }, { u[0], l[1], u[2] }, { u[0], u[1], u[2] }, { l[0], u[1], u[2] });
  q({ l[0], l[1], l[2] }, { u[0], l[1], l[2] }, { u[0], l[1], u[2] }, { l[0], l[1], u[2] });
  q({ l[0], u[1], l[2] }, { l[0], u[1], u[2] }, { u[0], u[1], u[2] }, { u[0], u[1], l[2] });
  q({ l[0], l[1], l[2] }, { l[0], l[1], u[2] }, { l[0], u[1], u[2] }, { l[0], u[1], l[2] });
  q({ u[0], l[1], l[2] }, { u[0], u[1], l[2] }, { u[0], u[1], u[2] }, { u[0], l[1], u[2] });
}
// closed sphere of latitude and longitude lines
inline void add_sphere(TriangleMesh& m, P3 c, double r, int n) {
  const double pi = 3.14159265358979323846;
  auto p = [&](int i, int j) { const double t = pi * i / n, f = pi * (j % (2 * n)) / n; return i == 0 ? P3{ c[0], c[1], c[2] + r } : i == n ? P3{ c[0], c[1], c[2] - r } : P3{ c[0] + r * sin(t) * cos(f), c[1] + r * sin(t) * sin(f), c[2] + r * cos(t) }; };
  for (int i = 0; i < n; ++i) for (int j = 0; j < 2 * n; ++j) {
    if (i > 0) add_tri(m, p(i, j), p(i + 1, j), p(i, j + 1));
    if (i < n - 1) add_tri(m, p(i, j + 1), p(i + 1, j), p(i + 1, j + 1));
  }
}
struct Setup {
  std::array<IndexType, 3> n{ 2, 2, 2 };
  P3 lo{ 0, 0, 0 }, hi{ 1, 1, 1 };
  P3 plo{ 0, 0, 0 }, phi{ 1, 1, 1 };
  bool own_par = false;     // else the parametric bounds are the physical ones
  std::array<IndexType, 3> order{ 2, 2, 2 };
  IntegrationMethod method = IntegrationMethod::gauss;
  bool fe = false;
  double residual = 1e-10;
  double min_ratio = 1e-3;
  IndexType min_triangles = 100;
  IndexType echo = 0;
  std::string input = "dummy.stl", out = "out";
  bool write = true;
};
inline Unique<Dict> settings(const Setup& s) {
  auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
  auto pt = [](const P3& a) { return PointType{ a[0], a[1], a[2] }; };
  auto& g = (*p)[MainSettings::general_settings];
  g.SetValue(GeneralSettings::input_filename, s.input);
  g.SetValue(GeneralSettings::output_directory_name, s.out);
  g.SetValue(GeneralSettings::echo_level, s.echo);
  g.SetValue(GeneralSettings::write_output_to_file, s.write);
  auto& b = (*p)[MainSettings::background_grid_settings];
  b.SetValue(BackgroundGridSettings::grid_type, s.fe ? GridType::hexahedral_fe_grid : GridType::b_spline_grid);
  b.SetValue(BackgroundGridSettings::lower_bound_xyz, pt(s.lo));
  b.SetValue(BackgroundGridSettings::upper_bound_xyz, pt(s.hi));
  b.SetValue(BackgroundGridSettings::lower_bound_uvw, pt(s.own_par ? s.plo : s.lo));
  b.SetValue(BackgroundGridSettings::upper_bound_uvw, pt(s.own_par ? s.phi : s.hi));
  b.SetValue(BackgroundGridSettings::polynomial_order, Vector3i{ s.order[0], s.order[1], s.order[2] });
  b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{ s.n[0], s.n[1], s.n[2] });
  auto& t = (*p)[MainSettings::trimmed_quadrature_rule_settings];
  t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, s.residual);
  t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, s.min_ratio);
  t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, s.min_triangles);
  t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, true);
  (*p)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, s.method);
  p->CheckRequired();
  return p;
}
inline Unique<Dict> condition(IndexType id, const std::string& file = "dummy.stl") {
  auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
  p->SetValue(ConditionSettings::condition_id, id);
  p->SetValue(ConditionSettings::condition_type, std::string("PenaltySupportCondition"));
  p->SetValue(ConditionSettings::input_filename, file);
  p->SetValue(ConditionSettings::penalty_factor, 1e10);
  p->SetValue(ConditionSettings::value, PointType{ 0, 0, 0 });
  p->CheckRequired();
  return p;
}
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
// a scratch directory that is removed at the end
struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/queso_demo_XXXXXX"; dir = mkdtemp(t); }
  ~Scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
  std::string operator/(const char* f) const { return dir + "/" + f; }
};
template<class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
