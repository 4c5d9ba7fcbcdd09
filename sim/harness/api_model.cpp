#include "api.h"
#include "queso/embedded_model.h"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/io/io_utilities.h"
#include <cstring>

using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;

namespace api {

static PointType pt(const geo::V3& p) { return PointType{ p[0], p[1], p[2] }; }
static geo::V3 v3(const PointType& p) { return { p[0], p[1], p[2] }; }
static Vector3i v3i(const std::array<int, 3>& p) { return Vector3i{ static_cast<IndexType>(p[0]), static_cast<IndexType>(p[1]), static_cast<IndexType>(p[2]) }; }

Unique<Dict> make_settings(const Spec& s) {
  auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
  auto& d = *p;
  auto& g = d[MainSettings::general_settings];
  g.SetValue(GeneralSettings::input_filename, s.input);
  g.SetValue(GeneralSettings::output_directory_name, s.out);
  g.SetValue(GeneralSettings::echo_level, static_cast<IndexType>(s.echo));
  g.SetValue(GeneralSettings::write_output_to_file, s.write);
  auto& b = d[MainSettings::background_grid_settings];
  b.SetValue(BackgroundGridSettings::grid_type, s.grid == 0 ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
  b.SetValue(BackgroundGridSettings::lower_bound_xyz, pt(s.lo));
  b.SetValue(BackgroundGridSettings::upper_bound_xyz, pt(s.hi));
  b.SetValue(BackgroundGridSettings::lower_bound_uvw, pt(s.plo));
  b.SetValue(BackgroundGridSettings::upper_bound_uvw, pt(s.phi));
  b.SetValue(BackgroundGridSettings::polynomial_order, v3i(s.order));
  b.SetValue(BackgroundGridSettings::number_of_elements, v3i(s.n));
  auto& t = d[MainSettings::trimmed_quadrature_rule_settings];
  t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, s.residual);
  t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, s.min_ratio);
  t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, static_cast<IndexType>(s.min_triangles));
  t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, s.neglect);
  if (s.alpha >= 0) t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, s.alpha);
  d[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, static_cast<IntegrationMethod>(s.method));
  d.CheckRequired();
  return p;
}
Unique<Dict> make_cond(const CondSpec& c) {
  auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
  p->SetValue(ConditionSettings::condition_id, static_cast<IndexType>(c.id));
  p->SetValue(ConditionSettings::condition_type, c.type);
  p->SetValue(ConditionSettings::input_filename, c.file);
  p->SetValue(ConditionSettings::penalty_factor, c.penalty);
  if (c.with_value) p->SetValue(ConditionSettings::value, pt(c.value));
  p->CheckRequired();
  return p;
}
void fill_mesh(TriangleMesh& t, const geo::Mesh& m) {
  t.Clear();
  t.Reserve(m.t.size());
  for (auto& p : m.v) t.AddVertex(Vector3d{ p[0], p[1], p[2] });
  for (auto& q : m.t) {
    const auto &a = m.v[static_cast<size_t>(q[0])], &b = m.v[static_cast<size_t>(q[1])], &c = m.v[static_cast<size_t>(q[2])];
    geo::V3 n = geo::cross(b - a, c - a);
    const double l = geo::norm(n);
    if (l > 0) n = (1 / l) * n;
    t.AddTriangle(Vector3i{ static_cast<IndexType>(q[0]), static_cast<IndexType>(q[1]), static_cast<IndexType>(q[2]) }, Vector3d{ n[0], n[1], n[2] });
  }
}

struct Model {
  EmbeddedModel m;
  std::unique_ptr<TriangleMesh> mesh;
  std::vector<std::unique_ptr<TriangleMesh>> cond_meshes;
  std::vector<Unique<Dict>> cond_settings;
  std::unique_ptr<geo::Mesh> foreign;
  explicit Model(Unique<Dict>&& s) : m(EmbeddedModel::Create(std::move(s))) {}
};

std::shared_ptr<Model> create(const Spec& s) {
  auto p = make_settings(s);
  for (auto& c : s.conds) p->GetList(MainSettings::conditions_settings_list).push_back(make_cond(c));
  return std::make_shared<Model>(std::move(p));
}
void set_mesh(Model& m, const geo::Mesh& mesh) {
  m.mesh = std::make_unique<TriangleMesh>();
  fill_mesh(*m.mesh, mesh);
}
void create_volume(Model& m) { m.m.CreateVolume(m.mesh->View()); }

struct NumTri { IndexType operator()(const geo::Mesh& m) const { return m.t.size(); } };
struct ToTri {
  TriangleProxy<WithoutNormals> operator()(const geo::Mesh& m, IndexType i) const {
    auto f = [&](size_t k) { const auto& p = m.v[static_cast<size_t>(m.t[i][k])]; return PointView(p.data(), 3); };
    return { f(0), f(1), f(2) };
  }
};
void create_volume_foreign(Model& m, const geo::Mesh& mesh) {
  m.foreign = std::make_unique<geo::Mesh>(mesh);
  m.m.CreateVolume(TriangleMeshView(*m.foreign, NumTri{}, ToTri{}));
}
void create_condition(Model& m, const geo::Mesh& mesh, const CondSpec& c) {
  m.cond_meshes.push_back(std::make_unique<TriangleMesh>());
  fill_mesh(*m.cond_meshes.back(), mesh);
  m.cond_settings.push_back(make_cond(c));
  m.m.CreateCondition(m.cond_meshes.back()->View(), *m.cond_settings.back());
}
void create_all(Model& m) { m.m.CreateAllFromSettings(); }
void write(Model& m) { m.m.WriteModelToFile(); }
void drop_meshes(Model& m) { m.mesh.reset(); m.cond_meshes.clear(); m.foreign.reset(); }

#define NUM(DICT, SET, KEY, TYPE, NAME) if ((DICT).IsSet(SET::KEY)) out[std::string(NAME) + "." #KEY] = static_cast<double>((DICT).template GetRequiredValue<TYPE>(SET::KEY));

static std::map<std::string, double> info_of(const Dict& mi, bool check = true) {
  if (check) mi.CheckRequired();
  std::map<std::string, double> out;
  const auto& g = mi[MainInfo::embedded_geometry_info];
  NUM(g, EmbeddedGeometryInfo, is_closed, bool, "embedded_geometry_info")
  NUM(g, EmbeddedGeometryInfo, volume, double, "embedded_geometry_info")
  const auto& q = mi[MainInfo::quadrature_info];
  NUM(q, QuadratureInfo, represented_volume, double, "quadrature_info")
  NUM(q, QuadratureInfo, percentage_of_geometry_volume, double, "quadrature_info")
  NUM(q, QuadratureInfo, tot_num_points, IndexType, "quadrature_info")
  NUM(q, QuadratureInfo, num_of_points_per_full_element, double, "quadrature_info")
  NUM(q, QuadratureInfo, num_of_points_per_trimmed_element, double, "quadrature_info")
  const auto& b = mi[MainInfo::background_grid_info];
  NUM(b, BackgroundGridInfo, num_active_elements, IndexType, "background_grid_info")
  NUM(b, BackgroundGridInfo, num_trimmed_elements, IndexType, "background_grid_info")
  NUM(b, BackgroundGridInfo, num_full_elements, IndexType, "background_grid_info")
  NUM(b, BackgroundGridInfo, num_inactive_elements, IndexType, "background_grid_info")
  const auto& t = mi[MainInfo::elapsed_time_info];
  NUM(t, ElapsedTimeInfo, total, double, "elapsed_time_info")
  const auto& tv = t[ElapsedTimeInfo::volume_time_info];
  NUM(tv, VolumeTimeInfo, total, double, "elapsed_time_info.volume_time_info")
  NUM(tv, VolumeTimeInfo, classification_of_elements, double, "elapsed_time_info.volume_time_info")
  NUM(tv, VolumeTimeInfo, computation_of_intersections, double, "elapsed_time_info.volume_time_info")
  NUM(tv, VolumeTimeInfo, solution_of_moment_fitting_eqs, double, "elapsed_time_info.volume_time_info")
  NUM(tv, VolumeTimeInfo, construction_of_ggq_rules, double, "elapsed_time_info.volume_time_info")
  const auto& tc = t[ElapsedTimeInfo::conditions_time_info];
  NUM(tc, ConditionsTimeInfo, total, double, "elapsed_time_info.conditions_time_info")
  const auto& tw = t[ElapsedTimeInfo::write_files_time_info];
  NUM(tw, WriteFilesTimeInfo, total, double, "elapsed_time_info.write_files_time_info")
  return out;
}

Snapshot snapshot(const Model& h) {
  Snapshot s;
  for (const auto& e : h.m.GetElementViews()) {
    Cell c;
    c.id = e.GetId();
    c.trimmed = e.IsTrimmed();
    const auto& g = e.template GetCellBounds<CoordinateSpace::global>();
    const auto& p = e.template GetCellBounds<CoordinateSpace::parametric>();
    c.lo = v3(g.lower); c.hi = v3(g.upper); c.plo = v3(p.lower); c.phi = v3(p.upper);
    c.detj = e.DetJ();
    for (const auto& q : e.GetIntegrationPoints()) c.pts.push_back({ q[0], q[1], q[2], q.Weight() });
    for (const auto& q : e.template GetIntegrationPoints<CoordinateSpace::global>()) c.gpts.push_back({ q[0], q[1], q[2], q.Weight() });
    s.cells.push_back(std::move(c));
  }
  size_t k = 0;
  for (const auto& c : h.m.GetConditions()) {
    Cond o;
    const auto& info = c.GetInfo();
    info.CheckRequired();
    c.GetSettings().CheckRequired();
    o.id = info.GetRequiredValue<IndexType>(ConditionInfo::condition_id);
    o.settings_id = c.GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id);
    o.area = info.GetRequiredValue<double>(ConditionInfo::surf_area);
    o.perc = info.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain);
    for (const auto& g : c.GetSegments()) {
      Segment sg;
      sg.active = g.IsInActiveElement();
      if (sg.active) sg.parent = g.GetParentElement()->GetId();
      const auto& m = g.GetTriangleMesh();
      for (IndexType i = 0; i < m.NumOfTriangles(); ++i) {
        const auto t = m.Triangle(i);
        sg.tris.push_back({ geo::V3{ t.P1[0], t.P1[1], t.P1[2] }, geo::V3{ t.P2[0], t.P2[1], t.P2[2] }, geo::V3{ t.P3[0], t.P3[1], t.P3[2] },
                            geo::V3{ t.Normal[0], t.Normal[1], t.Normal[2] } });
      }
      o.segs.push_back(std::move(sg));
    }
    s.conds.push_back(std::move(o));
    ++k;
  }
  s.info = info_of(h.m.GetModelInfo());
  s.info["conditions_infos_list.size"] = static_cast<double>(h.m.GetModelInfo().GetList(MainInfo::conditions_infos_list).size());
  return s;
}

namespace {
struct Digest {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n) { const unsigned char* c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; }
  void add(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); h = (h ^ u) * 1099511628211ull; h ^= h >> 29; }
  void add(uint64_t u) { h = (h ^ u) * 1099511628211ull; h ^= h >> 29; }
};
} // namespace

// `which`: bit 0 views and points, bit 1 boundary meshes and points of cut cells, bit 2 the same of full cells,
// bit 3 conditions, bit 4 model info and settings, bit 5 inside queries
uint64_t read_everything(const Model& h, const std::vector<geo::V3>& probes, int which) {
  using Filter = EmbeddedModel::BackgroundGridType::ElementFilter;
  Digest d;
  if (which & 1)
    for (const auto& e : h.m.GetElementViews()) {
      d.add(static_cast<uint64_t>(e.GetId()));
      d.add(static_cast<uint64_t>(e.IsTrimmed()));
      d.add(e.DetJ());
      for (const auto& q : e.GetIntegrationPoints()) { d.add(q[0]); d.add(q[1]); d.add(q[2]); d.add(q.Weight()); }
      for (const auto& q : e.template GetIntegrationPoints<CoordinateSpace::global>()) { d.add(q[0]); d.add(q.Weight()); }
    }
  auto domain = [&](const auto& e) {
    const auto view = e.GetActiveDomainBoundaryMesh();
    d.add(static_cast<uint64_t>(view.NumOfTriangles()));
    view.template VisitEachTriangle<WithNormals>([&](const auto& t) { for (size_t k = 0; k < 3; ++k) { d.add(t.P1[k]); d.add(t.P2[k]); d.add(t.P3[k]); d.add(t.Normal[k]); } });
    for (const auto& q : e.GetActiveDomainBoundaryIps()) { d.add(q[0]); d.add(q.Weight()); d.add(q.Normal()[0]); }
    const auto b = e.template GetActiveDomainBounds<CoordinateSpace::global>();
    d.add(b.lower[0]); d.add(b.upper[2]);
  };
  if (which & 2) for (const auto& e : h.m.template GetElements<Filter::trimmed>()) domain(e);
  if (which & 4) for (const auto& e : h.m.template GetElements<Filter::untrimmed>()) domain(e);
  if (which & 8)
    for (const auto& c : h.m.GetConditions()) {
      d.add(static_cast<uint64_t>(c.NumberOfSegments()));
      for (const auto& g : c.GetSegments()) {
        d.add(static_cast<uint64_t>(g.IsInActiveElement()));
        const auto& m = g.GetTriangleMesh();
        for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle(i); d.add(t.P1[0]); d.add(t.P2[1]); d.add(t.P3[2]); }
      }
    }
  if (which & 16) {
    const EmbeddedModel& cm = h.m;
    for (auto& [k, v] : info_of(cm.GetModelInfo())) d.add(v);
    cm.GetModelInfo()[MainInfo::background_grid_info].CheckRequired();
    cm.GetModelInfo()[MainInfo::quadrature_info].CheckRequired();
    cm.GetSettings()[MainSettings::background_grid_settings].CheckRequired();
    d.add(cm.GetSettings()[MainSettings::trimmed_quadrature_rule_settings].template GetRequiredValue<double>(TrimmedQuadratureRuleSettings::min_element_volume_ratio));
  }
  if (which & 32)
    for (const auto& e : h.m.template GetElements<Filter::trimmed>()) {
      const auto& b = e.template GetCellBounds<CoordinateSpace::global>();
      for (const auto& p : probes) {
        PointType q{ b.lower[0] + p[0] * (b.upper[0] - b.lower[0]), b.lower[1] + p[1] * (b.upper[1] - b.lower[1]), b.lower[2] + p[2] * (b.upper[2] - b.lower[2]) };
        d.add(static_cast<uint64_t>(e.IsInsideActiveDomain(q)));
      }
    }
  return d.h;
}

int inside_active_domain(const Model& h, uint64_t cell, const geo::V3& p) {
  using Filter = EmbeddedModel::BackgroundGridType::ElementFilter;
  for (const auto& e : h.m.template GetElements<Filter::trimmed>())
    if (e.GetId() == cell) return e.IsInsideActiveDomain(pt(p)) ? 1 : 0;
  return -1;
}

std::vector<int> ask(const Model& h, const std::vector<Query>& qs) {
  using Filter = EmbeddedModel::BackgroundGridType::ElementFilter;
  std::vector<int> r(qs.size(), -1);
  auto one = [&](const auto& e, const Query& q) -> int {
    if (!q.box) return q.par ? e.template IsInsideActiveDomain<CoordinateSpace::parametric>(pt(q.a)) : e.template IsInsideActiveDomain<CoordinateSpace::global>(pt(q.a));
    return static_cast<int>(q.par ? e.template GetIntersectionState<CoordinateSpace::parametric>(pt(q.a), pt(q.b)) : e.template GetIntersectionState<CoordinateSpace::global>(pt(q.a), pt(q.b)));
  };
  auto all = [&](const auto& elements) {
    for (const auto& e : elements)
      for (size_t k = 0; k < qs.size(); ++k) if (qs[k].cell == e.GetId()) r[k] = one(e, qs[k]);
  };
  all(h.m.template GetElements<Filter::trimmed>());
  all(h.m.template GetElements<Filter::untrimmed>());
  return r;
}

std::vector<Domain> domains(const Model& h) {
  using Filter = EmbeddedModel::BackgroundGridType::ElementFilter;
  using Bip = BoundaryIntegrationPoint;
  std::vector<Domain> r;
  auto all = [&](const auto& elements) {
    for (const auto& e : elements) {
      Domain d;
      d.id = e.GetId();
      d.trimmed = e.IsTrimmed();
      const auto g = e.template GetActiveDomainBounds<CoordinateSpace::global>();
      const auto p = e.template GetActiveDomainBounds<CoordinateSpace::parametric>();
      d.lo = v3(g.lower); d.hi = v3(g.upper); d.plo = v3(p.lower); d.phi = v3(p.upper);
      const auto view = e.GetActiveDomainBoundaryMesh();
      view.template VisitEachTriangle<WithNormals>([&](const auto& t) {
        const geo::V3 a{ t.P1[0], t.P1[1], t.P1[2] }, b{ t.P2[0], t.P2[1], t.P2[2] }, c{ t.P3[0], t.P3[1], t.P3[2] }, n{ t.Normal[0], t.Normal[1], t.Normal[2] };
        const double area = 0.5 * geo::norm(geo::cross(geo::operator-(b, a), geo::operator-(c, a)));
        d.area += area;
        d.volume += area * geo::dot(geo::operator-(a, d.lo), n) / 3;
      });
      for (const auto& q : e.GetActiveDomainBoundaryIps()) {
        const geo::V3 x{ q[0], q[1], q[2] }, n{ q.Normal()[0], q.Normal()[1], q.Normal()[2] };
        d.ip_area += q.Weight();
        d.ip_volume += q.Weight() * geo::dot(geo::operator-(x, d.lo), n) / 3;
        d.ips.push_back(x);
      }
      for (const auto& q : e.template GetActiveDomainBoundaryIps<Bip, CoordinateSpace::parametric>()) d.pips.push_back({ q[0], q[1], q[2] });
      r.push_back(std::move(d));
    }
  };
  all(h.m.template GetElements<Filter::trimmed>());
  all(h.m.template GetElements<Filter::untrimmed>());
  return r;
}

void move_model(Model& m) {
  EmbeddedModel other(std::move(m.m));
  m.m = std::move(other);
}

void write_condition_ascii(const Model& m, size_t k, const std::string& path) {
  IO::WriteConditionToSTL(m.m.GetConditions()[k], path, IO::EncodingType::ascii);
}

} // namespace api
