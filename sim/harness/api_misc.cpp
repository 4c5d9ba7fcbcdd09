#include "../rt/qsim.h"
#include "api.h"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/element_builders.hpp"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/grid_indexer.hpp"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/includes/timer.hpp"
#include "queso/io/io_utilities.h"
#include "queso/utilities/mesh_utilities.h"
#include <set>

using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;

namespace api {

Unique<Dict> make_settings(const Spec& s);
void fill_mesh(TriangleMesh& t, const geo::Mesh& m);
static PointType pt(const geo::V3& p) { return PointType{ p[0], p[1], p[2] }; }

struct Brep { TriangleMesh mesh; std::unique_ptr<BRepOperator> op; };
std::shared_ptr<Brep> brep(const geo::Mesh& m) {
  auto b = std::make_shared<Brep>();
  fill_mesh(b->mesh, m);
  b->op = std::make_unique<BRepOperator>(b->mesh.View());
  return b;
}
bool is_inside(const Brep& b, const geo::V3& p) { return b.op->IsInside(pt(p)); }
static int code(IntersectionState s) { return s == IntersectionState::inside ? 0 : s == IntersectionState::outside ? 1 : 2; }
int box_state(const Brep& b, const geo::V3& lo, const geo::V3& hi) { const PointType l = pt(lo), u = pt(hi); return code(b.op->GetIntersectionState(l, u)); }
std::vector<int> classify(const Brep& b, const Spec& s) {
  auto settings = make_settings(s);
  auto st = b.op->pGetElementClassifications(*settings);
  std::vector<int> r;
  for (auto x : *st) r.push_back(code(x));
  return r;
}

MeshOut read_stl(const std::string& path) {
  TriangleMesh m;
  IO::ReadMeshFromSTL(m, path);
  MeshOut o;
  for (const auto& v : m.Vertices()) o.v.push_back({ v[0], v[1], v[2] });
  for (const auto& v : m.Normals()) o.n.push_back({ v[0], v[1], v[2] });
  for (const auto& t : m.TriangleIndices()) o.t.push_back({ t[0], t[1], t[2] });
  return o;
}
void write_mesh(const geo::Mesh& g, const std::string& path, bool vtk, bool binary) {
  TriangleMesh m;
  fill_mesh(m, g);
  const auto enc = binary ? IO::EncodingType::binary : IO::EncodingType::ascii;
  if (vtk) IO::WriteMeshToVTK(m, path, enc);
  else IO::WriteMeshToSTL(m, path, enc);
}
// measured value, least and greatest value that the steady clock of the simulation allows
void timer_probe(std::vector<std::array<double, 3>>& out, int n) {
  double s0 = qs_sim_seconds();
  Timer t{};
  double s1 = qs_sim_seconds();
  for (int i = 0; i < n; ++i) {
    if (i == n / 2) { s0 = qs_sim_seconds(); t.Reset(); s1 = qs_sim_seconds(); }
    const double a = qs_sim_seconds();
    const double v = t.Measure();
    const double b = qs_sim_seconds();
    out.push_back({ v, a - s1, b - s0 });
  }
}

WalkResult grid_walk(const Spec& s, const geo::Mesh& gm, bool reverse_order) {
  using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
  using Dir = Grid::Direction;
  WalkResult r;
  auto settings = make_settings(s);
  TriangleMesh mesh;
  fill_mesh(mesh, gm);
  BRepOperator op(mesh.View());
  Grid grid(*settings);
  GridIndexer ix(*settings);
  auto st = op.pGetElementClassifications(*settings);
  TrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> tb(*settings, op);
  UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> ub(*settings);
  const int n = static_cast<int>(st->size());
  std::vector<char> made(static_cast<size_t>(n), 0);
#pragma omp parallel for schedule(dynamic)
  for (int k = 0; k < n; ++k) {
    const IndexType i = static_cast<IndexType>(reverse_order ? n - 1 - k : k);
    const ElementBounds b{ ix.GetBoundingBoxXYZFromIndex(i), ix.GetBoundingBoxUVWFromIndex(i) };
    bool ok = false;
    if ((*st)[i] == IntersectionState::trimmed) ok = grid.MakeElement(tb, i + 1, b);
    else if ((*st)[i] == IntersectionState::inside) ok = grid.MakeElement(ub, i + 1, b);
    made[i] = ok ? ((*st)[i] == IntersectionState::trimmed ? 2 : 1) : 0;
  }
  grid.LockElements();
  std::set<IndexType> ids;
  for (const auto& e : grid.GetElementViews()) {
    ++r.cells;
    if (!ids.insert(e.GetId()).second) { r.error = "cell " + std::to_string(e.GetId()) + " stored twice"; return r; }
  }
  std::array<int, 3> N = s.n;
  auto bounds_ok = [&](const auto& e, IndexType id) {
    const auto b = ix.GetBoundingBoxXYZFromIndex(id - 1);
    const auto& c = e.template GetCellBounds<CoordinateSpace::global>();
    for (size_t k = 0; k < 3; ++k) if (std::abs(b.lower[k] - c.lower[k]) > 0 || std::abs(b.upper[k] - c.upper[k]) > 0) return false;
    return true;
  };
  for (int i = 0; i < n; ++i) {
    const IndexType id = static_cast<IndexType>(i) + 1;
    const auto v = grid.GetElementView(id);
    ++r.lookups;
    const int want = made[static_cast<size_t>(i)];
    if (static_cast<bool>(v) != (want != 0)) { r.error = "lookup of cell " + std::to_string(id) + (v ? " finds a cell that was not stored" : " does not find the stored cell"); return r; }
    if (v && (v->GetId() != id || v->IsTrimmed() != (want == 2))) { r.error = "lookup of cell " + std::to_string(id) + " returns cell " + std::to_string(v->GetId()); return r; }
    if (v && !bounds_ok(*v, id)) { r.error = "cell " + std::to_string(id) + " has the bounds of another cell"; return r; }
    const bool ft = static_cast<bool>(grid.template GetElementView<Grid::ElementFilter::trimmed>(id)), fu = static_cast<bool>(grid.template GetElementView<Grid::ElementFilter::untrimmed>(id));
    if (ft != (want == 2) || fu != (want == 1)) { r.error = "filtered lookup of cell " + std::to_string(id) + " is wrong"; return r; }
  }
  // walking: every step must arrive at the neighbour in that direction
  const Dir dirs[6] = { Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward };
  for (int dd = 0; dd < 6; ++dd) {
    const int ax = dd / 2, sg = dd % 2 ? -1 : 1;
    for (int i = 0; i < n; ++i) {
      int c[3] = { i % N[0], (i / N[0]) % N[1], i / (N[0] * N[1]) };
      const int old = c[ax];
      c[ax] += sg;
      ++r.steps;
      const bool last = old + sg < 0 || old + sg >= N[static_cast<size_t>(ax)];
      if (grid.IsEnd(static_cast<IndexType>(i) + 1, dirs[dd]) != last) { r.error = "cell " + std::to_string(i + 1) + (last ? " is not" : " is") + " reported as the last one in direction " + std::to_string(dd); return r; }
      const auto res = grid.GetNextElementView(static_cast<IndexType>(i) + 1, dirs[dd]);
      if (old + sg >= 0 && old + sg < N[static_cast<size_t>(ax)]) {
        const IndexType want = static_cast<IndexType>(c[0] + N[0] * (c[1] + N[1] * c[2])) + 1;
        if (res.next_id != want) { r.error = "step " + std::to_string(dd) + " from cell " + std::to_string(i + 1) + " leads to " + std::to_string(res.next_id) + " instead of " + std::to_string(want); return r; }
        const bool have = made[want - 1] != 0;
        if (static_cast<bool>(res.element) != have) { r.error = "step " + std::to_string(dd) + " from cell " + std::to_string(i + 1) + (have ? " misses a stored cell" : " finds a cell that is not stored"); return r; }
        if (res.element && res.element->GetId() != want) { r.error = "step from cell " + std::to_string(i + 1) + " returns the wrong cell"; return r; }
        if (!have && !res.is_end) { r.error = "step into a missing cell is not reported as an end"; return r; }
        const auto* pt = grid.template GetNextElement<Grid::ElementFilter::trimmed>(static_cast<IndexType>(i) + 1, dirs[dd]).p_element;
        const auto* pu = grid.template GetNextElement<Grid::ElementFilter::untrimmed>(static_cast<IndexType>(i) + 1, dirs[dd]).p_element;
        if ((pt != nullptr) != (made[want - 1] == 2) || (pu != nullptr) != (made[want - 1] == 1) || (pt && pt->GetId() != want) || (pu && pu->GetId() != want)) { r.error = "filtered step " + std::to_string(dd) + " from cell " + std::to_string(i + 1) + " is wrong"; return r; }
      } else if (!res.is_end) { r.error = "leaving the grid from cell " + std::to_string(i + 1) + " is not reported as an end"; return r; }
    }
  }
  return r;
}

std::vector<Clip> clip(const geo::Mesh& gm, const std::vector<std::pair<geo::V3, geo::V3>>& boxes, double min_ratio, uint64_t min_triangles, bool neglect) {
  TriangleMesh mesh;
  fill_mesh(mesh, gm);
  BRepOperator op(mesh.View());
  std::vector<Clip> r(boxes.size());
#pragma omp parallel for schedule(dynamic)
  for (int k = 0; k < static_cast<int>(boxes.size()); ++k) {
    auto& c = r[static_cast<size_t>(k)];
    const PointType lo = pt(boxes[static_cast<size_t>(k)].first), hi = pt(boxes[static_cast<size_t>(k)].second);
    c.cut = op.IsTrimmed(lo, hi);
    if (!c.cut) continue;
    const auto d = op.pGetTrimmedDomain(lo, hi, min_ratio, min_triangles, neglect);
    if (!d) continue;
    c.made = true;
    d->GetBoundaryMesh().template VisitEachTriangle<WithoutNormals>([&](const auto& t) {
      const int n = static_cast<int>(c.mesh.v.size());
      for (const auto& q : { t.P1, t.P2, t.P3 }) c.mesh.v.push_back({ q[0], q[1], q[2] });
      c.mesh.t.push_back({ n, n + 1, n + 2 });
    });
  }
  return r;
}

namespace {
struct SurfNum { IndexType operator()(const geo::Mesh& m) const { return m.t.size(); } };
struct SurfTri {
  TriangleProxy<WithoutNormals> operator()(const geo::Mesh& m, IndexType i) const {
    auto f = [&](size_t k) { const auto& p = m.v[static_cast<size_t>(m.t[i][k])]; return PointView(p.data(), 3); };
    return { f(0), f(1), f(2) };
  }
};
TriangleMesh& nat(const Surface& s) { return *static_cast<TriangleMesh*>(s.native.get()); }
std::shared_ptr<Surface> wrap(TriangleMesh&& m) { auto s = std::make_shared<Surface>(); s->native = std::make_shared<TriangleMesh>(std::move(m)); return s; }
// a copy of a view whose original is gone
TriangleMeshView view_of(const Surface& s, bool foreign) {
  auto first = std::make_unique<TriangleMeshView>(foreign ? TriangleMeshView(s.foreign, SurfNum{}, SurfTri{}) : nat(s).View());
  TriangleMeshView v(*first);
  first.reset();
  return v;
}
template <class T> Tri plain(const T& t) {
  Tri r;
  for (size_t d = 0; d < 3; ++d) { r.p[0][d] = t.P1[d]; r.p[1][d] = t.P2[d]; r.p[2][d] = t.P3[d]; }
  if constexpr (requires { t.Normal; }) for (size_t d = 0; d < 3; ++d) r.n[d] = t.Normal[d];
  else r.n = { 0, 0, 0 };
  return r;
}
template <class Mode> std::vector<Tri> look(const TriangleMeshView& v, int how, const std::vector<uint64_t>& ids, bool all, uint64_t stop) {
  std::vector<Tri> r;
  auto one = [&](const auto& t) {
    r.push_back(plain(t));
    return r.size() >= stop ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop;
  };
  auto many = [&](auto&& range) { for (const auto& t : range) { if (r.size() >= stop) break; r.push_back(plain(t)); } };
  switch (how) {
    case 0: if (all) v.VisitEachTriangle<Mode>(one); else v.VisitEachTriangle<Mode>(ids, one); break;
    case 1: if (all) v.Visit<Mode>(many); else v.Visit<Mode>(ids, many); break;
    case 2: if (all) many(v.Triangles<Mode>()); else many(v.Triangles<Mode>(ids)); break;
    default:
      if (all) for (IndexType k = 0; k < v.NumOfTriangles() && r.size() < stop; ++k) r.push_back(plain(v.Triangle<Mode>(k)));
      else for (auto k : ids) { if (r.size() >= stop) break; r.push_back(plain(v.Triangle<Mode>(k))); }
  }
  return r;
}
} // namespace
std::shared_ptr<Surface> surf_make(const geo::Mesh& g) { TriangleMesh m; fill_mesh(m, g); return wrap(std::move(m)); }
std::shared_ptr<Surface> surf_box(const geo::V3& lo, const geo::V3& hi) { return wrap(MeshUtilities::MakeMeshBox(pt(lo), pt(hi))); }
std::shared_ptr<Surface> surf_copy(const Surface& s) { TriangleMesh m = nat(s); return wrap(std::move(m)); }
void surf_refine(Surface& s, uint64_t n) { MeshUtilities::Refine(nat(s), n); }
void surf_append(Surface& s, const Surface& o) { MeshUtilities::Append(nat(s), nat(o)); }
void surf_add(Surface& s, const geo::V3& a, const geo::V3& b, const geo::V3& c) {
  auto& m = nat(s);
  const auto i = m.AddVertex(pt(a)), j = m.AddVertex(pt(b)), k = m.AddVertex(pt(c));
  geo::V3 n = geo::cross(b - a, c - a);
  const double l = geo::norm(n);
  if (l > 0) n = (1 / l) * n;
  m.AddTriangle(Vector3i{ i, j, k }, Vector3d{ n[0], n[1], n[2] });
}
void surf_remove(Surface& s, uint64_t k) { nat(s).RemoveTriangle(k); }
void surf_clear(Surface& s) { nat(s).Clear(); }
void surf_move(Surface& s) { TriangleMesh m(std::move(nat(s))); TriangleMesh o; o = std::move(m); nat(s) = std::move(o); }
void surf_check(const Surface& s) { nat(s).Check(); }
std::vector<Tri> surf_tris(const Surface& s, std::string& broken) {
  const auto& m = nat(s);
  std::vector<Tri> r;
  if (m.Normals().size() != m.TriangleIndices().size() || m.NumOfTriangles() != m.TriangleIndices().size()) { broken = "the numbers of triangles and normals differ"; return r; }
  for (IndexType k = 0; k < m.NumOfTriangles(); ++k) {
    const auto& t = m.TriangleIndices()[k];
    Tri x;
    for (size_t c = 0; c < 3; ++c) {
      if (t[c] >= m.NumOfVertices() || t[c] >= m.Vertices().size()) { broken = "a triangle has a vertex that does not exist"; return r; }
      for (size_t d = 0; d < 3; ++d) x.p[c][d] = m.Vertex(t[c])[d];
    }
    for (size_t d = 0; d < 3; ++d) x.n[d] = m.Normal(k)[d];
    r.push_back(x);
  }
  return r;
}
void surf_foreign(Surface& s) {
  const auto& m = nat(s);
  s.foreign = {};
  for (const auto& v : m.Vertices()) s.foreign.v.push_back({ v[0], v[1], v[2] });
  for (const auto& t : m.TriangleIndices()) s.foreign.t.push_back({ static_cast<int>(t[0]), static_cast<int>(t[1]), static_cast<int>(t[2]) });
}
Measures surf_measure(const Surface& s, bool foreign) {
  const auto v = view_of(s, foreign);
  Measures r;
  using namespace MeshUtilities;
  r.vol_omp = VolumeOMP(v); r.area_omp = AreaOMP(v); r.area = Area(v); r.vol = Volume(v);
  r.max_ratio = MaxAspectRatio(v); r.avg_ratio = AverageAspectRatio(v); r.quality = EstimateQuality(v);
  for (size_t d = 0; d < 3; ++d) r.dir[d] = Volume(v, d);
  const auto b = MeshUtilities::BoundingBox(v);
  for (size_t d = 0; d < 3; ++d) { r.lo[d] = b.first[d]; r.hi[d] = b.second[d]; }
  return r;
}
std::vector<Tri> surf_view(const Surface& s, bool foreign, int how, const std::vector<uint64_t>& ids, bool all, uint64_t stop, bool normals) {
  const auto v = view_of(s, foreign);
  return normals ? look<WithNormals>(v, how, ids, all, stop) : look<WithoutNormals>(v, how, ids, all, stop);
}
std::shared_ptr<Brep> surf_brep(const Surface& s, bool foreign) {
  auto b = std::make_shared<Brep>();
  b->op = std::make_unique<BRepOperator>(view_of(s, foreign));
  return b;
}

std::string exception_text(std::exception_ptr p) {
  try { std::rethrow_exception(p); }
  catch (const std::bad_alloc&) { return "std::bad_alloc"; }
  catch (const std::exception& e) { return e.what(); }
  catch (...) { return "unknown exception"; }
}
bool is_library_error(std::exception_ptr p) {
  try { std::rethrow_exception(p); }
  catch (const queso::Exception&) { return true; }
  catch (...) { return false; }
}

} // namespace api
