// The only place where the harness talks to the library. api_model.cpp and api_misc.cpp are compiled like the library
// itself (with its headers, instrumented); everything on the other side of this interface uses plain types.
#pragma once
#include "geom.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace api {

struct CondSpec { uint64_t id = 1; std::string type = "PenaltySupportCondition"; std::string file; double penalty = 1e10; geo::V3 value{ 0, 0, 0 }; bool with_value = true; };
struct Spec {
  int grid = 0;                 // 0 b_spline_grid, 1 hexahedral_fe_grid
  std::array<int, 3> n{ 2, 2, 2 };
  geo::V3 lo{ 0, 0, 0 }, hi{ 1, 1, 1 }, plo{ 0, 0, 0 }, phi{ 1, 1, 1 };
  std::array<int, 3> order{ 2, 2, 2 };
  int method = 0;               // gauss, reduced1, reduced2, ggq_optimal, ggq_reduced1, ggq_reduced2
  double residual = 1e-6;
  double min_ratio = 1e-3;
  int min_triangles = 100;
  bool neglect = true;
  double alpha = -1;            // < 0: not set
  int echo = 0;
  bool write = true;
  std::string input = "/sim/in/mesh.stl", out = "/sim/out";
  std::vector<CondSpec> conds;
};

struct Cell {
  uint64_t id = 0;
  bool trimmed = false;
  geo::V3 lo, hi, plo, phi;
  double detj = 0;
  std::vector<std::array<double, 4>> pts, gpts; // parametric, global
};
struct Segment { bool active = false; uint64_t parent = 0; std::vector<std::array<geo::V3, 4>> tris; /* 3 corners, normal */ };
struct Cond { uint64_t id = 0, settings_id = 0; double area = 0, perc = 0; std::vector<Segment> segs; };
struct Snapshot {
  std::vector<Cell> cells;
  std::vector<Cond> conds;
  std::map<std::string, double> info;   // "quadrature_info.tot_num_points", ...
};
struct MeshOut { std::vector<geo::V3> v, n; std::vector<std::array<uint64_t, 3>> t; };

// All functions may throw whatever the library throws.
struct Model;                            // EmbeddedModel plus the meshes it was built from
std::shared_ptr<Model> create(const Spec& s);
void set_mesh(Model& m, const geo::Mesh& mesh);            // native mesh
void create_volume(Model& m);                              // from the mesh set before
void create_volume_foreign(Model& m, const geo::Mesh& mesh); // through the adapter for foreign meshes
void create_condition(Model& m, const geo::Mesh& mesh, const CondSpec& c);
void create_all(Model& m);                                 // CreateAllFromSettings
void write(Model& m);
void drop_meshes(Model& m);                                // frees the meshes the model was built from
Snapshot snapshot(const Model& m);
uint64_t read_everything(const Model& m, const std::vector<geo::V3>& probes, int which); // reads through every const accessor, returns a digest
int inside_active_domain(const Model& m, uint64_t cell, const geo::V3& p); // -1: no such trimmed cell


// Queries about the part of a cell that lies in the body, in global (par = false) or parametric coordinates.
struct Query { uint64_t cell = 0; bool box = false, par = false; geo::V3 a, b; };   // point a, or box from a to b
std::vector<int> ask(const Model& m, const std::vector<Query>& q);                 // points: 0/1; boxes: 0 inside 1 outside 2 trimmed; -1: no such cell
struct Domain { uint64_t id = 0; bool trimmed = false; geo::V3 lo, hi, plo, phi; double area = 0, volume = 0, ip_area = 0, ip_volume = 0; std::vector<geo::V3> ips, pips; };
std::vector<Domain> domains(const Model& m);                                       // bounds, boundary mesh and boundary points of all stored cells
void move_model(Model& m);                                 // moves the finished model to another place and back

// A grid filled by the harness with the library's builders from an OpenMP loop (as EmbeddedModel does), to walk it.
struct WalkResult { std::string error; uint64_t cells = 0, lookups = 0, steps = 0; };
WalkResult grid_walk(const Spec& s, const geo::Mesh& mesh, bool reverse_order);

// The closed mesh that the library makes for the part of a box that lies in the body, for each box that is cut.
struct Clip { bool cut = false, made = false; geo::Mesh mesh; };
std::vector<Clip> clip(const geo::Mesh& mesh, const std::vector<std::pair<geo::V3, geo::V3>>& boxes, double min_ratio, uint64_t min_triangles, bool neglect);

struct Brep;
std::shared_ptr<Brep> brep(const geo::Mesh& mesh);
bool is_inside(const Brep& b, const geo::V3& p);
int box_state(const Brep& b, const geo::V3& lo, const geo::V3& hi); // 0 inside 1 outside 2 trimmed
std::vector<int> classify(const Brep& b, const Spec& s);

MeshOut read_stl(const std::string& path);
void write_mesh(const geo::Mesh& m, const std::string& path, bool vtk, bool binary);
void write_condition_ascii(const Model& m, size_t k, const std::string& path);
void timer_probe(std::vector<std::array<double, 3>>& out, int n); // elapsed times measured by the library's timer

// Settings and info dictionaries. A path names a dictionary in a dictionary: sub dictionary names, or "list#k".
enum ValType { V_UNSET, V_STRING, V_INDEX, V_DOUBLE, V_BOOL, V_VEC3, V_IVEC3, V_METHOD, V_GRID };
struct Val {
  int type = V_UNSET;
  std::string s;
  uint64_t i = 0;
  double d = 0;
  bool b = false;
  geo::V3 v{ 0, 0, 0 };
  std::array<uint64_t, 3> iv{ 0, 0, 0 };
  bool operator==(const Val& o) const { return type == o.type && s == o.s && i == o.i && d == o.d && b == o.b && v == o.v && iv == o.iv; }
};
using Path = std::vector<std::string>;
struct Settings;
std::shared_ptr<Settings> dict_create(const std::string& name);
void dict_set(Settings& d, const Path& p, const std::string& key, const Val& v);
void dict_set_signed(Settings& d, const Path& p, const std::string& key, int v);
bool dict_set_typed(Settings& d, const Path& p, const std::string& key, const Val& v);    // by the key's C++ name; false: there is none
Val dict_get(const Settings& d, const Path& p, const std::string& key, int type);
bool dict_get_typed(const Settings& d, const Path& p, const std::string& key, Val& out);  // false: there is no such C++ name; the required values have to be checked before
bool dict_is_set(const Settings& d, const Path& p, const std::string& key);
bool dict_has(const Settings& d, const Path& p, const std::string& key);
void dict_resolve(const Settings& d, const Path& p);
uint64_t dict_list_size(const Settings& d, const Path& p, const std::string& list);
void dict_append(Settings& d, const Path& p, const std::string& list, const std::string& what);
void dict_check_required(const Settings& d);
void dict_check_settings(const Settings& d);
std::string dict_print(const Settings& d);
void dict_move(Settings& d);
void dict_to_model(Settings& d);                            // makes a model of the settings, which takes them over unless they are refused
bool dict_in_model(const Settings& d);

// Meshes as containers: operations, views and measures.
struct Surface { geo::Mesh foreign; std::shared_ptr<void> native; };
struct Measures { double area = 0, area_omp = 0, vol = 0, vol_omp = 0, max_ratio = 0, avg_ratio = 0, quality = 0; geo::V3 dir{ 0, 0, 0 }, lo{ 0, 0, 0 }, hi{ 0, 0, 0 }; };
struct Tri { geo::V3 p[3], n; bool operator==(const Tri& o) const { return p[0] == o.p[0] && p[1] == o.p[1] && p[2] == o.p[2] && n == o.n; } };
std::shared_ptr<Surface> surf_make(const geo::Mesh& m);
std::shared_ptr<Surface> surf_box(const geo::V3& lo, const geo::V3& hi);
std::shared_ptr<Surface> surf_copy(const Surface& s);
void surf_refine(Surface& s, uint64_t n);
void surf_append(Surface& s, const Surface& o);
void surf_add(Surface& s, const geo::V3& a, const geo::V3& b, const geo::V3& c);
void surf_remove(Surface& s, uint64_t k);
void surf_clear(Surface& s);
void surf_move(Surface& s);                                       // to another place and back
void surf_check(const Surface& s);                                // the library's own check
std::vector<Tri> surf_tris(const Surface& s, std::string& broken); // broken: what does not fit together
void surf_foreign(Surface& s);                                    // makes the copy that is seen through the adapter for foreign meshes
Measures surf_measure(const Surface& s, bool foreign);
std::vector<Tri> surf_view(const Surface& s, bool foreign, int how, const std::vector<uint64_t>& ids, bool all, uint64_t stop, bool normals);
std::shared_ptr<Brep> surf_brep(const Surface& s, bool foreign);

std::string exception_text(std::exception_ptr p);
bool is_library_error(std::exception_ptr p);
} // namespace api
