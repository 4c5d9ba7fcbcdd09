// Test cases drawn from a plan: bodies, grids, conditions; and the expectations the reference geometry gives for them.
#pragma once
#include "core.h"

namespace cases {

struct Opt {
  int max_cells = 48;      // cells of the grid
  int long_cells = 0;      // > 0: allow up to this many cells along one direction
  int min_conds = 0, max_conds = 2;
  int max_order = 3;
  bool ggq = true;
  bool float_mesh = false; // coordinates representable in single precision
  bool simple_bodies = false; // few triangles
  bool alpha = false;      // allow the fictitious domain option
  bool dense = false;      // finer grids, so that there are full cells
  int max_triangles = 700;
  bool window = false;     // grids that hold only a part of the body
  bool touch = false;      // grids with planes that go through vertices (edges, ridges) of the body
  bool slivers = false;    // bodies that are very thin compared to the cells, kept whatever their volume
};
struct Case {
  geo::Mesh mesh;
  api::Spec spec;
  std::vector<geo::Mesh> cmesh;
  double size = 1;             // largest extent of the body
  bool sliver = false;
  std::string text;            // one line for humans
};
Case draw(const Opt& o, const std::string& prefix = "");
void block_with_voids(Case& c, const std::string& prefix = "");   // replaces the body by one that is arranged around the grid of the case
geo::Mesh draw_body(const std::string& prefix, const Opt& o, std::string& text);
std::vector<geo::Mesh> damage(const geo::Mesh& m, const std::string& prefix, std::string& text); // one element

struct CellBox { geo::V3 lo, hi; double vol; };
std::vector<CellBox> grid_boxes(const api::Spec& s);

// state the surface demands for a cell: 0 inside, 1 outside, 2 cut; -1 touches only (inside), -2 touches only (outside), -3 undecided
int expected_state(const geo::Mesh& m, const CellBox& b, double size);

// builds volume (and conditions) inside an open phase
std::shared_ptr<api::Model> build(const Case& c, bool conditions = true);

// comparisons; return "" when equal
std::string same_exact(const api::Snapshot& a, const api::Snapshot& b);           // everything but elapsed times; areas/volumes to rounding
std::string same_close(const api::Snapshot& a, const api::Snapshot& b, const Case& c); // tolerance for redrawn random numbers

// checks of a snapshot against the reference; throw Violation
void check_storage(const api::Snapshot& s, const Case& c);      // C06
void check_cut_cells(const api::Snapshot& s, const Case& c);    // C07
void check_full_cells(const api::Snapshot& s, const Case& c);   // C08
void check_conditions(const api::Snapshot& s, const Case& c);   // C09

// files of a written model against the snapshot
void check_files(const api::Snapshot& s, const Case& c, bool check_times = true);
std::vector<std::string> expected_files(const Case& c, const api::Snapshot& s);
std::string disk_file(const std::string& path);   // content; throws Violation when missing
bool disk_has(const std::string& path);
uint64_t disk_digest(const std::string& dir, bool skip_times);

struct StlContent { std::vector<std::array<float, 12>> tris; std::string error; };
StlContent parse_stl_binary(const std::string& bytes);
} // namespace cases
