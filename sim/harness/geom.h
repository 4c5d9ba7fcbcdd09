// Geometry for the harness: closed test meshes and an independent reference for everything the library computes about
// them (inside/outside, volumes and moments inside boxes, surface areas inside boxes, touching and crossing of boxes).
// Shares no code with the library.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>

namespace geo {

using V3 = std::array<double, 3>;
struct Mesh {
  std::vector<V3> v;
  std::vector<std::array<int, 3>> t;
  const V3& p(size_t tri, int k) const { return v[static_cast<size_t>(t[tri][static_cast<size_t>(k)])]; }
};

inline V3 operator+(const V3& a, const V3& b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
inline V3 operator-(const V3& a, const V3& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
inline V3 operator*(double s, const V3& a) { return { s * a[0], s * a[1], s * a[2] }; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
double norm(const V3& a);

// --- construction (closed, outward oriented, unless flipped) ---
Mesh box(const V3& lo, const V3& hi);
Mesh tetra(const V3& c, double r);
Mesh octahedron(const V3& c, double r);
Mesh prism(int n, const V3& c, double r, double h, double taper /* top radius factor */);
Mesh sphere(int nu, int nv, const V3& c, double r, double bump, uint64_t seed);
Mesh torus(int nu, int nv, const V3& c, double R, double r);
Mesh lshape(const V3& lo, const V3& hi, double fx, double fy);
void flip(Mesh& m);
void append(Mesh& m, const Mesh& o);
void rotate(Mesh& m, const V3& axis, double angle, const V3& center);
void scale(Mesh& m, const V3& s, const V3& shift);
void subdivide(Mesh& m);              // every triangle into four
void to_float(Mesh& m);               // coordinates representable in single precision
void weld(Mesh& m);                   // merge equal vertices
bool is_closed(const Mesh& m);        // every directed edge has exactly one opposite
Mesh hull(const std::vector<V3>& pts);   // convex hull of points in general position on a sphere around their mean
void shuffle(Mesh& m, uint64_t seed); // order of triangles, rotation of vertices

// --- reference values ---
void bounds(const Mesh& m, V3& lo, V3& hi);
double volume(const Mesh& m);
double area(const Mesh& m);
double winding(const Mesh& m, const V3& p);           // ~1 inside, ~0 outside
double distance(const Mesh& m, const V3& p);          // to the surface
double area_in_box(const Mesh& m, const V3& lo, const V3& hi);
// half-open convention: parts of the surface that lie in a face plane count for the box on its lower side
bool crosses(const Mesh& m, const V3& lo, const V3& hi);   // some triangle meets the closed box
void plane_gaps(const Mesh& m, const V3& lo, const V3& hi, std::vector<double>& gaps);   // over all triangles and planes of the box: the greatest distance of a corner from the plane
// moments of the body inside the box: Legendre products P_i(x)P_j(y)P_k(z), i<=n[0], ... on the box mapped to [-1,1]^3;
// order: i slowest. moments[0] is the volume.
std::vector<double> moments_in_box(const Mesh& m, const V3& lo, const V3& hi, const std::array<int, 3>& n);
double volume_in_box(const Mesh& m, const V3& lo, const V3& hi);
double legendre(int n, double x);
double tri_box_area(const V3& a, const V3& b, const V3& c, const V3& lo, const V3& hi);

// --- STL text/bytes ---
// normals: 0 those of the triangles, 1 zero, 2 wrong ones (readers have to ignore them)
std::string stl_ascii(const Mesh& m, const std::string& name, int style, int normals = 0); // style: 0 plain, 1 scientific, 2 indented + CRLF-free extra blanks
std::string stl_binary(const Mesh& m, const std::string& header, char fill = 0, int normals = 0, bool colours = false);

} // namespace geo
