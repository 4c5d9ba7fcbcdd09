#include "geom.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>

namespace geo {

double norm(const V3& a) { return std::sqrt(dot(a, a)); }

static uint64_t mix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static double unit(uint64_t& s) { return static_cast<double>(mix(s) >> 11) * 0x1p-53; }

Mesh box(const V3& a, const V3& b) {
  Mesh m;
  for (int k = 0; k < 8; ++k) m.v.push_back({ (k & 1) ? b[0] : a[0], (k & 2) ? b[1] : a[1], (k & 4) ? b[2] : a[2] });
  m.t = { {0,2,1},{1,2,3},{4,5,6},{5,7,6},{0,1,4},{1,5,4},{2,6,3},{3,6,7},{0,4,2},{2,4,6},{1,3,5},{3,7,5} };
  return m;
}
Mesh tetra(const V3& c, double r) {
  Mesh m;
  m.v = { c + V3{ r, r, r }, c + V3{ r, -r, -r }, c + V3{ -r, r, -r }, c + V3{ -r, -r, r } };
  m.t = { {0,1,2},{0,3,1},{0,2,3},{1,3,2} };
  if (volume(m) < 0) flip(m);
  return m;
}
Mesh octahedron(const V3& c, double r) {
  Mesh m;
  m.v = { c + V3{ r,0,0 }, c + V3{ -r,0,0 }, c + V3{ 0,r,0 }, c + V3{ 0,-r,0 }, c + V3{ 0,0,r }, c + V3{ 0,0,-r } };
  m.t = { {0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5} };
  return m;
}
Mesh prism(int n, const V3& c, double r, double h, double taper) {
  Mesh m;
  for (int l = 0; l < 2; ++l)
    for (int i = 0; i < n; ++i) {
      double a = 2 * M_PI * i / n, rr = l ? r * taper : r;
      m.v.push_back(c + V3{ rr * std::cos(a), rr * std::sin(a), (l ? 0.5 : -0.5) * h });
    }
  m.v.push_back(c + V3{ 0, 0, -0.5 * h });
  m.v.push_back(c + V3{ 0, 0, 0.5 * h });
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n;
    m.t.push_back({ i, j, n + i });
    m.t.push_back({ j, n + j, n + i });
    m.t.push_back({ j, i, 2 * n });
    m.t.push_back({ n + i, n + j, 2 * n + 1 });
  }
  return m;
}
Mesh sphere(int nu, int nv, const V3& c, double r, double bump, uint64_t seed) {
  Mesh m;
  auto rad = [&](void) { return r * (1.0 + bump * (2 * unit(seed) - 1)); };
  m.v.push_back(c + V3{ 0, 0, -rad() });
  for (int i = 1; i < nv; ++i)
    for (int j = 0; j < nu; ++j) {
      double th = M_PI * i / nv - M_PI / 2, ph = 2 * M_PI * j / nu, rr = rad();
      m.v.push_back(c + V3{ rr * std::cos(th) * std::cos(ph), rr * std::cos(th) * std::sin(ph), rr * std::sin(th) });
    }
  m.v.push_back(c + V3{ 0, 0, rad() });
  const int top = static_cast<int>(m.v.size()) - 1;
  auto id = [&](int i, int j) { return 1 + (i - 1) * nu + (j % nu); };
  for (int j = 0; j < nu; ++j) {
    m.t.push_back({ 0, id(1, j + 1), id(1, j) });
    m.t.push_back({ top, id(nv - 1, j), id(nv - 1, j + 1) });
    for (int i = 1; i + 1 < nv; ++i) {
      m.t.push_back({ id(i, j), id(i, j + 1), id(i + 1, j) });
      m.t.push_back({ id(i, j + 1), id(i + 1, j + 1), id(i + 1, j) });
    }
  }
  if (volume(m) < 0) flip(m);
  return m;
}
Mesh torus(int nu, int nv, const V3& c, double R, double r) {
  Mesh m;
  for (int i = 0; i < nu; ++i)
    for (int j = 0; j < nv; ++j) {
      double a = 2 * M_PI * i / nu, b = 2 * M_PI * j / nv;
      m.v.push_back(c + V3{ (R + r * std::cos(b)) * std::cos(a), (R + r * std::cos(b)) * std::sin(a), r * std::sin(b) });
    }
  auto id = [&](int i, int j) { return (i % nu) * nv + (j % nv); };
  for (int i = 0; i < nu; ++i)
    for (int j = 0; j < nv; ++j) {
      m.t.push_back({ id(i, j), id(i + 1, j), id(i, j + 1) });
      m.t.push_back({ id(i + 1, j), id(i + 1, j + 1), id(i, j + 1) });
    }
  if (volume(m) < 0) flip(m);
  return m;
}
Mesh lshape(const V3& a, const V3& b, double fx, double fy) {
  const double mx = a[0] + fx * (b[0] - a[0]), my = a[1] + fy * (b[1] - a[1]);
  const double P[6][2] = { {a[0], a[1]}, {b[0], a[1]}, {b[0], my}, {mx, my}, {mx, b[1]}, {a[0], b[1]} };
  Mesh m;
  for (int l = 0; l < 2; ++l) for (auto& q : P) m.v.push_back({ q[0], q[1], l ? b[2] : a[2] });
  const int tri[4][3] = { {0,1,2}, {0,2,3}, {0,3,4}, {0,4,5} };
  for (auto& q : tri) { m.t.push_back({ q[0], q[2], q[1] }); m.t.push_back({ q[0] + 6, q[1] + 6, q[2] + 6 }); }
  for (int i = 0; i < 6; ++i) { int j = (i + 1) % 6; m.t.push_back({ i, j, i + 6 }); m.t.push_back({ j, j + 6, i + 6 }); }
  return m;
}
void flip(Mesh& m) { for (auto& t : m.t) std::swap(t[1], t[2]); }
void append(Mesh& m, const Mesh& o) {
  int k = static_cast<int>(m.v.size());
  m.v.insert(m.v.end(), o.v.begin(), o.v.end());
  for (auto t : o.t) m.t.push_back({ t[0] + k, t[1] + k, t[2] + k });
}
void rotate(Mesh& m, const V3& ax, double ang, const V3& c) {
  double n = norm(ax);
  if (n == 0 || ang == 0) return;
  V3 k = (1 / n) * ax;
  for (auto& p : m.v) {
    V3 q = p - c;
    p = c + std::cos(ang) * q + std::sin(ang) * cross(k, q) + (dot(k, q) * (1 - std::cos(ang))) * k;
  }
}
void scale(Mesh& m, const V3& s, const V3& d) { for (auto& p : m.v) for (size_t i = 0; i < 3; ++i) p[i] = p[i] * s[i] + d[i]; }
void subdivide(Mesh& m) {
  std::map<std::pair<int, int>, int> mid;
  auto half = [&](int a, int b) {
    auto key = std::minmax(a, b);
    auto it = mid.find(key);
    if (it != mid.end()) return it->second;
    m.v.push_back(0.5 * (m.v[static_cast<size_t>(a)] + m.v[static_cast<size_t>(b)]));
    return mid[key] = static_cast<int>(m.v.size()) - 1;
  };
  auto old = m.t;
  m.t.clear();
  for (auto& t : old) {
    int a = half(t[0], t[1]), b = half(t[1], t[2]), c = half(t[2], t[0]);
    m.t.push_back({ t[0], a, c }); m.t.push_back({ a, t[1], b }); m.t.push_back({ c, b, t[2] }); m.t.push_back({ a, b, c });
  }
}
void to_float(Mesh& m) { for (auto& p : m.v) for (auto& x : p) { float f = static_cast<float>(x); x = f == 0.0f ? 0.0 : static_cast<double>(f); } }
void weld(Mesh& m) {
  std::map<V3, int> id;
  std::vector<V3> nv;
  for (auto& t : m.t)
    for (auto& k : t) {
      auto [it, ins] = id.try_emplace(m.v[static_cast<size_t>(k)], static_cast<int>(nv.size()));
      if (ins) nv.push_back(it->first);
      k = it->second;
    }
  m.v = nv;
}
bool is_closed(const Mesh& m) {
  std::map<std::pair<int, int>, int> e;
  for (auto& t : m.t) for (size_t k = 0; k < 3; ++k) { if (t[k] == t[(k + 1) % 3]) return false; ++e[{ t[k], t[(k + 1) % 3] }]; }
  for (auto& [k, n] : e) { auto it = e.find({ k.second, k.first }); if (n != 1 || it == e.end() || it->second != 1) return false; }
  return true;
}
void shuffle(Mesh& m, uint64_t s) {
  for (size_t i = m.t.size(); i > 1; --i) std::swap(m.t[i - 1], m.t[mix(s) % i]);
  for (auto& t : m.t) { size_t k = mix(s) % 3; std::rotate(t.begin(), t.begin() + static_cast<long>(k), t.end()); }
}

void bounds(const Mesh& m, V3& lo, V3& hi) {
  lo = { 1e300, 1e300, 1e300 }; hi = { -1e300, -1e300, -1e300 };
  for (auto& p : m.v) for (size_t i = 0; i < 3; ++i) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); }
}
double volume(const Mesh& m) {
  if (m.v.empty()) return 0;
  V3 c = m.v[0];
  double s = 0;
  for (size_t i = 0; i < m.t.size(); ++i) s += dot(m.p(i, 0) - c, cross(m.p(i, 1) - c, m.p(i, 2) - c));
  return s / 6;
}
double area(const Mesh& m) {
  double s = 0;
  for (size_t i = 0; i < m.t.size(); ++i) s += 0.5 * norm(cross(m.p(i, 1) - m.p(i, 0), m.p(i, 2) - m.p(i, 0)));
  return s;
}
double winding(const Mesh& m, const V3& q) {
  double s = 0;
  for (size_t i = 0; i < m.t.size(); ++i) {
    V3 a = m.p(i, 0) - q, b = m.p(i, 1) - q, c = m.p(i, 2) - q;
    double la = norm(a), lb = norm(b), lc = norm(c);
    s += 2 * std::atan2(dot(a, cross(b, c)), la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb);
  }
  return s / (4 * M_PI);
}
Mesh hull(const std::vector<V3>& pts) {
  Mesh m;
  m.v = pts;
  const int n = static_cast<int>(pts.size());
  for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) for (int c = b + 1; c < n; ++c) {
    auto P = [&](int k) { return pts[static_cast<size_t>(k)]; };
    const V3 nn = cross(P(b) - P(a), P(c) - P(a));
    int front = 0, back = 0;
    for (int k = 0; k < n && !(front && back); ++k) if (k != a && k != b && k != c) (dot(nn, P(k) - P(a)) > 0 ? front : back)++;
    if (!front) m.t.push_back({ a, b, c });
    else if (!back) m.t.push_back({ a, c, b });
  }
  return m;
}
static double tri_dist(const V3& a, const V3& b, const V3& c, const V3& p) { // Ericson
  V3 ab = b - a, ac = c - a, ap = p - a;
  double d1 = dot(ab, ap), d2 = dot(ac, ap);
  if (d1 <= 0 && d2 <= 0) return norm(ap);
  V3 bp = p - b;
  double d3 = dot(ab, bp), d4 = dot(ac, bp);
  if (d3 >= 0 && d4 <= d3) return norm(bp);
  double vc = d1 * d4 - d3 * d2;
  if (vc <= 0 && d1 >= 0 && d3 <= 0) return norm(p - (a + (d1 / (d1 - d3)) * ab));
  V3 cp = p - c;
  double d5 = dot(ab, cp), d6 = dot(ac, cp);
  if (d6 >= 0 && d5 <= d6) return norm(cp);
  double vb = d5 * d2 - d1 * d6;
  if (vb <= 0 && d2 >= 0 && d6 <= 0) return norm(p - (a + (d2 / (d2 - d6)) * ac));
  double va = d3 * d6 - d5 * d4;
  if (va <= 0 && d4 - d3 >= 0 && d5 - d6 >= 0) return norm(p - (b + ((d4 - d3) / ((d4 - d3) + (d5 - d6))) * (c - b)));
  double den = 1 / (va + vb + vc);
  return norm(p - (a + (vb * den) * ab + (vc * den) * ac));
}
double distance(const Mesh& m, const V3& p) {
  double d = 1e300;
  for (size_t i = 0; i < m.t.size(); ++i) d = std::min(d, tri_dist(m.p(i, 0), m.p(i, 1), m.p(i, 2), p));
  return d;
}

// ---- clipping
typedef std::vector<V3> Poly;
static void clip_half(const Poly& in, Poly& out, size_t ax, double c, double sgn, Poly* cut) { // keeps sgn*(x-c) <= 0
  out.clear();
  const size_t n = in.size();
  for (size_t i = 0; i < n; ++i) {
    const V3 &p = in[i], &q = in[(i + 1) % n];
    const double dp = sgn * (p[ax] - c), dq = sgn * (q[ax] - c);
    if (dp <= 0) out.push_back(p);
    if (cut && dp == 0) cut->push_back(p);
    if ((dp < 0 && dq > 0) || (dp > 0 && dq < 0)) {
      V3 r = p + (dp / (dp - dq)) * (q - p);
      r[ax] = c;
      out.push_back(r);
      if (cut) cut->push_back(r);
    }
  }
}
static double poly_area(const Poly& p) {
  V3 s{ 0, 0, 0 };
  for (size_t i = 2; i < p.size(); ++i) s = s + cross(p[i - 1] - p[0], p[i] - p[0]);
  return 0.5 * norm(s);
}
static bool clip_box(Poly& p, const V3& lo, const V3& hi) {
  Poly o;
  for (size_t ax = 0; ax < 3; ++ax) {
    clip_half(p, o, ax, hi[ax], 1, nullptr); p.swap(o);
    clip_half(p, o, ax, lo[ax], -1, nullptr); p.swap(o);
    if (p.empty()) return false;
  }
  return true;
}
static bool bb_disjoint(const V3* p, int n, const V3& lo, const V3& hi) {
  for (size_t ax = 0; ax < 3; ++ax) {
    double a = 1e300, b = -1e300;
    for (int i = 0; i < n; ++i) { a = std::min(a, p[i][ax]); b = std::max(b, p[i][ax]); }
    if (a > hi[ax] || b < lo[ax]) return true;
  }
  return false;
}
double tri_box_area(const V3& a, const V3& b, const V3& c, const V3& lo, const V3& hi) {
  const V3 q[3] = { a, b, c };
  if (bb_disjoint(q, 3, lo, hi)) return 0;
  Poly p{ a, b, c };
  return clip_box(p, lo, hi) ? poly_area(p) : 0.0;
}
double area_in_box(const Mesh& m, const V3& lo, const V3& hi) {
  double s = 0;
  for (size_t i = 0; i < m.t.size(); ++i) s += tri_box_area(m.p(i, 0), m.p(i, 1), m.p(i, 2), lo, hi);
  return s;
}
bool crosses(const Mesh& m, const V3& lo, const V3& hi) {
  for (size_t i = 0; i < m.t.size(); ++i) {
    const V3 q[3] = { m.p(i, 0), m.p(i, 1), m.p(i, 2) };
    if (bb_disjoint(q, 3, lo, hi)) continue;
    Poly p{ q[0], q[1], q[2] };
    if (clip_box(p, lo, hi)) return true;
  }
  return false;
}
// over all triangles and planes of the box: the greatest distance of a corner from the plane
void plane_gaps(const Mesh& m, const V3& lo, const V3& hi, std::vector<double>& gaps) {
  gaps.clear();
  for (size_t i = 0; i < m.t.size(); ++i)
    for (size_t ax = 0; ax < 3; ++ax) {
      double a = m.p(i, 0)[ax], b = m.p(i, 1)[ax], c = m.p(i, 2)[ax];
      for (double f : { lo[ax], hi[ax] }) gaps.push_back(std::max({ std::fabs(a - f), std::fabs(b - f), std::fabs(c - f) }));
    }
}
double legendre(int n, double x) {
  double a = 1, b = x;
  if (n == 0) return a;
  for (int k = 2; k <= n; ++k) { double c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; }
  return b;
}

struct Gauss { std::vector<double> x, w; };
static const Gauss& gauss(int n) { // on [0,1]
  static std::map<int, Gauss> cache;
  auto it = cache.find(n);
  if (it != cache.end()) return it->second;
  Gauss g;
  for (int i = 0; i < n; ++i) {
    double x = std::cos(M_PI * (i + 0.75) / (n + 0.5));
    for (int k = 0; k < 100; ++k) {
      double p = legendre(n, x), q = legendre(n - 1, x), d = n * (x * p - q) / (x * x - 1), dx = p / d;
      x -= dx;
      if (std::fabs(dx) < 1e-16) break;
    }
    double p = legendre(n, x), q = legendre(n - 1, x), d = n * (x * p - q) / (x * x - 1);
    g.x.push_back(0.5 * (x + 1)); g.w.push_back(1 / ((1 - x * x) * d * d));
  }
  return cache[n] = g;
}

typedef std::vector<Poly> Hedron;
static void clip_hedron(Hedron& h, size_t ax, double c, double sgn) {
  bool any = false;
  for (auto& f : h) for (auto& p : f) if (sgn * (p[ax] - c) > 0) any = true;
  if (!any) return;
  Hedron r;
  Poly cut, o;
  for (auto& f : h) {
    clip_half(f, o, ax, c, sgn, &cut);
    if (o.size() >= 3) r.push_back(o);
  }
  if (cut.size() >= 3) {
    const size_t u = (ax + 1) % 3, v = (ax + 2) % 3;
    V3 ctr{ 0, 0, 0 };
    for (auto& p : cut) ctr = ctr + p;
    ctr = (1.0 / static_cast<double>(cut.size())) * ctr;
    std::sort(cut.begin(), cut.end(), [&](const V3& a, const V3& b) {
      return std::atan2(a[v] - ctr[v], a[u] - ctr[u]) < std::atan2(b[v] - ctr[v], b[u] - ctr[u]);
    });
    if (sgn < 0) std::reverse(cut.begin(), cut.end());
    r.push_back(cut);
  }
  h.swap(r);
}

std::vector<double> moments_in_box(const Mesh& m, const V3& lo, const V3& hi, const std::array<int, 3>& n) {
  const size_t N = static_cast<size_t>((n[0] + 1) * (n[1] + 1) * (n[2] + 1));
  std::vector<double> res(N, 0.0);
  const int deg = n[0] + n[1] + n[2];
  const Gauss& g = gauss(deg / 2 + 2);
  const int G = static_cast<int>(g.x.size());
  const V3 c = 0.5 * (lo + hi);
  std::vector<double> px(static_cast<size_t>(n[0] + 1)), py(static_cast<size_t>(n[1] + 1)), pz(static_cast<size_t>(n[2] + 1));
  // the centre of the box is the common apex of the signed tetrahedra
  for (size_t t = 0; t < m.t.size(); ++t) {
    const V3 q[4] = { c, m.p(t, 0), m.p(t, 1), m.p(t, 2) };
    const double det = dot(q[1] - q[0], cross(q[2] - q[0], q[3] - q[0]));
    if (std::fabs(det) < 1e-300 || bb_disjoint(q, 4, lo, hi)) continue;
    const double sign = det > 0 ? 1 : -1;
    Hedron h;
    if (det > 0) h = { { q[1], q[2], q[3] }, { q[0], q[2], q[1] }, { q[0], q[3], q[2] }, { q[0], q[1], q[3] } };
    else h = { { q[1], q[3], q[2] }, { q[0], q[1], q[2] }, { q[0], q[2], q[3] }, { q[0], q[3], q[1] } };
    for (size_t ax = 0; ax < 3 && !h.empty(); ++ax) { clip_hedron(h, ax, hi[ax], 1); clip_hedron(h, ax, lo[ax], -1); }
    if (h.empty()) continue;
    // the apex belongs to every clipped piece; faces containing it contribute nothing
    for (auto& f : h)
      for (size_t k = 2; k < f.size(); ++k) {
        const V3 a = f[0] - c, b = f[k - 1] - c, d = f[k] - c;
        const double vol6 = dot(a, cross(b, d));
        if (vol6 == 0) continue;
        if (N == 1) { res[0] += sign * vol6 / 6; continue; }
        // collapsed coordinates
        for (int i = 0; i < G; ++i)
          for (int j = 0; j < G; ++j)
            for (int l = 0; l < G; ++l) {
              const double r = g.x[static_cast<size_t>(i)], s = g.x[static_cast<size_t>(j)], w = g.x[static_cast<size_t>(l)];
              const double A = r * (1 - s), B = r * s * (1 - w), D = r * s * w;
              const double wt = g.w[static_cast<size_t>(i)] * g.w[static_cast<size_t>(j)] * g.w[static_cast<size_t>(l)] * r * r * s * vol6 * sign;
              V3 p = c + A * a + B * b + D * d;
              double xi[3];
              for (size_t ax = 0; ax < 3; ++ax) xi[ax] = 2 * (p[ax] - lo[ax]) / (hi[ax] - lo[ax]) - 1;
              for (int k2 = 0; k2 <= n[0]; ++k2) px[static_cast<size_t>(k2)] = legendre(k2, xi[0]);
              for (int k2 = 0; k2 <= n[1]; ++k2) py[static_cast<size_t>(k2)] = legendre(k2, xi[1]);
              for (int k2 = 0; k2 <= n[2]; ++k2) pz[static_cast<size_t>(k2)] = legendre(k2, xi[2]);
              size_t idx = 0;
              for (double x : px) for (double y : py) for (double z : pz) res[idx++] += wt * x * y * z;
            }
      }
  }
  return res;
}
double volume_in_box(const Mesh& m, const V3& lo, const V3& hi) { return moments_in_box(m, lo, hi, { 0, 0, 0 })[0]; }

// ---- STL
static V3 stored_normal(const Mesh& m, size_t i, int normals) {
  V3 n = cross(m.p(i, 1) - m.p(i, 0), m.p(i, 2) - m.p(i, 0));
  double l = norm(n);
  if (l > 0) n = (1 / l) * n;
  if (normals == 1) return { 0, 0, 0 };
  if (normals == 2) return (-1.0) * n;
  return n;
}
std::string stl_ascii(const Mesh& m, const std::string& name, int style, int normals) {
  std::string s = "solid " + name + "\n";
  char b[256];
  const char* ind = style == 2 ? "  " : "";
  const char* ind2 = style == 2 ? "    " : "";
  const char* fmt = style == 1 ? "%svertex %.9e %.9e %.9e\n" : "%svertex %.9g %.9g %.9g\n";
  for (size_t i = 0; i < m.t.size(); ++i) {
    const V3 n = stored_normal(m, i, normals);
    snprintf(b, sizeof b, "%sfacet normal %g %g %g\n%souter loop\n", ind, n[0], n[1], n[2], ind2);
    s += b;
    for (int k = 0; k < 3; ++k) { const V3& p = m.p(i, k); snprintf(b, sizeof b, fmt, ind2, p[0], p[1], p[2]); s += b; }
    s += std::string(ind2) + "endloop\n" + ind + "endfacet\n";
  }
  s += "endsolid " + name + "\n";
  if (style == 3) {
    // written on another system: other line ends, tabs, no newline at the end
    std::string w;
    for (size_t k = 0; k + 1 < s.size(); ++k) { if (s[k] == '\n') w += "\r\n\t"; else w += s[k]; }
    s = w;
  }
  return s;
}
std::string stl_binary(const Mesh& m, const std::string& header, char fill, int normals, bool colours) {
  std::string s = header.substr(0, 80);
  s.resize(80, fill);
  auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
  uint32_t n = static_cast<uint32_t>(m.t.size());
  put(&n, 4);
  for (size_t i = 0; i < m.t.size(); ++i) {
    const V3 nn = stored_normal(m, i, normals);
    float f[12];
    for (size_t k = 0; k < 3; ++k) { f[k] = static_cast<float>(nn[k]); for (int q = 0; q < 3; ++q) f[3 + 3 * q + static_cast<int>(k)] = static_cast<float>(m.p(i, q)[k]); }
    put(f, 48);
    uint16_t a = colours ? static_cast<uint16_t>(0x8000u | (i * 2654435761u >> 5)) : 0;
    put(&a, 2);
  }
  return s;
}

} // namespace geo
