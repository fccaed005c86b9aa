// Admissible Voronoi inputs (points, segments meeting only at endpoints) and high-precision geometry.
#ifndef VOR_H
#define VOR_H
#include "bnd.h"
#include <cmath>
#include <limits>
#include <list>
#include <queue>
#include <utility>
#define private public
#include <boost/polygon/voronoi_builder.hpp>
#include <boost/polygon/voronoi_diagram.hpp>
#undef private
#ifndef VOR_LD
typedef __float128 Q;
#else
typedef long double Q;
#endif
struct VI { std::vector<std::pair<i64, i64> > p; std::vector<std::vector<i64> > s; };
static std::string show(const VI& v) {
  std::string r = "points"; for (size_t i = 0; i < v.p.size(); ++i) r += " " + S(v.p[i].first) + "," + S(v.p[i].second);
  r += " segments"; for (size_t i = 0; i < v.s.size(); ++i) r += " " + S(v.s[i][0]) + "," + S(v.s[i][1]) + ":" + S(v.s[i][2]) + "," + S(v.s[i][3]);
  return r;
}
static int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static int orient(i64 ax, i64 ay, i64 bx, i64 by, i64 cx, i64 cy) { return sgn((i128)(bx - ax) * (cy - ay) - (i128)(by - ay) * (cx - ax)); }
static bool within(i64 a, i64 b, i64 c) { return std::min(a, b) <= c && c <= std::max(a, b); }
static bool onseg(const std::vector<i64>& s, i64 x, i64 y) { return orient(s[0], s[1], s[2], s[3], x, y) == 0 && within(s[0], s[2], x) && within(s[1], s[3], y); }
static bool isend(const std::vector<i64>& s, i64 x, i64 y) { return (s[0] == x && s[1] == y) || (s[2] == x && s[3] == y); }
// may the two segments be in one input?  (no common point other than shared endpoints; not equal)
static bool compat(const std::vector<i64>& a, const std::vector<i64>& b) {
  for (int e = 0; e < 4; e += 2) { if (onseg(a, b[e], b[e + 1]) && !isend(a, b[e], b[e + 1])) return false; if (onseg(b, a[e], a[e + 1]) && !isend(b, a[e], a[e + 1])) return false; }
  int sh = 0; for (int e = 0; e < 4; e += 2) if (isend(b, a[e], a[e + 1])) ++sh;
  if (sh == 2) return false; if (sh == 1) return true;
  int o1 = orient(a[0], a[1], a[2], a[3], b[0], b[1]), o2 = orient(a[0], a[1], a[2], a[3], b[2], b[3]), o3 = orient(b[0], b[1], b[2], b[3], a[0], a[1]), o4 = orient(b[0], b[1], b[2], b[3], a[2], a[3]);
  return !(o1 * o2 < 0 && o3 * o4 < 0);
}
static bool addseg(VI& v, i64 a, i64 b, i64 c, i64 d) {
  if (a == c && b == d) return false;
  std::vector<i64> s(4); s[0] = a; s[1] = b; s[2] = c; s[3] = d;
  for (size_t i = 0; i < v.s.size(); ++i) if (!compat(v.s[i], s)) return false;
  for (size_t i = 0; i < v.p.size(); ++i) if (onseg(s, v.p[i].first, v.p[i].second) && !isend(s, v.p[i].first, v.p[i].second)) return false;
  v.s.push_back(s); return true;
}
static bool addpt(VI& v, i64 x, i64 y) {
  for (size_t i = 0; i < v.s.size(); ++i) if (onseg(v.s[i], x, y) && !isend(v.s[i], x, y)) return false;
  v.p.push_back(std::make_pair(x, y)); return true;
}
static VI gen(bool big = true) {
  VI v; int shape = bnd.in(0, 9), n = bnd.in(0, 3) ? bnd.in(2, 9) : bnd.in(9, 28); i64 m;
  switch (bnd.in(0, big ? 5 : 3)) { case 0: m = 3; break; case 1: m = 6; break; case 2: m = 12; break; case 3: m = 100; break; case 4: m = 1 << 20; break; default: m = 2147483647; }
  i64 ox = 0, oy = 0; if (big && m < 1000 && bnd.in(0, 7) == 0) { ox = bnd.in(0, 1) ? 2147483000 : -2147483000; oy = bnd.in(-1, 1) * 2147483000; }
#define RX (ox + bnd.in(-m, m))
#define RY (oy + bnd.in(-m, m))
  switch (shape) {
    case 0: case 1: for (int i = 0; i < n; ++i) addpt(v, RX, RY); break;                                  // points
    case 2: for (int i = 0; i < n; ++i) addseg(v, RX, RY, RX, RY); break;                                 // segments
    case 3: case 4: for (int i = 0; i < n; ++i) if (bnd.in(0, 1)) addseg(v, RX, RY, RX, RY); else addpt(v, RX, RY); break;
    case 5: { i64 x = RX, y = RY, x0 = x, y0 = y; for (int i = 0; i < n; ++i) { i64 a = RX, b = RY; if (addseg(v, x, y, a, b)) { x = a; y = b; } } if (bnd.in(0, 1)) addseg(v, x, y, x0, y0); if (bnd.in(0, 2) == 0) addpt(v, RX, RY); break; }  // chain
    case 6: { i64 x = RX, y = RY; for (int i = 0; i < n; ++i) addseg(v, x, y, RX, RY); if (bnd.in(0, 1)) for (int i = 0; i < 3; ++i) addpt(v, RX, RY); break; }   // star
    case 7: for (int i = 0; i < n; ++i) { i64 x = RX, y = RY; if (bnd.in(0, 1)) addseg(v, x, y, RX, y); else addseg(v, x, y, x, RY); } if (bnd.in(0, 1)) addpt(v, RX, RY); break;   // axis-parallel
    case 8: { i64 w = bnd.in(1, 4), h = bnd.in(1, 4), st = std::max<i64>(1, m / 4); for (i64 i = 0; i <= w; ++i) for (i64 j = 0; j <= h; ++j) if (bnd.in(0, 5)) addpt(v, ox + i * st - (st > 1000 ? st : 0), oy + j * st - (st > 1000 ? st : 0)); if (v.p.size() < 2) { v.p.clear(); addpt(v, 0, 0); addpt(v, 1, 0); } break; }  // lattice: many cocircular points
    default: { i64 x = RX, y = RY; int vert = bnd.in(0, 2); for (int i = 0; i < n; ++i) { i64 k = bnd.in(-3, 3) * std::max<i64>(1, m / 8), dx = vert == 0 ? 0 : k, dy = vert == 1 ? 0 : k; i64 k2 = bnd.in(-3, 3) * std::max<i64>(1, m / 8); i64 ex = vert == 0 ? 0 : k2, ey = vert == 1 ? 0 : k2; i64 q[4] = {x + dx, y + dy, x + ex, y + ey}; for (int t = 0; t < 4; ++t) q[t] = std::max<i64>(-2147483647, std::min<i64>(2147483647, q[t])); if (vert == 2 && (q[0] - q[1] != x - y || q[2] - q[3] != x - y)) continue; if (bnd.in(0, 2)) addpt(v, q[0], q[1]); else addseg(v, q[0], q[1], q[2], q[3]); } if (bnd.in(0, 1)) addpt(v, RX, RY); break; }  // collinear
  }
  if (v.p.empty() && v.s.empty()) addpt(v, RX, RY);
  for (size_t i = 0; i < v.p.size(); ++i) { v.p[i].first = std::max<i64>(-2147483647 - 1, std::min<i64>(2147483647, v.p[i].first)); v.p[i].second = std::max<i64>(-2147483647 - 1, std::min<i64>(2147483647, v.p[i].second)); }
  return v;
}
template <class B> void feed(B& b, const VI& v) {
  for (size_t i = 0; i < v.p.size(); ++i) b.insert_point((int)v.p[i].first, (int)v.p[i].second);
  for (size_t i = 0; i < v.s.size(); ++i) b.insert_segment((int)v.s[i][0], (int)v.s[i][1], (int)v.s[i][2], (int)v.s[i][3]);
}
static Q qabs(Q a) { return a < 0 ? -a : a; }
static Q qsqrt(Q a) { if (a <= 0) return 0; Q r = sqrtl((long double)a);
#ifdef VOR_LD
  return r;
#endif
  for (int i = 0; i < 3; ++i) r = (r + a / r) / 2; return r; }
static Q dpoint(Q x, Q y, Q px, Q py) { return qsqrt((x - px) * (x - px) + (y - py) * (y - py)); }
static Q dsegm(Q x, Q y, Q ax, Q ay, Q bx, Q by) {
  Q dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy; if (l == 0) return dpoint(x, y, ax, ay);
  Q t = ((x - ax) * dx + (y - ay) * dy) / l;
  if (t <= 0) return dpoint(x, y, ax, ay); if (t >= 1) return dpoint(x, y, bx, by);
  return qabs((x - ax) * dy - (y - ay) * dx) / qsqrt(l);
}
static std::string qs(Q v) { char b[64]; snprintf(b, 64, "%.17Lg", (long double)v); return b; }
#endif
