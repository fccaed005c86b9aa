// Contracts of the loops of polygon_traits.hpp, for polygons with any number of vertices (C09, C10).
// The polygon is a user-defined type modelling the library's concept: vertex i is an arbitrary but fixed point,
// and stepping its iterator from vertex to vertex drives the ghost specification G edge by edge.
#define VP_NO_REALS
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
#ifdef VP_VERIFY
extern "C" int vp_uf_px(const char*, i64); 
static int px(i64 i) { return vp_uf_px("px", i); }
static int py(i64 i) { return vp_uf_px("py", i); }
#else
static std::vector<int> PX, PY;
static int px(i64 i) { return PX[i]; }
static int py(i64 i) { return PY[i]; }
#endif
static bool REP; static i64 N, K; static int qx, qy;    // number of vertices, 1 if an upright edge comes first, query point
struct Ghost {
  int mode; i64 i;                    // vertex the walk stands at
  i64 par; bool touch;
  Z a2, s2;                           // twice the area walked so far (clockwise positive), relative to the first vertex's height / to height 0
  i64 xl, xh, yl, yh; bool deg45; i64 len;
} G;
static int sgn(Z v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// side of q relative to the line through (ax,ay),(bx,by)
#ifdef VP_VERIFY
extern "C" int vp_uf_side(const char*, int, int, int, int, int, int);
static int side(int ax, int ay, int bx, int by) { int r = vp_uf_side("side", ax, ay, bx, by, qx, qy); vp_assume(r >= -1 && r <= 1); if ((qx == ax && qy == ay) || (qx == bx && qy == by)) vp_assume(r == 0); return r; }  // (lemma: h_C10o_side)
#else
static int side(int ax, int ay, int bx, int by) { return sgn(((Z)bx - ax) * ((Z)qy - ay) - ((Z)by - ay) * ((Z)qx - ax)); }
#endif
static bool onbox(int ax, int ay, int bx, int by) { return qx >= (ax < bx ? ax : bx) && qx <= (ax < bx ? bx : ax) && qy >= (ay < by ? ay : by) && qy <= (ay < by ? by : ay); }
#ifdef VP_VERIFY
extern "C" i64 vp_ufl_elen(const char*, int, int, int, int);
static i64 elen(int ax, int ay, int bx, int by) { bool w = bx < ax || (bx == ax && by < ay); i64 r = w ? vp_ufl_elen("elen", bx, by, ax, ay) : vp_ufl_elen("elen", ax, ay, bx, by); vp_assume(r >= 0 && r <= (1ll << 33)); return r; }
#else
static i64 elen(int ax, int ay, int bx, int by) { return (i64)euclidean_distance(PT(ax, ay), PT(bx, by)); }
#endif
static void bound(Z v) { vp_assume(v < ((Z)1 << 100) && v > -((Z)1 << 100)); }
static void edge(i64 i, i64 j) {
  int ax = px(i), ay = py(i), bx = px(j), by = py(j);
  if (G.mode == 0) {                  // rectilinear: leftward ray, half-open in y
    // (the ends of an upright edge belong to its level neighbours)
    if (ax != bx) { if (onbox(ax, ay, bx, by)) G.touch = true; }
    else if (ax <= qx) {
      int lo = ay < by ? ay : by, hi = ay < by ? by : ay;
      if (qy >= lo && qy < hi) G.par++;
      if (ax == qx && qy > lo && qy < hi) G.touch = true;
    }
  } else if (G.mode == 1) {           // any polygon: downward ray, half-open in x
    if (!(ax == bx && ay == by)) {
      int lo = ax < bx ? ax : bx, hi = ax < bx ? bx : ax, s = side(ax, ay, bx, by);
      if (ax == bx) { if (onbox(ax, ay, bx, by)) G.touch = true; }
      else if (qx >= lo && qx <= hi) { if (s == 0) G.touch = true; else if (qx < hi && (ax < bx ? s > 0 : s < 0)) G.par++; }
    }
  } else if (G.mode == 2) {           // area and extents
    // (each term is below 2^67 and there are at most 2^30 of them)
    Z d = (Z)bx - ax, t = d * (((Z)by - py(0)) + ((Z)ay - py(0))), u = d * ((Z)ay + by); bound(G.a2); bound(G.s2); G.a2 += t; G.s2 += u;
  } else if (G.mode == 5) { vp_assume(G.len < (1ll << 62)); G.len += elen(ax, ay, bx, by);
  } else if (G.mode == 3) {
    Z dx = (Z)bx - ax, dy = (Z)by - ay; if (dx != 0 && dy != 0 && dx != dy && dx != -dy) G.deg45 = true;
  }
}
static bool small(int v) { return v >= -(1 << 29) && v <= (1 << 29); }
struct It {
  typedef std::forward_iterator_tag iterator_category; typedef PT value_type; typedef std::ptrdiff_t difference_type; typedef const PT* pointer; typedef PT reference;
  i64 i; It() : i(0) {} It(i64 k) : i(k) {}
  PT operator*() const { rep(); return PT(px(i), py(i)); }
  It& operator++() { step(); return *this; }
  It operator++(int) { It t(*this); step(); return t; }
  void rep() const { if (REP && i >= 1) { i64 j = i == N ? 0 : i; vp_assume(px(i - 1) == px(j) || py(i - 1) == py(j)); vp_assume(small(px(i - 1)) && small(py(i - 1)) && small(px(j)) && small(py(j)) && G.a2 < ((Z)1 << 62) && G.a2 > -((Z)1 << 62)); } }
  void step() {
    if (G.mode == 0) { edge(i, i + 1 == N ? 0 : i + 1); }
    else if (i >= 1) edge(i - 1, i);
    ++i; G.i = i;
    rep();
    if (G.mode == 4) { bool f = i == 1; if (f || px(i - 1) < G.xl) G.xl = px(i - 1); if (f || px(i - 1) > G.xh) G.xh = px(i - 1); if (f || py(i - 1) < G.yl) G.yl = py(i - 1); if (f || py(i - 1) > G.yh) G.yh = py(i - 1); }
    // rectilinear: level and upright edges alternate
    if (G.mode == 0) { i64 j = i == N ? 0 : i; if ((i + K) % 2 == 1) vp_assume(px(i - 1) != px(j) && py(i - 1) == py(j)); else vp_assume(px(i - 1) == px(j) && py(i - 1) != py(j)); }
  }
  bool operator==(const It& o) const { rep(); if (i != o.i) return false; if (G.mode == 1 && i >= 2) edge(i - 1, 0); return true; } bool operator!=(const It& o) const { rep(); return i != o.i; }
};
struct Poly90 {}; struct PolyAny {};
namespace boost { namespace polygon {
  template <> struct geometry_concept<Poly90> { typedef polygon_90_concept type; };
  template <> struct geometry_concept<PolyAny> { typedef polygon_concept type; };
  template <> struct polygon_traits<Poly90> { typedef int coordinate_type; typedef It iterator_type; typedef PT point_type; static It begin_points(const Poly90&) { return It(0); } static It end_points(const Poly90&) { return It(N); } static std::size_t size(const Poly90&) { return N; } static winding_direction winding(const Poly90&) { return unknown_winding; } };
  template <> struct polygon_traits<PolyAny> { typedef int coordinate_type; typedef It iterator_type; typedef PT point_type; static It begin_points(const PolyAny&) { return It(0); } static It end_points(const PolyAny&) { return It(N); } static std::size_t size(const PolyAny&) { return N; } static winding_direction winding(const PolyAny&) { return unknown_winding; } };
} }
static void start(int mode, i64 lo, bool even) {
#ifdef VP_VERIFY
  N = vp_range("n", lo, 1 << 30); K = 0; (void)px(0); (void)py(0); if (even) { vp_assume(N % 2 == 0); if (vp_any_bool("upright")) K = 1; }
#else
  i64 k = vp_range("n", lo, 9); if (even) k -= k % 2; if (k < lo) k = lo; N = k; PX.clear(); PY.clear();
  for (i64 i = 0; i < k; ++i) { PX.push_back(vp_any_i32("px")); PY.push_back(vp_any_i32("py")); }
  K = even && vp_any_bool("upright");
  if (mode == 5) for (i64 i = 0; i < k; ++i) { PX[i] /= 4; PY[i] /= 4; }
  if (even) for (i64 i = 0; i < k; ++i) { i64 h = (i + k - 1) % k; if (i == 0) continue; if ((i + K) % 2 == 1) PY[i] = PY[h]; else PX[i] = PX[h]; }
  if (even) { if (K) PY[0] = PY[k - 1]; else PX[0] = PX[k - 1]; if (K) PX[1] = PX[0]; else PY[1] = PY[0]; }
#endif
  G.mode = mode; G.i = 0; G.par = 0; G.touch = false; G.a2 = 0; G.s2 = 0; REP = false; G.deg45 = false; G.len = 0; G.xl = G.yl = 1ll << 40; G.xh = G.yh = -(1ll << 40);
}
HARNESS(h_C10_contains_90) {
  start(0, 4, true); qx = vp_any_i32("qx"); qy = vp_any_i32("qy"); bool ct = vp_any_bool("touch"); Poly90 p;
  bool r = contains(p, PT(qx, qy), ct);
  if (G.touch) vp_assert(r == ct, "on the boundary: as the caller asked");
  else vp_assert(r == (G.par % 2 != 0), "off the boundary: odd number of edges to the left");
}
#ifdef VP_VERIFY
// contract of edge_utils::on_above_or_below (proved in h_C10o_side): side of the point relative to the directed edge
extern "C" int c_oab(const PT* pt, const std::pair<PT, PT>* he) {
  vp_assert(pt->x() == qx && pt->y() == qy, "asked about the query point"); vp_assert(he->first.x() != he->second.x() && qx >= std::min(he->first.x(), he->second.x()) && qx <= std::max(he->first.x(), he->second.x()), "edge spans the point");
  int s = side(he->first.x(), he->first.y(), he->second.x(), he->second.y()); return he->first.x() < he->second.x() ? s : -s;
}
#endif
HARNESS(h_C10c_contains) {
  start(1, 1, false); qx = vp_any_i32("qx"); qy = vp_any_i32("qy"); bool ct = vp_any_bool("touch"); PolyAny p;
  bool r = contains(p, PT(qx, qy), ct);
  if (G.touch) vp_assert(r == ct, "on the boundary: as the caller asked"); else vp_assert(r == (G.par % 2 != 0), "off the boundary: odd number of edges below");
}
// ---- length: edge lengths are opaque
struct D { i64 v; D() : v(0) {} template <class X> explicit D(X d) : v((i64)d) {} D(const D& o) : v(o.v) {} D& operator=(const D& o) { v = o.v; return *this; } };
static D& operator+=(D& a, const D& b) { vp_assume(a.v < (1ll << 62)); a.v += b.v; return a; }
#ifdef VP_VERIFY
// contract of euclidean_distance(point, point) (C05), symmetric
extern "C" long double c_ed(const PT* a, const PT* b) { return (long double)elen(b->x(), b->y(), a->x(), a->y()); }
#endif
HARNESS(h_C09l_length) {
  start(5, 0, false);
  D d = point_sequence_distance<D, It>(It(0), It(N));
  if (N > 0) G.len += elen(px(N - 1), py(N - 1), px(0), py(0));
  vp_assert(d.v == G.len, "sum of the lengths of all edges, the closing one included");
}
// ---- area: exact accumulator, so that the proof is about the formula (h: twice the accumulated value)
struct A { Z v, h; A() : v(0), h(0) {} A(int k) : v(k), h((Z)2 * k) {} A(const A& o) : v(o.v), h(o.h) {} A& operator=(const A& o) { v = o.v; h = o.h; return *this; } };
static A mk(Z v, Z h) { A a; a.v = v; a.h = h; return a; }
static A operator-(const A& a, const A& b) { return mk(a.v - b.v, 0); }
static A operator+(const A& a, const A& b) { return mk(a.v + b.v, 0); }
static A operator*(const A& a, const A& b) { return mk(a.v * b.v, 0); }
static A operator/(const A& a, int k) { vp_assert(k == 2, "halved"); return mk(0, a.v); }
static A& operator+=(A& a, const A& b) { bound(a.h); a.h += b.h; return a; }
static bool operator!=(const A& a, const A& b) { return a.v != b.v; }
HARNESS(h_C09_area) {
  start(2, 1, false);
  A a = point_sequence_area<It, A>(It(0), It(N));
  edge(N - 1, 0);
  vp_assert(a.h == G.a2, "twice the area: the trapezoid sum over all edges, the closing one included");
  vp_assert(a.h == G.s2, "the area does not depend on the base line");
}
HARNESS(h_C09_area_90) {
  start(2, 1, false); REP = true; Poly90 p; bool w = vp_any_bool("what");
  long long a = 0; bool cw = false;
  if (w) a = area(p); else cw = winding(p) == CLOCKWISE;
  edge(N - 1, 0);
  if (w) vp_assert((Z)2 * a == zabs(G.s2), "area of a rectilinear polygon"); else vp_assert(cw == (G.s2 >= 0), "winding of a rectilinear polygon");
}
HARNESS(h_C09_is_45) {
  start(3, 1, false); PolyAny p;
  bool r = is_45(p);
  edge(G.i - 1, G.i == N ? 0 : G.i);     // the edge the walk stopped at
  vp_assert(r == !G.deg45, "octilinear exactly when every edge is, the closing one included");
}
HARNESS(h_C09_extents) {
  start(4, 0, false); PolyAny p; rectangle_data<int> b(1, 2, 3, 4);
  bool r = extents(b, p);
  vp_assert(r == (N > 0), "a polygon without vertices has no extents");
  if (r) vp_assert(xl(b) == G.xl && xh(b) == G.xh && yl(b) == G.yl && yh(b) == G.yh, "smallest and largest coordinates of the vertices");
}
