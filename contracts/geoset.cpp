// Compact rectilinear iteration and geometry-to-edges iteration (C27), for sequences of any length.
#define VP_NO_REALS
#include "vp.h"
#include <cmath>
#include <vector>
#include <algorithm>
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/detail/iterator_geometry_to_set.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
#ifdef VP_VERIFY
extern "C" int vp_uf_px(const char*, i64);
static int px(i64 i) { return vp_uf_px("px", i); }
static int py(i64 i) { return vp_uf_px("py", i); }
#else
static std::vector<int> PX, PY;
static int px(i64 i) { return PX[i]; }
static int py(i64 i) { return PY[i]; }
#endif
static bool ALT; static i64 N, K;                      // number of elements; 1 if an upright edge comes first
struct CIt {                          // compact coordinates
  typedef std::forward_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef const int* pointer; typedef int reference;
  i64 i; CIt() : i(0) {} CIt(i64 k) : i(k) {}
  int operator*() const { vp_assert(i >= 0 && i < N, "reads inside the sequence"); return px(i); }
  CIt& operator++() { ++i; return *this; } CIt operator++(int) { CIt t(*this); ++i; return t; }
  bool operator==(const CIt& o) const { return i == o.i; } bool operator!=(const CIt& o) const { return i != o.i; }
};
struct It {                           // vertices
  typedef std::forward_iterator_tag iterator_category; typedef PT value_type; typedef std::ptrdiff_t difference_type; typedef const PT* pointer; typedef PT reference;
  i64 i; It() : i(0) {} It(i64 k) : i(k) {}
  PT operator*() const { vp_assert(i >= 0 && i < N, "reads inside the sequence"); if (ALT) { alt(i == 0 ? N - 1 : i - 1), alt(i), alt(i + 1 == N ? 0 : i + 1); } return PT(px(i), py(i)); }
  It& operator++() { ++i; return *this; } It operator++(int) { It t(*this); ++i; return t; }
  bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; }
  // rectilinear: level and upright edges alternate, none is empty (edge i runs from vertex i to the next)
  static void alt(i64 i) {
    i64 j = i + 1 == N ? 0 : i + 1;
    if ((i + K) % 2 == 0) vp_assume(px(i) != px(j) && py(i) == py(j)); else vp_assume(px(i) == px(j) && py(i) != py(j));
  }
};
static void start(i64 lo, int kind) {
  ALT = kind == 2;
#ifdef VP_VERIFY
  N = vp_range("n", lo, 1 << 30); K = 0; (void)px(0); (void)py(0);
  if (kind) { vp_assume(N % 2 == 0); } if (kind == 2 && vp_any_bool("upright")) K = 1;
#else
  i64 k = vp_range("n", lo, 9); if (kind) k -= k % 2; if (k < lo) k = lo; N = k; PX.clear(); PY.clear();
  for (i64 i = 0; i < k; ++i) { PX.push_back((int)vp_range("px", -4, 4)); PY.push_back((int)vp_range("py", -4, 4)); }
  K = kind == 2 && vp_any_bool("upright");
  if (kind == 2) { for (i64 i = 1; i < k; ++i) { if ((i + K) % 2 == 1) PY[i] = PY[i - 1]; else PX[i] = PX[i - 1]; } if (K) PY[0] = PY[k - 1]; else PX[0] = PX[k - 1]; if (K) PX[1] = PX[0]; else PY[1] = PY[0]; for (i64 i = 0; i < k; ++i) It::alt(i); }
#endif
}
typedef iterator_compact_to_points<CIt, PT> C2P; typedef iterator_points_to_compact<It, PT> P2C;
HARNESS(h_C27_expand) {
  start(4, 1); vp_assume(px(N - 2) != px(0));
  CIt cb(0), ce(N); C2P p(cb, ce), e(ce, ce); i64 i = 0;
  for (; p != e; ++p, ++i) {
    vp_assert(i < N, "as many points as coordinates"); PT q = *p;
    vp_assert(q.x() == (i == N - 1 ? px(0) : px(i + i % 2)), "x of the point: the last x coordinate, at the end the first"); vp_assert(q.y() == px(i + 1 - i % 2), "y of the point: the last y coordinate");
  }
  vp_assert(i == N, "as many points as coordinates");
}
HARNESS(h_C27_compress) {
  start(0, 0);
  It cb(0), ce(N); P2C p(cb, ce), e(ce, ce); i64 i = 0;
  for (; p != e; ++p, ++i) { vp_assert(i < N, "as many coordinates as points"); vp_assert(*p == (i % 2 == 0 ? px(i) : py(i)), "x and y alternate"); }
  vp_assert(i == N, "as many coordinates as points");
}
// compressing what expanding yields gives the sequence back
HARNESS(h_C27_round_trip) {
  start(4, 1); vp_assume(px(N - 2) != px(0));
  typedef iterator_points_to_compact<C2P, PT> RT; CIt cb(0), ce(N); C2P pb(cb, ce), pe(ce, ce); RT p(pb, pe), e(pe, pe); i64 i = 0;
  for (; p != e; ++p, ++i) { vp_assert(i < N, "as many coordinates as before"); vp_assert(*p == px(i), "the same coordinate"); }
  vp_assert(i == N, "as many coordinates as before");
}
// expanding what compressing yields gives the vertices back, in order (from the second on when an upright edge comes first)
HARNESS(h_C27_round_trip_points) {
  start(4, 2); It::alt(0); It::alt(N - 1); It::alt(N - 2);
  It cb(0), ce(N); P2C pb(cb, ce), pe(ce, ce); typedef iterator_compact_to_points<P2C, PT> RT; RT p(pb, pe), e(pe, pe); i64 i = 0;
  for (; p != e; ++p, ++i) { vp_assert(i < N, "as many points as before"); PT q = *p; i64 j = i + K == N ? 0 : i + K; It::alt(i); It::alt(i + 1 == N ? 0 : i + 1); vp_assert(q.x() == px(j) && q.y() == py(j), "every vertex, in order"); }
  vp_assert(i == N, "as many points as before");
}
// ---- directed edges.  Every corner is emitted with a weight; the weights of the corners below and left of a point add
// up to the number of times the boundary winds round it (h_C27g_polygon_cover), which is one inside (C10).
typedef iterator_geometry_to_set<rectangle_concept, rectangle_data<int> > RS;
HARNESS(h_C27g_rectangle) {
  int a = vp_any_i32("xl"), b = vp_any_i32("xh"), c = vp_any_i32("yl"), d = vp_any_i32("yh"); vp_assume(a <= b && c <= d);
  int qx = vp_any_i32("qx"), qy = vp_any_i32("qy"); bool hor = vp_any_bool("orient"), hole = vp_any_bool("hole"); orientation_2d o = hor ? HORIZONTAL : VERTICAL;
  rectangle_data<int> r(a, c, b, d); RS i(r, LOW, o, hole), e(r, HIGH, o, hole); int sum = 0, n = 0, prev = 0; bool sorted = true;
#define CORNER { vp_assert(i != e, "four corners"); std::pair<int, std::pair<int, int> > v = *i; int x = hor ? v.second.first : v.first, y = hor ? v.first : v.second.first; \
    if (n && v.first < prev) sorted = false; prev = v.first; ++n; vp_assert(v.second.second == 1 || v.second.second == -1, "weight one or minus one"); if (x <= qx && y <= qy) sum += v.second.second; ++i; }
  CORNER CORNER CORNER CORNER
  vp_assert(i == e, "four corners"); vp_assert(sorted, "in sweep order");
  bool in = a <= qx && qx < b && c <= qy && qy < d;
  vp_assert(sum == (in ? (hole ? -1 : 1) : 0), "the rectangle counts one inside, nothing outside");
}
struct Poly90 {};
static bool WIND_CW; 
namespace boost { namespace polygon {
  template <> struct geometry_concept<Poly90> { typedef polygon_90_concept type; };
  template <> struct polygon_traits<Poly90> { typedef int coordinate_type; typedef It iterator_type; typedef PT point_type; static It begin_points(const Poly90&) { return It(0); } static It end_points(const Poly90&) { return It(N); } static std::size_t size(const Poly90&) { return N; } static winding_direction winding(const Poly90&) { return WIND_CW ? winding_direction(clockwise_winding) : winding_direction(counterclockwise_winding); } };
} }
typedef iterator_geometry_to_set<polygon_90_concept, Poly90> GS;
static int M, qx, qy;
HARNESS(h_C27g_polygon) {
  start(4, 2); bool hor = vp_pathsplit(vp_any_bool("orient")), hole = vp_pathsplit(vp_any_bool("hole")), over = vp_pathsplit(vp_any_bool("override")); WIND_CW = vp_pathsplit(vp_any_bool("clockwise")); bool cw2 = vp_pathsplit(vp_any_bool("w")); bool cw = over ? cw2 : WIND_CW;
  orientation_2d o = hor ? HORIZONTAL : VERTICAL; M = cw ? -1 : 1; if (hole) M = -M;
  Poly90 p; GS i(p, LOW, o, hole, over, cw2 ? CLOCKWISE : COUNTERCLOCKWISE), e(p, HIGH, o, hole, over, cw2 ? CLOCKWISE : COUNTERCLOCKWISE); i64 t = 0;
  for (; i != e; ++i, ++t) {
    vp_assert(t < N, "as many corners as vertices");
    std::pair<int, std::pair<int, int> > v = *i; int x = hor ? v.second.first : v.first, y = hor ? v.first : v.second.first; i64 k = t + 1 == N ? 0 : t + 1;
    It::alt(t); It::alt(k); It::alt(k + 1 == N ? 0 : k + 1);
    vp_assert(x == px(k) && y == py(k), "every vertex, in order");
    vp_assert(v.second.second == ((t + K) % 2 == 0 ? -M : M), "weight: one where an upright edge of a counterclockwise loop ends, minus one where it begins");
  }
  vp_assert(t == N, "as many corners as vertices");
}
HARNESS(h_C27g_polygon_cover) {
  start(4, 2); vp_assume(K == 0); qx = vp_any_i32("qx"); qy = vp_any_i32("qy"); WIND_CW = false; M = 1; Poly90 p; GS i(p, LOW, HORIZONTAL), e(p, HIGH, HORIZONTAL); i64 t = 0, sum = 0, cross = 0;
  for (; i != e; ++i, ++t) {
    vp_assume(t < N);      // (h_C27g_polygon)
    { i64 k = t + 1 == N ? 0 : t + 1; It::alt(t); It::alt(k); It::alt(k + 1 == N ? 0 : k + 1); }
    vp_assume(sum <= t && sum >= -t && cross <= t && cross >= -t);     // each step adds at most one
    std::pair<int, std::pair<int, int> > v = *i; if (v.second.first <= qx && v.first <= qy) sum += v.second.second;
    if (t % 2 == 1) { i64 k = t + 1 == N ? 0 : t + 1; int y0 = py(t), y1 = py(k); if (px(t) <= qx) { if (y1 <= qy && qy < y0) ++cross; else if (y0 <= qy && qy < y1) --cross; } }
  }
  vp_assert(sum == cross, "the weights below and left of a point add up to the crossings of the leftward ray, downward edges counted positive");
}
HARNESS(h_C27g_degenerate) {
  start(0, 0); ALT = false; vp_assume(N < 4); bool hor = vp_any_bool("orient"); WIND_CW = vp_any_bool("clockwise"); Poly90 p; orientation_2d o = hor ? HORIZONTAL : VERTICAL; GS i(p, LOW, o), e(p, HIGH, o);
  vp_assert(i == e, "fewer than four vertices: no edges");
}
