// Contracts of the distance functions (C05): points, coordinates, intervals, rectangles, segments.
#define VP_NO_REALS
#include "vp.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_concept.hpp>
#include <boost/polygon/segment_data.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef interval_data<int> IV; typedef rectangle_data<int> RC; typedef point_data<int> PT; typedef segment_data<int> SG;
static Z gap(Z al, Z ah, Z bl, Z bh) { return bl > ah ? bl - ah : al > bh ? al - bh : (Z)0; }   // distance of two closed intervals
struct R { int xl, yl, xh, yh; RC v; };
#define BUILD(r) vp_assume(r.xl <= r.xh && r.yl <= r.yh); r.v = RC(r.xl, r.yl, r.xh, r.yh)
static R any_a() { R r; r.xl = vp_any_i32("axl"); r.yl = vp_any_i32("ayl"); r.xh = vp_any_i32("axh"); r.yh = vp_any_i32("ayh"); BUILD(r); return r; }
static R any_b() { R r; r.xl = vp_any_i32("bxl"); r.yl = vp_any_i32("byl"); r.xh = vp_any_i32("bxh"); r.yh = vp_any_i32("byh"); BUILD(r); return r; }

HARNESS(h_C05_coordinates) {
  int a = vp_any_i32("a"), b = vp_any_i32("b");
  vp_assert((Z)euclidean_distance(a, b) == zabs((Z)a - b), "distance of coordinates");
}
HARNESS(h_C05_interval_point) {
  int l = vp_any_i32("l"), h = vp_any_i32("h"), x = vp_any_i32("x"); vp_assume(l <= h);
  Z d = (Z)euclidean_distance(IV(l, h), x);
  vp_assert(d == gap(l, h, x, x), "distance of a coordinate to an interval");
  int w = vp_any_i32("w");
  if (l <= w && w <= h) vp_assert(d <= zabs((Z)w - x), "no point of the interval is closer");
  vp_assert((d == 0) == contains(IV(l, h), x), "zero exactly on contact");
}
HARNESS(h_C05_interval) {
  int l = vp_any_i32("l"), h = vp_any_i32("h"), a = vp_any_i32("a"), b = vp_any_i32("b"); vp_assume(l <= h && a <= b);
  Z d = (Z)euclidean_distance(IV(l, h), IV(a, b));
  vp_assert(d == gap(l, h, a, b), "distance of intervals");
  vp_assert(d == (Z)euclidean_distance(IV(a, b), IV(l, h)), "symmetric");
  vp_assert((d == 0) == intersects(IV(l, h), IV(a, b)), "zero exactly on contact");
}
HARNESS(h_C05_points) {
  int x1 = vp_any_i32("x1"), y1 = vp_any_i32("y1"), x2 = vp_any_i32("x2"), y2 = vp_any_i32("y2");
  PT p(x1, y1), q(x2, y2); Z dx = zabs((Z)x1 - x2), dy = zabs((Z)y1 - y2);
  vp_assert((Z)euclidean_distance(p, q, HORIZONTAL) == dx && (Z)euclidean_distance(p, q, VERTICAL) == dy, "axis distance of points");
  vp_assert((Z)manhattan_distance(p, q) == dx + dy, "manhattan distance of points");
  vp_assume(fits64(dx * dx + dy * dy));
  vp_assert((Z)distance_squared(p, q) == dx * dx + dy * dy, "squared distance of points");
  vp_assert(vp_sqrt_near(euclidean_distance(p, q), dx * dx + dy * dy, 1, 50), "euclidean distance of points");
}
HARNESS(h_C05_rect_point) {
  R a = any_a(); int x = vp_any_i32("x"), y = vp_any_i32("y"); PT p(x, y);
  Z dx = gap(a.xl, a.xh, x, x), dy = gap(a.yl, a.yh, y, y);
  vp_assert((Z)euclidean_distance(a.v, p, HORIZONTAL) == dx && (Z)euclidean_distance(a.v, p, VERTICAL) == dy, "axis distance rectangle to point");
  vp_assert((Z)manhattan_distance(a.v, p) == dx + dy, "manhattan distance rectangle to point");
  vp_assume(fits64(dx * dx + dy * dy));
  vp_assert((Z)square_euclidean_distance(a.v, p) == dx * dx + dy * dy, "squared distance rectangle to point");
  vp_assert(vp_sqrt_near(euclidean_distance(a.v, p), dx * dx + dy * dy, 1, 50), "euclidean distance rectangle to point");
  vp_assert((manhattan_distance(a.v, p) == 0) == contains(a.v, p), "zero exactly on contact");
}
HARNESS(h_C05_rects) {
  R a = any_a(), b = any_b();
  Z dx = gap(a.xl, a.xh, b.xl, b.xh), dy = gap(a.yl, a.yh, b.yl, b.yh);
  vp_assert((Z)euclidean_distance(a.v, b.v, HORIZONTAL) == dx && (Z)euclidean_distance(a.v, b.v, VERTICAL) == dy, "axis distance of rectangles");
  vp_assert((Z)manhattan_distance(a.v, b.v) == dx + dy, "manhattan distance of rectangles");
  vp_assert((manhattan_distance(a.v, b.v) == 0) == intersects(a.v, b.v), "zero exactly on contact");
}
HARNESS(h_C05_rects_euclid) {
  R a = any_a(), b = any_b();
  Z dx = gap(a.xl, a.xh, b.xl, b.xh), dy = gap(a.yl, a.yh, b.yl, b.yh);
  vp_assume(fits64(dx * dx + dy * dy));
  vp_assert((Z)square_euclidean_distance(a.v, b.v) == dx * dx + dy * dy, "squared distance of rectangles");
  vp_assert(vp_sqrt_near(euclidean_distance(a.v, b.v), dx * dx + dy * dy, 1, 50), "euclidean distance of rectangles");
}
// segments: coordinates within +-(2^30-1) (sums of two products stay exact in the distance type)
static int c30(const char* n) { return (int)vp_range(n, -1073741823LL, 1073741823LL); }
HARNESS(h_C05_segment_point) {
  int x1 = c30("x1"), y1 = c30("y1"), x2 = c30("x2"), y2 = c30("y2"), X = c30("X"), Y = c30("Y");
  SG s(PT(x1, y1), PT(x2, y2)); PT p(X, Y);
  Z A = (Z)X - x1, B = (Z)Y - y1, C = (Z)x2 - x1, D = (Z)y2 - y1, dot = A * C + B * D, L = C * C + D * D;
  long double r = euclidean_distance(s, p);
  if (dot < 0 || L == 0) { vp_assert(vp_sqrt_near(r, A * A + B * B, 1, 50), "distance to the low end"); vp_cover("low"); }
  else if (dot > L) { Z E = (Z)X - x2, F = (Z)Y - y2; vp_assert(vp_sqrt_near(r, E * E + F * F, 1, 50), "distance to the high end"); vp_cover("high"); }
  else { Z k = A * D - C * B; vp_assert(vp_sqrt_near(r, k * k, L, 48), "perpendicular distance"); vp_cover("middle"); }
  if (L == 0) vp_cover("degenerate segment");
}
HARNESS(h_C05_segment_length) {
  int x1 = c30("x1"), y1 = c30("y1"), x2 = c30("x2"), y2 = c30("y2");
  Z C = (Z)x2 - x1, D = (Z)y2 - y1;
  vp_assert(vp_sqrt_near(length(SG(PT(x1, y1), PT(x2, y2))), C * C + D * D, 1, 50), "length of a segment");
}
