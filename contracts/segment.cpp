// Contracts of segment_concept.hpp / segment_data.hpp (C07).
#include "vp.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_concept.hpp>
#include <boost/polygon/segment_data.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef point_data<int> PT; typedef segment_data<int> SG;
static int sg(Z v) { return (int)(v > 0) - (int)(v < 0); }
struct S4 { int x1, y1, x2, y2; SG v; };
static S4 seg(const char* a, const char* b, const char* c, const char* d) {
  S4 s; s.x1 = vp_any_i32(a); s.y1 = vp_any_i32(b); s.x2 = vp_any_i32(c); s.y2 = vp_any_i32(d); s.v = SG(PT(s.x1, s.y1), PT(s.x2, s.y2)); return s;
}
static S4 any_s() { return seg("x1", "y1", "x2", "y2"); }
static S4 any_t() { return seg("x3", "y3", "x4", "y4"); }
static Z crossd(Z a, Z b, Z c, Z d) { return a * d - b * c; }
static int xof(const PT& p) { return bp::x(p); }
static int yof(const PT& p) { return bp::y(p); }
static int spec_os(const SG& s, const SG& t) {
  return sg(crossd((Z)xof(s.high()) - xof(s.low()), (Z)yof(s.high()) - yof(s.low()), (Z)xof(t.high()) - xof(t.low()), (Z)yof(t.high()) - yof(t.low())));
}
// position of p relative to the directed line of s: 1 left, 0 on, -1 right
static int spec_op(const SG& s, const PT& p) {
  return sg(crossd((Z)xof(s.high()) - xof(s.low()), (Z)yof(s.high()) - yof(s.low()), (Z)xof(p) - xof(s.low()), (Z)yof(p) - yof(s.low())));
}
static bool inbox(const SG& s, const PT& p) {
  return xof(p) >= zmin(xof(s.low()), xof(s.high())) && xof(p) <= zmax(xof(s.low()), xof(s.high())) &&
         yof(p) >= zmin(yof(s.low()), yof(s.high())) && yof(p) <= zmax(yof(s.low()), yof(s.high()));
}
static bool same(const PT& p, const PT& q) { return xof(p) == xof(q) && yof(p) == yof(q); }
static bool spec_on(const SG& s, const PT& p, bool touch) {
  return spec_op(s, p) == 0 && inbox(s, p) && (touch || (!same(p, s.low()) && !same(p, s.high())));
}
// ---------------------------------------------------------------- exactness of the orientation tests
HARNESS(h_C07o_orientation_segments) {
  S4 s = any_s(), t = any_t();
  int r = orientation(s.v, t.v);
  Z a1 = (Z)s.x2 - s.x1, b1 = (Z)s.y2 - s.y1, a2 = (Z)t.x2 - t.x1, b2 = (Z)t.y2 - t.y1;
  vp_pathsplit(a1 > 0); vp_pathsplit(a1 < 0); vp_pathsplit(b1 > 0); vp_pathsplit(b1 < 0);
  vp_pathsplit(a2 > 0); vp_pathsplit(a2 < 0); vp_pathsplit(b2 > 0); vp_pathsplit(b2 < 0);
  vp_assert(r == sg(a1 * b2 - b1 * a2), "sign of the cross product of two segments");
}
// a contract that is discharged above and stands for the function in the harnesses below
extern "C" int c_orientation_segments(const SG& s, const SG& t) {
  return spec_os(s, t);
}
HARNESS(h_C07_orientation_point) {
  S4 s = any_s(); int x = vp_any_i32("x"), y = vp_any_i32("y"); PT p(x, y);
  int r = orientation(s.v, p);
  vp_assert(r == spec_op(s.v, p), "side of a point relative to a segment");
  if (s.x1 == s.x2 && s.y1 == s.y2) { vp_assert(r == 0, "every point is collinear with a degenerate segment"); vp_cover("degenerate"); }
}
HARNESS(h_C07_orientation_reversal) {
  S4 s = any_s(); int x = vp_any_i32("x"), y = vp_any_i32("y"); PT p(x, y);
  vp_assert(orientation(SG(s.v.high(), s.v.low()), p) == -orientation(s.v, p), "reversing the segment negates the side");
  vp_assert(orientation(s.v, s.v.low()) == 0 && orientation(s.v, s.v.high()) == 0, "the ends are on the line");
}
HARNESS(h_C07_contains_point) {
  S4 s = any_s(); int x = vp_any_i32("x"), y = vp_any_i32("y"); bool t = vp_any_bool("touch"); PT p(x, y);
  vp_assert(contains(s.v, p, t) == spec_on(s.v, p, t), "containment of a point");
  vp_assert(contains(s.v, p) == spec_on(s.v, p, true), "contact counts by default");
}
HARNESS(h_C07_contains_segment) {
  S4 s = any_s(), u = any_t(); bool t = vp_any_bool("touch");
  vp_assert(contains(s.v, u.v, t) == (spec_on(s.v, u.v.low(), t) && spec_on(s.v, u.v.high(), t)), "containment of a segment");
}
HARNESS(h_C07_abuts) {
  S4 s = any_s(), u = any_t();
  bool hi = s.x2 == u.x1 && s.y2 == u.y1, lo = s.x1 == u.x2 && s.y1 == u.y2;
  vp_assert(abuts(s.v, u.v, HIGH) == hi, "the second starts where the first ends");
  vp_assert(abuts(s.v, u.v, LOW) == lo, "the first starts where the second ends");
  vp_assert(abuts(s.v, u.v) == (hi || lo), "end to end in either order");
}
// the exact side function above, opaque: what follows holds for whatever that function is
#ifdef VP_VERIFY
extern "C" int vp_uf_side(const char*, int, int, int, int, int, int);
static int side(const SG& s, const PT& p) { int r = vp_uf_side("side", xof(s.low()), yof(s.low()), xof(s.high()), yof(s.high()), xof(p), yof(p)); vp_assume(r >= -1 && r <= 1); return r; }
extern "C" int c_orientation_point(const SG& s, const PT& p) { return side(s, p); }
#else
static int side(const SG& s, const PT& p) { return spec_op(s, p); }
#endif
HARNESS(h_C07i_intersects) {
  S4 s = any_s(), u = any_t(); bool touch = vp_any_bool("touch");
  bool boxes = zmax(zmin(s.x1, s.x2), zmin(u.x1, u.x2)) <= zmin(zmax(s.x1, s.x2), zmax(u.x1, u.x2)) &&
               zmax(zmin(s.y1, s.y2), zmin(u.y1, u.y2)) <= zmin(zmax(s.y1, s.y2), zmax(u.y1, u.y2));
  int a = side(s.v, u.v.low()), b = side(s.v, u.v.high()), c = side(u.v, s.v.low()), d = side(u.v, s.v.high());
  bool common = boxes && a * b <= 0 && c * d <= 0;             // no separating line
  bool r = intersects(s.v, u.v, touch);
  if (touch) vp_assert(r == common, "closed segments share a point");
  else {
    bool lo = (zmin(s.x1, s.x2) < zmax(u.x1, u.x2) && zmin(u.x1, u.x2) < zmax(s.x1, s.x2)) ||
              (zmin(s.y1, s.y2) < zmax(u.y1, u.y2) && zmin(u.y1, u.y2) < zmax(s.y1, s.y2));
    bool inner = common && ((a && b) || (c && d) || (!a && !b && lo));
    vp_assert(r == inner, "with touch off a single shared end does not count");
  }
  if (r && touch) vp_cover("in contact");
  if (!touch && common && !r) vp_cover("contact that does not count");
}
// ---------------------------------------------------------------- values, order, edits
HARNESS(h_C07_values) {
  S4 s = any_s(), u = any_t();
  vp_assert(get(s.v, LOW) == PT(s.x1, s.y1) && get(s.v, HIGH) == PT(s.x2, s.y2) && low(s.v) == PT(s.x1, s.y1) && high(s.v) == PT(s.x2, s.y2), "ends");
  bool eq = s.x1 == u.x1 && s.y1 == u.y1 && s.x2 == u.x2 && s.y2 == u.y2;
  vp_assert((s.v == u.v) == eq && (s.v != u.v) == !eq && equivalence(s.v, u.v) == eq, "equality");
  vp_assert((int)(s.v < u.v) + (int)(u.v < s.v) + (int)eq == 1, "total order");
  vp_assert((s.v <= u.v) == !(u.v < s.v) && (s.v > u.v) == (u.v < s.v) && (s.v >= u.v) == !(s.v < u.v), "derived comparisons");
  SG w = s.v; set(w, LOW, u.v.low()); vp_assert(w == SG(u.v.low(), s.v.high()), "set the low end");
  w = s.v; set(w, HIGH, u.v.low()); vp_assert(w == SG(s.v.low(), u.v.low()), "set the high end");
  w = s.v; low(w, u.v.high()); vp_assert(w == SG(u.v.high(), s.v.high()), "low");
  w = s.v; high(w, u.v.high()); vp_assert(w == SG(s.v.low(), u.v.high()), "high");
  w = copy_construct<SG>(u.v); vp_assert(w == u.v, "copy"); assign(w, s.v); vp_assert(w == s.v, "assign");
  vp_assert(construct<SG>(u.v.low(), s.v.high()) == SG(u.v.low(), s.v.high()), "construct");
}
HARNESS(h_C07_order) {
  S4 s = any_s(), u = any_t(), v = seg("x5", "y5", "x6", "y6");
  if (s.v < u.v && u.v < v.v) { vp_assert(s.v < v.v, "order is transitive"); vp_cover("chain"); }
}
HARNESS(h_C07_center) {
  S4 s = any_s();
  PT c = center(s.v); Z ex = ((Z)s.x1 + s.x2) - 2 * (Z)xof(c), ey = ((Z)s.y1 + s.y2) - 2 * (Z)yof(c);
  vp_assert(ex >= -1 && ex <= 1 && ey >= -1 && ey <= 1, "center is the midpoint up to half a unit");
}
HARNESS(h_C07_translate) {
  S4 s = any_s(); int dx = vp_any_i32("dx"), dy = vp_any_i32("dy");
  vp_assume(fits32((Z)s.x1 + dx) && fits32((Z)s.x2 + dx) && fits32((Z)s.y1 + dy) && fits32((Z)s.y2 + dy));
  SG w = s.v; move(w, HORIZONTAL, dx); vp_assert(w == SG(PT(s.x1 + dx, s.y1), PT(s.x2 + dx, s.y2)), "move horizontally");
  w = s.v; move(w, VERTICAL, dy); vp_assert(w == SG(PT(s.x1, s.y1 + dy), PT(s.x2, s.y2 + dy)), "move vertically");
  w = s.v; convolve(w, PT(dx, dy)); vp_assert(w == SG(PT(s.x1 + dx, s.y1 + dy), PT(s.x2 + dx, s.y2 + dy)), "convolve with a point");
  deconvolve(w, PT(dx, dy)); vp_assert(w == s.v, "deconvolve undoes convolve");
}
HARNESS(h_C07_scale) {
  S4 s = any_s(); int f = (int)vp_range("f", 1, 64);
  vp_assume(fits32((Z)s.x1 * f) && fits32((Z)s.x2 * f) && fits32((Z)s.y1 * f) && fits32((Z)s.y2 * f));
  SG w = s.v; scale_up(w, f); vp_assert(w == SG(PT(s.x1 * f, s.y1 * f), PT(s.x2 * f, s.y2 * f)), "scale up");
  anisotropic_scale_factor<double> g(f, 1); w = s.v; scale(w, g);
  vp_assert(w == SG(PT(s.x1 * f, s.y1), PT(s.x2 * f, s.y2)), "scale each axis");
}
HARNESS(h_C07_scale_down) {
  S4 s = any_s(); vp_assume(s.x1 > -2147483647 && s.y1 > -2147483647 && s.x2 < 2147483647 && s.y2 < 2147483647);
  SG w = s.v; scale_down(w, 2);
  Z a = (Z)s.x1 - 2 * (Z)xof(w.low()), b = (Z)s.y1 - 2 * (Z)yof(w.low()), c = (Z)s.x2 - 2 * (Z)xof(w.high()), d = (Z)s.y2 - 2 * (Z)yof(w.high());
  vp_assert(zabs(a) <= 1 && zabs(b) <= 1 && zabs(c) <= 1 && zabs(d) <= 1, "scale down by two rounds to a nearest coordinate");
  w = s.v; scale_down(w, 8);
  vp_assert(zabs((Z)s.x1 - 8 * (Z)xof(w.low())) <= 4 && zabs((Z)s.y1 - 8 * (Z)yof(w.low())) <= 4 && zabs((Z)s.x2 - 8 * (Z)xof(w.high())) <= 4 && zabs((Z)s.y2 - 8 * (Z)yof(w.high())) <= 4, "scale down by eight rounds to a nearest coordinate");
}
HARNESS(h_C07_transform) {
  S4 s = any_s(); axis_transformation a((axis_transformation::ATR)vp_range("a", 0, 7));
  vp_assume(s.x1 > -2147483647 - 1 && s.y1 > -2147483647 - 1 && s.x2 > -2147483647 - 1 && s.y2 > -2147483647 - 1);
  PT l(s.x1, s.y1), h(s.x2, s.y2); transform(l, a); transform(h, a);
  SG w = s.v; transform(w, a); vp_assert(w == SG(l, h), "transform acts on both ends");
}
