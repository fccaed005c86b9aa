// Contracts of the exact comparisons of the general sweep (C08): scanline_base<int>.
#include "vp.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef point_data<int> PT; typedef scanline_base<int> SB; typedef SB::half_edge HE; typedef long long at;
static int sg(Z v) { return (int)(v > 0) - (int)(v < 0); }
static int xof(const PT& p) { return bp::x(p); }
static int yof(const PT& p) { return bp::y(p); }
static PT any_p(const char* a, const char* b) { int x = vp_any_i32(a), y = vp_any_i32(b); return PT(x, y); }
static at d33(const char* n) { return vp_range(n, -4294967295LL, 4294967295LL); }   // any difference of two ints
static bool lexless(const PT& a, const PT& b) { return xof(a) < xof(b) || (xof(a) == xof(b) && yof(a) < yof(b)); }
#define SIGNS(v) vp_pathsplit((v) > 0); vp_pathsplit((v) < 0)
HARNESS(h_C08_equal_slope_diffs) {
  at dx1 = d33("dx1"), dy1 = d33("dy1"), dx2 = d33("dx2"), dy2 = d33("dy2");
  bool r = SB::equal_slope(dx1, dy1, dx2, dy2);
  SIGNS(dx1); SIGNS(dy1); SIGNS(dx2); SIGNS(dy2);
  vp_assert(r == ((Z)dx1 * dy2 == (Z)dx2 * dy1), "equal slopes are parallel directions");
}
HARNESS(h_C08_less_slope_diffs) {
  at dx1 = d33("dx1"), dy1 = d33("dy1"), dx2 = d33("dx2"), dy2 = d33("dy2");
  bool r = SB::less_slope(dx1, dy1, dx2, dy2);
  SIGNS(dx1); SIGNS(dy1); SIGNS(dx2); SIGNS(dy2);
  // slopes dy/dx as rationals; a vertical direction is steeper than every other one
  Z a = (Z)dy1 * dx2, b = (Z)dy2 * dx1;
  bool e = dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? a < b : a > b;
  vp_assert(r == e, "smaller slope");
}
HARNESS(h_C08_slope_order) {
  at dx1 = d33("dx1"), dy1 = d33("dy1"), dx2 = d33("dx2"), dy2 = d33("dy2");
  vp_assume((dx1 != 0 || dy1 != 0) && (dx2 != 0 || dy2 != 0));
  bool l = SB::less_slope(dx1, dy1, dx2, dy2), g = SB::less_slope(dx2, dy2, dx1, dy1), e = SB::equal_slope(dx1, dy1, dx2, dy2);
  SIGNS(dx1); SIGNS(dy1); SIGNS(dx2); SIGNS(dy2);
  vp_assert((int)l + (int)g + (int)e == 1, "exactly one of less, greater, equal");
}
// ---- the versions taking a pivot and two points
static Z crs(const PT& o, const PT& a, const PT& b) { return ((Z)xof(a) - xof(o)) * ((Z)yof(b) - yof(o)) - ((Z)xof(b) - xof(o)) * ((Z)yof(a) - yof(o)); }
HARNESS(h_C08_equal_slope_points) {
  PT o = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  bool r = SB::equal_slope(xof(o), yof(o), a, b);
  SIGNS((Z)xof(a) - xof(o)); SIGNS((Z)yof(a) - yof(o)); SIGNS((Z)xof(b) - xof(o)); SIGNS((Z)yof(b) - yof(o));
  vp_assert(r == (crs(o, a, b) == 0), "equal slopes are collinear points");
}
HARNESS(h_C08_less_slope_points) {
  PT o = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  bool r = SB::less_slope(xof(o), yof(o), a, b);
  Z dx1 = (Z)xof(a) - xof(o), dx2 = (Z)xof(b) - xof(o), c = crs(o, a, b);
  SIGNS(dx1); SIGNS((Z)yof(a) - yof(o)); SIGNS(dx2); SIGNS((Z)yof(b) - yof(o));
  bool e = dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? c > 0 : c < 0;
  vp_assert(r == e, "smaller slope seen from the pivot");
}
HARNESS(h_C08_less_point) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"); SB::less_point lp;
  vp_assert(lp(a, b) == lexless(a, b), "points are ordered by x, then y");
  vp_assert((int)lp(a, b) + (int)lp(b, a) + (int)(a == b) == 1, "total");
  if (lp(a, b) && lp(b, c)) { vp_assert(lp(a, c), "transitive"); vp_cover("chain"); }
  vp_assert(SB::between(a, b, c) == ((lexless(b, a) && lexless(a, c)) || (lexless(c, a) && lexless(a, b))), "strictly between in the point order");
}
HARNESS(h_C08_edge_kinds) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"); HE e(a, b);
  vp_assert(SB::is_vertical(e) == (xof(a) == xof(b)) && SB::is_horizontal(e) == (yof(a) == yof(b)), "axis-parallel edges");
  vp_assert(SB::is_45_degree(e) == (zabs((Z)xof(a) - xof(b)) == zabs((Z)yof(a) - yof(b))), "diagonal edges");
}
HARNESS(h_C08_unsigned_add) {
  u64 a = vp_any_u64("a"), b = vp_any_u64("b"); bool an = vp_any_bool("an"), bn = vp_any_bool("bn");
  Z e = (an ? -(Z)a : (Z)a) + (bn ? -(Z)b : (Z)b); vp_assume(zabs(e) <= (Z)18446744073709551615ull);
  u64 r; int s; SB::unsigned_add(r, s, a, an ? -1 : 1, b, bn ? -1 : 1);
  vp_assert((s < 0 ? -(Z)r : (Z)r) == e && (s == 1 || s == -1), "sign and magnitude sum");
}
// contracts discharged above, used at the calls below
extern "C" bool c_equal_slope_points(const int& x, const int& y, const PT& a, const PT& b) { return crs(PT(x, y), a, b) == 0; }
extern "C" bool c_less_slope_points(const int& x, const int& y, const PT& a, const PT& b) {
  Z dx1 = (Z)xof(a) - x, dx2 = (Z)xof(b) - x, c = crs(PT(x, y), a, b);
  return dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? c > 0 : c < 0;
}
HARNESS(h_C08s_on_above_or_below) {
  PT p = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  int r = SB::on_above_or_below(p, HE(a, b));
  // the side of the line through a and b directed to the larger end: above (left) is 1
  Z c = crs(a, b, p); int e = lexless(a, b) ? sg(c) : -sg(c);
  SIGNS((Z)xof(a) - xof(p)); SIGNS((Z)xof(b) - xof(p));
  vp_assert(r == e, "point below, on or above an edge");
}
HARNESS(h_C08s_on_above_or_below_reversed) {
  PT p = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  vp_assert(SB::on_above_or_below(p, HE(a, b)) == SB::on_above_or_below(p, HE(b, a)), "independent of the direction of the edge");
}
// vertex ordering used to sort edges around a point
HARNESS(h_C08s_vertex_order) {
  PT p = any_p("x", "y"), q = any_p("px", "py"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  SB::vertex_half_edge v(p, a, 1), w(q, b, 1);
  Z dx1 = (Z)xof(a) - xof(p), dx2 = (Z)xof(b) - xof(p), c = crs(p, a, b);
  bool sl = dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? c > 0 : c < 0;
  vp_assert((v < w) == (lexless(p, q) || (p == q && sl)), "vertices by point, then by slope");
  vp_assert((v > w) == (w < v) && (v >= w) == !(v < w) && (v <= w) == !(w < v), "derived comparisons");
  vp_assert(v.is_begin() == lexless(p, a) && v.is_vertical() == (xof(p) == xof(a)), "begin and vertical");
  vp_assert((v == w) == (p == q && a == b) && (v != w) == !(v == w), "equality");
}
// ---- order of two edges at the sweep position, given the side of every end (opaque: holds for the exact side function)
#ifdef VP_VERIFY
extern "C" int vp_uf_side(const char*, int, int, int, int, int, int);
static int side(const PT& p, const HE& e) { int r = vp_uf_side("side", xof(p), yof(p), xof(e.first), yof(e.first), xof(e.second), yof(e.second)); vp_assume(r >= -1 && r <= 1); return r; }
extern "C" int c_on_above_or_below(PT p, const HE& e) { return side(p, e); }
#else
static int side(const PT& p, const HE& e) { Z c = crs(e.first, e.second, p); return lexless(e.first, e.second) ? sg(c) : -sg(c); }
#endif
extern "C" bool c_less_slope_diffs(at dx1, at dy1, at dx2, at dy2);
static bool sless(at dx1, at dy1, at dx2, at dy2) {
  Z a = (Z)dy1 * dx2, b = (Z)dy2 * dx1;
  return dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? a < b : a > b;
}
extern "C" bool c_less_slope_diffs(at dx1, at dy1, at dx2, at dy2) { return sless(dx1, dy1, dx2, dy2); }
HARNESS(h_C08e_less_half_edge) {
  // two edges whose x range holds the sweep position
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"), d = any_p("dx", "dy"); int x = vp_any_i32("x"), jb = vp_any_bool("before");
  HE e(a, b), f(c, d);
  vp_assume(xof(a) < xof(b) && xof(c) < xof(d) && xof(a) <= x && x <= xof(b) && xof(c) <= x && x <= xof(d));
  SB::evalAtXforYPack pack; SB::less_half_edge less(&x, &jb, &pack);
  bool r = less(e, f);
  bool ea = x == xof(a) || x == xof(b), fa = x == xof(c) || x == xof(d);
  int ey = x == xof(a) ? yof(a) : yof(b), fy = x == xof(c) ? yof(c) : yof(d);
  if (zmax(yof(a), yof(b)) < zmin(yof(c), yof(d))) vp_assert(r, "wholly below");
  else if (zmin(yof(a), yof(b)) > zmax(yof(c), yof(d))) vp_assert(!r, "wholly above");
  else if (ea && fa) {
    if (ey != fy) vp_assert(r == (ey < fy), "ends at the sweep position decide by height");
    else if (a == c && b == d) vp_assert(!r, "an edge is not below itself");
    else vp_assert(r == ((jb != 0) != sless((at)xof(b) - xof(a), (at)yof(b) - yof(a), (at)xof(d) - xof(c), (at)yof(d) - yof(c))), "at a shared point the slopes decide");
  } else {
    int s1 = side(a, f), s2 = side(b, f), t1 = side(c, e);
    if (s1 == s2) vp_assert(r == (s1 < 0), "both ends on one side decide");
    else vp_assert(r == (t1 > 0), "otherwise the side of the other edge's end decides");
  }
}
HARNESS(h_C08e_less_vertex_half_edge) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"), d = any_p("dx", "dy"); int x = vp_any_i32("x"), jb = vp_any_bool("before");
  vp_assume(xof(a) < xof(b) && xof(c) < xof(d) && xof(a) <= x && x <= xof(b) && xof(c) <= x && x <= xof(d));
  SB::evalAtXforYPack pack; SB::less_half_edge less(&x, &jb, &pack); SB::less_vertex_half_edge lv(&x, &jb);
  vp_assert(lv(SB::vertex_half_edge(a, b, 1), SB::vertex_half_edge(c, d, -1)) == less(HE(a, b), HE(c, d)), "both sweeps order edges alike");
}
