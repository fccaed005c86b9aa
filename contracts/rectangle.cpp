// Contracts of rectangle_concept.hpp / rectangle_data.hpp  (C03 set semantics, C04 measures and edits)
#define VP_NO_REALS
#include "vp.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef interval_data<int> IV;
typedef rectangle_data<int> RC;
typedef point_data<int> PT;
struct R { int xl, yl, xh, yh; RC v; };
#define BUILD(r) vp_assume(r.xl <= r.xh && r.yl <= r.yh); r.v = RC(r.xl, r.yl, r.xh, r.yh)
static R any_a() { R r; r.xl = vp_any_i32("axl"); r.yl = vp_any_i32("ayl"); r.xh = vp_any_i32("axh"); r.yh = vp_any_i32("ayh"); BUILD(r); return r; }
static R any_b() { R r; r.xl = vp_any_i32("bxl"); r.yl = vp_any_i32("byl"); r.xh = vp_any_i32("bxh"); r.yh = vp_any_i32("byh"); BUILD(r); return r; }
#define IS(r, a, b, c, d) ((Z)bp::get(bp::get(r, HORIZONTAL), LOW) == (Z)(a) && (Z)bp::get(bp::get(r, VERTICAL), LOW) == (Z)(b) && \
                           (Z)bp::get(bp::get(r, HORIZONTAL), HIGH) == (Z)(c) && (Z)bp::get(bp::get(r, VERTICAL), HIGH) == (Z)(d))
#define SAME(r, o) IS(r, o.xl, o.yl, o.xh, o.yh)
static orientation_2d any_or() { return orientation_2d(vp_any_bool("vertical") ? VERTICAL : HORIZONTAL); }
static direction_2d any_dir() { bool v = vp_any_bool("dir_v"), h = vp_any_bool("dir_pos"); return v ? direction_2d(h ? NORTH : SOUTH) : direction_2d(h ? EAST : WEST); }

HARNESS(h_C03_construct) {
  int a = vp_any_i32("x1"), b = vp_any_i32("y1"), c = vp_any_i32("x2"), d = vp_any_i32("y2");
  RC r(a, b, c, d);
  vp_assert(IS(r, zmin(a, c), zmin(b, d), zmax(a, c), zmax(b, d)), "rectangle_data normalises the bounds");
  RC e; set_points(e, PT(a, b), PT(c, d));
  vp_assert(IS(e, zmin(a, c), zmin(b, d), zmax(a, c), zmax(b, d)), "set_points is the bounding box of two points");
  IV h(zmin(a, c), zmax(a, c)), v(zmin(b, d), zmax(b, d));
  RC f = construct<RC>(h, v), g(h, v);
  vp_assert(IS(f, zmin(a, c), zmin(b, d), zmax(a, c), zmax(b, d)), "construct from intervals");
  vp_assert(f == g && !(f != g) && f == r, "equal rectangles compare equal");
  RC k = copy_construct<RC>(r); vp_assert(k == r, "copy_construct");
  RC l(1, 2, 3, 4); assign(l, r); vp_assert(IS(l, zmin(a, c), zmin(b, d), zmax(a, c), zmax(b, d)), "assign");
  RC m; m = r; vp_assert(m == r, "data assignment");
  if (a <= c && b <= d) { RC q = construct<RC>(a, b, c, d); vp_assert(IS(q, a, b, c, d), "construct from coordinates"); vp_cover("ordered"); }
}
HARNESS(h_C03_equivalence) {
  R a = any_a(), b = any_b(); bool eq = a.xl == b.xl && a.xh == b.xh && a.yl == b.yl && a.yh == b.yh;
  vp_assert(equivalence(a.v, b.v) == eq, "equivalence");
  vp_assert((a.v == b.v) == eq && (a.v != b.v) == !eq, "operator==");
}
HARNESS(h_C03_contains_point) {
  R a = any_a(); int x = vp_any_i32("x"), y = vp_any_i32("y"); PT p(x, y);
  vp_assert(contains(a.v, p, true) == (a.xl <= x && x <= a.xh && a.yl <= y && y <= a.yh), "contains(point, touch)");
  vp_assert(contains(a.v, p, false) == (a.xl < x && x < a.xh && a.yl < y && y < a.yh), "contains(point, no touch)");
  vp_assert(contains(a.v, p) == contains(a.v, p, true), "contains(point) default");
}
HARNESS(h_C03_contains) {
  R a = any_a(), b = any_b();
  bool t = a.xl <= b.xl && b.xh <= a.xh && a.yl <= b.yl && b.yh <= a.yh, n = a.xl < b.xl && b.xh < a.xh && a.yl < b.yl && b.yh < a.yh;
  vp_assert(contains(a.v, b.v, true) == t, "contains(touch)");
  vp_assert(contains(a.v, b.v, false) == n, "contains(no touch)");
  vp_assert(contains(a.v, b.v) == t, "contains default");
}
HARNESS(h_C03_intersects) {
  R a = any_a(), b = any_b();
  bool t = zmax(a.xl, b.xl) <= zmin(a.xh, b.xh) && zmax(a.yl, b.yl) <= zmin(a.yh, b.yh);
  bool n = a.xl < b.xh && b.xl < a.xh && a.yl < b.yh && b.yl < a.yh;
  vp_assert(intersects(a.v, b.v, true) == t, "intersects(touch)");
  vp_assert(intersects(a.v, b.v, false) == n, "intersects(no touch)");
  vp_assert(intersects(a.v, b.v) == t, "intersects default");
}
HARNESS(h_C03_boundaries) {
  R a = any_a(), b = any_b();
  bool t = zmax(a.xl, b.xl) <= zmin(a.xh, b.xh) && zmax(a.yl, b.yl) <= zmin(a.yh, b.yh);
  bool ain = b.xl < a.xl && a.xh < b.xh && b.yl < a.yl && a.yh < b.yh, bin = a.xl < b.xl && b.xh < a.xh && a.yl < b.yl && b.yh < a.yh;
  vp_assert(boundaries_intersect(a.v, b.v, true) == (t && !ain && !bin), "boundaries_intersect(touch)");
  bool n = a.xl < b.xh && b.xl < a.xh && a.yl < b.yh && b.yl < a.yh;
  bool aic = b.xl <= a.xl && a.xh <= b.xh && b.yl <= a.yl && a.yh <= b.yh, bic = a.xl <= b.xl && b.xh <= a.xh && a.yl <= b.yl && b.yh <= a.yh;
  vp_assert(boundaries_intersect(a.v, b.v, false) == (n && !aic && !bic), "boundaries_intersect(no touch)");
  vp_assert(boundaries_intersect(a.v, b.v) == (t && !ain && !bin), "boundaries_intersect default");
}
HARNESS(h_C03_abuts) {
  R a = any_a(), b = any_b();
  bool hx = zmax(a.xl, b.xl) <= zmin(a.xh, b.xh), hy = zmax(a.yl, b.yl) <= zmin(a.yh, b.yh);
  vp_assert(abuts(a.v, b.v, EAST) == (hy && b.xl == a.xh), "abuts east");
  vp_assert(abuts(a.v, b.v, WEST) == (hy && b.xh == a.xl), "abuts west");
  vp_assert(abuts(a.v, b.v, NORTH) == (hx && b.yl == a.yh), "abuts north");
  vp_assert(abuts(a.v, b.v, SOUTH) == (hx && b.yh == a.yl), "abuts south");
  bool h = hy && (b.xl == a.xh || b.xh == a.xl), v = hx && (b.yl == a.yh || b.yh == a.yl);
  vp_assert(abuts(a.v, b.v, HORIZONTAL) == h, "abuts horizontally");
  vp_assert(abuts(a.v, b.v, VERTICAL) == v, "abuts vertically");
  vp_assert(abuts(a.v, b.v) == (h || v), "abuts");
  if (h && v) vp_cover("corner");
}
HARNESS(h_C03_intersect) {
  R a = any_a(), b = any_b(); bool t = vp_any_bool("touch");
  bool want = t ? zmax(a.xl, b.xl) <= zmin(a.xh, b.xh) && zmax(a.yl, b.yl) <= zmin(a.yh, b.yh)
                : a.xl < b.xh && b.xl < a.xh && a.yl < b.yh && b.yl < a.yh;
  RC r = a.v; bool got = bp::intersect(r, b.v, t);
  vp_assert(got == want, "intersect reports whether the rectangles intersect under the touch flag");
  if (want) { vp_assert(IS(r, zmax(a.xl, b.xl), zmax(a.yl, b.yl), zmin(a.xh, b.xh), zmin(a.yh, b.yh)), "intersect is the common part"); vp_cover("common"); }
  else { vp_assert(SAME(r, a), "a failed intersect leaves the rectangle unchanged"); vp_cover("apart"); }
}
HARNESS(h_C03_intersect_interval) {
  R a = any_a(); int l = vp_any_i32("l"), h = vp_any_i32("h"); vp_assume(l <= h); bool t = vp_any_bool("touch"); orientation_2d o = any_or();
  RC r = a.v; bool got = bp::intersect(r, IV(l, h), o, t);
  Z lo = o == HORIZONTAL ? zmax(a.xl, l) : zmax(a.yl, l), hi = o == HORIZONTAL ? zmin(a.xh, h) : zmin(a.yh, h);
  vp_assert(got == (t ? lo <= hi : lo < hi), "intersect with an interval");
  if (!got) vp_assert(SAME(r, a), "failed: unchanged");
  else if (o == HORIZONTAL) vp_assert(IS(r, lo, a.yl, hi, a.yh), "clipped horizontally");
  else vp_assert(IS(r, a.xl, lo, a.xh, hi), "clipped vertically");
}
HARNESS(h_C03_generalized_intersect) {
  R a = any_a(), b = any_b(); RC r = a.v; generalized_intersect(r, b.v);
  Z x1 = zmax(a.xl, b.xl), x2 = zmin(a.xh, b.xh), y1 = zmax(a.yl, b.yl), y2 = zmin(a.yh, b.yh);
  vp_assert(IS(r, zmin(x1, x2), zmin(y1, y2), zmax(x1, x2), zmax(y1, y2)), "generalized_intersect per axis: common part or gap");
}
HARNESS(h_C03_encompass) {
  R a = any_a(), b = any_b(); RC r = a.v; bool g = encompass(r, b.v);
  vp_assert(IS(r, zmin(a.xl, b.xl), zmin(a.yl, b.yl), zmax(a.xh, b.xh), zmax(a.yh, b.yh)), "encompass is the hull");
  vp_assert(g == !(a.xl <= b.xl && b.xh <= a.xh && a.yl <= b.yl && b.yh <= a.yh), "encompass reports growth");
}
HARNESS(h_C03_encompass_point) {
  R a = any_a(); int x = vp_any_i32("x"), y = vp_any_i32("y"); RC r = a.v; bool g = encompass(r, PT(x, y));
  vp_assert(IS(r, zmin(a.xl, x), zmin(a.yl, y), zmax(a.xh, x), zmax(a.yh, y)), "encompass(point) is the hull");
  vp_assert(g == !(a.xl <= x && x <= a.xh && a.yl <= y && y <= a.yh), "encompass(point) reports growth");
  int l = vp_any_i32("l"), h = vp_any_i32("h"); vp_assume(l <= h); orientation_2d o = any_or();
  RC s = a.v; g = encompass(s, IV(l, h), o);
  if (o == HORIZONTAL) { vp_assert(IS(s, zmin(a.xl, l), a.yl, zmax(a.xh, h), a.yh), "encompass(interval) horizontally"); vp_assert(g == !(a.xl <= l && h <= a.xh), "growth"); }
  else { vp_assert(IS(s, a.xl, zmin(a.yl, l), a.xh, zmax(a.yh, h)), "encompass(interval) vertically"); vp_assert(g == !(a.yl <= l && h <= a.yh), "growth"); }
}
HARNESS(h_C03_join) {
  R a = any_a(), b = any_b(); RC r = a.v; bool g = join_with(r, b.v);
  bool ab = (a.xl == b.xl && a.xh == b.xh && (b.yl == a.yh || a.yl == b.yh)) || (a.yl == b.yl && a.yh == b.yh && (b.xl == a.xh || a.xl == b.xh));
  vp_assert(g == ab, "join_with succeeds iff the rectangles share a whole side");
  if (ab) { vp_assert(IS(r, zmin(a.xl, b.xl), zmin(a.yl, b.yl), zmax(a.xh, b.xh), zmax(a.yh, b.yh)), "join is the union"); vp_cover("joined"); }
  else vp_assert(SAME(r, a), "a failed join leaves the rectangle unchanged");
}
HARNESS(h_C03_less) {
  R a = any_a(), b = any_b();
  less_rectangle_concept<RC, RC> v(VERTICAL), h(HORIZONTAL);
  bool lv = a.yl != b.yl ? a.yl < b.yl : a.xl != b.xl ? a.xl < b.xl : a.yh != b.yh ? a.yh < b.yh : a.xh < b.xh;
  bool lh = a.xl != b.xl ? a.xl < b.xl : a.yl != b.yl ? a.yl < b.yl : a.xh != b.xh ? a.xh < b.xh : a.yh < b.yh;
  vp_assert(v(a.v, b.v) == lv, "less_rectangle_concept(VERTICAL) is lexicographic");
  vp_assert(h(a.v, b.v) == lh, "less_rectangle_concept(HORIZONTAL) is lexicographic");
}
// ---------------- C04
HARNESS(h_C04_sides) {
  R a = any_a(); int x = vp_any_i32("x");
  vp_assert(bp::xl(a.v) == a.xl && bp::xh(a.v) == a.xh && bp::yl(a.v) == a.yl && bp::yh(a.v) == a.yh, "reading sides");
  vp_assert(bp::get(a.v, HORIZONTAL, LOW) == a.xl && bp::get(a.v, HORIZONTAL, HIGH) == a.xh && bp::get(a.v, VERTICAL, LOW) == a.yl && bp::get(a.v, VERTICAL, HIGH) == a.yh, "get by orientation and side");
  vp_assert(horizontal(a.v) == IV(a.xl, a.xh) && vertical(a.v) == IV(a.yl, a.yh), "axis intervals");
  vp_assert(a.v.get(EAST) == a.xh && a.v.get(WEST) == a.xl && a.v.get(NORTH) == a.yh && a.v.get(SOUTH) == a.yl, "data get by direction");
  RC r = a.v; bp::xl(r, x); vp_assert(IS(r, x, a.yl, zmax(x, a.xh), a.yh), "writing xl");
  r = a.v; bp::xh(r, x); vp_assert(IS(r, zmin(x, a.xl), a.yl, x, a.yh), "writing xh");
  r = a.v; bp::yl(r, x); vp_assert(IS(r, a.xl, x, a.xh, zmax(x, a.yh)), "writing yl");
  r = a.v; bp::yh(r, x); vp_assert(IS(r, a.xl, zmin(x, a.yl), a.xh, x), "writing yh");
  r = a.v; bp::set(r, HORIZONTAL, LOW, x); vp_assert(IS(r, x, a.yl, zmax(x, a.xh), a.yh), "set left");
  r = a.v; bp::set(r, VERTICAL, HIGH, x); vp_assert(IS(r, a.xl, zmin(x, a.yl), a.xh, x), "set top");
}
HARNESS(h_C04_axis_write) {
  R a = any_a(); int l = vp_any_i32("l"), h = vp_any_i32("h"); vp_assume(l <= h);
  RC r = a.v; horizontal(r, IV(l, h)); vp_assert(IS(r, l, a.yl, h, a.yh), "writing the horizontal interval");
  r = a.v; vertical(r, IV(l, h)); vp_assert(IS(r, a.xl, l, a.xh, h), "writing the vertical interval");
  r = a.v; bp::set(r, VERTICAL, IV(l, h)); vp_assert(IS(r, a.xl, l, a.xh, h), "set vertical interval");
}
HARNESS(h_C04_corners) {
  R a = any_a();
  PT p = bp::ll(a.v); vp_assert(p.x() == a.xl && p.y() == a.yl, "lower left");
  PT q = bp::lr(a.v); vp_assert(q.x() == a.xh && q.y() == a.yl, "lower right");
  PT r = bp::ul(a.v); vp_assert(r.x() == a.xl && r.y() == a.yh, "upper left");
  PT s = bp::ur(a.v); vp_assert(s.x() == a.xh && s.y() == a.yh, "upper right");
}
HARNESS(h_C04_get_corner) {
  R a = any_a(); PT p(0, 0);
  vp_assert(get_corner(p, a.v, NORTH, LOW) && p.x() == a.xl && p.y() == a.yh, "facing north, left");
  vp_assert(get_corner(p, a.v, NORTH, HIGH) && p.x() == a.xh && p.y() == a.yh, "facing north, right");
  vp_assert(get_corner(p, a.v, SOUTH, LOW) && p.x() == a.xh && p.y() == a.yl, "facing south, left");
  vp_assert(get_corner(p, a.v, SOUTH, HIGH) && p.x() == a.xl && p.y() == a.yl, "facing south, right");
  vp_assert(get_corner(p, a.v, EAST, LOW) && p.x() == a.xh && p.y() == a.yh, "facing east, left");
  vp_assert(get_corner(p, a.v, EAST, HIGH) && p.x() == a.xh && p.y() == a.yl, "facing east, right");
  vp_assert(get_corner(p, a.v, WEST, LOW) && p.x() == a.xl && p.y() == a.yl, "facing west, left");
  vp_assert(get_corner(p, a.v, WEST, HIGH) && p.x() == a.xl && p.y() == a.yh, "facing west, right");
}
HARNESS(h_C04_measures) {
  R a = any_a(); Z w = (Z)a.xh - a.xl, h = (Z)a.yh - a.yl;
  vp_assert((Z)delta(a.v, HORIZONTAL) == w && (Z)delta(a.v, VERTICAL) == h, "width and height");
  vp_assert((Z)half_perimeter(a.v) == w + h, "half perimeter");
  vp_assert((Z)perimeter(a.v) == 2 * (w + h), "perimeter");
  vp_assert((guess_orientation(a.v) == HORIZONTAL) == (w >= h), "orientation of the longer side");
  vp_assume(fits64(w * h));
  vp_assert((Z)area(a.v) == w * h, "area");
}
HARNESS(h_C04_center) {
  R a = any_a();
  PT c; bp::center(c, a.v);
  Z sx = (Z)a.xl + a.xh, sy = (Z)a.yl + a.yh, cx = c.x(), cy = c.y();
  vp_assert(cx * 2 == sx || (sx > 0 ? cx * 2 == sx - 1 : cx * 2 == sx + 1), "centre x is the midpoint rounded towards zero");
  vp_assert(cy * 2 == sy || (sy > 0 ? cy * 2 == sy - 1 : cy * 2 == sy + 1), "centre y is the midpoint rounded towards zero");
  RC w = get_half(a.v, WEST), e = get_half(a.v, EAST), s = get_half(a.v, SOUTH), n = get_half(a.v, NORTH);
  vp_assert(IS(w, a.xl, a.yl, cx, a.yh), "west half"); vp_assert(IS(e, cx, a.yl, a.xh, a.yh), "east half");
  vp_assert(IS(s, a.xl, a.yl, a.xh, cy), "south half"); vp_assert(IS(n, a.xl, cy, a.xh, a.yh), "north half");
}
HARNESS(h_C04_move) {
  R a = any_a(); int d = vp_any_i32("d"); orientation_2d o = any_or(); RC r = a.v;
  if (o == HORIZONTAL) { vp_assume(fits32((Z)a.xl + d) && fits32((Z)a.xh + d)); bp::move(r, o, d); vp_assert(IS(r, (Z)a.xl + d, a.yl, (Z)a.xh + d, a.yh), "moved horizontally"); }
  else { vp_assume(fits32((Z)a.yl + d) && fits32((Z)a.yh + d)); bp::move(r, o, d); vp_assert(IS(r, a.xl, (Z)a.yl + d, a.xh, (Z)a.yh + d), "moved vertically"); }
}
HARNESS(h_C04_convolve) {
  R a = any_a(), b = any_b();
  vp_assume(fits32((Z)a.xl + b.xl) && fits32((Z)a.xh + b.xh) && fits32((Z)a.yl + b.yl) && fits32((Z)a.yh + b.yh));
  RC r = a.v; convolve(r, b.v);
  vp_assert(IS(r, (Z)a.xl + b.xl, (Z)a.yl + b.yl, (Z)a.xh + b.xh, (Z)a.yh + b.yh), "convolve is the Minkowski sum");
  deconvolve(r, b.v); vp_assert(SAME(r, a), "deconvolve undoes convolve");
}
HARNESS(h_C04_reflected) {
  R a = any_a(), b = any_b();
  vp_assume(fits32((Z)a.xl - b.xh) && fits32((Z)a.xh - b.xl) && fits32((Z)a.yl - b.yh) && fits32((Z)a.yh - b.yl));
  RC r = a.v; reflected_convolve(r, b.v);
  vp_assert(IS(r, (Z)a.xl - b.xh, (Z)a.yl - b.yh, (Z)a.xh - b.xl, (Z)a.yh - b.yl), "reflected convolve");
  reflected_deconvolve(r, b.v); vp_assert(SAME(r, a), "reflected deconvolve undoes it");
}
HARNESS(h_C04_convolve_point) {
  R a = any_a(); int x = vp_any_i32("x"), y = vp_any_i32("y");
  vp_assume(fits32((Z)a.xl + x) && fits32((Z)a.xh + x) && fits32((Z)a.yl + y) && fits32((Z)a.yh + y));
  RC r = a.v; convolve(r, PT(x, y));
  vp_assert(IS(r, (Z)a.xl + x, (Z)a.yl + y, (Z)a.xh + x, (Z)a.yh + y), "convolve with a point translates");
  deconvolve(r, PT(x, y)); vp_assert(SAME(r, a), "deconvolve with a point translates back");
}
HARNESS(h_C04_bloat) {
  R a = any_a(); int b = vp_any_i32("b"); vp_assume(b >= 0);
  vp_assume(fits32((Z)a.xl - b) && fits32((Z)a.xh + b) && fits32((Z)a.yl - b) && fits32((Z)a.yh + b));
  RC r = a.v; bloat(r, b); vp_assert(IS(r, (Z)a.xl - b, (Z)a.yl - b, (Z)a.xh + b, (Z)a.yh + b), "bloat");
  shrink(r, b); vp_assert(SAME(r, a), "shrink undoes bloat");
  r = a.v; bloat(r, HORIZONTAL, b); vp_assert(IS(r, (Z)a.xl - b, a.yl, (Z)a.xh + b, a.yh), "bloat horizontally");
  r = a.v; bloat(r, VERTICAL, b); vp_assert(IS(r, a.xl, (Z)a.yl - b, a.xh, (Z)a.yh + b), "bloat vertically");
  r = a.v; bloat(r, EAST, b); vp_assert(IS(r, a.xl, a.yl, (Z)a.xh + b, a.yh), "bloat east");
  r = a.v; bloat(r, WEST, b); vp_assert(IS(r, (Z)a.xl - b, a.yl, a.xh, a.yh), "bloat west");
  r = a.v; bloat(r, NORTH, b); vp_assert(IS(r, a.xl, a.yl, a.xh, (Z)a.yh + b), "bloat north");
  r = a.v; bloat(r, SOUTH, b); vp_assert(IS(r, a.xl, (Z)a.yl - b, a.xh, a.yh), "bloat south");
}
HARNESS(h_C04_shrink) {
  R a = any_a(); int b = vp_any_i32("b"); vp_assume(b >= 0 && (Z)a.xh - a.xl >= 2 * (Z)b && (Z)a.yh - a.yl >= 2 * (Z)b);
  RC r = a.v; shrink(r, b); vp_assert(IS(r, (Z)a.xl + b, (Z)a.yl + b, (Z)a.xh - b, (Z)a.yh - b), "shrink");
  r = a.v; shrink(r, HORIZONTAL, b); vp_assert(IS(r, (Z)a.xl + b, a.yl, (Z)a.xh - b, a.yh), "shrink horizontally");
  r = a.v; shrink(r, VERTICAL, b); vp_assert(IS(r, a.xl, (Z)a.yl + b, a.xh, (Z)a.yh - b), "shrink vertically");
  r = a.v; shrink(r, EAST, b); vp_assert(IS(r, a.xl, a.yl, (Z)a.xh - b, a.yh), "shrink east");
  r = a.v; shrink(r, WEST, b); vp_assert(IS(r, (Z)a.xl + b, a.yl, a.xh, a.yh), "shrink west");
  r = a.v; shrink(r, NORTH, b); vp_assert(IS(r, a.xl, a.yl, a.xh, (Z)a.yh - b), "shrink north");
  r = a.v; shrink(r, SOUTH, b); vp_assert(IS(r, a.xl, (Z)a.yl + b, a.xh, a.yh), "shrink south");
}
HARNESS(h_C04_scale_up) {
  R a = any_a(); int f = vp_any_i32("f"); vp_assume(f >= 0);
  vp_assume(fits32((Z)a.xl * f) && fits32((Z)a.xh * f) && fits32((Z)a.yl * f) && fits32((Z)a.yh * f));
  RC r = a.v; scale_up(r, f); vp_assert(IS(r, (Z)a.xl * f, (Z)a.yl * f, (Z)a.xh * f, (Z)a.yh * f), "scale_up");
}
static bool trunc_is(Z q, Z v, Z f) { return v >= 0 ? q * f <= v && v < (q + 1) * f : q * f >= v && v > (q - 1) * f; }
HARNESS(h_C04_scale_down) {
  R a = any_a(); int f = vp_any_i32("f"); vp_assume(f > 0);
  RC r = a.v; scale_down(r, f);
  vp_assert(trunc_is(bp::xl(r), a.xl, f), "scale_down xl"); vp_assert(trunc_is(bp::xh(r), a.xh, f), "scale_down xh");
  vp_assert(trunc_is(bp::yl(r), a.yl, f), "scale_down yl"); vp_assert(trunc_is(bp::yh(r), a.yh, f), "scale_down yh");
}
HARNESS(h_C04_scale) {
  R a = any_a(); int k = (int)vp_range("kx", -8, 8), m = (int)vp_range("ky", -8, 8);
  vp_assume(fits32((Z)a.xl * k) && fits32((Z)a.xh * k) && fits32((Z)a.yl * m) && fits32((Z)a.yh * m));
  RC r = a.v; bp::scale(r, anisotropic_scale_factor<double>(k, m));
  Z p = (Z)a.xl * k, q = (Z)a.xh * k, s = (Z)a.yl * m, t = (Z)a.yh * m;
  vp_assert(IS(r, zmin(p, q), zmin(s, t), zmax(p, q), zmax(s, t)), "scale is the image of the rectangle");
}
HARNESS(h_C04_transform_axis) {
  R a = any_a(); int w = (int)vp_range("atr", 0, 7);
  vp_assume(a.xl > -2147483647 && a.yl > -2147483647);
  RC r = a.v; bp::transform(r, axis_transformation((axis_transformation::ATR)w));
  Z x1 = (w & 1) ? -(Z)a.xh : a.xl, x2 = (w & 1) ? -(Z)a.xl : a.xh, y1 = (w & 2) ? -(Z)a.yh : a.yl, y2 = (w & 2) ? -(Z)a.yl : a.yh;
  if (w & 4) vp_assert(IS(r, y1, x1, y2, x2), "axis transformation with swap"); else vp_assert(IS(r, x1, y1, x2, y2), "axis transformation");
}
HARNESS(h_C04_transform) {
  R a = any_a(); int w = (int)vp_range("atr", 0, 7), px = vp_any_i32("px"), py = vp_any_i32("py");
  Z A = (Z)a.xl - px, B = (Z)a.yl - py, C = (Z)a.xh - px, D = (Z)a.yh - py;
  vp_assume(fits32(A) && fits32(-A) && fits32(B) && fits32(-B) && fits32(C) && fits32(-C) && fits32(D) && fits32(-D));
  RC r = a.v; bp::transform(r, transformation<int>(axis_transformation((axis_transformation::ATR)w), PT(px, py)));
  Z x1 = (w & 1) ? -C : A, x2 = (w & 1) ? -A : C, y1 = (w & 2) ? -D : B, y2 = (w & 2) ? -B : D;
  if (w & 4) vp_assert(IS(r, y1, x1, y2, x2), "transformation with swap"); else vp_assert(IS(r, x1, y1, x2, y2), "transformation");
}
HARNESS(h_C04_data_set) {
  R a = any_a(); int x = vp_any_i32("x");
  RC r = a.v; r.set(VERTICAL, IV(zmin(x, 3), zmax(x, 3))); vp_assert(IS(r, a.xl, zmin(x, 3), a.xh, zmax(x, 3)), "data set(orientation)");
}
