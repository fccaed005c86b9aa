// Contracts of interval_concept.hpp / interval_data.hpp  (C01 set semantics, C02 arithmetic)
#include "vp.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/interval_concept.hpp>
using namespace boost::polygon;
typedef interval_data<int> IV;
struct In { int l, h; IV v; };
// every well-formed interval
static In any_iv(const char* a, const char* b) {
  In r; r.l = vp_any_i32(a); r.h = vp_any_i32(b); vp_assume(r.l <= r.h);
  r.v = IV(r.l, r.h); return r;
}
static direction_1d any_dir(const char* n) { return direction_1d(vp_any_bool(n) ? HIGH : LOW); }
#define IS(x, lo, hi) ((Z)get(x, LOW) == (Z)(lo) && (Z)get(x, HIGH) == (Z)(hi))

HARNESS(h_C01_construct) {
  int a = vp_any_i32("a"), b = vp_any_i32("b");
  IV i = construct<IV>(a, b);
  vp_assert(IS(i, zmin(a, b), zmax(a, b)), "construct normalises the bounds");
  vp_assert(low(i) == get(i, LOW) && high(i) == get(i, HIGH), "low/high agree with get");
  if (a > b) vp_cover("reversed bounds");
  In p = any_iv("l", "h");
  IV c = copy_construct<IV>(p.v);
  vp_assert(IS(c, p.l, p.h), "copy_construct copies");
  IV d(0, 0); assign(d, p.v);
  vp_assert(IS(d, p.l, p.h), "assign copies");
  vp_assert(equivalence(c, p.v), "equivalence of a copy");
  IV e(p.v); 
  vp_assert(e == p.v && !(e != p.v), "data copy constructor");
  IV f; f = p.v;
  vp_assert(IS(f, p.l, p.h), "data assignment");
}
HARNESS(h_C01_assign_any) {
  // assign must work whatever the destination held before
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  assign(q.v, p.v);
  vp_assert(IS(q.v, p.l, p.h), "assign overwrites any previous value");
}
HARNESS(h_C01_set) {
  In p = any_iv("l", "h"); int x = vp_any_i32("x"); direction_1d d = any_dir("dir");
  IV i = p.v; set(i, d, x);
  if (d == LOW) vp_assert(IS(i, x, zmax(x, p.h)), "set low");
  else vp_assert(IS(i, zmin(x, p.l), x), "set high");
  vp_assert(low(i) <= high(i), "set keeps low <= high");
  IV j = p.v; low(j, x); vp_assert(IS(j, x, zmax(x, p.h)), "low(value)");
  IV k = p.v; high(k, x); vp_assert(IS(k, zmin(x, p.l), x), "high(value)");
  if (x > p.h) vp_cover("above"); if (x < p.l) vp_cover("below");
}
HARNESS(h_C01_equivalence) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assert(equivalence(p.v, q.v) == (p.l == q.l && p.h == q.h), "equivalence");
  vp_assert((p.v == q.v) == (p.l == q.l && p.h == q.h), "operator==");
  vp_assert((p.v != q.v) == !(p.l == q.l && p.h == q.h), "operator!=");
  if (p.v == q.v) vp_cover("equal");
}
HARNESS(h_C01_order) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  bool lt = p.l < q.l || (p.l == q.l && p.h < q.h), eq = p.l == q.l && p.h == q.h;
  vp_assert((p.v < q.v) == lt, "operator<");
  vp_assert((p.v <= q.v) == (lt || eq), "operator<=");
  vp_assert((p.v > q.v) == (!lt && !eq), "operator>");
  vp_assert((p.v >= q.v) == !lt, "operator>=");
}
HARNESS(h_C01_contains_point) {
  In p = any_iv("l", "h"); int x = vp_any_i32("x");
  vp_assert(contains(p.v, x, true) == (p.l <= x && x <= p.h), "contains(point, touch)");
  vp_assert(contains(p.v, x, false) == (p.l < x && x < p.h), "contains(point, no touch)");
  vp_assert(contains(p.v, x) == (p.l <= x && x <= p.h), "contains(point) default is touch");
}
HARNESS(h_C01_contains_interval) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2"); bool t = vp_any_bool("touch");
  bool c = contains(p.v, q.v, t);
  vp_assert(c == (t ? (p.l <= q.l && q.h <= p.h) : (p.l < q.l && q.h < p.h)), "contains(interval)");
  int x = vp_any_i32("x");
  if (contains(p.v, q.v) && contains(q.v, x)) vp_assert(contains(p.v, x), "containment is transitive to points");
}
HARNESS(h_C01_intersects) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  int x = vp_any_i32("x");
  bool t = intersects(p.v, q.v, true), n = intersects(p.v, q.v, false);
  vp_assert(t == (zmax(p.l, q.l) <= zmin(p.h, q.h)), "intersects(touch) iff a common point");
  // without touch: the open intersection of the hulls meets; for proper intervals iff a common interior point
  vp_assert(n == (p.l < q.h && q.l < p.h), "intersects(no touch)");
  vp_assert(intersects(p.v, q.v) == t, "intersects default");
  vp_assert(intersects(q.v, p.v, true) == t && intersects(q.v, p.v, false) == n, "intersects is symmetric");
  if (contains(p.v, x) && contains(q.v, x)) vp_assert(t, "a common point implies intersects");
}
HARNESS(h_C01_boundaries) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  bool t = boundaries_intersect(p.v, q.v, true), n = boundaries_intersect(p.v, q.v, false);
  bool inter = zmax(p.l, q.l) <= zmin(p.h, q.h);
  bool strict = (p.l < q.l && q.h < p.h) || (q.l < p.l && p.h < q.h);
  vp_assert(t == (inter && !strict), "boundaries_intersect(touch)");
  bool pb = (q.l < p.l && p.l < q.h) || (q.l < p.h && p.h < q.h), qb = (p.l < q.l && q.l < p.h) || (p.l < q.h && q.h < p.h);
  vp_assert(n == (pb && qb), "boundaries_intersect(no touch)");
  vp_assert(boundaries_intersect(p.v, q.v) == t, "boundaries_intersect default");
}
HARNESS(h_C01_intersect) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2"); bool t = vp_any_bool("touch");
  IV i = p.v; bool r = intersect(i, q.v, t);
  Z lo = zmax(p.l, q.l), hi = zmin(p.h, q.h);
  vp_assert(r == (t ? lo <= hi : lo < hi), "intersect reports whether the common part is non-empty");
  if (r) { vp_assert(IS(i, lo, hi), "intersect yields the common part"); vp_cover("success"); }
  else { vp_assert(IS(i, p.l, p.h), "failed intersect leaves the interval unchanged"); vp_cover("failure"); }
  IV k = p.v; vp_assert(intersect(k, q.v) == (lo <= hi), "intersect default");
}
HARNESS(h_C01_generalized_intersect) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  IV i = p.v; generalized_intersect(i, q.v);
  Z lo = zmax(p.l, q.l), hi = zmin(p.h, q.h);
  vp_assert(IS(i, zmin(lo, hi), zmax(lo, hi)), "generalized_intersect is the common part or the gap");
}
HARNESS(h_C01_abuts) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assert(abuts(p.v, q.v, HIGH) == (q.l == p.h), "abuts high");
  vp_assert(abuts(p.v, q.v, LOW) == (p.l == q.h), "abuts low");
  vp_assert(abuts(p.v, q.v) == (q.l == p.h || p.l == q.h), "abuts");
}
HARNESS(h_C01_encompass) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2"); int x = vp_any_i32("x");
  IV i = p.v; bool r = encompass(i, q.v);
  vp_assert(IS(i, zmin(p.l, q.l), zmax(p.h, q.h)), "encompass is the hull");
  vp_assert(r == !(p.l <= q.l && q.h <= p.h), "encompass reports growth");
  IV j = p.v; r = encompass(j, x);
  vp_assert(IS(j, zmin(p.l, x), zmax(p.h, x)), "encompass(point) is the hull");
  vp_assert(r == !(p.l <= x && x <= p.h), "encompass(point) reports growth");
}
HARNESS(h_C01_join) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  IV i = p.v; bool r = join_with(i, q.v);
  vp_assert(r == (q.l == p.h || p.l == q.h), "join_with succeeds iff the intervals abut");
  if (r) { vp_assert(IS(i, zmin(p.l, q.l), zmax(p.h, q.h)), "join is the union"); vp_cover("joined"); }
  else vp_assert(IS(i, p.l, p.h), "failed join leaves the interval unchanged");
}
// ---------------- C02
HARNESS(h_C02_center_half) {
  In p = any_iv("l", "h");
  Z s = (Z)p.l + p.h;
  Z c = center(p.v);
  vp_assert(2 * c <= s + 1 && 2 * c >= s - 1 && (2 * c == s || (s > 0 ? 2 * c < s : 2 * c > s)), "center is the midpoint rounded towards zero");
  vp_assert(c >= p.l && c <= p.h, "center inside");
  IV a = get_half(p.v, LOW), b = get_half(p.v, HIGH);
  vp_assert(IS(a, p.l, c), "low half"); vp_assert(IS(b, c, p.h), "high half");
}
HARNESS(h_C02_delta) {
  In p = any_iv("l", "h");
  vp_assert((Z)delta(p.v) == (Z)p.h - p.l, "delta is the exact length");
}
HARNESS(h_C02_flip) {
  In p = any_iv("l", "h"); int ax = vp_any_i32("axis");
  vp_assume(fits32(2 * (Z)ax - p.h) && fits32(2 * (Z)ax - p.l));
  IV i = p.v; flip(i, ax);
  vp_assert(IS(i, 2 * (Z)ax - p.h, 2 * (Z)ax - p.l), "flip mirrors about the axis");
  flip(i, ax); vp_assert(IS(i, p.l, p.h), "flip twice restores");
  vp_assume(p.l > -2147483647 && p.h > -2147483647);
  IV j = p.v; flip(j); vp_assert(IS(j, -(Z)p.h, -(Z)p.l), "flip default axis is 0");
}
HARNESS(h_C02_scale_up) {
  In p = any_iv("l", "h"); int f = vp_any_i32("f");
  vp_assume(f >= 0 && fits32((Z)p.l * f) && fits32((Z)p.h * f));
  IV i = p.v; scale_up(i, f);
  vp_assert(IS(i, (Z)p.l * f, (Z)p.h * f), "scale_up multiplies both bounds");
}
HARNESS(h_C02_scale_down) {
  In p = any_iv("l", "h"); int f = vp_any_i32("f"); vp_assume(f > 0);
  IV i = p.v; scale_down(i, f);
  Z a = get(i, LOW), b = get(i, HIGH);
  // quotient truncated towards zero
  vp_assert(p.l >= 0 ? (a * f <= p.l && p.l < (a + 1) * f) : (a * f >= p.l && p.l > (a - 1) * f), "scale_down low");
  vp_assert(p.h >= 0 ? (b * f <= p.h && p.h < (b + 1) * f) : (b * f >= p.h && p.h > (b - 1) * f), "scale_down high");
  vp_assert(a <= b, "scale_down keeps order");
}
HARNESS(h_C02_scale_factor_int) {
  // factors that are small integers or halves: the scaled bounds are exact
  In p = any_iv("l", "h"); int k = (int)vp_range("k", 0, 64);
  vp_assume(fits32((Z)p.l * k) && fits32((Z)p.h * k));
  IV i = p.v; scale(i, (double)k);
  vp_assert(IS(i, (Z)p.l * k, (Z)p.h * k), "scale by an integral factor is exact");
  IV j = p.v; scale(j, 0.5);
  Z a = get(j, LOW), b = get(j, HIGH);
  vp_assert(2 * a <= (Z)p.l + 1 && 2 * a >= (Z)p.l - 1, "scale by one half rounds to nearest (low)");
  vp_assert(2 * b <= (Z)p.h + 1 && 2 * b >= (Z)p.h - 1, "scale by one half rounds to nearest (high)");
  vp_assert(a <= b, "scale keeps order");
}
HARNESS(h_C02_move) {
  In p = any_iv("l", "h"); i64 d = vp_any_i64("d");
  vp_assume(d >= -4294967296LL && d <= 4294967296LL);
  vp_assume(fits32((Z)p.l + d) && fits32((Z)p.h + d));
  IV i = p.v; move(i, d);
  vp_assert(IS(i, (Z)p.l + d, (Z)p.h + d), "move translates both bounds");
  if (d > p.h && p.h > p.l) vp_cover("moved past");
}
HARNESS(h_C02_convolve_value) {
  In p = any_iv("l", "h"); int x = vp_any_i32("x");
  IV i = p.v;
  if (vp_any_bool("which")) {
    vp_assume(fits32((Z)p.l + x) && fits32((Z)p.h + x));
    convolve(i, x); vp_assert(IS(i, (Z)p.l + x, (Z)p.h + x), "convolve(value)");
    deconvolve(i, x); vp_assert(IS(i, p.l, p.h), "deconvolve(value) undoes convolve");
  } else {
    vp_assume(fits32((Z)p.l - x) && fits32((Z)p.h - x));
    deconvolve(i, x); vp_assert(IS(i, (Z)p.l - x, (Z)p.h - x), "deconvolve(value)");
    convolve(i, x); vp_assert(IS(i, p.l, p.h), "convolve(value) undoes deconvolve");
  }
}
HARNESS(h_C02_convolve) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assume(fits32((Z)p.l + q.l) && fits32((Z)p.h + q.h));
  IV i = p.v; convolve(i, q.v);
  vp_assert(IS(i, (Z)p.l + q.l, (Z)p.h + q.h), "convolve(interval) is the Minkowski sum");
  deconvolve(i, q.v);
  vp_assert(IS(i, p.l, p.h), "deconvolve undoes convolve");
}
HARNESS(h_C02_deconvolve) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assume(fits32((Z)p.l - q.l) && fits32((Z)p.h - q.h));
  vp_assume((Z)p.l - q.l <= (Z)p.h - q.h);      // the difference is an interval
  IV i = p.v; deconvolve(i, q.v);
  vp_assert(IS(i, (Z)p.l - q.l, (Z)p.h - q.h), "deconvolve(interval)");
}
HARNESS(h_C02_reflected) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assume(fits32((Z)p.l - q.h) && fits32((Z)p.h - q.l));
  IV i = p.v; reflected_convolve(i, q.v);
  vp_assert(IS(i, (Z)p.l - q.h, (Z)p.h - q.l), "reflected_convolve");
  reflected_deconvolve(i, q.v);
  vp_assert(IS(i, p.l, p.h), "reflected_deconvolve undoes reflected_convolve");
}
HARNESS(h_C02_reflected_deconvolve) {
  In p = any_iv("l", "h"), q = any_iv("l2", "h2");
  vp_assume(fits32((Z)p.l + q.h) && fits32((Z)p.h + q.l) && (Z)p.l + q.h <= (Z)p.h + q.l);
  IV i = p.v; reflected_deconvolve(i, q.v);
  vp_assert(IS(i, (Z)p.l + q.h, (Z)p.h + q.l), "reflected_deconvolve");
}
HARNESS(h_C02_bloat) {
  In p = any_iv("l", "h"); int b = vp_any_i32("b");
  vp_assume(b >= 0 && fits32((Z)p.l - b) && fits32((Z)p.h + b));
  IV i = p.v; bloat(i, b);
  vp_assert(IS(i, (Z)p.l - b, (Z)p.h + b), "bloat moves both bounds outward");
  shrink(i, b); vp_assert(IS(i, p.l, p.h), "shrink undoes bloat");
  IV j = p.v; bloat(j, LOW, b); vp_assert(IS(j, (Z)p.l - b, p.h), "bloat low side");
  IV k = p.v; bloat(k, HIGH, b); vp_assert(IS(k, p.l, (Z)p.h + b), "bloat high side");
}
HARNESS(h_C02_shrink) {
  In p = any_iv("l", "h"); int s = vp_any_i32("s");
  vp_assume(s >= 0 && fits32((Z)p.l + s) && fits32((Z)p.h - s));
  IV i = p.v; shrink(i, s);
  if ((Z)p.h - p.l >= 2 * (Z)s) { vp_assert(IS(i, (Z)p.l + s, (Z)p.h - s), "shrink moves both bounds inward"); vp_cover("regular"); }
  else { vp_assert(low(i) == high(i) && low(i) >= p.l && high(i) <= p.h, "over-shrinking gives a degenerate interval inside the original"); vp_cover("collapsed"); }
}
HARNESS(h_C02_shrink_side) {
  In p = any_iv("l", "h"); int s = vp_any_i32("s");
  vp_assume(s >= 0 && (Z)p.h - p.l >= s);
  IV j = p.v; shrink(j, LOW, s); vp_assert(IS(j, (Z)p.l + s, p.h), "shrink low side");
  IV k = p.v; shrink(k, HIGH, s); vp_assert(IS(k, p.l, (Z)p.h - s), "shrink high side");
}
