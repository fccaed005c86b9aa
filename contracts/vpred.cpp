// Contracts of voronoi_predicates.hpp (C20).
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <limits>
#include <list>
#include <queue>
#include <utility>
#include <vector>
#define private public
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#include <boost/polygon/detail/voronoi_structures.hpp>
#include <boost/polygon/detail/voronoi_predicates.hpp>
#undef private
using namespace boost::polygon; using namespace boost::polygon::detail;
typedef voronoi_predicates<voronoi_ctype_traits<int> > VP;
typedef site_event<int> SE; typedef circle_event<double> CE; typedef point_2d<int> PT;
typedef VP::ot OT; typedef VP::event_comparison_predicate<SE, CE> EC; typedef VP::point_comparison_predicate<PT> PC;
typedef VP::distance_predicate<SE> DP; typedef VP::circle_existence_predicate<SE> CX;
typedef beach_line_node_key<SE> NK; typedef VP::node_comparison_predicate<NK> NC;
static int sg(Z v) { return (int)(v > 0) - (int)(v < 0); }
static Z cr(Z a, Z b, Z c, Z d) { return a * d - b * c; }
static Z turn(const PT& a, const PT& b, const PT& c) { return cr((Z)b.x() - a.x(), (Z)b.y() - a.y(), (Z)c.x() - b.x(), (Z)c.y() - b.y()); }
static bool lex(const PT& a, const PT& b) { return a.x() < b.x() || (a.x() == b.x() && a.y() < b.y()); }
static PT pt(const char* a, const char* b) { int x = vp_any_i32(a), y = vp_any_i32(b); return PT(x, y); }
// ---------------------------------------------------------------- exactness of the cross product
#define D33(n) vp_range(n, -4294967295ll, 4294967295ll)
HARNESS(h_C20x_cross) {
  i64 a1 = D33("a1"), b1 = D33("b1"), a2 = D33("a2"), b2 = D33("b2"); Z t = cr(a1, b1, a2, b2);
  double r = VP::robust_cross_product(a1, b1, a2, b2);
  vp_assert((r > 0) == (t > 0) && (r < 0) == (t < 0), "sign of the cross product");
  vp_assert(vp_d_near(r, 0, t, 51), "cross product within two roundings");
}
// contract of robust_cross_product, discharged above: any double with the right sign
extern "C" double c_cross(i64 a1, i64 b1, i64 a2, i64 b2) {
  Z t = cr(a1, b1, a2, b2); double v = vp_any_f64("cross"); vp_assume(t > 0 ? v > 0 : t < 0 ? v < 0 : v == 0); return v;
}
HARNESS(h_C20_orientation) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"); Z t = turn(a, b, c);
  int r = OT::eval(a, b, c); vp_assert(r == sg(t), "turn of three points"); vp_assert(r == OT::COLLINEAR || r == OT::LEFT || r == OT::RIGHT, "one of the three answers");
}
HARNESS(h_C20_orientation_vectors) {
  i64 a1 = D33("a1"), b1 = D33("b1"), a2 = D33("a2"), b2 = D33("b2");
  vp_assert(OT::eval(a1, b1, a2, b2) == sg(cr(a1, b1, a2, b2)), "turn of two vectors");
}
HARNESS(h_C20_orientation_value) {
  double d = vp_any_f64("d"); vp_assert(OT::eval(d) == (d > 0 ? OT::LEFT : d < 0 ? OT::RIGHT : OT::COLLINEAR), "sign of a value");
  i64 v = vp_any_i64("v"); vp_assert(OT::eval(v) == (v > 0 ? OT::LEFT : v < 0 ? OT::RIGHT : OT::COLLINEAR), "sign of an integer");
}
HARNESS(h_C20_vertical) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"); SE s(a, b);
  vp_assert(VP::is_vertical(a, b) == (a.x() == b.x()) && VP::is_vertical(s) == (a.x() == b.x()), "vertical");
  vp_assert(s.is_segment() == !(a.x() == b.x() && a.y() == b.y()) && s.is_point() == !s.is_segment(), "point or segment");
}
HARNESS(h_C20_point_order) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"); vp_assert(PC()(a, b) == lex(a, b), "lexicographic point order");
}
// ---------------------------------------------------------------- order of the site events
// a site is a point, or a segment whose first end is lexicographically smaller
static SE site(const char* a, const char* b, const char* c, const char* d) {
  PT p = pt(a, b), q = pt(c, d); bool point = vp_any_bool("point"); if (point) return SE(p); vp_assume(lex(p, q)); return SE(p, q);
}
static bool slanted(const SE& s) { return s.x0() != s.x1(); }
static bool upright(const SE& s) { return s.x0() == s.x1() && s.y0() != s.y1(); }
// left to right; on one vertical line first the points and upright segments from the bottom up (a
// point before the upright segment that starts there), then the slanted segments from the bottom up,
// those that start together from the steepest down
static bool before(const SE& s, const SE& t) {
  if (s.x0() != t.x0()) return s.x0() < t.x0();
  if (slanted(s) != slanted(t)) return slanted(t);
  if (s.y0() != t.y0()) return s.y0() < t.y0();
  if (!slanted(s)) return !upright(s) && upright(t);
  return cr((Z)s.x1() - s.x0(), (Z)s.y1() - s.y0(), (Z)t.x1() - t.x0(), (Z)t.y1() - t.y0()) < 0;
}
HARNESS(h_C20_site_order) {
  SE s = site("ax", "ay", "bx", "by"), t = site("cx", "cy", "dx", "dy");
  vp_assert(EC()(s, t) == before(s, t), "order of two site events");
}
HARNESS(h_C20_site_order_laws) {
  SE s = site("ax", "ay", "bx", "by"), t = site("cx", "cy", "dx", "dy");
  vp_assert(!before(s, s), "lemma: irreflexive"); vp_assert(!(before(s, t) && before(t, s)), "lemma: asymmetric");
  if (!before(s, t) && !before(t, s)) {
    vp_assert(s.x0() == t.x0() && s.y0() == t.y0() && slanted(s) == slanted(t) && upright(s) == upright(t), "lemma: ties only for the same start and kind");
    vp_assert(!slanted(s) || turn(s.point0(), s.point1(), t.point1()) == 0, "lemma: tied slanted segments are collinear");
  }
}
// transitivity of "less steep" for three vectors that point right
HARNESS(h_C20_site_order_transitive) {
  i64 a = vp_range("a", 1, 4294967295ll), b = D33("b"), c = vp_range("c", 1, 4294967295ll), d = D33("d"), e = vp_range("e", 1, 4294967295ll), f = D33("f");
  Z s = cr(a, b, c, d), t = cr(c, d, e, f), u = cr(a, b, e, f);
  vp_assert(s * e + t * a == u * c, "lemma: the middle vector");
  vp_assume(s <= 0 && t <= 0); Z p = s * e, q = t * a; vp_assume(p <= 0 && q <= 0 && (p < 0) == (s < 0) && (q < 0) == (t < 0));
  vp_assert(u * c <= 0, "lemma: product sign");
  if (vp_pathsplit(u > 0)) vp_assert(u * c >= u, "lemma: positive");
  vp_assert(u <= 0, "lemma: slope order is transitive");
  if (s < 0 || t < 0) vp_assert(u < 0, "lemma: slope order is strictly transitive");
}
// ---------------------------------------------------------------- circle events
#define NORMAL(v) vp_assume(v > -1e300 && v < 1e300)
HARNESS(h_C20_circle_order) {
  double x = vp_any_f64("x"), y = vp_any_f64("y"), u = vp_any_f64("u"), v = vp_any_f64("v"); NORMAL(x); NORMAL(y); NORMAL(u); NORMAL(v);
  CE a(0.0, y, x), b(0.0, v, u); vp_assert(EC()(a, b) == (x < u || (x == u && y < v)), "order of two circle events");
}
// contract of the ulp comparison (C21): the answer never contradicts the order, equal values are equal
extern "C" int c_ulp(const voronoi_ctype_traits<int>::ulp_cmp_type*, double a, double b, unsigned n) {
  vp_assert(n == 64, "compared within 64 neighbours"); int r = (int)vp_range("ulp", -1, 1); vp_assume(a < b ? r <= 0 : a > b ? r >= 0 : r == 0); return r;
}
HARNESS(h_C20u_site_circle) {
  int x = vp_any_i32("x"); double l = vp_any_f64("l"); NORMAL(l); SE s(x, 0); CE c(0.0, 0.0, l);
  bool p = EC()(s, c), q = EC()(c, s);
  vp_assert(!p || x < l, "a site goes before a circle event only when it lies to the left"); vp_assert(!q || l < x, "a circle event goes before a site only when it ends to the left");
  if (vp_native() && l > 1e-300) {
    double d = x; int k = 0; while (k <= 64 && d != l) { d = std::nextafter(d, l); ++k; }
    vp_assert(x <= 0 || (p == (x < l && k > 64) && q == (x > l && k > 64)), "decided exactly beyond 64 neighbours");
  }
}
// ---------------------------------------------------------------- existence of circle events
static PT any_p(const char* a, const char* b) { return pt(a, b); }
#ifdef VP_VERIFY
extern "C" int c_turn(const PT& a, const PT& b, const PT& c) { return sg(turn(a, b, c)); }
#endif
static SE idx(SE s, int i) { s.sorted_index(i); return s; }
HARNESS(h_C20t_exist_ppp) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"); SE s(a), t(b), u(c);
  vp_assert(CX().ppp(s, t, u) == (turn(a, b, c) < 0), "three points turn right");
}
HARNESS(h_C20t_exist_pps) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"), d = any_p("dx", "dy"); SE s(a), t(b), u(c, d); bool inv = vp_any_bool("inverse"); if (inv) { u.inverse(); PT q = c; c = d; d = q; }
  // the circle lies right of the directed segment and touches it right of the line through the points; as
  // the rightmost point of the circle comes last, a forward segment before (after) the points is touched on
  // the side of its start (end), and so is any segment when the points run against the sweep
  bool r1 = turn(a, b, c) < 0, r2 = turn(a, b, d) < 0;
  vp_assert(CX().pps(s, t, u, 1) == (a.x() >= b.x() || !inv ? r1 : (r1 || r2)), "segment first");
  vp_assert(CX().pps(s, t, u, 3) == (b.x() >= a.x() || inv ? r2 : (r1 || r2)), "segment last");
  vp_assert(CX().pps(s, t, u, 2) == !(a == c && b == d), "segment in the middle: not between its own ends");
}
HARNESS(h_C20t_exist_pss) {
  PT a = any_p("ax", "ay"), b = any_p("bx", "by"), c = any_p("cx", "cy"), d = any_p("dx", "dy"), e = any_p("ex", "ey"); int i = vp_any_i32("i"), j = vp_any_i32("j"); bool v = vp_any_bool("inv1"), w = vp_any_bool("inv2");
  vp_assume(i >= 0 && j >= 0);
  SE s(a), t = idx(SE(b, c), i), u = idx(SE(d, e), j); if (v) t.inverse(); if (w) u.inverse();
  PT t0 = v ? c : b, u1 = w ? d : e;
  vp_assert(t.is_inverse() == v && t.point0() == t0 && u.point1() == u1, "inverse exchanges the ends");
  for (int k = 1; k <= 3; ++k) {
    bool r = i != j && (k != 2 || !((!v && w) || (v == w && turn(t0, a, u1) >= 0)));
    vp_assert(CX().pss(s, t, u, k) == r, "existence for a point and two segments");
  }
}
HARNESS(h_C20t_exist_sss) {
  int i = vp_any_i32("i"), j = vp_any_i32("j"), k = vp_any_i32("k"); vp_assume(i >= 0 && j >= 0 && k >= 0); SE s = idx(SE(0, 0, 1, 1), i), t = idx(SE(0, 0, 1, 1), j), u = idx(SE(0, 0, 1, 1), k);
  vp_assert(CX().sss(s, t, u) == (i != j && j != k), "three segments: neighbours differ");
}
// ---------------------------------------------------------------- distances to arcs
#ifdef VP_VERIFY
#define C30(n) vp_any_i32(n)
HARNESS(h_C20_point_arc) {
  PT a = pt("ax", "ay"), p = pt("px", "py"); vp_assume(a.x() < p.x());
  double r = DP().find_distance_to_point_arc(SE(a), p); Z dx = (Z)a.x() - p.x(), dy = (Z)a.y() - p.y();
  R lhs = Rd(r) * Rz(2 * dx), N = Rz(dx * dx + dy * dy), e = N * Rp2(-51);
  vp_assert(lhs - N <= e && N - lhs <= e, "distance to the arc of a point within four roundings"); vp_assert(r < 0, "the arc is to the left");
}
#endif
// the value -2*dx*D and 2*|dx| of the arcs
struct arc { Z n, d; };
static arc parc(const PT& s, const PT& p) { Z dx = (Z)p.x() - s.x(), dy = (Z)p.y() - s.y(); arc a; a.n = dx * dx + dy * dy; a.d = dx; return a; }
#ifdef VP_VERIFY
// contract of find_distance_to_point_arc (h_C20_point_arc)
extern "C" double c_point_arc(const DP*, const SE& s, const PT& p) {
  double v = vp_r_todbl(vp_r_any()); Z dx = (Z)s.x() - p.x(), dy = (Z)s.y() - p.y(); R lhs = Rd(v) * Rz(2 * dx), N = Rz(dx * dx + dy * dy), e = N * Rp2(-51);
  vp_assume(v < 0); vp_assume(lhs - N <= e); vp_assume(N - lhs <= e); return v;
}
#endif
#ifdef VP_VERIFY
// contract of robust_cross_product (h_C20x_cross), as a real
extern "C" double c_cross_near(i64 a1, i64 b1, i64 a2, i64 b2) {
  Z t = cr(a1, b1, a2, b2); double v = vp_r_todbl_in(vp_r_any(), -1e30, 1e30); vp_assume(t > 0 ? v > 0 : t < 0 ? v < 0 : v == 0);
  R d = Rd(v) - Rz(t), e = Rp2(-51) * (t < 0 ? Rz(-t) : Rz(t)); vp_assume(d <= e); vp_assume(Rd(0) - e <= d); return v;
}
// the length of a vector
HARNESS(h_C20l_length) {
  i64 u = D33("u"), v = D33("v"); vp_assume(u != 0); vp_pathsplit(u > 0); double a = (double)u, b = (double)v; vp_assert((Z)u * u >= 1, "lemma: positive");
  double k = get_sqrt(a * a + b * b); R S = Rsqrt(Rz((Z)u * u + (Z)v * v)), e = S * Rp2(-51);
  vp_assert(Rd(k) - S <= e && S - Rd(k) <= e, "length within two roundings");
}
static double g_u, g_v; static R g_S;
extern "C" double c_len(const double& x) {       // h_C20l_length
  vp_assert(x == g_u * g_u + g_v * g_v, "the root is taken of the squared length");
  double k = vp_r_todbl_in(vp_r_any(), 0.5, 1e10); R e = g_S * Rp2(-51); vp_assume(Rd(k) - g_S <= e); vp_assume(g_S - Rd(k) <= e); return k;
}
HARNESS(h_C20s_segment_arc) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), p = pt("px", "py"); vp_assume(!(a == b)); vp_pathsplit(b.x() > a.x()); vp_pathsplit(b.x() < a.x()); bool rising = vp_pathsplit(b.y() >= a.y());
  Z u = (Z)b.x() - a.x(), v = (Z)b.y() - a.y(), t = cr(u, v, (Z)p.x() - a.x(), (Z)p.y() - a.y());
  g_u = (double)b.x() - (double)a.x(); g_v = (double)b.y() - (double)a.y(); g_S = mkR(vp_r_any()); vp_assume(Rz(1) <= g_S); vp_assume(g_S < Rz((Z)1 << 33)); vp_assume(Rz(v) <= g_S); vp_assume(Rz(-v) <= g_S);   // the root of u*u + v*v
  int ts = vp_pathsplit(t > 0) ? 1 : vp_pathsplit(t < 0) ? -1 : 0;
  double r = DP().find_distance_to_segment_arc(SE(a, b), p);
  if (u == 0) { R d = Rd(r) - (Rz(a.x()) - Rz(p.x())) * Rd(0.5); vp_assert(d <= Rd(0) && Rd(0) <= d, "half of the distance to an upright segment"); return; }
  R e = Rp2(-49), y = Rz(t), m = ts < 0 ? Rz(-t) : Rz(t);
  if (rising) { R x = Rd(r) * (g_S + Rz(v)); vp_assert(x - y <= m * e && y - x <= m * e, "distance to the arc of a rising segment within eight roundings"); }
  else { R x = Rd(r) * Rz(u * u), w = g_S - Rz(v); vp_assert(x - y * w <= m * w * e && y * w - x <= m * w * e, "distance to the arc of a falling segment within eight roundings"); }
  vp_assert((r > 0) == (t > 0) && (r < 0) == (t < 0), "sign of the distance to a segment");
}
// which comparison is made for which pair of sites, and how a tie of directions is settled
static int g_turn, g_k; static double g_a, g_b, g_c, g_d;
extern "C" double c_pa(const DP*, const SE& s, const PT& p) { g_k |= 1; return s.x0() == 1 ? g_a : g_b; }
extern "C" double c_sa(const DP*, const SE& s, const PT& p) { g_k |= 2; return s.x0() == 1 ? g_a : g_b; }
extern "C" int c_fast(const DP*, const SE& s, const SE& t, const PT& p, bool rev) { vp_assert(s.is_point() && t.is_segment(), "point first"); vp_assert(rev == (t.x0() == 1), "which side the segment is on"); g_k |= 4; return g_turn; }
HARNESS(h_C20d_dispatch) {
  bool ls = vp_any_bool("ls"), rs = vp_any_bool("rs"); int i = vp_any_i32("i"), j = vp_any_i32("j"); vp_assume(i >= 0 && j >= 0); PT p = pt("px", "py"); vp_assume(ls || rs);
  SE l = idx(ls ? SE(1, 1, 5, 7) : SE(1, 1), i), r = idx(rs ? SE(2, 0, 9, 3) : SE(2, 0), j);
  g_turn = (int)vp_range("fast", -1, 1); g_a = vp_any_f64("da"); g_b = vp_any_f64("db"); g_k = 0; bool q = DP()(l, r, p);
  if (ls && rs) vp_assert(i == j ? q == (cr(4, 6, (Z)p.x() - 1, (Z)p.y() - 1) > 0) : q == (g_a < g_b), "two segments: the nearer arc, one segment with itself: the side of the point");
  else if (g_turn != 0) vp_assert(q == (g_turn < 0), "settled by the filter");
  else vp_assert(q == (rs ? g_a < g_b : !(g_b < g_a)), "point and segment: the nearer arc");
}
#endif
HARNESS(h_C20f_wrong_side) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"), p = pt("px", "py"); vp_assume(lex(b, c)); bool inv = vp_any_bool("inv"), rev = vp_any_bool("rev"); SE s(b, c); if (inv) s.inverse();
  int t = sg(turn(s.point0(), s.point1(), p)); vp_assume(t >= 0);
  vp_assert(DP().fast_ps(SE(a), s, p, rev) == (inv ? DP::MORE : DP::LESS), "a point beyond the segment is decided by the side the segment shows");
  vp_assert((rev ? DP()(s, SE(a), p) : DP()(SE(a), s, p)) == !inv, "a point beyond the segment");
}
HARNESS(h_C20p_pp) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), p = pt("px", "py"); vp_assume(a.x() < p.x() && b.x() < p.x());
  bool r = DP()(SE(a), SE(b), p);
  if (a.x() == b.x()) vp_assert(r == ((Z)2 * p.y() > (Z)a.y() + b.y()), "points on one vertical line: above the middle");
  else if (a.x() > b.x() && p.y() <= a.y()) vp_assert(!r, "below the nearer left point");
  else if (a.x() < b.x() && p.y() >= b.y()) vp_assert(r, "above the nearer right point");
  else {
    arc u = parc(a, p), v = parc(b, p); Z l = u.n * v.d, m = v.n * u.d;   // r: -n1/d1 < -n2/d2, that is l > m
#ifdef VP_VERIFY
    R L = Rz(l), M = Rz(m), e = Rp2(-49);
    if (vp_pathsplit(r)) vp_assert(M - L <= e * L, "the right arc comes first"); else vp_assert(L - M <= e * M, "the left arc comes first");
#else
    Z one = (Z)1 << 49; if (r) vp_assert((m - l) * one <= l, "the right arc comes first"); else vp_assert((l - m) * one <= m, "the left arc comes first");
#endif
  }
}
// ---------------------------------------------------------------- beach-line nodes
#ifdef VP_VERIFY
static SE g_l, g_r; static PT g_p(0, 0); static int g_calls; static bool g_res;
extern "C" bool c_dist(const DP*, const SE& l, const SE& r, const PT& p) { g_l = l; g_r = r; g_p = p; ++g_calls; g_res = vp_any_bool("dist"); return g_res; }
static bool sameSE(const SE& a, const SE& b) { return a.point0() == b.point0() && a.point1() == b.point1() && a.sorted_index() == b.sorted_index() && a.is_inverse() == b.is_inverse(); }
static SE nsite(const char* a, const char* b, const char* c, const char* d, const char* i) { PT p = pt(a, b), q = pt(c, d); SE s(p, q); int k = vp_any_i32(i); vp_assume(k >= 0); s.sorted_index(k); return s; }
static PT lo(const SE& s) { return lex(s.point0(), s.point1()) ? s.point0() : s.point1(); }
HARNESS(h_C20n_nodes) {
  SE a = nsite("ax", "ay", "bx", "by", "i"), b = nsite("cx", "cy", "dx", "dy", "j"), c = nsite("ex", "ey", "fx", "fy", "k"), d = nsite("gx", "gy", "hx", "hy", "l");
  NK m(a, b), n(c, d); SE s = a.sorted_index() > b.sorted_index() ? a : b, t = c.sorted_index() > d.sorted_index() ? c : d;
  g_calls = 0; g_res = false; bool r = NC()(m, n); int xs = lo(s).x(), xt = lo(t).x();
  if (xs < xt) { vp_assert(g_calls == 1 && r == g_res && sameSE(g_l, a) && sameSE(g_r, b) && g_p == lo(t), "the newer node is placed by the distances of the older"); }
  else if (xs > xt) { vp_assert(g_calls == 1 && r == !g_res && sameSE(g_l, c) && sameSE(g_r, d) && g_p == lo(s), "the newer first node is placed by the distances of the older"); }
  else vp_assert(g_calls == 0, "nodes of one sweep position need no distances");
}
// y and side of the newest site of a node
static void spec_y(const NK& n, bool fresh, int& y, int& k) {
  const SE &l = n.left_site(), &r = n.right_site();
  if (l.sorted_index() == r.sorted_index()) { y = l.y0(); k = 0; }
  else if (l.sorted_index() > r.sorted_index()) { y = (!fresh && upright(l)) ? l.y0() : l.y1(); k = 1; }
  else { y = r.y0(); k = -1; }
}
HARNESS(h_C20n_nodes_same_x) {
  SE a = nsite("ax", "ay", "bx", "by", "i"), b = nsite("cx", "cy", "dx", "dy", "j"), c = nsite("ex", "ey", "fx", "fy", "k"), d = nsite("gx", "gy", "hx", "hy", "l");
  NK m(a, b), n(c, d); SE s = a.sorted_index() > b.sorted_index() ? a : b, t = c.sorted_index() > d.sorted_index() ? c : d; vp_assume(lo(s).x() == lo(t).x());
  bool r = NC()(m, n), same = s.sorted_index() == t.sorted_index(), sold = s.sorted_index() < t.sorted_index(); int y1, k1, y2, k2;
  spec_y(m, same || !sold, y1, k1); spec_y(n, same || sold, y2, k2);
  if (same) vp_assert(r == (y1 < y2 || (y1 == y2 && k1 < k2)), "two new nodes by height, then side");
  else if (y1 != y2) vp_assert(r == (y1 < y2), "by height");
  else if (sold) vp_assert(r == (!s.is_segment() && k1 < 0), "tie with an older first node");
  else vp_assert(r == (t.is_segment() || k2 > 0), "tie with an older second node");
}
#endif

// ---------------------------------------------------------------- circle through three points (exact integer type)
#ifdef VP_VERIFY
struct zconv { double operator()(Z v) const { return (double)v; } double operator()(double v) const { return v; } };
struct ztraits { typedef int int_type; typedef i64 int_x2_type; typedef u64 uint_x2_type; typedef Z big_int_type; typedef double fpt_type; typedef double efpt_type; typedef ulp_comparison<double> ulp_cmp_type; typedef zconv to_fpt_converter_type; typedef zconv to_efpt_converter_type; };
typedef voronoi_predicates<ztraits>::mp_circle_formation_functor<SE, CE> MC;
struct circ { Z X, Y, D, Q; };      // centre (X/2D, Y/2D), squared radius Q/4D^2
static circ circ3(const PT& a, const PT& b, const PT& c) {
  Z ax = a.x(), ay = a.y(), bx = b.x(), by = b.y(), cx = c.x(), cy = c.y(), A = ax * ax + ay * ay, B = bx * bx + by * by, C = cx * cx + cy * cy;
  circ r; r.D = turn(a, b, c); r.X = A * (by - cy) + B * (cy - ay) + C * (ay - by); r.Y = A * (cx - bx) + B * (ax - cx) + C * (bx - ax);
  Z p = (ax - bx) * (ax - bx) + (ay - by) * (ay - by), q = (bx - cx) * (bx - cx) + (by - cy) * (by - cy), s = (ax - cx) * (ax - cx) + (ay - cy) * (ay - cy); r.Q = p * q * s; return r;
}
static Z far2(const circ& r, const PT& a) { Z u = r.X - 2 * r.D * a.x(), v = r.Y - 2 * r.D * a.y(); return u * u + v * v; }
#define P3 PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy")
HARNESS(h_C20c_lemma_centre) {
  P3; circ r = circ3(a, b, c);
  vp_assert(far2(r, a) == r.Q, "lemma: distance of the centre to the first point"); vp_assert(far2(r, b) == r.Q, "lemma: to the second"); vp_assert(far2(r, c) == r.Q, "lemma: to the third");
}
#endif
