// Contracts of the small functions the set sweeps are built from (C12, C15, C16, C18).
#define VP_NO_REALS
#include "vp.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <vector>
#include <limits>
#include <iterator>
#include <memory>
#include <algorithm>
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
static int cnt(const char* n) { return (int)vp_range(n, -1000000000, 1000000000); }
// ---- C12: the counts of two layers and what each operation makes of them
template <class F> static bool spec(int a, int b);
typedef boolean_op::BinaryAnd FA; typedef boolean_op::BinaryOr FO; typedef boolean_op::BinaryNot FN; typedef boolean_op::BinaryXor FX;
template <> bool spec<FA>(int a, int b) { return a > 0 && b > 0; }
template <> bool spec<FO>(int a, int b) { return a > 0 || b > 0; }
template <> bool spec<FN>(int a, int b) { return a > 0 && b <= 0; }
template <> bool spec<FX>(int a, int b) { return (a > 0) != (b > 0); }
template <class F> static void counts() {
  typedef boolean_op::BinaryCount<F> C; int a = cnt("a"), b = cnt("b"), c = cnt("c"), d = cnt("d"); C x(a, b), y(c, d), z;
  vp_assert(F()(a, b) == spec<F>(a, b), "the operation on the two counts"); vp_assert((int)x == (int)spec<F>(a, b), "a pair of counts is worth the operation on them");
  vp_assert(x[0] == a && x[1] == b && z[0] == 0 && z[1] == 0, "construction"); vp_assert((x == y) == (a == c && b == d) && (x != y) == !(a == c && b == d), "equality");
  C s = x + y, t = x - y, n = -x, u(x), v(x), w; u += y; v -= y; w = x;
  vp_assert(s[0] == a + c && s[1] == b + d && u[0] == a + c && u[1] == b + d, "sum"); vp_assert(t[0] == a - c && t[1] == b - d && v[0] == a - c && v[1] == b - d, "difference"); vp_assert(n[0] == -a && n[1] == -b, "negation");
  vp_assert(w[0] == a && w[1] == b, "assignment"); z = 0; vp_assert(z[0] == 0 && z[1] == 0, "assignment of a number");
}
HARNESS(h_C12_and) { counts<FA>(); }
HARNESS(h_C12_or) { counts<FO>(); }
HARNESS(h_C12_not) { counts<FN>(); }
HARNESS(h_C12_xor) { counts<FX>(); }
HARNESS(h_C12_unary) {
  typedef boolean_op::UnaryCount C; int a = cnt("a"), c = cnt("c"); C x(a), y(c), z, s = x + y, t = x - y, n = -x, u(x), v(x), w; u += y; v -= y; w = x; z = 0;
  vp_assert(s.count_ == a + c && u.count_ == a + c && t.count_ == a - c && v.count_ == a - c && n.count_ == -a && w.count_ == a && z.count_ == 0, "arithmetic of a count"); vp_assert((x == y) == (a == c) && (x != y) == (a != c), "equality"); vp_assert(((int)x != 0) == (a % 2 != 0), "odd counts are inside");
}
// ---- C15: the eight-direction sweep, in the doubled coordinates it runs in
typedef long long L; typedef boolean_op_45<L> B45; typedef B45::Scan45Element El; typedef B45::Vertex45 V45; typedef point_data<L> PL;
static L co(const char* n) { return vp_range(n, -(1LL << 40), 1LL << 40); }
static int rise(const char* n) { int r = (int)vp_range(n, -1, 1); vp_pathsplit(r < 0); vp_pathsplit(r > 0); return r; }
static El el(const char* x, const char* y, const char* r) { L a = co(x), b = co(y); int c = rise(r); return El(a, b, c); }
static Z at(const El& e, Z x) { return (Z)e.y + (e.rise > 0 ? x - e.x : e.rise < 0 ? (Z)e.x - x : (Z)0); }
HARNESS(h_C15_eval) { El e = el("x", "y", "r"); L x = co("at"); vp_assert((Z)e.evalAtX(x) == at(e, x), "height of the line at x"); V45 v(PL(e.x, e.y), e.rise, 1); vp_assert((Z)v.evalAtX(x) == at(e, x), "height of the line at x"); }
HARNESS(h_C15_less) {
  El a = el("ax", "ay", "ar"), b = el("bx", "by", "br"); L x = co("x"); int before = vp_any_bool("before"); B45::lessScan45Element<B45::Count2> l(&x, &before);
  Z h = at(a, x), k = at(b, x); bool e = h < k || (h == k && (before ? a.rise > b.rise : a.rise < b.rise)); vp_assert(l(a, b) == e, "order of two edges at the sweep position");
  B45::lessVertex45 m(&x, &before); V45 v(PL(a.x, a.y), a.rise, 1), w(PL(b.x, b.y), b.rise, 1); vp_assert(m(v, w) == e, "order of two edges at the sweep position");
  // it is the order of the heights just before or just after the position
  Z h2 = before ? at(a, (Z)x - 1) : at(a, (Z)x + 1), k2 = before ? at(b, (Z)x - 1) : at(b, (Z)x + 1);
  if (h == k) vp_assert(e == (h2 < k2), "ties are broken by the heights next to the position");
}
HARNESS(h_C15_cross) {
  El a = el("ax", "ay", "ar"), b = el("bx", "by", "br"); L x = co("x"); PL p(7, 7); bool r = a.cross(p, b, x);
  Z h = at(a, x), k = at(b, x); bool meet = (a.rise > b.rise && h <= k) || (a.rise < b.rise && h >= k); vp_assert(r == meet, "edges that approach each other cross");
  if (r && ((h - k) % 2 == 0 || a.rise == 0 || b.rise == 0)) { vp_cover("crossing"); vp_assert((Z)p.y() == at(a, p.x()) && (Z)p.y() == at(b, p.x()) && p.x() >= x, "at the point of both lines, ahead of the sweep"); }
  if (r && !((h - k) % 2 == 0 || a.rise == 0 || b.rise == 0)) { Z d = h > k ? h - k : k - h; vp_assert((Z)p.x() == (Z)x + d / 2 && (Z)p.y() == (h < k ? h : k) + d / 2, "or at the corner of the half-unit cell"); }
}
HARNESS(h_C15_vertex_order) {
  V45 a(PL(co("ax"), co("ay")), rise("ar"), 1), b(PL(co("bx"), co("by")), rise("br"), 1);
  bool e = a.pt.x() != b.pt.x() ? a.pt.x() < b.pt.x() : a.pt.y() != b.pt.y() ? a.pt.y() < b.pt.y() : a.rise < b.rise;
  vp_assert((a < b) == e && (b > a) == e && (a >= b) == !e, "lexicographic");
}
template <int op> static bool logic(int a, int b) { return op == 0 ? a > 0 || b > 0 : op == 1 ? a > 0 && b > 0 : op == 2 ? a > 0 && b <= 0 : (a > 0) != (b > 0); }
template <int op> static bool logic1(int a) { return op == 0 ? a > 0 : op == 1 ? a > 1 : a % 2 != 0; }
struct Out45 { int n; V45 v; Out45() : n(0) {} int end() { return n; } void insert(int, const V45& w) { vp_assert(n == 0, "at most one"); v = w; ++n; } };
template <int op> static void emit() {
  int a = cnt("a"), b = cnt("b"), c = cnt("c"), d = cnt("d"), r = rise("r"); bool hi = vp_any_bool("high"); PL p(co("x"), co("y")); B45::Count2 l(a, b), h(c, d); Out45 o; B45::boolean_op_45_output_functor<op> f; 
  if (hi) f(o, l, h, p, r, HIGH); else f(o, l, h, p, r, LOW);
  int e = (int)logic<op>(c, d) - (int)logic<op>(a, b); if (!hi) e = -e;
  vp_assert((o.n == 1) == (e != 0), "an edge where the answer changes across it"); if (o.n) vp_assert(o.v.count == e && o.v.rise == r && o.v.pt.x() == p.x() && o.v.pt.y() == p.y(), "with the sign of the change");
}
template <int op> static void emit1() {
  int a = cnt("a"), c = cnt("c"), r = rise("r"); bool hi = vp_any_bool("high"); PL p(co("x"), co("y")); B45::Count1 l(a), h(c); Out45 o; B45::unary_op_45_output_functor<op> f;
  if (hi) f(o, l, h, p, r, HIGH); else f(o, l, h, p, r, LOW);
  int e = (int)logic1<op>(c) - (int)logic1<op>(a); if (!hi) e = -e;
  vp_assert((o.n == 1) == (e != 0), "an edge where the answer changes across it"); if (o.n) vp_assert(o.v.count == e && o.v.rise == r && o.v.pt.x() == p.x() && o.v.pt.y() == p.y(), "with the sign of the change");
}
HARNESS(h_C15_or) { emit<0>(); }
HARNESS(h_C15_and) { emit<1>(); }
HARNESS(h_C15_not) { emit<2>(); }
HARNESS(h_C15_xor) { emit<3>(); }
HARNESS(h_C15_union) { emit1<0>(); }
HARNESS(h_C15_self_intersect) { emit1<1>(); }
HARNESS(h_C15_self_xor) { emit1<3>(); }
HARNESS(h_C15_counts) {
  int a = cnt("a"), b = cnt("b"), c = cnt("c"), d = cnt("d"); B45::Count2 x(a, b), y(c, d), s = x + y, t = x - y, n = x.invert();
  vp_assert(s[0] == a + c && s[1] == b + d && t[0] == a - c && t[1] == b - d && n[0] == -a && n[1] == -b, "arithmetic of a pair of counts"); vp_assert((x == y) == (a == c && b == d) && (x != y) != (x == y), "equality");
  B45::Count1 u(a), v(c); vp_assert((u + v).count_ == a + c && (u - v).count_ == a - c && u.invert().count_ == -a && (u == v) == (a == c) && (u != v) != (u == v), "arithmetic of a count");
}
// ---- C16/C18: what the general sweep writes for an edge between two regions (each the set of layers or properties covering it)
typedef scanline_base<int> SB; typedef SB::half_edge HE; typedef point_data<int> PI;
static int any(const char* n) { return vp_any_i32(n); }
struct Key { bool h[2]; Key() { h[0] = h[1] = false; } Key(const Key& k) { h[0] = k.h[0]; h[1] = k.h[1]; } bool empty() const { return !h[0] && !h[1]; } std::size_t size() const { return (std::size_t)h[0] + h[1]; } struct iterator { int v; int operator*() const { return v; } }; iterator begin() const { iterator i; i.v = h[0] ? 0 : 1; return i; } };
struct Rec { int n; int sum; HE e; Rec() : n(0), sum(0) {} void insert_clean(const std::pair<HE, int>& x) { ++n; sum += x.second; e = x.first; } };
static int unit_of(const HE& e) { bool back = e.second.x() < e.first.x() || (e.second.x() == e.first.x() && e.second.y() < e.first.y()); int s = back ? -1 : 1; return e.first.x() == e.second.x() ? -s : s; }
template <int op> static void edge_out() {
  HE e(PI(any("ax"), any("ay")), PI(any("bx"), any("by"))); Key l, r; l.h[0] = vp_any_bool("l0"); l.h[1] = vp_any_bool("l1"); r.h[0] = vp_any_bool("r0"); r.h[1] = vp_any_bool("r1"); Rec o;
  arbitrary_boolean_op<int>::boolean_output_functor<Rec, Key, op> f; f(o, e, l, r);
  bool in[2]; in[0] = op == 0 ? l.h[0] || l.h[1] : op == 1 ? l.h[0] && l.h[1] : op == 2 ? l.h[0] != l.h[1] : l.h[0] && !l.h[1]; in[1] = op == 0 ? r.h[0] || r.h[1] : op == 1 ? r.h[0] && r.h[1] : op == 2 ? r.h[0] != r.h[1] : r.h[0] && !r.h[1];
  vp_assert(o.sum == unit_of(e) * ((int)in[0] - (int)in[1]), "the edge counts where the answer changes across it, with its orientation"); vp_assert((in[0] == in[1]) || o.n == 1, "once"); if (o.n) vp_assert(o.e.first == e.first && o.e.second == e.second, "the edge itself");
}
HARNESS(h_C16_or) { edge_out<0>(); }
HARNESS(h_C16_and) { edge_out<1>(); }
HARNESS(h_C16_xor) { edge_out<2>(); }
HARNESS(h_C16_not) { edge_out<3>(); }
struct Res { Rec r[4]; Rec& operator[](const Key& k) { return r[(int)k.h[0] + 2 * (int)k.h[1]]; } };
HARNESS(h_C18_edge) {
  HE e(PI(any("ax"), any("ay")), PI(any("bx"), any("by"))); Key l, r; l.h[0] = vp_any_bool("l0"); l.h[1] = vp_any_bool("l1"); r.h[0] = vp_any_bool("r0"); r.h[1] = vp_any_bool("r1"); vp_pathsplit(l.h[0]); vp_pathsplit(l.h[1]); vp_pathsplit(r.h[0]); vp_pathsplit(r.h[1]); Res o; merge_output_functor<int> f; f(o, e, l, r);
  int a = (int)l.h[0] + 2 * (int)l.h[1], b = (int)r.h[0] + 2 * (int)r.h[1];
#define REG(k) { int s = unit_of(e) * ((int)(k == a) - (int)(k == b)); vp_assert(o.r[k].sum == (k ? s : 0), "each set of properties gets the edge once per side it covers"); vp_assert(!o.r[k].n || (o.r[k].e.first == e.first && o.r[k].e.second == e.second), "the edge itself"); }
  REG(0) REG(1) REG(2) REG(3)
}
HARNESS(h_C18_point) {
  typedef property_merge_point<int> Q; typedef property_merge_interval<int> I; int a = any("a"), b = any("b"), c = any("c"), d = any("d"); Q p(a, b), q(c, d); I i(a, b), j(c, d);
  vp_assert((p == q) == (a == c && b == d) && (p != q) != (p == q) && (p < q) == (a < c || (a == c && b < d)) && p.x() == a && p.y() == b, "vertices of the merge"); p.x(c); p.y(d); vp_assert(p == q, "setting");
  vp_assert((i == j) == (a == c && b == d) && (i != j) != (i == j) && (i < j) == (a < c || (a == c && b < d)) && i.low() == a && i.high() == b, "intervals of the merge"); i.low(c); i.high(d); vp_assert(i == j, "setting");
}
