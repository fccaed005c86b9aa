// Contracts of the error-tracking floats and of the robust sums of square roots (C22).
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <limits>
#include <utility>
#include <boost/polygon/detail/voronoi_robust_fpt.hpp>
using namespace boost::polygon::detail;
typedef robust_fpt<double> RF; typedef robust_dif<double> RD;
#ifdef VP_VERIFY
// one unit of the tracked relative error is 2^-52; the error is relative to the computed value
#define EPS Rp2(-52)
// a tracked value and any true value within its tracked error
#define TRACK(x, X, lim) double x##_v = vp_any_f64(#x), x##_e = vp_any_f64(#x "_re"); vp_assume(x##_e >= 0 && x##_e <= lim && x##_v > -1e100 && x##_v < 1e100 && (x##_v == 0 || x##_v >= 1e-90 || x##_v <= -1e-90)); RF x(x##_v, x##_e); \
  R X##_p = mkR(vp_r_any()); vp_assume(X##_p <= Rd(x##_e)); vp_assume(Rd(0) - Rd(x##_e) <= X##_p); R X = Rd(x##_v) + Rd(x##_v) * EPS * X##_p
static void within(const RF& r, R T, const char* n) {
  R v = Rd(r.fpv()), e = Rd(r.re()) * EPS;
  vp_pathsplit(r.fpv() >= 0);
  R b = r.fpv() >= 0 ? e * v : e * (Rd(0) - v);
  vp_assert(v - T <= b && T - v <= b, n); vp_assert(Rd(0) <= Rd(r.re()), "tracked error is not negative");
}
#define LIM 1048576.0
#define SOME(v) { double t_ = v; vp_assume(t_ >= 1e-90 || t_ <= -1e-90); }
#define USABLE(r) vp_assume(r.re() <= 1099511627776.0)      // 2^40: the value still has a correct bit
HARNESS(h_C22_fpt_add) { TRACK(x, X, LIM); TRACK(y, Y, LIM); vp_pathsplit(x_v >= 0); vp_pathsplit(y_v >= 0); SOME(x_v + y_v); RF r = x + y; USABLE(r); within(r, X + Y, "sum within the tracked error"); }
HARNESS(h_C22_fpt_sub) { TRACK(x, X, LIM); TRACK(y, Y, LIM); vp_pathsplit(x_v >= 0); vp_pathsplit(y_v >= 0); SOME(x_v - y_v); RF r = x - y; USABLE(r); within(r, X - Y, "difference within the tracked error"); }
HARNESS(h_C22_fpt_mul) { TRACK(x, X, LIM); TRACK(y, Y, LIM); RF r = x * y; within(r, X * Y, "product within the tracked error"); }
HARNESS(h_C22_fpt_eq) {
  TRACK(x, X, LIM); TRACK(y, Y, LIM); SOME(x_v + y_v); SOME(x_v - y_v); vp_assume(y_v != 0);
  RF a = x, b = x, c = x, d = x; a += y; b -= y; c *= y; d /= y; RF e = x + y, f = x - y, g = x * y, h = x / y, m = -x;
  vp_assert(a.fpv() == e.fpv() && a.re() == e.re(), "+= is +"); vp_assert(b.fpv() == f.fpv() && b.re() == f.re(), "-= is -");
  vp_assert(c.fpv() == g.fpv() && d.fpv() == h.fpv(), "*= is *, /= is /");
  vp_assert(m.fpv() == -x_v && m.re() == x_e, "negation");
  vp_assert(is_pos(x) == (x_v > 0) && is_neg(x) == (x_v < 0) && is_zero(x) == (x_v == 0), "sign");
}
static void div_within(const RF& r, R X, R Y) {
  R v = Rd(r.fpv()), e = Rd(r.re()) * EPS;
  // |v - X/Y| <= e*|v|  <=>  |v*Y - X| <= e*|v*Y|
  R vy = v * Y; 
  vp_pathsplit(Rd(0) <= vy); R b = (Rd(0) <= vy) ? e * vy : e * (Rd(0) - vy);
  vp_assert(vy - X <= b && X - vy <= b, "quotient within the tracked error");
}
HARNESS(h_C22_fpt_mul_assign) { TRACK(x, X, LIM); TRACK(y, Y, LIM); RF r = x; r *= y; within(r, X * Y, "product within the tracked error"); }
HARNESS(h_C22_fpt_div) {
  // the true quotient T: T * Y == X
  TRACK(x, X, LIM); TRACK(y, Y, LIM); vp_assume(y_v != 0); vp_pathsplit(y_v > 0); vp_pathsplit(x_v > 0);
  RF r = x / y; div_within(r, X, Y);
}
HARNESS(h_C22_fpt_div_assign) {
  TRACK(x, X, LIM); TRACK(y, Y, LIM); vp_assume(y_v != 0); vp_pathsplit(y_v > 0); vp_pathsplit(x_v > 0);
  RF r = x; r /= y; div_within(r, X, Y);
}
HARNESS(h_C22_fpt_sqrt) {
  TRACK(x, X, LIM); vp_assume(x_v > 0); R T = Rsqrt(X); RF r = x.sqrt(); within(r, T, "root within the tracked error");
}
#endif
// ---- robust_dif: the pair (pos, neg) stands for pos - neg with both parts >= 0 (exact on integers)
#define DIF(d, p, n) i64 p = vp_range(#p, 0, 1 << 24), n = vp_range(#n, 0, 1 << 24); RD d((double)p, (double)n)
static void is(const RD& d, Z p, Z n, const char* t) { vp_assert(vp_d_is(d.pos(), p) && vp_d_is(d.neg(), n), t); }
static Z ps(Z v) { return v > 0 ? v : (Z)0; }
static Z ng(Z v) { return v < 0 ? -v : (Z)0; }
HARNESS(h_C22_dif_sums) {
  DIF(a, p, n); DIF(b, q, m); i64 v = vp_range("v", -(1 << 24), 1 << 24); double x = (double)v;
  is(RD(x), ps(v), ng(v), "split by sign"); is(-a, n, p, "negation"); vp_assert(vp_d_is(a.dif(), (Z)p - n), "difference");
  is(a + b, (Z)p + q, (Z)n + m, "sum"); is(a - b, (Z)p + m, (Z)n + q, "difference of two");
  is(a + x, (Z)p + ps(v), (Z)n + ng(v), "sum with a value"); is(x + a, (Z)p + ps(v), (Z)n + ng(v), "sum with a value, swapped");
  is(a - x, (Z)p + ng(v), (Z)n + ps(v), "difference with a value"); is(x - a, (Z)n + ps(v), (Z)p + ng(v), "value minus");
  RD c = a; c += b; is(c, (Z)p + q, (Z)n + m, "+="); c = a; c -= b; is(c, (Z)p + m, (Z)n + q, "-=");
  c = a; c += x; is(c, (Z)p + ps(v), (Z)n + ng(v), "+= value"); c = a; c -= x; is(c, (Z)p + ng(v), (Z)n + ps(v), "-= value");
}
HARNESS(h_C22_dif_products) {
  DIF(a, p, n); DIF(b, q, m); i64 v = vp_range("v", -(1 << 24), 1 << 24); double x = (double)v;
  is(a * b, (Z)p * q + (Z)n * m, (Z)p * m + (Z)n * q, "product"); RD c = a; c *= b; is(c, (Z)p * q + (Z)n * m, (Z)p * m + (Z)n * q, "*=");
  Z w = zabs(v), P = v >= 0 ? w * p : w * n, N = v >= 0 ? w * n : w * p;
  vp_pathsplit(v >= 0);
  is(a * x, P, N, "product with a value"); is(x * a, P, N, "product with a value, swapped"); c = a; c *= x; is(c, P, N, "*= value");
}
HARNESS(h_C22_dif_quotient) {
  i64 p = vp_range("p", 0, 1 << 20), n = vp_range("n", 0, 1 << 20); int k = (int)vp_range("k", 0, 5); int c[6] = {1, 2, 8, -1, -2, -8};
  int w = -8; for (int j = 0; j < 5; ++j) if (vp_pathsplit(k == j)) { w = c[j]; break; }
  k = w < 0 ? -1 : 1; i64 s = w < 0 ? -w : w; double x = w; RD a((double)(s * p), (double)(s * n)); Z P = k < 0 ? n : p, N = k < 0 ? p : n;
  is(a / x, P, N, "quotient by a value"); a /= x; is(a, P, N, "/= value");
}

// ---- A[0]*sqrt(B[0]) + ... over 64-bit integers small enough that every integer step is exact
struct conv { double operator()(Z v) const { return (double)v; } };
typedef robust_sqrt_expr<Z, double, conv> RS;
#ifdef VP_VERIFY
static bool relp(double r, R T, double n) {
  R v = Rd(r), e = Rd(n) * EPS, z = Rd(0);
  // |r - T| <= n * 2^-52 * |T| (so r has the sign of T)
  bool p = z <= T; bool a = v - T <= e * T, b = T - v <= e * T, c = v - T <= e * (z - T), d = T - v <= e * (z - T);
  return p ? (bool)(a & b) : (bool)(c & d);
}
static void rel(double r, R T, double n, const char* name) {
  R v = Rd(r), e = Rd(n) * EPS, z = Rd(0);
  if (vp_pathsplit(z <= T)) { vp_assert(v - T <= e * T && T - v <= e * T, name); vp_assert(r >= 0 && (z < T) == (r > 0), "sign"); }
  else { vp_assert(v - T <= e * (z - T) && T - v <= e * (z - T), name); vp_assert(r < 0, "sign"); }
}
static R term(Z a, Z b) { return Rz(a) * Rsqrt(Rz(b)); }
#define TERM(i) A[i] = vp_range("A" #i, -(1ll << 60), 1ll << 60); B[i] = vp_range("B" #i, 0, 1ll << 60)
HARNESS(h_C22_eval1) {
  Z A[4], B[4]; TERM(0); RS e;
  double r = e.eval1(A, B); vp_pathsplit(A[0] > 0); vp_pathsplit(A[0] < 0); rel(r, term(A[0], B[0]), RS::MAX_RELATIVE_ERROR_EVAL1, "one term within 4 units");
}
// contracts discharged by their own harness, used at the calls
static double near(R T, double n) { double v = vp_r_todbl(vp_r_any()); vp_assume(v > -1e300 && v < 1e300); vp_assume(relp(v, T, n)); return v; }
extern "C" double c_eval1(RS*, Z* A, Z* B) { return near(term(A[0], B[0]), 4); }
extern "C" double c_eval2(RS*, Z* A, Z* B) { return near(term(A[0], B[0]) + term(A[1], B[1]), 7); }
extern "C" double c_eval3(RS*, Z* A, Z* B) { return near(term(A[0], B[0]) + term(A[1], B[1]) + term(A[2], B[2]), 16); }
HARNESS(h_C22b_eval2) {
  Z A[4], B[4]; TERM(0); TERM(1); RS e; R x = term(A[0], B[0]), y = term(A[1], B[1]);
  vp_pathsplit(A[0] > 0); vp_pathsplit(A[0] < 0); vp_pathsplit(A[1] > 0); vp_pathsplit(A[1] < 0); vp_pathsplit(B[0] > 0); vp_pathsplit(B[1] > 0);
  double r = e.eval2(A, B); rel(r, x + y, RS::MAX_RELATIVE_ERROR_EVAL2, "two terms within 7 units");
}
// the callers: the value of a sum is an opaque real, related only by the identities proved in h_C22_squares*
static R t1(Z a, Z b) { return mkR(vp_r_uf2("t1", a, b)); }
static R t2(Z a, Z b, Z c, Z d) { return mkR(vp_r_uf4("t2", a, b, c, d)); }
static R t3(Z a, Z b, Z c, Z d, Z e, Z f) { return mkR(vp_r_uf6("t3", a, b, c, d, e, f)); }
extern "C" double c_opaque1(RS*, Z* A, Z* B) { return near(t1(A[0], B[0]), 4); }
extern "C" double c_opaque2(RS*, Z* A, Z* B) { return near(t2(A[0], B[0], A[1], B[1]), 7); }
extern "C" double c_opaque3(RS*, Z* A, Z* B) { return near(t3(A[0], B[0], A[1], B[1], A[2], B[2]), 16); }
static void eq(R a, R b, const char* n) { vp_assert(a <= b && b <= a, n); }
static void be(R a, R b) { vp_assume(a <= b && b <= a); }
// sqrt(p * q) == sqrt(p) * sqrt(q)
static void lemma_sqrt(Z p, Z q) { eq(Rsqrt(Rz(p * q)), Rsqrt(Rz(p)) * Rsqrt(Rz(q)), "lemma: root of a product"); }
HARNESS(h_C22_squares3) {
  Z A[4], B[4]; TERM(0); TERM(1); TERM(2); lemma_sqrt(B[0], B[1]); eq(Rsqrt(Rz(1)), Rd(1), "lemma: root of one");
  R u = term(A[0], B[0]) + term(A[1], B[1]), z = term(A[2], B[2]);
  eq(term(A[0] * A[0] * B[0] + A[1] * A[1] * B[1] - A[2] * A[2] * B[2], 1) + term(A[0] * A[1] * 2, B[0] * B[1]), u * u - z * z, "lemma: difference of squares");
}
HARNESS(h_C22_squares4) {
  Z A[4], B[4]; TERM(0); TERM(1); TERM(2); TERM(3); lemma_sqrt(B[0], B[1]); lemma_sqrt(B[2], B[3]); eq(Rsqrt(Rz(1)), Rd(1), "lemma: root of one");
  R u = term(A[0], B[0]) + term(A[1], B[1]), v = term(A[2], B[2]) + term(A[3], B[3]);
  eq(term(A[0] * A[0] * B[0] + A[1] * A[1] * B[1] - A[2] * A[2] * B[2] - A[3] * A[3] * B[3], 1) + term(A[0] * A[1] * 2, B[0] * B[1]) + term(A[2] * A[3] * -2, B[2] * B[3]), u * u - v * v, "lemma: difference of squares");
}
static void small(R u) { vp_assume(u < Rz((Z)1 << 100)); vp_assume(Rz(-((Z)1 << 100)) < u); R z = Rd(0), t = Rp2(-200); vp_assume(u <= z || t <= u); vp_assume(z <= u || u <= z - t); }
HARNESS(h_C22c_eval3) {
  Z A[4], B[4]; TERM(0); TERM(1); TERM(2); RS e; R u = t2(A[0], B[0], A[1], B[1]), z = t1(A[2], B[2]);
  be(t2(A[0] * A[0] * B[0] + A[1] * A[1] * B[1] - A[2] * A[2] * B[2], 1, A[0] * A[1] * 2, B[0] * B[1]), u * u - z * z);      // h_C22_squares3
  small(u); small(z); vp_pathsplit(Rd(0) < u); vp_pathsplit(u < Rd(0)); vp_pathsplit(Rd(0) < z); vp_pathsplit(z < Rd(0));
  double r = e.eval3(A, B); rel(r, u + z, RS::MAX_RELATIVE_ERROR_EVAL3, "three terms within 16 units");
}
HARNESS(h_C22d_eval4) {
  Z A[4], B[4]; TERM(0); TERM(1); TERM(2); TERM(3); RS e; R u = t2(A[0], B[0], A[1], B[1]), v = t2(A[2], B[2], A[3], B[3]);
  be(t3(A[0] * A[0] * B[0] + A[1] * A[1] * B[1] - A[2] * A[2] * B[2] - A[3] * A[3] * B[3], 1, A[0] * A[1] * 2, B[0] * B[1], A[2] * A[3] * -2, B[2] * B[3]), u * u - v * v);   // h_C22_squares4
  small(u); small(v); vp_pathsplit(Rd(0) < u); vp_pathsplit(u < Rd(0)); vp_pathsplit(Rd(0) < v); vp_pathsplit(v < Rd(0));
  double r = e.eval4(A, B); rel(r, u + v, RS::MAX_RELATIVE_ERROR_EVAL4, "four terms within 25 units");
}
#endif
