// Contracts of the ulp comparison and of the extended-exponent float (C21).
#include "vp.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <utility>
#include <vector>
#include <boost/cstdint.hpp>
#define private public      // the contracts read the representation (val_, exp_)
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#undef private
using namespace boost::polygon::detail;
typedef extended_exponent_fpt<double> EF; typedef ulp_comparison<double> UC;
// ---- ulps: every double is the number key = +-(bit pattern without sign); neighbours differ by one
static double from_bits(u64 b) { double d; std::memcpy(&d, &b, 8); return d; }
static bool finite_bits(u64 b) { return (b & 0x7fffffffffffffffull) < 0x7ff0000000000000ull; }
static Z key(u64 b) { return b >= 0x8000000000000000ull ? -((Z)b - (Z)0x8000000000000000ull) : (Z)b; }
HARNESS(h_C21_ulp) {
  u64 a = vp_any_u64("a"), b = vp_any_u64("b"); unsigned m = vp_any_u32("ulps");
  UC::Result r = UC()(from_bits(a), from_bits(b), m);
  Z d = key(a) - key(b);
  vp_assert((r == UC::EQUAL) == (zabs(d) <= (Z)m), "equal within the bound");
  vp_assert((r == UC::LESS) == (d < -(Z)m) && (r == UC::MORE) == (d > (Z)m), "less and more by the order of the values");
}
HARNESS(h_C21_ulp_laws) {
  u64 a = vp_any_u64("a"), b = vp_any_u64("b"); unsigned m = vp_any_u32("ulps"); UC c; double x = from_bits(a), y = from_bits(b);
  int r = c(x, y, m), q = c(y, x, m);
  vp_assert(r == -q, "antisymmetric"); vp_assert(c(x, x, m) == UC::EQUAL, "reflexive");
  vp_assert(c(from_bits(0), from_bits(0x8000000000000000ull), 0) == UC::EQUAL, "the two zeros are equal");
  vp_assert(r >= -1 && r <= 1, "range");
}
// ---- extended exponent: a value is val * 2^exp, normal: val == 0 or 1/2 <= |val| < 1
#define NORMAL(n, v, e) double v = vp_any_f64(#v); int e = (int)vp_range(#e, -500000000, 500000000); vp_assume(v == 0 || (v >= 0.5 && v < 1) || (v <= -0.5 && v > -1)); EF n(0.0); n.val_ = v; n.exp_ = e
// the constructor, against the contract of frexp (m * 2^k == v, m normal)
HARNESS(h_C21c_construct) {
  double v = vp_any_f64("v"); int e = (int)vp_range("e", -500000000, 500000000), k; double m = std::frexp(v, &k);
  EF a(v, e), b(v);
  vp_assert(a.val_ == m && a.exp_ == k + e, "mantissa and exponent of v * 2^e"); vp_assert(b.val_ == m && b.exp_ == k, "mantissa and exponent of v");
  vp_assert(a.is_pos() == (v > 0) && a.is_neg() == (v < 0) && a.is_zero() == (v == 0), "sign");
  vp_assert(is_pos(a) == (v > 0) && is_neg(a) == (v < 0) && is_zero(a) == (v == 0), "sign functions");
}
// used at the calls below: v and e denote v * 2^e (normalising keeps the value)
extern "C" void c_construct(EF* a, double v, int e) { a->val_ = v; a->exp_ = e; }
static void sum(const EF& a, const EF& b, double bv, const EF& r) {
  // r == a + bv * 2^b.exp within one rounding; exponents are compared relative to the smaller operand
  double av = a.val_; int ae = a.exp_, be = b.exp_;
  if (av == 0 && bv == 0) vp_assert(r.val_ == 0, "zero");
  else if (av == 0) vp_assert(r.val_ == bv && r.exp_ == be, "second operand");
  else if (bv == 0) vp_assert(r.val_ == av && r.exp_ == ae, "first operand");
  else if ((Z)ae - be > 54) vp_assert(r.val_ == av && r.exp_ == ae, "negligible second operand is dropped");
  else if ((Z)be - ae > 54) vp_assert(r.val_ == bv && r.exp_ == be, "negligible first operand is dropped");
  else if (ae >= be) { vp_assert(r.exp_ == be, "exponent of the smaller operand"); vp_assert(vp_lin_near(r.val_, av, ae - be, bv, 53), "sum within one rounding"); }
  else { vp_assert(r.exp_ == ae, "exponent of the smaller operand"); vp_assert(vp_lin_near(r.val_, bv, be - ae, av, 53), "sum within one rounding"); }
}
#ifdef VP_VERIFY
HARNESS(h_C21_add) { NORMAL(a, av, ae); NORMAL(b, bv, be); EF r = a + b; sum(a, b, b.val_, r); }
HARNESS(h_C21_dif) { NORMAL(a, av, ae); NORMAL(b, bv, be); EF r = a - b; sum(a, b, -b.val_, r); }
HARNESS(h_C21_neg) { NORMAL(a, av, ae); EF r = -a; vp_assert(r.val_ == -a.val_ && r.exp_ == a.exp_, "negation"); }
HARNESS(h_C21_mul) { NORMAL(a, av, ae); NORMAL(b, bv, be); EF r = a * b; vp_assert(r.exp_ == a.exp_ + b.exp_, "exponents add"); vp_assert(vp_mul_near(r.val_, a.val_, b.val_, 53), "product within one rounding"); }
HARNESS(h_C21_div) { NORMAL(a, av, ae); NORMAL(b, bv, be); vp_assume(b.val_ != 0); EF r = a / b; vp_assert(r.exp_ == a.exp_ - b.exp_, "exponents subtract"); vp_assert(vp_div_near(r.val_, a.val_, b.val_, 53), "quotient within one rounding"); }
HARNESS(h_C21_sqrt) {
  NORMAL(a, av, ae); vp_assume(a.val_ > 0); EF r = a.sqrt();
  int k = a.exp_ - 2 * r.exp_; vp_assert(k == 0 || k == 1, "half the exponent");
  vp_assert(r.val_ > 0, "positive root"); vp_assert(vp_sq_near(r.val_, a.val_, k, 51), "square root within one rounding");
}
HARNESS(h_C21_compound) {
  NORMAL(a, av, ae); NORMAL(b, bv, be); vp_assume(b.val_ != 0); EF r = a, s = a;
  r *= b; EF m = a * b; vp_assert(r.val_ == m.val_ && r.exp_ == m.exp_, "*= is *");
  s /= b; EF d = a / b; vp_assert(s.val_ == d.val_ && s.exp_ == d.exp_, "/= is /");
}
HARNESS(h_C21_compound_sum) {
  NORMAL(a, av, ae); NORMAL(b, bv, be); vp_assume((Z)ae - be > 54 || be - ae > 54 || ae - be == 3 || ae - be == -2); EF r = a, s = a;
  r += b; EF m = a + b; vp_assert(r.val_ == m.val_ && r.exp_ == m.exp_, "+= is +");
  s -= b; EF d = a - b; vp_assert(s.val_ == d.val_ && s.exp_ == d.exp_, "-= is -");
}
#endif
