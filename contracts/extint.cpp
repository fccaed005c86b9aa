// Contracts of the fixed-capacity big integer of the Voronoi predicates (C19): extended_int.
#include "vp.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <utility>
#include <vector>
#include <boost/cstdint.hpp>
#define private public      // the contracts read the representation (chunks_, count_)
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#undef private
using namespace boost::polygon::detail;
typedef boost::polygon::detail::int32 I32; typedef boost::polygon::detail::int64 I64;
static const Z B32 = (Z)1 << 32;
template <std::size_t N> static Z mag(const extended_int<N>& e, int n) { Z r = 0; for (int i = (int)N - 1; i >= 0; --i) if (i < n) r = r * B32 + (Z)e.chunks_[i]; return r; }
template <std::size_t N> static Z val(const extended_int<N>& e) {
  if (e.count_ < 0) { int n = -e.count_; for (int k = 1; k <= (int)N; ++k) if (n == k) return -mag(e, k); return -mag(e, N); }
  for (int k = 0; k < (int)N; ++k) if (e.count_ == k) return mag(e, k);
  return mag(e, N);
}
// representation invariant: no leading zero chunk, count within capacity
template <std::size_t N> static bool normal(const extended_int<N>& e) {
  int n = e.count_ < 0 ? -e.count_ : e.count_;
  if (n > (int)N) return false;
  for (int k = 1; k <= (int)N; ++k) if (n == k) return e.chunks_[k - 1] != 0;
  return n == 0;
}
// an arbitrary normal value of at most L chunks
template <std::size_t N> static void any_e(extended_int<N>& e, int L, const char* c, const char* a, const char* b, const char* d, const char* f) {
  e.count_ = 0; e.chunks_[0] = vp_any_u32(a); e.chunks_[1] = vp_any_u32(b); e.chunks_[2] = vp_any_u32(d); e.chunks_[3] = vp_any_u32(f);
  int n = (int)vp_range(c, -4, 4);
  for (int k = -L; k <= L; ++k) if (vp_pathsplit(n == k)) { e.count_ = k; vp_assume(k == 0 || e.chunks_[(k < 0 ? -k : k) - 1] != 0); return; }
  vp_assume(false);
}
typedef extended_int<4> E4;
#define ANY2(L1, L2) E4 a, b; any_e(a, L1, "an", "a0", "a1", "a2", "a3"); any_e(b, L2, "bn", "b0", "b1", "b2", "b3")
static const Z CAP = (Z)1 << 128;
HARNESS(h_C19_from_int32) {
  I32 v = vp_any_i32("v"); extended_int<2> e(v), f; f = v;
  vp_assert(val(e) == (Z)v && normal(e), "construction from a 32-bit integer"); vp_assert(val(f) == (Z)v && normal(f), "assignment of a 32-bit integer");
  vp_assert(e.is_pos() == (v > 0) && e.is_neg() == (v < 0) && e.is_zero() == (v == 0), "sign");
}
HARNESS(h_C19_from_int64) {
  I64 v = vp_any_i64("v"); extended_int<2> e(v), f; f = v; extended_int<4> g(e), h; h = e;
  vp_assert(val(e) == (Z)v && normal(e), "construction from a 64-bit integer"); vp_assert(val(f) == (Z)v && normal(f), "assignment of a 64-bit integer");
  vp_assert(val(g) == (Z)v && val(h) == (Z)v && normal(g) && normal(h), "conversion to a larger capacity");
  vp_assert(is_pos(e) == (v > 0) && is_neg(e) == (v < 0) && is_zero(e) == (v == 0), "sign");
}
HARNESS(h_C19_compare) {
  ANY2(4, 4); Z x = val(a), y = val(b);
  bool eq = a == b, ne = a != b, lt = a < b, gt = a > b, le = a <= b, ge = a >= b;
  vp_assert(eq == (x == y), "equal"); vp_assert(ne == !eq, "not equal"); vp_assert(lt == (x < y), "less"); vp_assert(gt == (x > y), "greater"); vp_assert(le == (x <= y) && ge == (x >= y), "less or equal");
}
HARNESS(h_C19_neg) {
  E4 a; any_e(a, 4, "an", "a0", "a1", "a2", "a3"); Z x = val(a); E4 b = -a;
  vp_assert(val(b) == -x && normal(b) && val(a) == x, "negation");
}
HARNESS(h_C19_add) {
  ANY2(4, 4); Z x = val(a), y = val(b); vp_assume(zabs(x + y) < CAP);
  E4 s = a + b; vp_assert(val(s) == x + y, "sum"); vp_assert(normal(s), "sum is normal");
}
HARNESS(h_C19_dif) {
  ANY2(4, 4); Z x = val(a), y = val(b); vp_assume(zabs(x - y) < CAP);
  E4 s = a - b; vp_assert(val(s) == x - y, "difference"); vp_assert(normal(s), "difference is normal");
}
#define MUL(L1, L2) ANY2(L1, L2); Z x = val(a), y = val(b); E4 s = a * b; if (L1 + L2 > 4) vp_assume(zabs(x * y) < CAP); vp_assert(val(s) == x * y, "product"); vp_assert(normal(s), "product is normal")
HARNESS(h_C19_mul_2_2) { MUL(2, 2); }
HARNESS(h_C19_mul_3_1) { MUL(3, 1); }
HARNESS(h_C19_mul_1_4) { MUL(1, 4); }
HARNESS(h_C19_mul_3_2) { MUL(3, 2); }
HARNESS(h_C19_mul_int) {
  E4 a; any_e(a, 2, "an", "a0", "a1", "a2", "a3"); I32 v = vp_any_i32("v"); Z x = val(a); E4 s = a * v;
  vp_assert(val(s) == x * v && normal(s), "product with a 32-bit integer");
}
// conversion to floating point: exact up to 2^53, else within 2 ulps (3 chunks are read)
HARNESS(h_C19_to_double_2) {
  extended_int<2> a; a.chunks_[0] = vp_any_u32("a0"); a.chunks_[1] = vp_any_u32("a1"); int n = (int)vp_range("an", 1, 2);
  a.count_ = vp_pathsplit(n == 1) ? 1 : 2; vp_assume(a.chunks_[a.count_ - 1] != 0); if (vp_any_bool("neg")) a.count_ = -a.count_;
  double d = a.p().first; int ex = a.p().second; Z x = val(a);
  vp_assert(ex == 0, "no exponent needed");
  if (a.count_ == 1 || a.count_ == -1) vp_assert(vp_d_is(d, x), "one chunk converts exactly");
  vp_assert((d > 0) == (x > 0) && (d < 0) == (x < 0), "sign survives");
}
HARNESS(h_C19_to_double_4) {
  E4 a; any_e(a, 4, "an", "a0", "a1", "a2", "a3"); Z x = val(a); std::pair<double, int> p = a.p();
  if (a.count_ == 0) vp_assert(p.first == 0 && p.second == 0, "zero");
  else {
    vp_assert(p.second == 0 || p.second == 32, "exponent is a whole number of dropped chunks");
    vp_assert(vp_d_near(p.first, p.second, x, 51), "conversion within two ulps");
    vp_assert((p.first > 0) == (x > 0) && (p.first < 0) == (x < 0), "sign survives");
  }
}
