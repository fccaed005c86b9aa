// Bounded: sums of A*sqrt(B) over big integers against 1500-bit fixed point; tracked errors of robust_fpt.
#include "bnd.h"
#include <cmath>
#include <boost/polygon/detail/voronoi_ctypes.hpp>
#include <boost/polygon/detail/voronoi_robust_fpt.hpp>
using namespace boost::polygon::detail;
typedef _BitInt(2304) W; typedef extended_int<32> E; typedef extended_exponent_fpt<double> EF;
static const int K = 700;
static W isqrt(W n) {      // floor(sqrt(n)), Newton from above
  if (n == 0) return 0;
  int b = 0; { W t = n; while (t >= ((W)1 << 64)) { t >>= 64; b += 64; } u64 v = (u64)t; while (v) { v >>= 1; ++b; } }
  W x = (W)1 << ((b + 1) / 2);
  for (;;) { W y = (x + n / x) >> 1; if (y >= x) return x; x = y; }
}
static E toE(W v) { bool n = v < 0; if (n) v = -v; std::vector<boost::polygon::detail::uint32> c; while (v != 0) { c.insert(c.begin(), (boost::polygon::detail::uint32)(u64)(v & 0xffffffffu)); v >>= 32; } return E(c, !n); }
static std::string hex(W v) { bool n = v < 0; if (n) v = -v; std::string r; do { r = "0123456789abcdef"[(int)(v & 15)] + r; v >>= 4; } while (v != 0); return (n ? "-0x" : "0x") + r; }
static W rnd(int bits) { W r = 0; for (int i = 0; i < bits; i += 32) r = (r << 32) | (W)(u64)(bnd.rnd() >> 32); return bits ? r & (((W)1 << bits) - 1) : (W)0; }
static void one() {
  int n = bnd.in(1, 4), ab = bnd.in(0, 3) == 0 ? 6 : bnd.in(1, 64), bb = bnd.in(0, 3) == 0 ? 6 : bnd.in(1, 64); W A[5], B[5], a[4];
  for (int i = 0; i < n; ++i) { A[i] = rnd(ab) * (bnd.in(0, 1) ? 1 : -1); B[i] = rnd(bb); if (bnd.in(0, 9) == 0) A[i] = 0; if (bnd.in(0, 9) == 0) B[i] = bnd.in(0, 1); }
  int rel = bnd.in(0, 3);
  if (n >= 2 && rel == 0) { A[1] = -A[0]; B[1] = B[0] + bnd.in(-1, 1); if (B[1] < 0) B[1] = 0; }
  W s[5], sum = 0, tot = 0; for (int i = 0; i < n; ++i) s[i] = isqrt(B[i] << (2 * K));
  if (n >= 2 && rel == 1 && s[n - 1] != 0) {   // choose the last factor to cancel the rest
    W t = 0; for (int i = 0; i < n - 1; ++i) t += A[i] * s[i]; A[n - 1] = -t / s[n - 1] + bnd.in(-1, 1);
  }
  if (n == 4 && rel == 2) { A[2] = -A[0]; A[3] = -A[1]; B[2] = B[0] + bnd.in(0, 1); B[3] = B[1]; s[2] = isqrt(B[2] << (2 * K)); s[3] = s[1]; }
  for (int i = 0; i < n; ++i) { sum += A[i] * s[i]; tot += A[i] < 0 ? -A[i] : A[i]; }
  W slack = tot + 1;      // |sum - exact * 2^K| <= tot
  E eA[5], eB[5]; for (int i = 0; i < n; ++i) { eA[i] = toE(A[i]); eB[i] = toE(B[i]); }
  robust_sqrt_expr<E, EF, type_converter_efpt> ex; EF r(0.0);
  r = n == 1 ? ex.eval1(eA, eB) : n == 2 ? ex.eval2(eA, eB) : n == 3 ? ex.eval3(eA, eB) : ex.eval4(eA, eB);
  static const int bound[5] = {0, 4, 7, 16, 25};
  // r as fixed point with K fractional bits (r * 2^K)
  EF sc = r * EF(1.0, K); W v = 0; { double d = r.d(); int x; EF t = r; if (!is_zero(r)) { double m = std::frexp(d, &x); W mi = (W)(i64)std::ldexp(m, 53); int sh = x - 53 + K; v = sh >= 0 ? mi << sh : mi >> -sh; } }
  W as = sum < 0 ? -sum : sum; bool clear = as > (slack << 60);      // the sum is not zero
  bnd.count(n > 1 && clear);
  std::string in = "n=" + S(n); for (int i = 0; i < n; ++i) in += " " + hex(A[i]) + "*sqrt(" + hex(B[i]) + ")";
#define F(key, cond) if (!(cond)) bnd.fail(key, in + " got " + hex(v) + " want " + hex(sum))
  if (clear) { F("sign", is_pos(r) == (sum > 0) && is_neg(r) == (sum < 0)); W d = v - sum; if (d < 0) d = -d; F("error", (d << 52) <= as * bound[n] + (slack << 60)); }
  else F("zero", !(v > (slack << 60)) && !(-v > (slack << 60)));
  if (bnd.samples < 3) bnd.sample(in.substr(0, 380));
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); bnd_case("sums of roots", 800);
  while (bnd.more()) for (int k = 0; k < 50; ++k) one();
  return bnd.done();
}
