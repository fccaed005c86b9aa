// Bounded: big integers of the capacities used by the library against 4400-bit machine integers.
#include "bnd.h"
#include <cmath>
#include <boost/polygon/detail/voronoi_ctypes.hpp>
using namespace boost::polygon::detail;
typedef _BitInt(4400) W;
static std::string hex(W v) { bool n = v < 0; if (n) v = -v; std::string r; do { r = "0123456789abcdef"[(int)(v & 15)] + r; v >>= 4; } while (v != 0); return (n ? "-0x" : "0x") + r; }
template <std::size_t N> W val(const extended_int<N>& e) { W r = 0; int n = (int)e.size(); for (int i = n - 1; i >= 0; --i) r = (r << 32) + (W)e.chunks()[i]; return e.count() < 0 ? -r : r; }
template <std::size_t N> extended_int<N> make(const std::vector<u64>& c, bool neg) {
  std::vector<boost::polygon::detail::uint32> v; for (size_t i = c.size(); i-- > 0;) v.push_back((boost::polygon::detail::uint32)c[i]); return extended_int<N>(v, !neg);
}
static std::vector<u64> rndc(int maxn) {
  int n = bnd.in(0, maxn); std::vector<u64> c(n); int m = bnd.in(0, 4);
  for (int i = 0; i < n; ++i) { int k = bnd.in(0, 9); c[i] = m == 0 ? 0 : m == 1 ? 0xffffffffu : k < 3 ? 0 : k < 6 ? 0xffffffffu : k < 7 ? bnd.in(0, 2) : k < 8 ? 0x80000000u : bnd.in(0, 0xffffffffll); }
  if (n && !c[n - 1]) c[n - 1] = bnd.in(0, 1) ? 1 : bnd.in(1, 0xffffffffll);
  return c;
}
template <std::size_t N> void one() {
  W CAP = (W)1 << (32 * N);
  std::vector<u64> ca = rndc(N), cb = rndc(N); bool na = bnd.in(0, 1), nb = bnd.in(0, 1);
  int rel = bnd.in(0, 5);
  if (rel == 0) cb = ca; else if (rel == 1 && !ca.empty()) { cb = ca; cb[bnd.in(0, ca.size() - 1)] ^= bnd.in(0, 1) ? 1 : 0x80000000u; while (!cb.empty() && !cb.back()) cb.pop_back(); }
  if (rel == 2) { size_t k = ca.size() / 2; while (ca.size() > k) ca.pop_back(); while (!ca.empty() && !ca.back()) ca.pop_back(); while (cb.size() > N / 2 + 1) cb.pop_back(); while (!cb.empty() && !cb.back()) cb.pop_back(); }
  extended_int<N> a = make<N>(ca, na), b = make<N>(cb, nb); W x = val(a), y = val(b);
  bnd.count(ca.size() > 1 && cb.size() > 1);
#define F(key, cond) if (!(cond)) bnd.fail(key, "capacity " + S((u64)N) + " a=" + hex(x) + " b=" + hex(y))
  { extended_int<N> z = make<N>(ca, false); W m = x < 0 ? -x : x; F("build", val(z) == m); }
#define OP(key, op) if (W r = x op y; r < CAP && -r < CAP) { extended_int<N> s = a op b; F(key, val(s) == r); F(key "-sign", is_pos(s) == (r > 0) && is_neg(s) == (r < 0) && is_zero(s) == (r == 0)); extended_int<N> t = val(s) == r ? s : s; \
    std::vector<u64> cr; W q = r < 0 ? -r : r; while (q != 0) { cr.push_back((u64)(q & 0xffffffffu)); q >>= 32; } F(key "-equal-to-the-same-value", s == make<N>(cr, r < 0)); }
  OP("add", +) OP("dif", -) OP("mul", *)
  F("compare", (a < b) == (x < y) && (a > b) == (x > y) && (a == b) == (x == y) && (a != b) == (x != y) && (a <= b) == (x <= y) && (a >= b) == (x >= y));
  F("neg", val(-a) == -x);
  // conversion: relative error below 2^-51, judged on the scaled pair (exact integers)
  std::pair<double, int> p = a.p();
  if (x == 0) F("p", p.first == 0);
  else {
    int e; double m = std::frexp(p.first, &e); e += p.second; i64 mi = (i64)std::ldexp(m, 53); e -= 53;   // p = mi * 2^e
    W l = (W)mi, r = x; if (e >= 0) l = l << e; else r = r << -e;
    W d = l - r; if (d < 0) d = -d; W ar = r < 0 ? -r : r; F("to-double", (d << 51) <= ar);
    if (std::fabs((double)p.second + 100) < 1100) { double dd = a.d(); F("d", dd == std::ldexp(p.first, p.second)); }
  }
  int32_t v = (int32_t)bnd.rnd(); i64 w = (i64)bnd.rnd(); if (bnd.in(0, 9) == 0) { v = bnd.in(0, 1) ? -2147483647 - 1 : (int)bnd.in(-3, 3); w = bnd.in(0, 1) ? -9223372036854775807LL - 1 : bnd.in(-3, 3); }
  F("int32", val(extended_int<N>(v)) == (W)v); if (N > 1) { F("int64", val(extended_int<N>((boost::polygon::detail::int64)w)) == (W)w); W r = x * (W)w; if (r < CAP && -r < CAP) F("mul-int64", val(a * (boost::polygon::detail::int64)w) == r); }
  { W r = x * (W)v; if (r < CAP && -r < CAP) F("mul-int32", val(a * v) == r); }
  if (bnd.samples < 3) bnd.sample("a=" + hex(x).substr(0, 120) + " b=" + hex(y).substr(0, 120));
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); bnd_case("big integers", 800);
  while (bnd.more()) for (int k = 0; k < 100; ++k) { one<1>(); one<2>(); one<3>(); one<4>(); one<5>(); one<8>(); if (k % 10 == 0) one<64>(); }
  return bnd.done();
}
