// Bounded: ulp comparison against stepping through the doubles, extended-exponent float against 4096-bit-range floats.
#include "bnd.h"
#include <cmath>
#include <boost/polygon/detail/voronoi_ctypes.hpp>
using namespace boost::polygon::detail;
typedef extended_exponent_fpt<double> EF;
static double rd() { u64 b = bnd.rnd(); double d; int m = bnd.in(0, 4); if (m == 0) return (double)bnd.in(-5, 5); if (m == 1) return std::ldexp((double)bnd.in(-9, 9), bnd.in(-60, 60)); if (m == 2) return std::ldexp((double)bnd.in(1, (1ll << 53) - 1), bnd.in(-80, 10)) * (bnd.in(0, 1) ? 1 : -1); b &= ~(1ull << 62); memcpy(&d, &b, 8); if (!(d - d == 0)) d = 1; return d; }
struct X { __float128 m; long e; };        // m * 2^e
static X nx(__float128 m, long e) { X r = {m, e}; return r; }
static bool close(const EF& a, X x, double rel, std::string& t) {
  // compare a.val_ * 2^a.exp_ with x by bringing both to x's exponent: a = d() after scaling
  EF s = a * EF(1.0, (int)-x.e); double d = s.d(); __float128 e = (__float128)d - x.m; if (e < 0) e = -e; __float128 b = x.m < 0 ? -x.m : x.m;
  t = "got " + S(d) + "*2^" + S(x.e) + " want " + S((double)x.m) + "*2^" + S(x.e);
  return e <= b * (__float128)rel;
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); bnd_case("floats", 800);
  while (bnd.more()) for (int k = 0; k < 2000; ++k) {
    { double a = rd(), b = a; int st = bnd.in(-12, 12); unsigned m = bnd.in(0, 10); if (bnd.in(0, 4) == 0) a = b = bnd.in(0, 1) ? 0.0 : -0.0;
      int steps = 0; bool up = st > 0; for (int i = 0; i < (up ? st : -st); ++i) { double n = std::nextafter(b, up ? 1e308 : -1e308); if (n == b) break; b = n; ++steps; }
      int r = ulp_comparison<double>()(a, b, m), e = steps <= (int)m ? 0 : up ? -1 : 1; bnd.count(steps > 0);
      if (r != e) bnd.fail("ulp", "a=" + S(a) + " steps=" + S(up ? steps : -steps) + " ulps=" + S(m) + " result=" + S(r)); 
      if ((a < b ? -1 : a > b) != ulp_comparison<double>()(a, b, 0)) bnd.fail("ulp-order", S(a) + " " + S(b)); }
    { double a = rd(), b = rd(); long ea = bnd.in(-3000, 3000), eb = bnd.in(0, 2) == 0 ? ea + bnd.in(-60, 60) : bnd.in(-3000, 3000); if (bnd.in(0, 9) == 0) b = -a, eb = ea; if (bnd.in(0, 19) == 0) a = 0; if (bnd.in(0, 19) == 0) b = 0;
      int xa, xb; double ma = std::frexp(a, &xa), mb = std::frexp(b, &xb); EF x(a, (int)ea), y(b, (int)eb); long Ea = ea + xa, Eb = eb + xb; std::string t; bnd.count(a != 0 && b != 0);
#define F(key, cond) if (!(cond)) bnd.fail(key, "a=" + S(a) + "*2^" + S(ea) + " b=" + S(b) + "*2^" + S(eb) + " " + t)
      X s = b == 0 || (a != 0 && Ea - Eb > 110) ? nx(ma, Ea) : Eb - Ea > 110 || a == 0 ? nx(mb, Eb) : Ea >= Eb ? nx((__float128)ma * ldexpl(1, Ea - Eb) + mb, Eb) : nx((__float128)mb * ldexpl(1, Eb - Ea) + ma, Ea);
      X d = b == 0 || (a != 0 && Ea - Eb > 110) ? nx(ma, Ea) : Eb - Ea > 110 || a == 0 ? nx(-mb, Eb) : Ea >= Eb ? nx((__float128)ma * ldexpl(1, Ea - Eb) - mb, Eb) : nx(-(__float128)mb * ldexpl(1, Eb - Ea) + ma, Ea);
      double u = 1.2e-16; F("sum", close(x + y, s, u, t)); F("difference", close(x - y, d, u, t)); F("product", close(x * y, nx((__float128)ma * mb, Ea + Eb), u, t));
      if (b != 0) F("quotient", close(x / y, nx((__float128)ma / mb, Ea - Eb), u, t));
      if (a > 0) { EF q = x.sqrt(); F("sqrt", close(q * q, nx(ma, Ea), 5e-16, t)); }
      F("neg", close(-x, nx(-ma, Ea), 0, t)); F("sign", x.is_pos() == (a > 0) && is_neg(x) == (a < 0) && is_zero(x) == (a == 0));
      { EF z = x; z += y; EF w = x; w -= y; EF v = x; v *= y; F("compound-sum", close(z, s, u, t) && close(w, d, u, t) && close(v, nx((__float128)ma * mb, Ea + Eb), u, t)); }
      if (std::fabs((double)Ea) < 1000) { EF z(a, (int)ea); F("d", z.d() == std::ldexp(a, (int)ea)); }
      if (bnd.samples < 3) bnd.sample("a=" + S(a) + "*2^" + S(ea) + " b=" + S(b) + "*2^" + S(eb)); }
  }
  return bnd.done();
}
