// Bounded: segment intersection, containment and orientation against exact rational geometry.
#include "bnd.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_concept.hpp>
#include <boost/polygon/segment_data.hpp>
using namespace boost::polygon;
typedef point_data<int> PT; typedef segment_data<int> SG;
struct P { i128 x, y; };
static i128 cr(P a, P b) { return a.x * b.y - a.y * b.x; }
static i128 dt(P a, P b) { return a.x * b.x + a.y * b.y; }
static P sub(P a, P b) { P r = {a.x - b.x, a.y - b.y}; return r; }
static bool eq(P a, P b) { return a.x == b.x && a.y == b.y; }
// common points: 0 none, 1 one point, 2 more; q/den is the single point
static int common(P A, P B, P C, P D, bool& endboth) {
  P d1 = sub(B, A), d2 = sub(D, C), e = sub(C, A); i128 den = cr(d1, d2); endboth = false;
  if (den != 0) {
    i128 t = cr(e, d2), u = cr(e, d1); if (den < 0) { t = -t; u = -u; den = -den; }
    if (t < 0 || t > den || u < 0 || u > den) return 0;
    endboth = (t == 0 || t == den) && (u == 0 || u == den); return 1;
  }
  bool g1 = eq(A, B), g2 = eq(C, D);
  if (g1 && g2) { endboth = true; return eq(A, C); }
  if (g1) { std::swap(A, C); std::swap(B, D); std::swap(d1, d2); std::swap(g1, g2); e = sub(C, A); }
  if (cr(d1, e) != 0) return 0;
  i128 L = dt(d1, d1), t0 = dt(sub(C, A), d1), t1 = dt(sub(D, A), d1); if (t0 > t1) std::swap(t0, t1);
  i128 lo = std::max<i128>(t0, 0), hi = std::min(t1, L);
  if (lo > hi) return 0;
  if (lo < hi) return 2;
  endboth = (lo == 0 || lo == L) && (lo == t0 || lo == t1); return 1;
}
static int sg(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static void check(const i64* c) {
  SG s(PT(c[0], c[1]), PT(c[2], c[3])), t(PT(c[4], c[5]), PT(c[6], c[7]));
  P A = {c[0], c[1]}, B = {c[2], c[3]}, C = {c[4], c[5]}, D = {c[6], c[7]};
  std::string in; 
  bool eb; int k = common(A, B, C, D, eb);
  bool r1 = intersects(s, t, true), r0 = intersects(s, t, false);
  int o = orientation(s, t), oe = sg(cr(sub(B, A), sub(D, C)));
  int p = orientation(s, t.low()), pe = sg(cr(sub(B, A), sub(C, A)));
  bool on; { bool x; on = common(A, B, C, C, x) != 0; }
  bool c1 = contains(s, t.low(), true), c0 = contains(s, t.low(), false);
  bool ond; { bool x; ond = common(A, B, D, D, x) != 0; }
  bool cs = contains(s, t, true);
  bnd.count(k != 0);
#define F(key, cond) if (!(cond)) bnd.fail(key, "(" + S(c[0]) + "," + S(c[1]) + ")-(" + S(c[2]) + "," + S(c[3]) + ") with (" + S(c[4]) + "," + S(c[5]) + ")-(" + S(c[6]) + "," + S(c[7]) + ")")
  F("intersects-touch", r1 == (k != 0)); F("intersects-inner", r0 == (k == 2 || (k == 1 && !eb)));
  F("orientation-segments", o == oe); F("orientation-point", p == pe);
  F("contains-point", c1 == on && c0 == (on && !eq(C, A) && !eq(C, B))); F("contains-segment", cs == (on && ond));
  F("intersects-symmetric", intersects(t, s, true) == r1 && intersects(t, s, false) == r0);
}
int main(int argc, char** argv) {
  bnd_init(argc, argv);
  bnd_case("segment grid", 800);
  i64 c[8]; u64 total = 65536; for (int i = 0; i < 0; ++i) {}
  for (u64 v = bnd.job; v < total && bnd.more(); v += bnd.njobs) { u64 w = v; for (int i = 0; i < 8; ++i) { c[i] = w & 3; w >>= 2; } check(c); }
  while (bnd.more()) for (int k = 0; k < 2000; ++k) {
    int mode = bnd.in(0, 5); i64 m = mode == 0 ? 5 : mode == 1 ? 12 : mode == 2 ? 100 : mode == 3 ? 65536 : 2147483647LL;
    for (int i = 0; i < 8; ++i) c[i] = mode == 5 ? (bnd.in(0, 1) ? (bnd.in(0, 1) ? -2147483647LL - 1 + bnd.in(0, 3) : 2147483647LL - bnd.in(0, 3)) : bnd.in(-4, 4)) : bnd.in(-m, m);
    if (bnd.in(0, 3) == 0) { // place the second segment's ends near the line of the first
      i64 q = bnd.in(1, 9); for (int e = 4; e < 8; e += 2) { i64 a = bnd.in(0, q); c[e] = (i64)(((i128)c[0] * (q - a) + (i128)c[2] * a) / q); c[e + 1] = (i64)(((i128)c[1] * (q - a) + (i128)c[3] * a) / q) ; if (bnd.in(0, 2) == 0) { i64 z = c[e] + bnd.in(-1, 1); if (z <= 2147483647LL && z >= -2147483647LL - 1) c[e] = z; } }
    }
    if (bnd.in(0, 4) == 0) { int e = bnd.in(0, 1) * 2, f = 4 + bnd.in(0, 1) * 2; c[f] = c[e]; c[f + 1] = c[e + 1]; }
    check(c);
    if (k == 0) bnd.sample(S(c[0]) + "," + S(c[1]) + " " + S(c[2]) + "," + S(c[3]) + " / " + S(c[4]) + "," + S(c[5]) + " " + S(c[6]) + "," + S(c[7]));
  }
  return bnd.done();
}
