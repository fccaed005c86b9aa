// Bounded: the sweep's edge comparisons against exact rational geometry.
#include "bnd.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef point_data<int> PT; typedef scanline_base<int> SB; typedef SB::half_edge HE;
struct P { i128 x, y; };
static i128 cr(P a, P b) { return a.x * b.y - a.y * b.x; }
static P sub(P a, P b) { P r = {a.x - b.x, a.y - b.y}; return r; }
static bool eq(P a, P b) { return a.x == b.x && a.y == b.y; }
static bool lx(P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
static int sg(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// closed segments share a point / share a piece of positive length
static void meet(P A, P B, P C, P D, bool& any, bool& piece, P& one, bool& integral) {
  any = piece = integral = false;
  P d1 = sub(B, A), d2 = sub(D, C), e = sub(C, A); i128 den = cr(d1, d2);
  if (den != 0) {
    i128 t = cr(e, d2), u = cr(e, d1), q = den; if (q < 0) { t = -t; u = -u; q = -q; }
    any = !(t < 0 || t > q || u < 0 || u > q); return;
  }
  if (cr(d1, e) != 0) return;
  if (lx(B, A)) std::swap(A, B); if (lx(D, C)) std::swap(C, D);
  P lo = lx(A, C) ? C : A, hi = lx(B, D) ? B : D;
  any = !lx(hi, lo); piece = lx(lo, hi);
}
static void check(const i64* c) {
  P A = {c[0], c[1]}, B = {c[2], c[3]}, C = {c[4], c[5]}, D = {c[6], c[7]};
  if (eq(A, B) || eq(C, D)) return;
  HE e(PT(c[0], c[1]), PT(c[2], c[3])), f(PT(c[4], c[5]), PT(c[6], c[7]));
#define F(key, cond) do { if (!(cond)) bnd.fail(key, "(" + S(c[0]) + "," + S(c[1]) + ")-(" + S(c[2]) + "," + S(c[3]) + ") with (" + S(c[4]) + "," + S(c[5]) + ")-(" + S(c[6]) + "," + S(c[7]) + ")"); } while (0)
  bool any, piece, g; P one; meet(A, B, C, D, any, piece, one, g);
  bool same = (eq(A, C) && eq(B, D)) || (eq(A, D) && eq(B, C)), shared = eq(A, C) || eq(A, D) || eq(B, C) || eq(B, D);
  bool onlyends = any && !piece && shared;      // they meet in exactly one point, an end of both
  // needs splitting: a common point that is not merely a shared end
  // (a contact on the border of the bounding boxes counts only for overlapping axis-parallel edges)
  i128 xl = std::max(std::min(A.x, B.x), std::min(C.x, D.x)), xh = std::min(std::max(A.x, B.x), std::max(C.x, D.x)), yl = std::max(std::min(A.y, B.y), std::min(C.y, D.y)), yh = std::min(std::max(A.y, B.y), std::max(C.y, D.y));
  bool e1 = any && !onlyends && !same && (piece || (xl < xh && yl < yh) || ((A.x == B.x) != (C.x == D.x) && ((A.x == B.x && A.x > std::min(C.x, D.x) && A.x < std::max(C.x, D.x) && yl < yh) || (C.x == D.x && C.x > std::min(A.x, B.x) && C.x < std::max(A.x, B.x) && yl < yh))) || ((A.y == B.y) != (C.y == D.y) && ((A.y == B.y && A.y > std::min(C.y, D.y) && A.y < std::max(C.y, D.y) && xl < xh) || (C.y == D.y && C.y > std::min(A.y, B.y) && C.y < std::max(A.y, B.y) && xl < xh))) || (A.x == B.x && C.y == D.y && A.x > std::min(C.x, D.x) && A.x < std::max(C.x, D.x) && C.y > std::min(A.y, B.y) && C.y < std::max(A.y, B.y)) || (C.x == D.x && A.y == B.y && C.x > std::min(A.x, B.x) && C.x < std::max(A.x, B.x) && A.y > std::min(C.y, D.y) && A.y < std::max(C.y, D.y)));
  bool r = SB::intersects(e, f), r2 = SB::intersects(f, e);
  bnd.count(any);
  F("intersects", r == e1); F("intersects-symmetric", r2 == r);
  int o = lx(A, B) ? sg(cr(sub(B, A), sub(C, A))) : sg(cr(sub(A, B), sub(C, B)));
  F("side", SB::on_above_or_below(f.first, e) == o);
  // order of the two edges at a common sweep position, when they do not cross
  if (A.x > B.x) { std::swap(A, B); e = HE(e.second, e.first); } if (C.x > D.x) { std::swap(C, D); f = HE(f.second, f.first); }
  if (A.x < B.x && C.x < D.x && (!any || onlyends || same)) {   // not crossing; the sweep compares where one of the two begins
    i128 lo = std::max(A.x, C.x), hi = std::min(B.x, D.x); if (lo > hi) return;
    {
      i128 X = lo;
      int x = (int)X;
      for (int jb = 0; jb < 2; ++jb) {
        // y at x as fractions; all below 2^99
        i128 n1 = A.y * (B.x - A.x) + (B.y - A.y) * (X - A.x), q1 = B.x - A.x, n2 = C.y * (D.x - C.x) + (D.y - C.y) * (X - C.x), q2 = D.x - C.x;
        int s = sg(n1 * q2 - n2 * q1);
        int sl = sg((B.y - A.y) * q2 - (D.y - C.y) * q1);
        bool want = s ? s < 0 : (sl == 0 ? false : (jb ? sl > 0 : sl < 0));
        if (s == 0 && same && jb) continue;     // an edge is only compared with itself to search for it
        if (s == 0 && sl == 0 && jb) continue;
        SB::evalAtXforYPack pack; SB::less_half_edge less(&x, &jb, &pack); SB::less_vertex_half_edge lv(&x, &jb);
        if (want != less(e, f)) F(jb ? "order-before" : "order-after", false);
        if (want != lv(SB::vertex_half_edge(e.first, e.second, 1), SB::vertex_half_edge(f.first, f.second, 1))) F("vertex-order", false);
      }
    }
  }
}
int main(int argc, char** argv) {
  bnd_init(argc, argv);
  bnd_case("sweep grid", 800);
  i64 c[8];
  for (u64 v = bnd.job; v < 65536 && bnd.more(); v += bnd.njobs) { u64 w = v; for (int i = 0; i < 8; ++i) { c[i] = w & 3; w >>= 2; } check(c); }
  while (bnd.more()) for (int k = 0; k < 2000; ++k) {
    int mode = bnd.in(0, 5); i64 m = mode == 0 ? 5 : mode == 1 ? 12 : mode == 2 ? 100 : mode == 3 ? 65536 : 1073741823LL;
    for (int i = 0; i < 8; ++i) c[i] = mode == 5 ? (bnd.in(0, 1) ? (bnd.in(0, 1) ? -1073741823LL + bnd.in(0, 3) : 1073741823LL - bnd.in(0, 3)) : bnd.in(-4, 4)) : bnd.in(-m, m);
    if (bnd.in(0, 3) == 0) { i64 q = bnd.in(1, 9); for (int e = 4; e < 8; e += 2) { i64 a = bnd.in(0, q); c[e] = (i64)(((i128)c[0] * (q - a) + (i128)c[2] * a) / q); c[e + 1] = (i64)(((i128)c[1] * (q - a) + (i128)c[3] * a) / q); if (bnd.in(0, 2) == 0) c[e] += bnd.in(-1, 1); } }
    if (bnd.in(0, 4) == 0) { int e = bnd.in(0, 1) * 2, f = 4 + bnd.in(0, 1) * 2; c[f] = c[e]; c[f + 1] = c[e + 1]; }
    check(c);
    if (k == 0) bnd.sample(S(c[0]) + "," + S(c[1]) + " " + S(c[2]) + "," + S(c[3]) + " / " + S(c[4]) + "," + S(c[5]) + " " + S(c[6]) + "," + S(c[7]));
  }
  return bnd.done();
}
