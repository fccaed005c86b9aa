// Bounded: every predicate call made while building diagrams, against 113-bit geometry.
#include "vor.h"
using namespace boost::polygon; using namespace boost::polygon::detail;
typedef voronoi_ctype_traits<int> CT; typedef voronoi_predicates<CT> VP0;
static std::string* cur_input;
template <class Sx> std::string ss(const Sx& s) { return (s.is_segment() ? "segment " : "point ") + S(s.x0()) + "," + S(s.y0()) + (s.is_segment() ? ":" + S(s.x1()) + "," + S(s.y1()) : std::string()) + (s.is_inverse() ? "~" : ""); }
// y of the arc of a site above position (X, Y = newest site), as distance from the sweep line to the
// arc along the horizontal through Y: for a point dx = P.x - X < 0, D = (dx^2+dy^2)/(2 dx)
template <class Sx> Q arc(const Sx& s, Q X, Q Y) {
  if (!s.is_segment()) { Q dx = (Q)s.x() - X, dy = (Q)s.y() - Y; return (dx * dx + dy * dy) / (2 * dx); }
  if (s.x0() == s.x1()) return ((Q)s.x0() - X) / 2;
  Q a = (Q)s.x1() - s.x0(), b = (Q)s.y1() - s.y0(), l = qsqrt(a * a + b * b);
  // point at (X+D, Y): distance to the line equals |D|; the site passes through (x0,y0)
  Q cr = a * (Y - s.y0()) - b * (X - s.x0());    // > 0: left
  Q k = b + l; if (b < 0) k = a * a / (l - b);
  return cr / k;
}
struct VPW : VP0 {
  template <class Site, class Circle> struct circle_formation_predicate {
    VP0::circle_formation_predicate<Site, Circle> f;
    VP0::circle_formation_predicate<Site, Circle, VP0::circle_existence_predicate<Site>, VP0::mp_circle_formation_functor<Site, Circle> > mp; int turn;
    circle_formation_predicate() : turn(0) {}
    bool operator()(const Site& a, const Site& b, const Site& c, Circle& e) {
      if (++turn % 3 == 0) { Circle m; bool r = mp(a, b, c, m); check(a, b, c, m, r); }   // the multi-precision evaluation on its own
      bool r = f(a, b, c, e); check(a, b, c, e, r); return r;
    }
    bool check(const Site& a, const Site& b, const Site& c, Circle& e, bool r) {
      bnd.count(r);
      std::string d = ss(a) + " | " + ss(b) + " | " + ss(c);
      const Site* s[3] = {&a, &b, &c};
      int np = !a.is_segment() + !b.is_segment() + !c.is_segment();
      if (np == 3) { bool right = orient(a.x(), a.y(), b.x(), b.y(), c.x(), c.y()) < 0; if (r != right) bnd.fail("exist-ppp", d); }
      if (np == 0 && r && (a.sorted_index() == b.sorted_index() || b.sorted_index() == c.sorted_index())) bnd.fail("exist-sss", d);
      if (r) {
        if (!(e.x() - e.x() == 0 && e.y() - e.y() == 0 && e.lower_x() - e.lower_x() == 0)) { bnd.fail("circle-finite", d + " in " + *cur_input); return r; }
        Q x = e.x(), y = e.y(), R = (Q)e.lower_x() - x, sc = qabs(x) + qabs(y) + qabs((Q)e.lower_x()) + 1e-300, eps = sc * (Q)ldexp(1.0, -52) * 64 * 3;
        if (R < -eps) bnd.fail("radius-sign", d);
        for (int i = 0; i < 3; ++i) {
          Q g;
          if (!s[i]->is_segment()) g = dpoint(x, y, s[i]->x(), s[i]->y());
          else { Q ax = s[i]->x0(), ay = s[i]->y0(), dx = (Q)s[i]->x1() - ax, dy = (Q)s[i]->y1() - ay; g = qabs((x - ax) * dy - (y - ay) * dx) / qsqrt(dx * dx + dy * dy); }
          if (qabs(g - R) > eps) bnd.fail("circle-tangent-" + S(np), d + " circle " + qs(x) + "," + qs(y) + "," + qs(e.lower_x()) + " site " + S(i) + " at distance " + qs(g) + " radius " + qs(R));
        }
        if (np == 3) {   // exact centre
          i64 x0 = a.x(), y0 = a.y(); i128 bx = (i64)b.x() - x0, by = (i64)b.y() - y0, cx = (i64)c.x() - x0, cy = (i64)c.y() - y0;
          Q D = 2 * ((Q)(bx * cy) - (Q)(by * cx)); 
          if (qabs((Q)bx) < 1e6 && qabs((Q)by) < 1e6 && qabs((Q)cx) < 1e6 && qabs((Q)cy) < 1e6 && std::abs(x0) < 2000000 && std::abs(y0) < 2000000) {
            i128 B = bx * bx + by * by, C = cx * cx + cy * cy, d2 = 2 * (bx * cy - by * cx);
            i128 nx = (B * cy - C * by) + (i128)x0 * d2, ny = (C * bx - B * cx) + (i128)y0 * d2;
            Q tx = (Q)nx / (Q)d2, ty = (Q)ny / (Q)d2;
            Q rad = qsqrt((Q)B * (Q)C * (Q)((bx - cx) * (bx - cx) + (by - cy) * (by - cy))) / qabs((Q)d2), tl = tx + rad;
            Q u = (Q)ldexp(1.0, -52) * 64;
            if (qabs(x - tx) > u * qabs(tx)) bnd.fail("centre-x-ppp", d + " got " + qs(x) + " want " + qs(tx));
            if (qabs(y - ty) > u * qabs(ty)) bnd.fail("centre-y-ppp", d + " got " + qs(y) + " want " + qs(ty));
            if (qabs((Q)e.lower_x() - tl) > u * qabs(tl) + (Q)1e-28 * (qabs(tx) + rad)) bnd.fail("lower-x-ppp", d + " got " + qs(e.lower_x()) + " want " + qs(tl));
          }
          (void)D;
        }
      }
      return r;
    }
  };
  template <class Node> struct node_comparison_predicate {
    VP0::node_comparison_predicate<Node> f; typedef typename Node::site_type Site; VP0::distance_predicate<Site> dp;
    bool operator()(const Node& a, const Node& b) const {
      bool r = f(a, b);
      return r;
    }
  };
};
// arcs are compared directly on generated configurations
typedef site_event<int> SE; typedef VP0::distance_predicate<SE> DP;
static bool clear(Q a, Q b) { Q m = qabs(a) > qabs(b) ? qabs(a) : qabs(b); return qabs(a - b) > m * (Q)ldexp(1.0, -52) * 24; }
static void pp() {
  i64 m = bnd.in(0, 2) == 0 ? 8 : bnd.in(0, 1) ? 1000 : 2147483647;
  int lx = bnd.in(-m, m), ly = bnd.in(-m, m), rx = bnd.in(-m, m), ry = bnd.in(-m, m), X = bnd.in(-m, m), Y = bnd.in(-m, m);
  if (bnd.in(0, 3) == 0) rx = lx; if (lx >= X || rx >= X || (lx == rx && ly == ry)) return;
  SE l(lx, ly), r(rx, ry); Q D1 = -arc(l, X, Y), D2 = -arc(r, X, Y);
  bool got = DP()(l, r, SE::point_type(X, Y)), want;
  if (lx == rx) want = 2 * (i128)Y > (i128)ly + ry;
  else { if (!clear(D1, D2)) return; if (lx > rx) want = (Y > ly) && D1 > D2 ? true : Y > ly && D1 > D2; else want = Y >= ry || D1 > D2; }
  bnd.count(true);
  // nearer arc (smaller distance to the sweep line) decides
  if (lx > rx) want = Y > ly && D1 > D2; else if (lx < rx) want = Y >= ry || D1 > D2;
  if (got != want) bnd.fail("arcs-point-point", ss(l) + " | " + ss(r) + " new " + S(X) + "," + S(Y) + " answered " + S(got));
}
static bool side_ok(const SE& s, int X, int Y) { return orient(s.x0(), s.y0(), s.x1(), s.y1(), X, Y) < 0; }
static void ps(bool second) {
  i64 m = bnd.in(0, 2) == 0 ? 8 : bnd.in(0, 1) ? 1000 : 2147483647;
  int x0 = bnd.in(-m, m), y0 = bnd.in(-m, m), x1 = bnd.in(-m, m), y1 = bnd.in(-m, m), px = bnd.in(-m, m), py = bnd.in(-m, m), X = bnd.in(-m, m), Y = bnd.in(-m, m);
  if (bnd.in(0, 5) == 0) x1 = x0;
  if (bnd.in(0, 3) == 0) { px = x0; py = y0; }
  SE::point_type a(x0, y0), b(x1, y1); bool lx = x0 < x1 || (x0 == x1 && y0 < y1); if (x0 == x1 && y0 == y1) return;
  SE s(lx ? a : b, lx ? b : a); if (bnd.in(0, 1)) s.inverse();
  SE p(px, py); if (px >= X || std::min(x0, x1) >= X) return;
  if (!side_ok(s, X, Y) || orient(s.x0(), s.y0(), s.x1(), s.y1(), px, py) > 0) return;
  Q D1 = -arc(p, X, Y), D2 = -arc(s, X, Y); if (D1 < 0 || D2 < 0) return;
  bool got = second ? DP()(s, p, SE::point_type(X, Y)) : DP()(p, s, SE::point_type(X, Y));
  // the arc with the smaller distance is in front at this height
  if (!clear(D1, D2)) return;
  bnd.count(true);
  bool want;
  if (D1 < D2) want = second ? true : false;     // the point's arc is in front: the new point is inside its interval
  else {
    // outside: above the interval -> the bisector below; decided by the height of the point's arc interval.
    // the interval is a piece of the parabola around the direction of the segment's normal through P
    Q ax = (Q)s.x1() - s.x0(), by = (Q)s.y1() - s.y0(), l = qsqrt(ax * ax + by * by), k = by + l; if (by < 0) k = ax * ax / (l - by);
    Q t = ((Q)Y - py) * k + ax * ((Q)X - px);   // sign: above / below the centre of the interval
    Q mag = qabs(((Q)Y - py) * k) + qabs(ax * ((Q)X - px)); if (qabs(t) <= mag * 1e-13) return;
    want = t > 0;
  }
  if (got != want) bnd.fail(second ? "arcs-segment-point" : "arcs-point-segment", ss(s) + " | " + ss(p) + " new " + S(X) + "," + S(Y) + " answered " + S(got) + " D " + qs(D1) + " " + qs(D2));
}
static void s2() {
  i64 m = bnd.in(0, 2) == 0 ? 8 : bnd.in(0, 1) ? 1000 : 2147483647;
  int c[8]; for (int i = 0; i < 8; ++i) c[i] = bnd.in(-m, m); int X = bnd.in(-m, m), Y = bnd.in(-m, m);
  SE s[2]; for (int k = 0; k < 2; ++k) { SE::point_type a(c[4 * k], c[4 * k + 1]), b(c[4 * k + 2], c[4 * k + 3]); if (a == b) return; bool lx = a.x() < b.x() || (a.x() == b.x() && a.y() < b.y()); s[k] = SE(lx ? a : b, lx ? b : a); s[k].sorted_index(k + 1); if (bnd.in(0, 1)) s[k].inverse(); if (!side_ok(s[k], X, Y) || std::min(a.x(), b.x()) >= X) return; }
  Q D1 = -arc(s[0], X, Y), D2 = -arc(s[1], X, Y); if (!clear(D1, D2) || D1 < 0 || D2 < 0) return;
  bnd.count(true);
  if (DP()(s[0], s[1], SE::point_type(X, Y)) != (D1 > D2)) bnd.fail("arcs-segment-segment", ss(s[0]) + " | " + ss(s[1]) + " new " + S(X) + "," + S(Y));
}
int main(int argc, char** argv) {
  bnd_init(argc, argv);
  bool arcs = bnd.job & 1;
  while (bnd.more()) {
    if (arcs) { for (int k = 0; k < 500; ++k) { pp(); ps(false); ps(true); s2(); } continue; }
    VI v = gen(); std::string d = show(v); cur_input = &d; bnd_case(d);
    voronoi_builder<int, CT, VPW> b; feed(b, v); voronoi_diagram<double> vd; b.construct(&vd); bnd_endcase();
    bnd.sample(d);
  }
  return bnd.done();
}
