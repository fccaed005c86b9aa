// Bounded: measures, containment and editing of the library's own polygon types against exact geometry.
#include "geo.h"
#include <cmath>
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
struct Shape { Loop out; std::vector<Loop> holes; int kind; };   // kind 0 rectilinear, 1 octilinear, 2 any
static std::string S(const Shape& s) { return S(s.out) + (s.holes.empty() ? "" : " holes ") + S(s.holes); }
static std::vector<PT> pts(const Loop& l) { std::vector<PT> r; for (size_t i = 0; i < l.size(); ++i) r.push_back(PT((int)l[i].x, (int)l[i].y)); return r; }
static Loop one(int kind, int m) {
  Loop l = kind == 0 ? polyomino((int)bnd.in(1, m), (int)bnd.in(1, m), (int)bnd.in(0, 3 * m)) : random_simple((int)bnd.in(3, 7), m, kind == 1);
  rotate_start(l); return l;
}
static Shape shape(bool holes, i64 lim) {
  Shape s; s.kind = (int)bnd.in(0, 2); s.out = one(s.kind, (int)bnd.in(2, 7));
  if (holes) {
    s.out = mapped(s.out, 12, 0, 0); int want = (int)bnd.in(1, 3);
    for (int t = 0; t < 60 && (int)s.holes.size() < want; ++t) {
      Loop h = one((int)bnd.in(0, s.kind), 3); P b = s.out[bnd.in(0, (i64)s.out.size() - 1)]; h = mapped(h, bnd.in(1, 3), b.x + bnd.in(-15, 15), b.y + bnd.in(-15, 15));
      if (!strictly_inside(h, s.out)) continue;
      bool ok = true; for (size_t k = 0; k < s.holes.size(); ++k) ok = ok && apart(h, s.holes[k]); if (ok) s.holes.push_back(h);
    }
  }
  // scale and move, up to the limit
  i64 mx = 1; for (size_t i = 0; i < s.out.size(); ++i) mx = std::max(mx, std::max(std::llabs(s.out[i].x), std::llabs(s.out[i].y)));
  i64 k = bnd.in(0, 2) == 0 ? bnd.in(1, std::max<i64>(1, lim / mx)) : bnd.in(1, std::min<i64>(3, std::max<i64>(1, lim / mx))); if (k < 1) k = 1; i64 room = lim - k * mx; i64 m = bnd.in(0, 1) ? std::max<i64>(room, 0) : 3; i64 dx = bnd.in(-m, m), dy = bnd.in(-m, m);
  s.out = mapped(s.out, k, dx, dy); for (size_t i = 0; i < s.holes.size(); ++i) s.holes[i] = mapped(s.holes[i], k, dx, dy);
  return s;
}
template <class T> static void put(T& p, const Loop& l) { std::vector<PT> v = pts(l); set_points(p, v.begin(), v.end()); }
template <class T> static void puth(T& p, const Shape& s) {
  put(p, s.out); typedef typename polygon_with_holes_traits<T>::hole_type H; std::vector<H> hs(s.holes.size()); for (size_t i = 0; i < hs.size(); ++i) put(hs[i], s.holes[i]); set_holes(p, hs.begin(), hs.end());
}
template <class T> static Loop got(const T& p) { Loop r; for (typename polygon_traits<T>::iterator_type i = begin_points(p); i != end_points(p); ++i) { PT q; assign(q, *i); P v = {x(q), y(q)}; r.push_back(v); } return r; }
template <class T> static std::vector<Loop> goth(const T& p) { std::vector<Loop> r; for (typename polygon_with_holes_traits<T>::iterator_holes_type i = begin_holes(p); i != end_holes(p); ++i) r.push_back(got(*i)); return r; }
static std::string text;
#define F(key, cond) do { if (!(cond)) bnd.fail(std::string(key) + "-" + tn, text); } while (0)
// ------------------------------------------------------------ C09
template <class T> static void measures(const T& p, const Shape& s, const char* tn) {
  i128 a = area2(s.out), aa = a < 0 ? -a : a; for (size_t i = 0; i < s.holes.size(); ++i) { i128 b = area2(s.holes[i]); aa -= b < 0 ? -b : b; }
  long double A = (long double)area(p);
  F("area", A * 2 == (long double)aa);
  F("winding", (winding(p) == COUNTERCLOCKWISE) == (a > 0));
  long double per = 0; std::vector<Loop> all(s.holes); all.push_back(s.out); bool octi = true;
  for (size_t k = 0; k < all.size(); ++k) for (size_t i = 0; i < all[k].size(); ++i) { P u = all[k][i], v = all[k][(i + 1) % all[k].size()]; i64 dx = v.x - u.x, dy = v.y - u.y; per += sqrtl((long double)dx * dx + (long double)dy * dy); if (dx && dy && std::llabs(dx) != std::llabs(dy)) octi = false; }
  long double gp = (long double)perimeter(p);
  F("perimeter", fabsl(gp - per) <= per * 1e-9L);
  F("is_45", is_45(p) == octi);
  i64 xl0 = s.out[0].x, xh0 = xl0, yl0 = s.out[0].y, yh0 = yl0; for (size_t i = 0; i < s.out.size(); ++i) { xl0 = std::min(xl0, s.out[i].x); xh0 = std::max(xh0, s.out[i].x); yl0 = std::min(yl0, s.out[i].y); yh0 = std::max(yh0, s.out[i].y); }
  rectangle_data<int> r; bool ok = extents(r, p);
  F("extents", ok && xl(r) == xl0 && xh(r) == xh0 && yl(r) == yl0 && yh(r) == yh0);
  PT c; center(c, p); i64 cx = x(c), cy = y(c);
  F("center", std::llabs(2 * cx - (xl0 + xh0)) <= 1 && std::llabs(2 * cy - (yl0 + yh0)) <= 1);
  F("size", boost::polygon::size(p) == s.out.size());
}
// ------------------------------------------------------------ C10
static int where_in(P q, const Shape& s) { int w = where(q, s.out); if (w <= 0) return w; for (size_t i = 0; i < s.holes.size(); ++i) { int h = where(q, s.holes[i]); if (h == 0) return 0; if (h > 0) return -1; } return 1; }
static std::vector<P> queries;
template <class T> static void inside(const T& p, const Shape& s, const char* tn) {
  for (size_t i = 0; i < queries.size(); ++i) {
    P q = queries[i]; int w = where_in(q, s); bool t = contains(p, PT((int)q.x, (int)q.y), true), n = contains(p, PT((int)q.x, (int)q.y), false), d = contains(p, PT((int)q.x, (int)q.y));
    if (t != (w >= 0) || n != (w > 0) || d != t) { std::string sv = text; text += " at " + S(q.x) + "," + S(q.y) + " where " + S(w) + " got " + S(t) + S(n); F("contains", false); text = sv; }
  }
}
static void make_queries(const Shape& s, i64 lim) {
  queries.clear(); std::vector<Loop> all(s.holes); all.push_back(s.out);
  for (size_t k = 0; k < all.size(); ++k) for (size_t i = 0; i < all[k].size(); ++i) {
    P a = all[k][i], b = all[k][(i + 1) % all[k].size()]; queries.push_back(a);
    for (int t = 0; t < 4; ++t) { i64 q = bnd.in(1, 6), r = bnd.in(0, q); P m = {a.x + (b.x - a.x) * r / q + bnd.in(-1, 1), a.y + (b.y - a.y) * r / q + bnd.in(-1, 1)}; queries.push_back(m); }
    P e = all[k][bnd.in(0, (i64)all[k].size() - 1)]; P m = {a.x, e.y}; queries.push_back(m); P m2 = {e.x + bnd.in(-1, 1), a.y}; queries.push_back(m2); P m3 = {(a.x + e.x) / 2, (a.y + e.y) / 2}; queries.push_back(m3);
  }
  for (int t = 0; t < 8; ++t) { P m = {bnd.in(-lim, lim), bnd.in(-lim, lim)}; queries.push_back(m); }
}
// ------------------------------------------------------------ C11
template <class T> static bool is45_domain(const T&) { return false; }
static bool is45_domain(const polygon_45_data<int>&) { return true; }
static bool is45_domain(const polygon_45_with_holes_data<int>&) { return true; }
template <class Fn> static Loop image(const Loop& l, Fn f) { Loop r; for (size_t i = 0; i < l.size(); ++i) { PT q((int)l[i].x, (int)l[i].y); f(q); P v = {x(q), y(q)}; r.push_back(v); } return r; }
static bool cmp(const Loop& a, const Loop& b, bool cyc) { return cyc ? same_cycle(a, b) : a == b; }
template <class T, class Fn> static void mapped_ok(const T& p, const Shape& s, Fn f, const char* what, const char* tn, bool cyc) {
  if (!cmp(got(p), image(s.out, f), cyc)) { std::string sv = text; text = std::string(what) + " of " + text + " gives " + S(got(p)); F(std::string(what), false); text = sv; }
}
template <class T, class Fn> static void holes_ok(const T& p, const Shape& s, Fn f, const char* what, const char* tn, bool cyc) {
  std::vector<Loop> h = goth(p); bool ok = h.size() == s.holes.size(); for (size_t i = 0; ok && i < h.size(); ++i) ok = cmp(h[i], image(s.holes[i], f), cyc);
  if (!ok) { std::string sv = text; text = std::string(what) + " of " + text + " gives holes " + S(h); F(std::string(what) + "-holes", false); text = sv; }
}
template <class Fn> static bool proper1(const Loop& l, Fn f) { Loop r = image(l, f); for (size_t i = 0; i < r.size(); ++i) if (r[i] == r[(i + 1) % r.size()]) return false; return true; }
template <class Fn> static bool proper(const Shape& s, Fn f) { if (!proper1(s.out, f)) return false; for (size_t i = 0; i < s.holes.size(); ++i) if (!proper1(s.holes[i], f)) return false; return true; }
struct Id { void operator()(PT&) const {} };
struct Conv { PT d; void operator()(PT& q) const { q = PT(x(q) + x(d), y(q) + y(d)); } };
struct Up { unsigned f; void operator()(PT& q) const { q = PT(x(q) * (int)f, y(q) * (int)f); } };
struct Down { unsigned f; void operator()(PT& q) const { scale_down(q, f); } };
struct Sc { double f; void operator()(PT& q) const { q = PT((int)std::floor(x(q) * f + 0.5), (int)std::floor(y(q) * f + 0.5)); } };
struct Tr { axis_transformation a; void operator()(PT& q) const { transform(q, a); } };
struct Tr2 { transformation<int> a; void operator()(PT& q) const { transform(q, a); } };
template <class T, class M> static void edits(const T& p0, const Shape& s, const char* tn, bool cyc, M more) {
  more(p0, s, Id(), "set", tn, cyc);
  { T p(p0); Conv c; c.d = PT((int)bnd.in(-50, 50), (int)bnd.in(-50, 50)); convolve(p, c.d); more(p, s, c, "convolve", tn, cyc); }
  { T p(p0); bool h = bnd.in(0, 1); int d = (int)bnd.in(-50, 50); Conv c; c.d = h ? PT(d, 0) : PT(0, d); move(p, h ? HORIZONTAL : VERTICAL, d); more(p, s, c, "move", tn, cyc); }
  { T p(p0); Up u; u.f = (unsigned)bnd.in(1, 7); scale_up(p, u.f); more(p, s, u, "scale_up", tn, cyc); Down d; d.f = u.f; scale_down(p, u.f); more(p, s, Id(), "scale_up-down", tn, cyc); }
  { T p(p0); Sc c; c.f = (double)bnd.in(1, 6); scale(p, c.f); more(p, s, c, "scale", tn, cyc); }
  if (s.kind != 1) {   // rounding may collapse edges; the compact form of a rectilinear loop then names other points of the same boundary, so those images are left out
    { T p(p0); Down d; d.f = (unsigned)bnd.in(2, 5); if (!is45_domain(p0) && (!cyc || proper(s, d))) { scale_down(p, d.f); more(p, s, d, "scale_down", tn, cyc); } }
    { T p(p0); Sc c; c.f = bnd.in(1, 40) / 8.0; if (!is45_domain(p0) && (!cyc || proper(s, c))) { scale(p, c.f); more(p, s, c, "scale-fraction", tn, cyc); } }
  }
  for (int k = 0; k < 8; ++k) { T p(p0); Tr t; t.a = axis_transformation((axis_transformation::ATR)k); transform(p, t.a); more(p, s, t, "transform", tn, cyc); }
  { T p(p0); Tr2 t; t.a = transformation<int>(axis_transformation((axis_transformation::ATR)bnd.in(0, 7)), PT((int)bnd.in(-9, 9), (int)bnd.in(-9, 9))); transform(p, t.a); more(p, s, t, "transformation", tn, cyc); }
}
struct MoreP { template <class T, class Fn> void operator()(const T& p, const Shape& s, Fn f, const char* w, const char* tn, bool cyc) const { mapped_ok(p, s, f, w, tn, cyc); } };
struct MoreH { template <class T, class Fn> void operator()(const T& p, const Shape& s, Fn f, const char* w, const char* tn, bool cyc) const { mapped_ok(p, s, f, w, tn, cyc); holes_ok(p, s, f, w, tn, cyc); } };
template <class A, class B> static void conv_ok(const A& a, const Shape& s, const char* tn, bool cyc) { B b; assign(b, a); mapped_ok(b, s, Id(), "assign", tn, cyc); }
template <class A, class B> static void convh_ok(const A& a, const Shape& s, const char* tn, bool cyc) { B b; assign(b, a); mapped_ok(b, s, Id(), "assign", tn, cyc); holes_ok(b, s, Id(), "assign", tn, cyc); }
// octilinear polygons stay octilinear when scaled down or by a fraction: vertices move by a bounded rounding drift, none is lost
static void octilinear_case() {
  typedef polygon_45_data<int> B; typedef polygon_45_with_holes_data<int> BH;
  static const int DX[] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[] = {0, 1, 1, 1, 0, -1, -1, -1};
  std::vector<point_data<int> > p; int k = (int)bnd.in(1, 5), last = -1, first = -1; long m = bnd.in(0, 1) ? 100 : 1000, x0 = (long)bnd.in(-5 * m, 5 * m), y0 = (long)bnd.in(-5 * m, 5 * m), px = x0, py = y0;
  p.push_back(point_data<int>((int)px, (int)py));
  for (int i = 0; i < k; ++i) { int d; do d = (int)bnd.in(0, 7); while (last >= 0 && (d - last) % 4 == 0); last = d; if (first < 0) first = d; long l = (long)bnd.in(m, 10 * m); px += DX[d] * l; py += DY[d] * l; p.push_back(point_data<int>((int)px, (int)py)); }
  long tx = x0 - px, ty = y0 - py; bool ok = false; int r = (int)bnd.in(0, 7);
  for (int i = 0; i < 64 && !ok; ++i) {
    int a = (i / 8 + r) % 8, b = i % 8; if ((a - b) % 4 == 0 || (a - last) % 4 == 0 || (b - first) % 4 == 0) continue;
    long det = DX[a] * DY[b] - DY[a] * DX[b], la = tx * DY[b] - ty * DX[b], lb = DX[a] * ty - DY[a] * tx; if (la % det || lb % det) continue; la /= det; lb /= det; if (la < m || lb < m) continue;
    p.push_back(point_data<int>((int)(px + DX[a] * la), (int)(py + DY[a] * la))); ok = true;
  }
  if (!ok) return;
  std::string text = "octilinear"; for (size_t i = 0; i < p.size(); ++i) text += " " + std::to_string(p[i].x()) + "," + std::to_string(p[i].y());
  for (int way = 0; way < 4; ++way) {
    double f = way & 1 ? (double)bnd.in(1, 39) / 8.0 : 1.0 / (double)bnd.in(2, 9); std::vector<point_data<int> > q; std::string at = text + (way & 1 ? " scale " : " scale_down 1/") + std::to_string(way & 1 ? f : 1 / f);
    if (way < 2) { B g(p.begin(), p.end()); if (way & 1) scale(g, f); else scale_down(g, (unsigned)(1 / f + .5)); q.assign(g.begin(), g.end()); }
    else { std::vector<B> h(1, B(p.begin(), p.end())); BH g(p.begin(), p.end()); g.set_holes(h.begin(), h.end()); if (way & 1) scale(g, f); else scale_down(g, (unsigned)(1 / f + .5)); if (g.size_holes() != 1) { bnd.fail("octilinear-holes", at); return; } q.assign((*g.begin_holes()).begin(), (*g.begin_holes()).end()); std::vector<point_data<int> > o(g.begin(), g.end()); if (o != q) bnd.fail("octilinear-hole-differs", at); }
    if (q.size() != p.size()) { bnd.fail("octilinear-count", at); return; }
    for (size_t i = 0; i < q.size(); ++i) {
      long dx = (long)q[(i + 1) % q.size()].x() - q[i].x(), dy = (long)q[(i + 1) % q.size()].y() - q[i].y();
      if (dx && dy && dx != dy && dx != -dy) { bnd.fail("not-octilinear", at); return; }
      if (std::fabs(q[i].x() - p[i].x() * f) > 6 || std::fabs(q[i].y() - p[i].y() * f) > 6) { bnd.fail("octilinear-drift", at); return; }
    }
  }
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); std::string m = bnd.args.empty() ? "C09" : bnd.args[0];
  typedef polygon_data<int> A; typedef polygon_45_data<int> B; typedef polygon_90_data<int> C; typedef polygon_with_holes_data<int> AH; typedef polygon_45_with_holes_data<int> BH; typedef polygon_90_with_holes_data<int> CH;
  while (bnd.more()) {
    bool holes = bnd.in(0, 1); i64 lim = m == "C09" ? (bnd.in(0, 2) ? (1 << 20) : (1 << 28)) : m == "C10" ? (bnd.in(0, 2) ? 300 : (1ll << 31) - 3) : (1 << 20);
    Shape s = shape(holes, lim); text = S(s); bnd_case(text); bnd.count(s.out.size() > 4 || !s.holes.empty());
    bnd.sample(text);
    if (m == "C10") make_queries(s, lim);
    A a; put(a, s.out); B b; put(b, s.out); C c; if (s.kind == 0) put(c, s.out);
    AH ah; puth(ah, s); BH bh; puth(bh, s); CH ch; if (s.kind == 0) puth(ch, s);
    Shape o = s; o.holes.clear();
    if (m == "C09") { measures(a, o, "polygon"); measures(b, o, "polygon_45"); if (s.kind == 0) measures(c, o, "polygon_90"); measures(ah, s, "with_holes"); measures(bh, s, "45_with_holes"); if (s.kind == 0) measures(ch, s, "90_with_holes"); }
    else if (m == "C10") { inside(a, o, "polygon"); inside(b, o, "polygon_45"); if (s.kind == 0) inside(c, o, "polygon_90"); inside(ah, s, "with_holes"); inside(bh, s, "45_with_holes"); if (s.kind == 0) inside(ch, s, "90_with_holes"); }
    else {
      for (int i = 0; i < 5; ++i) octilinear_case();
      edits(a, o, "polygon", false, MoreP()); if (s.kind < 2) edits(b, o, "polygon_45", false, MoreP()); if (s.kind == 0) edits(c, o, "polygon_90", true, MoreP());
      edits(ah, s, "with_holes", false, MoreH()); if (s.kind < 2) edits(bh, s, "45_with_holes", false, MoreH()); if (s.kind == 0) edits(ch, s, "90_with_holes", true, MoreH());
      if (s.kind == 0) { conv_ok<C, A>(c, o, "90-any", true); conv_ok<C, B>(c, o, "90-45", true); conv_ok<C, C>(c, o, "90-90", true); convh_ok<CH, AH>(ch, s, "90h-anyh", true); convh_ok<CH, BH>(ch, s, "90h-45h", true); convh_ok<CH, CH>(ch, s, "90h-90h", true); conv_ok<C, AH>(c, o, "90-anyh", true); conv_ok<A, AH>(a, o, "any-anyh", false); }
      if (s.kind < 2) { conv_ok<B, A>(b, o, "45-any", false); convh_ok<BH, AH>(bh, s, "45h-anyh", false); convh_ok<BH, BH>(bh, s, "45h-45h", false); conv_ok<B, BH>(b, o, "45-45h", false); }
      conv_ok<A, A>(a, o, "any-any", false); convh_ok<AH, AH>(ah, s, "anyh-anyh", false);
    }
    bnd_endcase();
  }
  return bnd.done();
}
