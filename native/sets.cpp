// Bounded: octilinear (-DOCT) and general polygon sets against exact membership of off-edge points.
#include "geo.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
using namespace boost::polygon::operators;
typedef point_data<int> PT; typedef rectangle_data<int> RT; typedef polygon_90_data<int> P9; typedef polygon_90_set_data<int> S9;
#ifdef OCT
typedef polygon_45_data<int> PG; typedef polygon_45_with_holes_data<int> PH; typedef polygon_45_set_data<int> PS;
#else
typedef polygon_data<int> PG; typedef polygon_with_holes_data<int> PH; typedef polygon_set_data<int> PS;
#endif
static const i64 LIMIT = 1 << 20;     // beyond this the default high precision type of the general algorithms is not exact
static std::string text; static const i64 K = 64;
static std::vector<PT> pts(const Loop& l) { std::vector<PT> r; for (size_t i = 0; i < l.size(); ++i) r.push_back(PT((int)l[i].x, (int)l[i].y)); return r; }
template <class T> static T pg(const Loop& l) { std::vector<PT> v = pts(l); T p; p.set(v.begin(), v.end()); return p; }
static PH ph(const std::vector<Loop>& ls) { std::vector<PT> v = pts(ls[0]); PH p; p.set(v.begin(), v.end()); std::vector<PG> h; for (size_t i = 1; i < ls.size(); ++i) h.push_back(pg<PG>(ls[i])); p.set_holes(h.begin(), h.end()); return p; }
template <class T> static Loop loop_of(const T& p) { Loop r; for (typename polygon_traits<T>::iterator_type i = begin_points(p); i != end_points(p); ++i) { P q = {x(*i), y(*i)}; r.push_back(q); } if (r.size() > 1 && r.back() == r[0]) r.pop_back(); return r; }
template <class T> static std::vector<Loop> loops_of(const T& p) { std::vector<Loop> r; r.push_back(loop_of(p)); for (typename T::iterator_holes_type i = p.begin_holes(); i != p.end_holes(); ++i) r.push_back(loop_of(*i)); return r; }
typedef std::vector<Loop> Shape;                      // outer then holes
typedef std::vector<Shape> Src;
static std::string S(const Src& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += (i ? " + " : "") + S(s[i]); return "{" + r + "}"; }
static Loop scaled(const Loop& l) { return mapped(l, K, 0, 0); }
// parity membership of a shape (coordinates scaled by K); on an edge sets on
static bool in_shape(P p, const Shape& s, bool& on) { bool r = false; for (size_t k = 0; k < s.size(); ++k) { int w = where(p, s[k]); if (w == 0) on = true; if (w > 0) r = !r; } return r; }
static Src scaled(const Src& s) { Src r = s; for (size_t i = 0; i < r.size(); ++i) for (size_t k = 0; k < r[i].size(); ++k) r[i][k] = scaled(r[i][k]); return r; }
static int count_at(P p, const Src& sc, bool& on) { int c = 0; for (size_t i = 0; i < sc.size(); ++i) c += in_shape(p, sc[i], on); return c; }
static int range = 8, mult = 1;
static Loop a_loop() {
#ifdef OCT
  int k = (int)bnd.in(0, 3); Loop l;
  if (k == 0) l = polyomino((int)bnd.in(1, 3), (int)bnd.in(1, 3), (int)bnd.in(0, 8)); else l = random_simple((int)bnd.in(3, 8), bnd.in(1, std::max(1, range / 2)), true);
  l = mapped(l, 2, 2 * bnd.in(-range / 2, range / 2), 2 * bnd.in(-range / 2, range / 2));
#else
  Loop l; if (bnd.in(0, 5) == 0) l = mapped(polyomino((int)bnd.in(1, 3), (int)bnd.in(1, 3), 5), 1, bnd.in(-range, range), bnd.in(-range, range)); else l = mapped(random_simple((int)bnd.in(3, 6), range, false), 1, 0, 0);
#endif
  rotate_start(l); return l;
}
static Shape a_shape() { Shape s(1, a_loop()); if (!bnd.in(0, 2)) { s[0] = mapped(s[0], 3, 0, 0); for (int q = 0; q < 5 && s.size() < 4; ++q) { Loop h = a_loop(); if (!strictly_inside(h, s[0])) continue; bool ok = true; for (size_t i = 1; i < s.size(); ++i) ok = ok && apart(h, s[i]); if (ok) s.push_back(h); } } return s; }
static Src make(int n) { Src s; for (int i = 0; i < n; ++i) s.push_back(a_shape()); return s; }
static i64 gcd(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
// least common denominator of all edge crossings, 0 when too big
static i64 crossing_lcm(const std::vector<Src*>& v, i64 cap) {
  std::vector<std::pair<P, P> > e; for (size_t q = 0; q < v.size(); ++q) for (size_t i = 0; i < v[q]->size(); ++i) for (size_t k = 0; k < (*v[q])[i].size(); ++k) { const Loop& l = (*v[q])[i][k]; for (size_t j = 0; j < l.size(); ++j) e.push_back(std::make_pair(l[j], l[(j + 1) % l.size()])); }
  i64 L = 1; for (size_t i = 0; i < e.size(); ++i) for (size_t j = 0; j < i; ++j) { P a = e[i].first, b = e[i].second, c = e[j].first, d = e[j].second; if (!meets(a, b, c, d)) continue; i64 dx = b.x - a.x, dy = b.y - a.y, ex = d.x - c.x, ey = d.y - c.y, det = dx * ey - dy * ex; if (!det) continue; i64 t = (c.x - a.x) * ey - (c.y - a.y) * ex; i64 g = gcd(gcd(t * dx, t * dy), det); i64 den = std::llabs(det) / g; L = L / gcd(L, den) * den; if (L > cap) return 0; }
  return L;
}
static void all_edges(const std::vector<Src*>& v, std::vector<std::pair<P, P> >& e) { for (size_t q = 0; q < v.size(); ++q) for (size_t i = 0; i < v[q]->size(); ++i) for (size_t k = 0; k < (*v[q])[i].size(); ++k) { const Loop& l = (*v[q])[i][k]; for (size_t j = 0; j < l.size(); ++j) e.push_back(std::make_pair(l[j], l[(j + 1) % l.size()])); } }
static double dist(P p, P a, P b) { double dx = (double)(b.x - a.x), dy = (double)(b.y - a.y), t = ((p.x - a.x) * dx + (p.y - a.y) * dy) / (dx * dx + dy * dy); if (t < 0) t = 0; if (t > 1) t = 1; double ux = p.x - a.x - t * dx, uy = p.y - a.y - t * dy; return __builtin_sqrt(ux * ux + uy * uy); }
// smallest distance from a vertex or crossing to an edge it is not on (crossings are on the grid by now)
static double clearance(const std::vector<Src*>& v) {
  std::vector<std::pair<P, P> > e; all_edges(v, e); std::vector<P> q; double m = 1e300;
  for (size_t i = 0; i < e.size(); ++i) { q.push_back(e[i].first); for (size_t j = 0; j < i; ++j) { P a = e[i].first, b = e[i].second, c = e[j].first, d = e[j].second; if (!meets(a, b, c, d)) continue; i64 dx = b.x - a.x, dy = b.y - a.y, ex = d.x - c.x, ey = d.y - c.y; i128 det = (i128)dx * ey - (i128)dy * ex; if (!det) continue; i128 t = (i128)(c.x - a.x) * ey - (i128)(c.y - a.y) * ex; P r = {a.x + (i64)(t * dx / det), a.y + (i64)(t * dy / det)}; q.push_back(r); } }
  for (size_t k = 0; k < q.size(); ++k) { for (size_t i = 0; i < e.size(); ++i) if (!onseg(q[k], e[i].first, e[i].second)) m = std::min(m, dist(q[k], e[i].first, e[i].second)); }
  return m;
}
static void rescale(Src& s, i64 L) { for (size_t i = 0; i < s.size(); ++i) for (size_t k = 0; k < s[i].size(); ++k) s[i][k] = mapped(s[i][k], L, 0, 0); }
template <class V> static void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[bnd.in(0, (i64)i - 1)]); }
static PS set_of(const Src& s) { PS r; std::vector<int> o; for (size_t i = 0; i < s.size(); ++i) o.push_back((int)i); shuffle(o); for (size_t i = 0; i < o.size(); ++i) { const Shape& h = s[o[i]]; if (h.size() == 1 && bnd.in(0, 1)) r.insert(pg<PG>(h[0])); else r.insert(ph(h)); } return r; }
// sample points (scaled by K)
static void add_around(std::vector<P>& v, P p, int r) { static const int D[8][2] = {{1, 2}, {2, 1}, {-1, 2}, {-2, 1}, {1, -2}, {2, -1}, {-1, -2}, {-2, -1}}; for (int i = 0; i < 8; ++i) { P q = {p.x * K + D[i][0] * r, p.y * K + D[i][1] * r}; v.push_back(q); } }
static void add_loops(std::vector<P>& v, const Src& s) { for (size_t i = 0; i < s.size(); ++i) for (size_t k = 0; k < s[i].size(); ++k) for (size_t j = 0; j < s[i][k].size(); ++j) { P a = s[i][k][j], b = s[i][k][(j + 1) % s[i][k].size()]; add_around(v, a, 1); P m = {(a.x + b.x) * (K / 2), (a.y + b.y) * (K / 2)}; for (int q = -1; q <= 1; q += 2) { P u = {m.x + q * 3, m.y + 1}, w = {m.x + 1, m.y + q * 3}; v.push_back(u); v.push_back(w); } } }
static void bounds(const Src& s, i64* b, bool& f) { for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s[i][0].size(); ++j) { P p = s[i][0][j]; if (f) { b[0] = b[1] = p.x; b[2] = b[3] = p.y; f = false; } b[0] = std::min(b[0], p.x); b[1] = std::max(b[1], p.x); b[2] = std::min(b[2], p.y); b[3] = std::max(b[3], p.y); } }
static std::vector<P> points; static std::vector<int> na, nb; static double slack = 0;   // slack: ignore points this close (in grid units) to an input edge
static double edge_dist(P p, const Src& sc) { double m = 1e300; for (size_t i = 0; i < sc.size(); ++i) for (size_t k = 0; k < sc[i].size(); ++k) for (size_t j = 0; j < sc[i][k].size(); ++j) m = std::min(m, dist(p, sc[i][k][j], sc[i][k][(j + 1) % sc[i][k].size()])); return m; }
static void sample(const Src& a, const Src& b) {
  points.clear(); na.clear(); nb.clear(); std::vector<P> v; add_loops(v, a); add_loops(v, b); i64 bb[4]; bool f = true; bounds(a, bb, f); bounds(b, bb, f); if (!f) for (int i = 0; i < 40; ++i) { P p = {bnd.in((bb[0] - 1) * K, (bb[1] + 1) * K), bnd.in((bb[2] - 1) * K, (bb[3] + 1) * K)}; v.push_back(p); }
  Src sa = scaled(a), sb = scaled(b); if (v.size() > 160) { shuffle(v); v.resize(160); }
  for (size_t i = 0; i < v.size(); ++i) { bool on = false; int x = count_at(v[i], sa, on), y = count_at(v[i], sb, on); if (on) continue; if (slack && (edge_dist(v[i], sa) < slack * K || edge_dist(v[i], sb) < slack * K)) continue; points.push_back(v[i]); na.push_back(x); nb.push_back(y); }
}
static Src inputs_scaled;
// how often do the pieces cover each sample; the pieces' own vertices join in as samples through near()
static bool covered(const Src& pieces, const std::vector<int>& want, const std::string& what, bool once = true, double tol = 0) {
  Src sc = scaled(pieces);
  for (size_t i = 0; i < points.size(); ++i) { bool on = false; int c = count_at(points[i], sc, on); if (on || (tol && tol > slack && edge_dist(points[i], inputs_scaled) < tol * K)) continue; if (c != want[i] && (once || (c > 0) != (want[i] > 0))) { bnd.fail(what, text + " " + what + ": point " + S(points[i].x) + "/64," + S(points[i].y) + "/64 covered " + S(c) + " times, expected " + S(want[i]) + " by " + S(pieces)); return false; } }
  return true;
}
static std::vector<int> op(int k) { std::vector<int> r; for (size_t i = 0; i < points.size(); ++i) { bool p = na[i] > 0, q = nb[i] > 0; r.push_back(k == 0 ? p | q : k == 1 ? p & q : k == 2 ? p & !q : k == 3 ? p ^ q : k == 4 ? na[i] > 1 : k == 5 ? na[i] & 1 : p); } return r; }
template <class V> static Src pieces(const V& v) { Src r; for (size_t i = 0; i < v.size(); ++i) r.push_back(Shape(1, loop_of(v[i]))); return r; }
static Src pieces(const std::vector<PH>& v) { Src r; for (size_t i = 0; i < v.size(); ++i) r.push_back(loops_of(v[i])); return r; }
// output vertices stay close to some input edge
static void near_inputs(const Src& p, const std::string& what) { if (!slack) return; for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < p[i].size(); ++k) for (size_t j = 0; j < p[i][k].size(); ++j) { P q = {p[i][k][j].x * K, p[i][k][j].y * K}; if (edge_dist(q, inputs_scaled) > 4.5 * K) { bnd.fail(what + "-far", text + " " + what + " vertex " + S(p[i][k][j].x) + "," + S(p[i][k][j].y)); return; } } }
static i128 twice_area(const Src& p) { i128 s = 0; for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < p[i].size(); ++k) { i128 a = area2(p[i][k]); if (a < 0) a = -a; s += k ? -a : a; } return s; }
static void region(const PS& s, const std::vector<int>& want, const std::string& what) {
  std::vector<PH> h; s.get(h); Src p = pieces(h); if (!covered(p, want, what)) return;
  if (slack) near_inputs(p, what);
  for (size_t i = 0; i < p.size(); ++i) for (size_t k = 1; k < p[i].size(); ++k) if (sg(area2(p[i][k])) == sg(area2(p[i][0]))) bnd.fail(what + "-hole-orientation", text + " " + what + " " + S(p[i]));
  if (slack) return;
  for (size_t i = 0; i < p.size(); ++i) for (size_t k = 1; k < p[i].size(); ++k) for (size_t j = 0; j < p[i][k].size(); ++j) if (where(p[i][k][j], p[i][0]) < 0) bnd.fail(what + "-hole-outside", text + " " + what + " " + S(p[i]));
}
static void extract(const PS& s, const std::vector<int>& want, const std::string& what) {
#ifdef OCT
  const double tol = 0;
#else
  const double tol = 1.5;             // cut corners are rounded to the grid
#endif
  bool holes = false;
  i128 ar; { std::vector<PH> v; s.get(v); Src p = pieces(v); covered(p, want, what + "holed"); ar = twice_area(p); for (size_t i = 0; i < p.size(); ++i) holes = holes || p[i].size() > 1; }
  { std::vector<PG> v; s.get(v); Src p = pieces(v); double ft = holes ? tol : 0; covered(p, want, what + "fractured", true, ft); if (!slack && !ft && twice_area(p) != ar) bnd.fail(what + "fractured-area", text); PS b; for (size_t i = 0; i < v.size(); ++i) b.insert(v[i]); if (!slack && !ft) { region(b, want, what + "fractured-again"); if (!equivalence(b, s)) bnd.fail(what + "fractured-equivalence", text); } }
  if (slack) return;   // see the finding on trapezoids of input that is not clear of itself
  { std::vector<PG> v; s.get_trapezoids(v); Src p = pieces(v); covered(p, want, what + "trapezoids", true, tol); if (!tol && twice_area(p) != ar) bnd.fail(what + "trapezoids-area", text + " area " + S(twice_area(p)) + " of " + S(ar)); for (size_t i = 0; i < p.size(); ++i) if (!tol && p[i][0].size() > 4) bnd.fail(what + "trapezoids-size", text + " " + S(p[i])); }
  { std::vector<PG> v; s.get_trapezoids(v, HORIZONTAL); Src p = pieces(v); covered(p, want, what + "trapezoids-h", true, tol); if (!tol && twice_area(p) != ar) bnd.fail(what + "trapezoids-h-area", text); v.clear(); s.get_trapezoids(v, VERTICAL); covered(pieces(v), want, what + "trapezoids-v", true, tol); }
  if (!slack) { double d = (double)area(s); double e = (double)ar / 2; if (d != e) bnd.fail(what + "area", text + " area " + S(d) + " expected " + S(e)); }
}
template <class A, class B> static void binary(const A& a, const B& b, const std::string& nm, int mask = 15) {
  if (mask & 1) { PS r; assign(r, a | b); region(r, op(0), nm + "union"); } if (mask & 2) { PS r; assign(r, a & b); region(r, op(1), nm + "intersection"); } if (mask & 4) { PS r; assign(r, a - b); region(r, op(2), nm + "difference"); } if (mask & 8) { PS r; assign(r, a ^ b); region(r, op(3), nm + "xor"); }
}
static std::vector<int> less_holes(bool flat) { std::vector<int> r; for (size_t i = 0; i < points.size(); ++i) r.push_back(na[i] - (flat ? nb[i] > 0 : nb[i]) > 0); return r; }
// everything that can be inserted with is_hole set takes its cover away
static void hole_inserts(const Src& a, const Src& b) {
  { PS t = set_of(a); for (size_t i = 0; i < b.size(); ++i) { if (b[i].size() == 1 && bnd.in(0, 1)) t.insert(pg<PG>(b[i][0]), true); else t.insert(ph(b[i]), true); } region(t, less_holes(false), "insert-hole-"); }
  { PS t = set_of(a), h = set_of(b); if (bnd.in(0, 1)) t.insert(h, true); else t.insert(h.begin(), h.end(), true); region(t, less_holes(false), "insert-set-hole-"); }
#ifndef OCT
  if (!slack) return;
#endif
  std::vector<P> v; for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].size(); ++k) for (size_t j = 0; j < a[i][k].size(); ++j) v.push_back(a[i][k][j]); if (v.size() < 2) return;
  Src m; polygon_90_set_data<int> M(bnd.in(0, 1) ? HORIZONTAL : VERTICAL); std::vector<rectangle_data<int> > rects;
  for (int n = (int)bnd.in(1, 3); n; --n) { P p = v[bnd.in(0, (i64)v.size() - 1)], q = v[bnd.in(0, (i64)v.size() - 1)]; i64 x0 = std::min(p.x, q.x), x1 = std::max(p.x, q.x), y0 = std::min(p.y, q.y), y1 = std::max(p.y, q.y); if (x0 == x1 || y0 == y1) continue;
    Loop l; P c[4] = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; l.assign(c, c + 4); m.push_back(Shape(1, l)); rectangle_data<int> r((int)x0, (int)y0, (int)x1, (int)y1); M.insert(r); rects.push_back(r); }
  text = S(a) + " / " + S(m); inputs_scaled = scaled(a); { Src q = scaled(m); inputs_scaled.insert(inputs_scaled.end(), q.begin(), q.end()); } sample(a, m);
#ifdef OCT
  const bool flat = false;   // the stored edges are taken over as they are
#else
  const bool flat = true;    // the polygons of the set are taken over
#endif
  { PS t = set_of(a); t.insert(M, true); region(t, less_holes(flat), "insert-manhattan-hole-"); PS u = set_of(a); u.insert(M); region(u, op(0), "insert-manhattan-"); PS w = set_of(a); for (size_t i = 0; i < rects.size(); ++i) w.insert(rects[i], true); region(w, less_holes(false), "insert-rectangle-hole-"); }
#ifndef OCT
  { polygon_45_set_data<int> M4; M4.insert(M); PS t = set_of(a); t.insert(M4, true, polygon_45_set_concept()); region(t, less_holes(true), "insert-octilinear-hole-"); }
#endif
}
static void one_case() {
  range = (int)bnd.in(2, 7); Src a, b;
#ifdef OCT
  a = make((int)bnd.in(0, 4)); b = make((int)bnd.in(0, 3)); slack = 0;
  if (!bnd.in(0, 5)) { i64 m = bnd.in(2, 5000000); rescale(a, m); rescale(b, m); }
#else
  slack = bnd.in(0, 2) ? 0 : 4.5; // every pass over the edges may move one by the diagonal of a grid cell; an operation makes up to three
  if (slack) { range = (int)bnd.in(5, 60); a = make((int)bnd.in(1, 3)); b = make((int)bnd.in(0, 2)); }
  else { for (;;) { a = make((int)bnd.in(0, 2)); b = make((int)bnd.in(0, 2)); std::vector<Src*> v; v.push_back(&a); v.push_back(&b); i64 L = crossing_lcm(v, 1 << 16); if (!L || L * 60 > LIMIT) continue; rescale(a, L); rescale(b, L); double c = clearance(v); i64 f = c < 1.5 ? (i64)(1.5 / c) + 1 : 1; if (bnd.in(0, 1)) f *= bnd.in(2, 9); if (L * f * 60 > LIMIT) continue; rescale(a, f); rescale(b, f); break; } }
#endif
  text = S(a) + " / " + S(b); bnd_case(text); bnd.sample(text); bnd.count(a.size() + b.size() > 1); inputs_scaled = scaled(a); { Src q = scaled(b); inputs_scaled.insert(inputs_scaled.end(), q.begin(), q.end()); }
  sample(a, b); PS A = set_of(a), B = set_of(b);
  { PS t(A); t.clean(); region(t, op(6), "self-union"); } binary(A, B, "set-");
  { PS r(A); r |= B; region(r, op(0), "or-assign"); } { PS r(A); r &= B; region(r, op(1), "and-assign"); } { PS r(A); r -= B; region(r, op(2), "sub-assign"); } { PS r(A); r ^= B; region(r, op(3), "xor-assign"); }
  std::vector<PH> va, vb; for (size_t i = 0; i < a.size(); ++i) va.push_back(ph(a[i])); for (size_t i = 0; i < b.size(); ++i) vb.push_back(ph(b[i])); shuffle(va); shuffle(vb);
  binary(va, vb, "vectors-", (int)bnd.in(1, 15)); binary(A, vb, "set-vector-", (int)bnd.in(1, 15)); binary(va, B, "vector-set-", (int)bnd.in(1, 15));
#ifdef OCT
  { PS r(A); r.self_intersect(); region(r, op(4), "self-intersect"); PS q(A); self_intersect(q); region(q, op(4), "self-intersect-fn"); } { PS r(A); r.self_xor(); region(r, op(5), "self-xor"); PS q(A); self_xor(q); region(q, op(5), "self-xor-fn"); }
#endif
  extract(A, op(6), "get-"); { PS r; assign(r, A ^ B); extract(r, op(3), "xor-get-"); }
  if (!slack) {
    // the region built again in another order, and a different region
    PS C = set_of(a); if (!(A == C)) bnd.fail("equal", text); if (!equivalence(A, C)) bnd.fail("equivalence", text);
    { PS x; assign(x, A ^ B); std::vector<PH> v; x.get(v); bool eq = twice_area(pieces(v)) == 0; PS u(A), w(B); if (equivalence(A, B) != eq) bnd.fail("equivalence-other", text); }
    i64 bb[4] = {0, 0, 0, 0}; bool f = true; bounds(a, bb, f); RT e; PS t(A); bool r = extents(e, t); if (r == f) bnd.fail("extents-result", text); if (!f && (xl(e) != bb[0] || xh(e) != bb[1] || yl(e) != bb[2] || yh(e) != bb[3])) bnd.fail("extents", text); if (empty(A) != f) bnd.fail("empty", text);
  }
  if (!bnd.in(0, 2)) hole_inserts(a, b);
}
#ifndef NO_MAIN
#ifndef OCT
// recorded finding: an edge within a grid unit of a vertex it is not on makes the slicing drop a trapezoid
static void close_vertex() {
  bnd_case("close vertex"); P q1[] = {{-17,32},{-19,32},{-19,30},{-17,30}}, q2[] = {{-31,32},{-8,-26},{-22,44}}; Src a; a.push_back(Shape(1, Loop(q1, q1 + 4))); a.push_back(Shape(1, Loop(q2, q2 + 3)));
  PS A; for (int i = 0; i < 2; ++i) A.insert(pg<PG>(a[i][0])); std::vector<PG> v; A.get_trapezoids(v, HORIZONTAL); Src p = scaled(pieces(v)); P at = {-1517, 2228}; bool on = false; int c = count_at(at, p, on); bnd.count(true);
  if (!on && c != 1) bnd.fail("trapezoids-close-vertex", S(a) + " horizontal trapezoids cover the inner point -1517/64,2228/64 " + S(c) + " times");
  bnd_endcase();
}
#else
static void close_vertex() {}
#endif
int main(int argc, char** argv) { bnd_init(argc, argv); if (bnd.job == 0) close_vertex(); while (bnd.more()) { one_case(); bnd_endcase(); } return bnd.done(); }
#endif
