// Bounded: rectilinear set operations against an exact cell grid.  args[0] selects the property.
#include "geo.h"
#include <sys/wait.h>
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
using namespace boost::polygon::operators;
typedef point_data<int> PT; typedef rectangle_data<int> RT; typedef polygon_90_data<int> PG; typedef polygon_90_with_holes_data<int> PH; typedef polygon_90_set_data<int> PS;
static std::string text;
struct Grid { int W, H; std::vector<i64> X, Y; };
static Grid G;
typedef std::vector<int> Cells;
static int& at(Cells& c, int x, int y) { return c[x * G.H + y]; }
static std::vector<PT> pts(const Loop& l) { std::vector<PT> r; for (size_t i = 0; i < l.size(); ++i) r.push_back(PT((int)l[i].x, (int)l[i].y)); return r; }
static Loop dbl(const Loop& l) { return mapped(l, 2, 0, 0); }
// count of pieces (outer minus holes, parity) covering each cell
static void cover(Cells& c, const std::vector<Loop>& ls, int w) {
  for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) { P p = {G.X[x] + G.X[x + 1], G.Y[y] + G.Y[y + 1]}; bool in = false;
    for (size_t k = 0; k < ls.size(); ++k) if (where(p, dbl(ls[k])) > 0) in = !in;
    if (in) at(c, x, y) += w; }
}
template <class T> static Loop loop_of(const T& p) { Loop r; for (typename polygon_traits<T>::iterator_type i = begin_points(p); i != end_points(p); ++i) { P q = {x(*i), y(*i)}; r.push_back(q); } return r; }
static Loop box(i64 a, i64 b, i64 c, i64 d) { Loop l; P p[4] = {{a, b}, {c, b}, {c, d}, {a, d}}; l.assign(p, p + 4); return l; }
// a polygon whose coordinates are the grid lines
static Loop grid_poly(int grow) { int w = (int)bnd.in(1, G.W), h = (int)bnd.in(1, G.H), ox = (int)bnd.in(0, G.W - w), oy = (int)bnd.in(0, G.H - h); Loop l = polyomino(w, h, grow); for (size_t i = 0; i < l.size(); ++i) { l[i].x = G.X[l[i].x - 1 + ox]; l[i].y = G.Y[l[i].y - 1 + oy]; } return l; }
static int cap = 0;
static void pick_grid(int mx, bool unit) {
  if (cap) { mx = cap; unit = true; }
  G.W = (int)bnd.in(2, mx); G.H = (int)bnd.in(2, mx); G.X.clear(); G.Y.clear(); i64 a = unit ? bnd.in(-3, 3) : bnd.in(0, 9) ? bnd.in(-20, 20) : -1000000000, b = unit ? bnd.in(-3, 3) : bnd.in(-20, 20); int big = unit ? 0 : (int)bnd.in(0, 4) == 0;
  for (int i = 0; i <= G.W; ++i) { G.X.push_back(a); a += unit ? 1 : big ? bnd.in(1, 90000000) : bnd.in(1, 4); } for (int i = 0; i <= G.H; ++i) { G.Y.push_back(b); b += unit ? 1 : big ? bnd.in(1, 90000000) : bnd.in(1, 4); }
}
struct Item { int kind; std::vector<Loop> ls; };
struct Src { std::vector<Item> it; Cells cnt; };
static std::string S(const Src& s) { std::string r; for (size_t i = 0; i < s.it.size(); ++i) r += (i ? " + " : "") + S(s.it[i].ls); return "{" + r + "}"; }
static Src make(int n) {
  Src s; s.cnt.assign(G.W * G.H, 0);
  for (int k = 0; k < n; ++k) {
    Item t; t.kind = (int)bnd.in(0, 2); Loop o;
    if (t.kind == 0) { int x1 = (int)bnd.in(0, G.W - 1), x2 = (int)bnd.in(x1 + 1, G.W), y1 = (int)bnd.in(0, G.H - 1), y2 = (int)bnd.in(y1 + 1, G.H); o = box(G.X[x1], G.Y[y1], G.X[x2], G.Y[y2]); t.ls.push_back(o); }
    else { o = grid_poly((int)bnd.in(0, 30)); rotate_start(o); t.ls.push_back(o);
      if (t.kind == 2) for (int q = 0; q < 6; ++q) { Loop h = grid_poly((int)bnd.in(0, 4)); rotate_start(h); if (!strictly_inside(h, o)) continue; bool ok = true; for (size_t i = 1; i < t.ls.size(); ++i) ok = ok && apart(h, t.ls[i]); if (ok) t.ls.push_back(h); } }
    cover(s.cnt, t.ls, 1); s.it.push_back(t);
  }
  return s;
}
static RT rect_of(const Loop& l) { return RT((int)l[0].x, (int)l[0].y, (int)l[2].x, (int)l[2].y); }
static PG pg_of(const Loop& l) { std::vector<PT> v = pts(l); PG p; p.set(v.begin(), v.end()); return p; }
static PH ph_of(const std::vector<Loop>& ls) { std::vector<PT> v = pts(ls[0]); PH p; p.set(v.begin(), v.end()); std::vector<PG> hs; for (size_t i = 1; i < ls.size(); ++i) hs.push_back(pg_of(ls[i])); p.set_holes(hs.begin(), hs.end()); return p; }
static void put(PS& s, const Item& t) { if (t.kind == 0) s.insert(rect_of(t.ls[0])); else if (t.kind == 1) s.insert(pg_of(t.ls[0])); else s.insert(ph_of(t.ls)); }
static orientation_2d anyo() { return bnd.in(0, 1) ? HORIZONTAL : VERTICAL; }
static PS set_of(const Src& s, orientation_2d o) { PS r(o); std::vector<int> ord; for (size_t i = 0; i < s.it.size(); ++i) ord.push_back((int)i); for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[bnd.in(0, (i64)i - 1)]); for (size_t i = 0; i < ord.size(); ++i) put(r, s.it[ord[i]]); return r; }
static Cells bits(const Cells& c, int thr = 1) { Cells r(c.size()); for (size_t i = 0; i < c.size(); ++i) r[i] = c[i] >= thr; return r; }
static bool same(const Cells& a, const Cells& b, const std::string& what) {
  for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (a[x * G.H + y] != b[x * G.H + y]) { bnd.fail(what, text + " " + what + ": cell at " + S(G.X[x]) + "," + S(G.Y[y]) + " has " + S(a[x * G.H + y]) + ", expected " + S(b[x * G.H + y])); return false; }
  return true;
}
// cells from the set's own edge stream; also checks the stream stays on the grid
static Cells raw(const PS& s, const std::string& what) {
  Cells c(G.W * G.H, 0);
  for (PS::iterator_type i = s.begin(); i != s.end(); ++i) { i64 px = s.orient() == VERTICAL ? i->first : i->second.first, py = s.orient() == VERTICAL ? i->second.first : i->first;
    if (px < G.X[0] || px > G.X[G.W] || py < G.Y[0] || py > G.Y[G.H]) bnd.fail(what + "-outside", text + " " + what + ": vertex " + S(px) + "," + S(py));
    if (!std::binary_search(G.X.begin(), G.X.end(), px) || !std::binary_search(G.Y.begin(), G.Y.end(), py)) bnd.fail(what + "-offgrid", text + " " + what + ": vertex " + S(px) + "," + S(py));
    for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (px <= G.X[x] && py <= G.Y[y]) at(c, x, y) += i->second.second; }
  return c;
}
template <class V> static Cells rects_cells(const V& v, const std::string& what) { Cells c(G.W * G.H, 0); for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) { if (!(xl(*i) < xh(*i) && yl(*i) < yh(*i))) bnd.fail(what + "-empty", text + " " + what); for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (xl(*i) <= G.X[x] && G.X[x + 1] <= xh(*i) && yl(*i) <= G.Y[y] && G.Y[y + 1] <= yh(*i)) ++at(c, x, y); else if (xl(*i) < G.X[x + 1] && G.X[x] < xh(*i) && yl(*i) < G.Y[y + 1] && G.Y[y] < yh(*i)) bnd.fail(what + "-cut", text + " " + what); } return c; }
static bool is_set(const PS& s, const Cells& want, const std::string& what) { PS t(s); t.clean(); return same(raw(t, what), want, what); }
static std::vector<Loop> loops_of(const PH& p) { std::vector<Loop> r; r.push_back(loop_of(p)); for (PH::iterator_holes_type i = p.begin_holes(); i != p.end_holes(); ++i) r.push_back(loop_of(*i)); return r; }
static Cells op(int k, const Cells& a, const Cells& b) { Cells r(a.size()); for (size_t i = 0; i < a.size(); ++i) { bool p = a[i] > 0, q = b[i] > 0; r[i] = k == 0 ? p | q : k == 1 ? p & q : k == 2 ? p & !q : p ^ q; } return r; }
template <class A, class B> static void binary(const A& a, const B& b, const Cells& ca, const Cells& cb, const std::string& nm) {
  static const char* N[] = {"union", "intersection", "difference", "xor"};
  { PS r(anyo()); assign(r, a | b); is_set(r, op(0, ca, cb), nm + N[0]); }
  { PS r(anyo()); assign(r, a + b); is_set(r, op(0, ca, cb), nm + "plus"); }
  { PS r(anyo()); assign(r, a & b); is_set(r, op(1, ca, cb), nm + N[1]); }
  { PS r(anyo()); assign(r, a * b); is_set(r, op(1, ca, cb), nm + "times"); }
  { PS r(anyo()); assign(r, a - b); is_set(r, op(2, ca, cb), nm + N[2]); }
  { PS r(anyo()); assign(r, a ^ b); is_set(r, op(3, ca, cb), nm + N[3]); }
}
static void c12() {
  pick_grid(bnd.in(0, 5) ? 6 : 11, false);
  Src a = make((int)bnd.in(0, 5)), b = make((int)bnd.in(0, 4)), d = make((int)bnd.in(0, 2)); text = S(a) + " / " + S(b); bnd_case(text); bnd.sample(text); bnd.count(a.it.size() > 0 && b.it.size() > 0);
  Cells ca = bits(a.cnt), cb = bits(b.cnt);
  PS A = set_of(a, anyo()), B = set_of(b, anyo());
  is_set(A, ca, "self-union"); { PS t(A); t.clean(); t.clean(); same(raw(t, "clean"), ca, "clean-twice"); }
  binary(A, B, ca, cb, "set-");
  { PS r(A); r |= B; is_set(r, op(0, ca, cb), "or-assign"); } { PS r(A); r &= B; is_set(r, op(1, ca, cb), "and-assign"); } { PS r(A); r -= B; is_set(r, op(2, ca, cb), "sub-assign"); } { PS r(A); r ^= B; is_set(r, op(3, ca, cb), "xor-assign"); }
  { PS r(A); r += B; is_set(r, op(0, ca, cb), "add-assign"); } { PS r(A); r *= B; is_set(r, op(1, ca, cb), "mul-assign"); }
  std::vector<RT> va; std::vector<PG> vp; std::vector<PH> vh; Cells c1(G.W * G.H, 0), c2(c1), c3(c1);
  for (size_t i = 0; i < a.it.size(); ++i) if (a.it[i].kind == 0) { va.push_back(rect_of(a.it[i].ls[0])); cover(c1, a.it[i].ls, 1); }
  for (size_t i = 0; i < b.it.size(); ++i) { std::vector<Loop> o(1, b.it[i].ls[0]); vp.push_back(pg_of(o[0])); cover(c2, o, 1); }
  for (size_t i = 0; i < d.it.size(); ++i) { vh.push_back(ph_of(d.it[i].ls)); cover(c3, d.it[i].ls, 1); }
  c1 = bits(c1); c2 = bits(c2); c3 = bits(c3); text += " / " + S(d); bnd.cur = text;
  binary(va, vp, c1, c2, "rects-polys-"); binary(A, vh, ca, c3, "set-holed-"); if (!vh.empty() && !vp.empty()) binary(vh[0], vp[0], [&] { Cells t(G.W * G.H, 0); cover(t, d.it[0].ls, 1); return t; }(), [&] { Cells t(G.W * G.H, 0); std::vector<Loop> o(1, b.it[0].ls[0]); cover(t, o, 1); return t; }(), "one-one-");
  { PS r(anyo()); assign(r, (A | vp) - (vh & B)); is_set(r, op(2, op(0, ca, c2), op(1, c3, cb)), "nested"); }
  { PS r(anyo()); assign(r, (A ^ B) ^ (vh ^ vp)); is_set(r, op(3, op(3, ca, cb), op(3, c3, c2)), "nested-xor"); }
  // overlap counting
  { PS r = set_of(a, anyo()); r.self_intersect(); is_set(r, bits(a.cnt, 2), "self-intersect"); } { PS r = set_of(a, anyo()); self_intersect(r); is_set(r, bits(a.cnt, 2), "self-intersect-fn"); }
  { Cells w(a.cnt); for (size_t i = 0; i < w.size(); ++i) w[i] &= 1; PS r = set_of(a, anyo()); r.self_xor(); is_set(r, w, "self-xor"); PS q = set_of(a, anyo()); self_xor(q); is_set(q, w, "self-xor-fn"); }
  // the same region again: inserted twice, as holes of a larger box, across orientations
  { PS r(anyo()); r.insert(A); r.insert(B); r.insert(set_of(a, anyo())); is_set(r, op(0, ca, cb), "insert-sets"); }
  { PS r(anyo()); r.insert(RT((int)G.X[0], (int)G.Y[0], (int)G.X[G.W], (int)G.Y[G.H])); PS q(A); q.clean(); std::vector<PH> ps; q.get(ps); for (size_t i = 0; i < ps.size(); ++i) r.insert(ps[i], true); Cells w(ca); for (size_t i = 0; i < w.size(); ++i) w[i] = !w[i]; is_set(r, w, "insert-as-hole"); }
  { PS r = set_of(a, anyo()); bool u = bnd.in(0, 1); Cells w(a.cnt); if (u) r.clean(); if (u) w = bits(w);   // holes are counted against the stored multiplicity
    for (size_t i = 0; i < va.size(); ++i) r.insert(va[i], true); for (size_t i = 0; i < vp.size(); ++i) r.insert(vp[i], true); for (size_t i = 0; i < vh.size(); ++i) r.insert(vh[i], true);
    Cells m1(w.size(), 0), m2(m1), m3(m1); for (size_t i = 0; i < a.it.size(); ++i) if (a.it[i].kind == 0) cover(m1, a.it[i].ls, 1); for (size_t i = 0; i < b.it.size(); ++i) { std::vector<Loop> o(1, b.it[i].ls[0]); cover(m2, o, 1); } for (size_t i = 0; i < d.it.size(); ++i) cover(m3, d.it[i].ls, 1);
    for (size_t i = 0; i < w.size(); ++i) w[i] = w[i] - m1[i] - m2[i] - m3[i] > 0; is_set(r, w, "insert-pieces-as-holes"); }
  { PS r(HORIZONTAL, A), q(VERTICAL, A); is_set(r, ca, "copy-horizontal"); is_set(q, ca, "copy-vertical"); if (r.orient() != orientation_2d(HORIZONTAL) || q.orient() != orientation_2d(VERTICAL)) bnd.fail("copy-orient", text); }
  { orientation_2d o = anyo(); PS r(o, va.begin(), va.end()); if (r.orient() != o) bnd.fail("range-orient", text); is_set(r, c1, "range-construct"); }
  { PS t(A); t.clean(); PS r(t.orient(), t.begin(), t.end()); if (t.orient() == orientation_2d(HORIZONTAL)) is_set(r, ca, "copy-range"); PS q(anyo()); q.insert(t.begin(), t.end(), t.orient()); is_set(q, ca, "insert-range"); PS u; u.set(t.begin(), t.end(), t.orient()); is_set(u, ca, "set-range"); }
}
template <class V> static void polys_cover(const V& v, const Cells& want, const std::string& what, size_t maxv = 0) {
  Cells c(G.W * G.H, 0);
  for (size_t i = 0; i < v.size(); ++i) { std::vector<Loop> ls(1, loop_of(v[i])); Cells one(G.W * G.H, 0); cover(one, ls, 1); i128 ar = 0; bool any = false;
    for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (at(one, x, y)) { any = true; ar += (i128)(G.X[x + 1] - G.X[x]) * (G.Y[y + 1] - G.Y[y]); at(c, x, y) += 1; }
    i128 a2 = area2(ls[0]); if ((a2 < 0 ? -a2 : a2) != 2 * ar) bnd.fail(what + "-twisted", text + " " + what + " piece " + S(ls[0])); if (!any) bnd.fail(what + "-empty", text + " " + what + " piece " + S(ls[0]));
    if (maxv && ls[0].size() > std::max(maxv, (size_t)4)) bnd.fail(what + "-vertices", text + " " + what + " " + S((i64)maxv) + " piece " + S(ls[0])); }
  same(c, want, what);
}
static void holed_cover(const std::vector<PH>& v, const Cells& want, const std::string& what) {
  Cells c(G.W * G.H, 0);
  for (size_t i = 0; i < v.size(); ++i) { std::vector<Loop> ls = loops_of(v[i]); Cells o(G.W * G.H, 0); cover(o, std::vector<Loop>(1, ls[0]), 1); i128 s = area2(ls[0]);
    for (size_t k = 1; k < ls.size(); ++k) { i128 t = area2(ls[k]); if ((t > 0) == (s > 0) || t == 0) bnd.fail(what + "-orientation", text + " " + what + " " + S(ls)); Cells h(G.W * G.H, 0); cover(h, std::vector<Loop>(1, ls[k]), 1); for (size_t j = 0; j < h.size(); ++j) if (h[j]) { if (o[j] != 1) bnd.fail(what + "-hole-outside", text + " " + what + " " + S(ls)); o[j] -= 1; } }
    for (size_t j = 0; j < o.size(); ++j) c[j] += o[j]; }
  same(c, want, what);
}
static void c13() {
  pick_grid(bnd.in(0, 5) ? 7 : 12, false); Src a; Cells w;
  if (bnd.in(0, 2)) { a = make((int)bnd.in(0, 6)); w = bits(a.cnt); } else { a.cnt.assign(G.W * G.H, 0); for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (bnd.in(0, 2)) { Item t; t.kind = 0; t.ls.push_back(box(G.X[x], G.Y[y], G.X[x + 1], G.Y[y + 1])); a.it.push_back(t); at(a.cnt, x, y) = 1; } w = bits(a.cnt); }
  text = S(a); bnd_case(text); bnd.sample(text); bnd.count(a.it.size() > 1); orientation_2d o = anyo(); PS A = set_of(a, o); bool any = false; for (size_t i = 0; i < w.size(); ++i) any = any || w[i];
  PS C(A); C.clean();
  { std::vector<RT> v; A.get_rectangles(v); same(rects_cells(v, "rectangles"), w, "rectangles"); PS b(o); for (size_t i = 0; i < v.size(); ++i) b.insert(v[i]); if (!(b == A)) bnd.fail("rectangles-reinsert", text); }
  { std::vector<RT> v; A.get_rectangles(v, HORIZONTAL); same(rects_cells(v, "rectangles-h"), w, "rectangles-h"); v.clear(); A.get_rectangles(v, VERTICAL); same(rects_cells(v, "rectangles-v"), w, "rectangles-v"); v.clear(); get_rectangles(v, A); same(rects_cells(v, "rectangles-fn"), w, "rectangles-fn"); v.clear(); get_rectangles(v, A, anyo()); same(rects_cells(v, "rectangles-fn-o"), w, "rectangles-fn-o"); v.clear(); A.get(v); same(rects_cells(v, "get-rectangles"), w, "get-rectangles"); v.clear(); assign(v, A); same(rects_cells(v, "assign-rectangles"), w, "assign-rectangles"); }
  { std::vector<PG> v; A.get_polygons(v); polys_cover(v, w, "polygons"); v.clear(); A.get(v); polys_cover(v, w, "get-polygons"); PS b(o); for (size_t i = 0; i < v.size(); ++i) b.insert(v[i]); if (!(b == A)) bnd.fail("polygons-reinsert", text); if (b != A) bnd.fail("polygons-reinsert-ne", text); size_t k = 100000; v.clear(); { A.get(v, k); polys_cover(v, w, "polygons-limited"); } PS e(o); e.insert(v.begin(), v.end(), o); }
  { std::vector<PH> v; A.get(v); holed_cover(v, w, "holed"); PS b(o); for (size_t i = 0; i < v.size(); ++i) b.insert(v[i]); if (!(b == A)) bnd.fail("holed-reinsert", text); v.clear(); { A.get(v, (size_t)100000); holed_cover(v, w, "holed-limited"); } }
  { std::vector<polygon_45_data<int> > v; A.get(v); polys_cover(v, w, "polygons45"); std::vector<polygon_data<int> > u; A.get(u); polys_cover(u, w, "polygons-general"); }
  // measures
  i128 ar = 0; i64 b[4] = {0, 0, 0, 0}; bool f = true; for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (at(w, x, y)) { ar += (i128)(G.X[x + 1] - G.X[x]) * (G.Y[y + 1] - G.Y[y]); if (f || G.X[x] < b[0]) b[0] = G.X[x]; if (f || G.X[x + 1] > b[1]) b[1] = G.X[x + 1]; if (f || G.Y[y] < b[2]) b[2] = G.Y[y]; if (f || G.Y[y + 1] > b[3]) b[3] = G.Y[y + 1]; f = false; }
  if (ar < (i128)9e18 && (i128)area(A) != ar) bnd.fail("area", text + " area " + S((i64)area(A)));
  RT e(0, 0, 0, 0), e2(0, 0, 0, 0); bool r1 = A.extents(e), r2 = extents(e2, A); if (r1 != any || r2 != any) bnd.fail("extents-result", text); if (any && (xl(e) != b[0] || xh(e) != b[1] || yl(e) != b[2] || yh(e) != b[3] || e != e2)) bnd.fail("extents", text);
  if (A.empty() == any || empty(A) == any) bnd.fail("empty", text);
  // equality against a differently built region
  Cells w2(w); if (bnd.in(0, 1)) { int k = (int)bnd.in(0, (i64)w2.size() - 1); w2[k] = !w2[k]; } bool eq = w2 == w;
  orientation_2d o2 = anyo(); PS B(o2), B1(o); std::vector<RT> vb; for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (at(w2, x, y)) { RT r((int)G.X[x], (int)G.Y[y], (int)G.X[x + 1], (int)G.Y[y + 1]); B.insert(r); B1.insert(r); vb.push_back(r); if (!bnd.in(0, 3)) { B.insert(r); vb.push_back(r); } }
  if (equivalence(A, B) != eq) bnd.fail("equivalence", text); if (equivalence(A, vb) != eq) bnd.fail("equivalence-vector", text); if ((A == B1) != eq) bnd.fail("equal", text); if ((A != B1) == eq) bnd.fail("not-equal", text);
}
// region with slack all round on a unit grid
static Cells sized(const Cells& a, int w, int e, int s, int n, bool shrinking) {
  Cells r(a.size(), 0);
  for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) { bool any = false, all = true;
    int x0 = shrinking ? x - w : x - e, x1 = shrinking ? x + e : x + w, y0 = shrinking ? y - s : y - n, y1 = shrinking ? y + n : y + s;
    for (int i = x0; i <= x1; ++i) for (int j = y0; j <= y1; ++j) { bool in = i >= 0 && j >= 0 && i < G.W && j < G.H && a[i * G.H + j]; any = any || in; all = all && in; }
    r[x * G.H + y] = shrinking ? all : any; }
  return r;
}
static void pad(int m) { int w = G.W + 2 * m, h = G.H + 2 * m; i64 x = G.X[0] - m, y = G.Y[0] - m; G.W = w; G.H = h; G.X.clear(); G.Y.clear(); for (int i = 0; i <= w; ++i) G.X.push_back(x + i); for (int i = 0; i <= h; ++i) G.Y.push_back(y + i); }
static Cells recount(const Src& s) { Cells c(G.W * G.H, 0); for (size_t i = 0; i < s.it.size(); ++i) cover(c, s.it[i].ls, 1); return bits(c); }
static void c14() {
  pick_grid(bnd.in(0, 4) ? 6 : 12, true); Src a;
  if (bnd.in(0, 3)) a = make((int)bnd.in(0, 4)); else { a.cnt.assign(G.W * G.H, 0); int dens = (int)bnd.in(1, 4); for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (bnd.in(0, dens)) { Item t; t.kind = 0; t.ls.push_back(box(G.X[x], G.Y[y], G.X[x + 1], G.Y[y + 1])); a.it.push_back(t); } }
  text = S(a); bnd_case(text); bnd.sample(text); bnd.count(a.it.size() > 0);
  const int M = 3; pad(M); Cells ca = recount(a); orientation_2d o = anyo(); PS A = set_of(a, o);
  int w = (int)bnd.in(0, M), e = (int)bnd.in(0, M), s = (int)bnd.in(0, M), n = (int)bnd.in(0, M); if (!bnd.in(0, 2)) w = e = s = n = (int)bnd.in(1, M);
  text += " west " + S(w) + " east " + S(e) + " south " + S(s) + " north " + S(n); bnd.cur = text;
  Cells B = sized(ca, w, e, s, n, false), K = sized(ca, w, e, s, n, true);
  { PS r(A); r.bloat(w, e, s, n); is_set(r, B, "bloat"); } { PS r(A); bloat(r, w, e, s, n); is_set(r, B, "bloat-fn"); } { PS r(A); r.shrink(w, e, s, n); is_set(r, K, "shrink"); } { PS r(A); shrink(r, w, e, s, n); is_set(r, K, "shrink-fn"); }
  { PS r(A); r.clean(); r.resize(w, e, s, n); is_set(r, B, "resize-out"); } { PS r(A); r.resize(-w, -e, -s, -n); is_set(r, K, "resize-in"); } { PS r(A); resize(r, -w, -e, -s, -n); is_set(r, K, "resize-fn-in"); }
  { PS r(A); resize(r, w, e, -s, -n); is_set(r, sized(sized(ca, 0, 0, s, n, true), w, e, 0, 0, false), "resize-mixed"); } { PS r(A); resize(r, -w, -e, s, n); is_set(r, sized(sized(ca, w, e, 0, 0, true), 0, 0, s, n, false), "resize-mixed2"); }
  { PS r(A); r.bloat2(w, e, s, n); is_set(r, B, "bloat2"); PS q(A); q.clean(); q.shrink2(w, e, s, n); is_set(q, K, "shrink2"); }
  int k = w; Cells U = sized(ca, k, k, k, k, false), D = sized(ca, k, k, k, k, true);
  { PS r(A); bloat(r, k); is_set(r, U, "bloat-all"); } { PS r(A); shrink(r, k); is_set(r, D, "shrink-all"); } { PS r(A); resize(r, k); is_set(r, U, "resize-all"); } { PS r(A); resize(r, -k); is_set(r, D, "resize-all-in"); }
  { PS r(A); bloat(r, HORIZONTAL, k); is_set(r, sized(ca, k, k, 0, 0, false), "bloat-h"); } { PS r(A); bloat(r, VERTICAL, k); is_set(r, sized(ca, 0, 0, k, k, false), "bloat-v"); } { PS r(A); bloat(r, HORIZONTAL, w, e); is_set(r, sized(ca, w, e, 0, 0, false), "bloat-h2"); } { PS r(A); bloat(r, VERTICAL, s, n); is_set(r, sized(ca, 0, 0, s, n, false), "bloat-v2"); }
  { PS r(A); shrink(r, HORIZONTAL, k); is_set(r, sized(ca, k, k, 0, 0, true), "shrink-h"); } { PS r(A); shrink(r, VERTICAL, k); is_set(r, sized(ca, 0, 0, k, k, true), "shrink-v"); } { PS r(A); shrink(r, HORIZONTAL, w, e); is_set(r, sized(ca, w, e, 0, 0, true), "shrink-h2"); } { PS r(A); shrink(r, VERTICAL, s, n); is_set(r, sized(ca, 0, 0, s, n, true), "shrink-v2"); }
  const direction_2d DD[4] = {WEST, EAST, SOUTH, NORTH}; for (int d = 0; d < 4; ++d) { int m[4] = {0, 0, 0, 0}; m[d] = k; Cells x = sized(ca, m[0], m[1], m[2], m[3], false), y = sized(ca, m[0], m[1], m[2], m[3], true); PS r(A); bloat(r, DD[d], k); is_set(r, x, "bloat-dir" + S(d)); PS q(A); shrink(q, DD[d], k); is_set(q, y, "shrink-dir" + S(d)); PS t(A); t.bloat(DD[d], k); is_set(t, x, "bloat-member-dir" + S(d)); PS u(A); u.shrink(DD[d], k); is_set(u, y, "shrink-member-dir" + S(d)); }
  // moving, scaling, transforming: map the cells' corners
  { int dx = (int)bnd.in(-M, M), dy = (int)bnd.in(-M, M); Cells c(ca.size(), 0); for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (at(ca, x, y)) at(c, x + dx, y + dy) = 1; PS r(A); r.move(dx, dy); is_set(r, c, "move"); PS q(A); move(q, dx, dy); is_set(q, c, "move-fn"); PS t(A); move(t, orientation_2d(HORIZONTAL), dx); move(t, orientation_2d(VERTICAL), dy); is_set(t, c, "move-orient"); }
  { static const axis_transformation::ATR T[8] = {axis_transformation::NULL_TRANSFORM, axis_transformation::FLIP_Y, axis_transformation::FLIP_X, axis_transformation::FLIP_XY, axis_transformation::SWAP_XY, axis_transformation::ROTATE_LEFT, axis_transformation::ROTATE_RIGHT, axis_transformation::FLIP_SWAP_XY};
    axis_transformation t(T[bnd.in(0, 7)]); Grid g = G; PS r(A); bool cl = bnd.in(0, 1); if (cl) r.clean(); r.transform(t); PS q(A); transform(q, t);
    // transform the grid lines and the cells
    Cells c; { int x0 = (int)g.X[0], y0 = (int)g.Y[0], x1 = (int)g.X[g.W], y1 = (int)g.Y[g.H]; t.transform(x0, y0); t.transform(x1, y1); if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); G.X.clear(); G.Y.clear(); for (int i = x0; i <= x1; ++i) G.X.push_back(i); for (int i = y0; i <= y1; ++i) G.Y.push_back(i); G.W = x1 - x0; G.H = y1 - y0; c.assign(G.W * G.H, 0);
      for (int x = 0; x < g.W; ++x) for (int y = 0; y < g.H; ++y) if (ca[x * g.H + y]) { int p = (int)g.X[x], q2 = (int)g.Y[y], p2 = p + 1, q3 = q2 + 1; t.transform(p, q2); t.transform(p2, q3); at(c, std::min(p, p2) - x0, std::min(q2, q3) - y0) = 1; } }
    is_set(r, c, "transform"); is_set(q, c, "transform-fn"); G = g; }
  { int f = (int)bnd.in(1, 4); Grid g = G; for (int i = 0; i <= G.W; ++i) G.X[i] *= f; for (int i = 0; i <= G.H; ++i) G.Y[i] *= f; PS r(A); r.scale_up(f); is_set(r, ca, "scale-up"); PS q(A); scale_up(q, f); is_set(q, ca, "scale-up-fn"); PS u(A); u.scale((double)f); is_set(u, ca, "scale"); G = g; r.scale_down(f); is_set(r, ca, "scale-down"); scale_down(q, f); is_set(q, ca, "scale-down-fn");
    anisotropic_scale_factor<double> an((double)f, (double)(f + 1)); for (int i = 0; i <= G.W; ++i) G.X[i] *= f; for (int i = 0; i <= G.H; ++i) G.Y[i] *= f + 1; PS v(A); v.scale(an); is_set(v, ca, "scale-anisotropic"); PS x(A); scale(x, an); is_set(x, ca, "scale-anisotropic-fn"); G = g; }
}
// 2: share interior, 1: touch, 0: apart   (regions given as cells on the same grid)
static int contact(const Cells& a, const Cells& b, bool& cornerOnly) {
  bool ov = false, edge = false, cor = false;
  for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (a[x * G.H + y]) for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) { int u = x + i, v = y + j; if (u < 0 || v < 0 || u >= G.W || v >= G.H || !b[u * G.H + v]) continue; if (!i && !j) ov = true; else if (!i || !j) edge = true; else cor = true; }
  cornerOnly = cor && !edge && !ov; return ov ? 2 : edge || cor ? 1 : 0;
}
static Cells just(const Item& t) { Cells c(G.W * G.H, 0); cover(c, t.ls, 1); return c; }
static void c18() {
  pick_grid(bnd.in(0, 4) ? 6 : 10, false);
  int n = (int)bnd.in(2, 7); std::vector<Src> s(n); std::vector<Cells> c(n); text = ""; connectivity_extraction_90<int> ce; property_merge_90<int, int> pm, pm2; std::vector<int> prop(n);
  bool thin = bnd.in(0, 1);
  for (int i = 0; i < n; ++i) { s[i] = make(thin ? 1 : (int)bnd.in(1, 3)); if (thin && bnd.in(0, 1)) { Item t; t.kind = 0; int x = (int)bnd.in(0, G.W - 1), y = (int)bnd.in(0, G.H - 1); t.ls.push_back(box(G.X[x], G.Y[y], G.X[x + 1], G.Y[y + 1])); s[i].it.assign(1, t); s[i].cnt = just(t); } c[i] = bits(s[i].cnt); text += (i ? " | " : "") + S(s[i]); prop[i] = bnd.in(0, 3) ? i : (int)bnd.in(0, n - 1); }
  bnd_case(text); bnd.sample(text); bnd.count(true);
  for (int i = 0; i < n; ++i) {
    unsigned id; if (s[i].it.size() == 1 && bnd.in(0, 1)) { Item& t = s[i].it[0]; id = t.kind == 0 ? ce.insert(rect_of(t.ls[0])) : t.kind == 1 ? ce.insert(pg_of(t.ls[0])) : ce.insert(ph_of(t.ls)); } else id = ce.insert(set_of(s[i], anyo()));
    if ((int)id != i) bnd.fail("connectivity-id", text);
    if (s[i].it.size() == 1 && bnd.in(0, 1)) { Item& t = s[i].it[0]; if (t.kind == 0) pm.insert(rect_of(t.ls[0]), prop[i]); else if (t.kind == 1) pm.insert(pg_of(t.ls[0]), prop[i]); else pm.insert(ph_of(t.ls), prop[i]); } else pm.insert(set_of(s[i], anyo()), prop[i]);
  }
  std::vector<std::set<int> > g(n); ce.extract(g);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { bool co; int k = contact(c[i], c[j], co); if (g[i].count(j) != (k ? 1u : 0u)) bnd.fail(std::string("connectivity-") + (g[i].count(j) ? "extra" : co ? "missing-corner" : "missing"), text + " nodes " + S(i) + " " + S(j)); }
  for (int i = 0; i < n; ++i) if (g[i].count(i)) bnd.fail("connectivity-self", text);
  std::map<std::set<int>, PS> r; pm.merge(r); std::map<std::set<int>, Cells> want;
  for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) { std::set<int> k; for (int i = 0; i < n; ++i) if (at(c[i], x, y)) k.insert(prop[i]); if (!k.empty()) { Cells& w = want[k]; w.resize(G.W * G.H, 0); at(w, x, y) = 1; } }
  for (std::map<std::set<int>, PS>::iterator i = r.begin(); i != r.end(); ++i) { Cells w = want.count(i->first) ? want[i->first] : Cells(G.W * G.H, 0); is_set(i->second, w, "property-merge"); want.erase(i->first); }
  if (!want.empty()) bnd.fail("property-merge-missing", text);
}
static void c26() {
  pick_grid(bnd.in(0, 4) ? 7 : 11, true); Src b = make((int)bnd.in(0, 3)); Cells cb = bits(b.cnt);
  // first operand: simple pieces that keep clear of each other
  std::vector<Item> it; std::vector<Cells> cs; std::string t1; int n = (int)bnd.in(1, 7);
  for (int k = 0; k < n; ++k) { Item t; t.kind = 1; Loop l; if (bnd.in(0, 1)) { int x = (int)bnd.in(0, G.W - 1), y = (int)bnd.in(0, G.H - 1), x2 = (int)bnd.in(x + 1, std::min(G.W, x + 4)), y2 = (int)bnd.in(y + 1, std::min(G.H, y + 4)); l = box(G.X[x], G.Y[y], G.X[x2], G.Y[y2]); } else { l = polyomino((int)bnd.in(1, 4), (int)bnd.in(1, 4), 9); i64 mx = 0, my = 0; for (size_t i = 0; i < l.size(); ++i) { mx = std::max(mx, l[i].x); my = std::max(my, l[i].y); } if (mx - 1 > G.W || my - 1 > G.H) continue; i64 ox = bnd.in(0, G.W - mx + 1), oy = bnd.in(0, G.H - my + 1); l = mapped(l, 1, ox - 1 + G.X[0], oy - 1 + G.Y[0]); }
    rotate_start(l); t.ls.push_back(l); Cells c = just(t); bool ok = true, co; for (size_t i = 0; i < cs.size() && ok; ++i) ok = contact(c, cs[i], co) == 0; if (!ok) continue; it.push_back(t); cs.push_back(c); t1 += S(l); }
  text = t1 + " / " + S(b); bnd_case(text); bnd.sample(text); bnd.count(it.size() > 1);
  Src a; a.it = it; Cells all(G.W * G.H, 0); for (size_t i = 0; i < cs.size(); ++i) for (size_t j = 0; j < all.size(); ++j) all[j] |= cs[i][j];
  PS A = set_of(a, anyo()), B = set_of(b, anyo());
  { Cells w(G.W * G.H, 0); for (size_t i = 0; i < cs.size(); ++i) { bool co; if (contact(cs[i], cb, co)) for (size_t j = 0; j < w.size(); ++j) w[j] |= cs[i][j]; }
    PS r(A); r.interact(B); is_set(r, w, "interact"); if (!same(raw(r, "interact-stream"), w, "interact-stream")) return; PS q(A); interact(q, B); is_set(q, w, "interact-fn"); std::vector<RT> v; r.get(v); same(rects_cells(v, "interact-rectangles"), w, "interact-rectangles"); PS e(r.orient()); for (size_t i = 0; i < v.size(); ++i) e.insert(v[i]); if (!(e == r)) bnd.fail("interact-equal", text); }
  { i64 lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = bnd.in(0, k ? 3 : 8); hi[k] = bnd.in(lo[k], k ? 6 : 16); if (!bnd.in(0, 2)) { lo[k] = 0; hi[k] = 1000; } }
    Cells w(G.W * G.H, 0); bool amb = false; for (size_t i = 0; i < cs.size(); ++i) { i64 ar = 0, x0 = 99, x1 = -1, y0 = 99, y1 = -1; for (int x = 0; x < G.W; ++x) for (int y = 0; y < G.H; ++y) if (at(cs[i], x, y)) { ++ar; x0 = std::min<i64>(x0, x); x1 = std::max<i64>(x1, x + 1); y0 = std::min<i64>(y0, y); y1 = std::max<i64>(y1, y + 1); }
      bool in = ar >= lo[0] && ar <= hi[0] && x1 - x0 >= lo[1] && x1 - x0 <= hi[1] && y1 - y0 >= lo[2] && y1 - y0 <= hi[2];
      if (x1 - x0 == lo[1] || y1 - y0 == lo[2]) amb = true; if (in) for (size_t j = 0; j < w.size(); ++j) w[j] |= cs[i][j]; }
    if (!amb) { text += " keep " + S(lo[0]) + " " + S(hi[0]) + " " + S(lo[1]) + " " + S(hi[1]) + " " + S(lo[2]) + " " + S(hi[2]); PS r(A); keep(r, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]); is_set(r, w, "keep"); } }
  // maximal rectangles of an arbitrary region
  { std::vector<RT> v; PS U(anyo()); U.insert(A); U.insert(B); Cells w = op(0, all, cb); get_max_rectangles(v, U); std::set<std::vector<int> > got, want;
    for (size_t i = 0; i < v.size(); ++i) { std::vector<int> q; q.push_back(xl(v[i])); q.push_back(xh(v[i])); q.push_back(yl(v[i])); q.push_back(yh(v[i])); if (!got.insert(q).second) bnd.fail("max-rectangles-duplicate", text); }
    for (int x0 = 0; x0 < G.W; ++x0) for (int x1 = x0 + 1; x1 <= G.W; ++x1) for (int y0 = 0; y0 < G.H; ++y0) for (int y1 = y0 + 1; y1 <= G.H; ++y1) {
      struct F { static bool full(Cells& w, int a, int b, int c, int d) { if (a < 0 || c < 0 || b > G.W || d > G.H) return false; for (int x = a; x < b; ++x) for (int y = c; y < d; ++y) if (!at(w, x, y)) return false; return true; } };
      if (F::full(w, x0, x1, y0, y1) && !F::full(w, x0 - 1, x1, y0, y1) && !F::full(w, x0, x1 + 1, y0, y1) && !F::full(w, x0, x1, y0 - 1, y1) && !F::full(w, x0, x1, y0, y1 + 1)) { std::vector<int> q; q.push_back((int)G.X[x0]); q.push_back((int)G.X[x1]); q.push_back((int)G.Y[y0]); q.push_back((int)G.Y[y1]); want.insert(q); } }
    if (got != want) { std::string d; for (std::set<std::vector<int> >::iterator i = want.begin(); i != want.end(); ++i) if (!got.count(*i)) d += " missing " + S((*i)[0]) + ".." + S((*i)[1]) + "x" + S((*i)[2]) + ".." + S((*i)[3]); for (std::set<std::vector<int> >::iterator i = got.begin(); i != got.end(); ++i) if (!want.count(*i)) d += " extra " + S((*i)[0]) + ".." + S((*i)[1]) + "x" + S((*i)[2]) + ".." + S((*i)[3]); bnd.fail("max-rectangles", text + d); } }
  // growing each piece and keeping what then overlaps
  { pad(3); for (size_t i = 0; i < cs.size(); ++i) cs[i] = just(it[i]); int w = (int)bnd.in(0, 3), e = (int)bnd.in(0, 3), s = (int)bnd.in(0, 3), n2 = (int)bnd.in(0, 3); Cells k(G.W * G.H, 0), u(k), h(k); for (size_t i = 0; i < cs.size(); ++i) { Cells g = sized(cs[i], w, e, s, n2, false), g1 = sized(cs[i], w, w, w, w, false), g2 = sized(cs[i], w, e, 0, 0, false); for (size_t j = 0; j < g.size(); ++j) { k[j] += g[j]; u[j] += g1[j]; h[j] += g2[j]; } }
    text += " grow " + S(w) + " " + S(e) + " " + S(s) + " " + S(n2); PS r(A); grow_and(r, w, e, s, n2); is_set(r, bits(k, 2), "grow-and"); PS q(A); grow_and(q, w); is_set(q, bits(u, 2), "grow-and-all"); PS t(A); grow_and(t, HORIZONTAL, w, e); is_set(t, bits(h, 2), "grow-and-horizontal"); }
}
// recorded finding: with a small vertex limit, pieces that meet at a corner leave zero-width slivers
static void limited_corner() {
  bnd_case("limited corner contact"); bnd.count(true); fflush(stdout); pid_t k = fork();
  if (!k) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); PS A; A.insert(RT(3, 3, 4, 4)); A.insert(RT(3, 4, 4, 5)); A.insert(RT(4, 2, 5, 3)); std::vector<PH> v; A.get(v, (size_t)4); _exit(0); }
  int st = 0; waitpid(k, &st, 0); if (st) bnd.fail("limited-corner-contact", "rectangles [3,4]x[3,4] [3,4]x[4,5] [4,5]x[2,3] extracted with holes and vertex limit 4 crash");
  bnd_endcase();
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); std::string m = bnd.args.empty() ? "C12" : bnd.args[0];
  if (bnd.args.size() > 1) cap = atoi(bnd.args[1].c_str());
  if (m == "C13" && bnd.job == 0) limited_corner();
  while (bnd.more()) { if (m == "C12") c12(); else if (m == "C13") c13(); else if (m == "C14") c14(); else if (m == "C18") c18(); else c26(); bnd_endcase(); }
  return bnd.done();
}
