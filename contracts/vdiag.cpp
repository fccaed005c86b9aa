// Contracts of voronoi_diagram.hpp / voronoi_builder.hpp / voronoi_structures.hpp (C23, C24, C25).
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <limits>
#include <list>
#include <map>
#include <queue>
#include <stack>
#include <utility>
#include <vector>
#define private public
#include <boost/polygon/voronoi_builder.hpp>
#include <boost/polygon/voronoi_diagram.hpp>
#undef private
using namespace boost::polygon; using namespace boost::polygon::detail;
typedef voronoi_diagram<double> VD; typedef VD::edge_type E; typedef VD::cell_type C; typedef VD::vertex_type V;
typedef site_event<int> SE; typedef circle_event<double> CE; typedef point_2d<int> PT; typedef voronoi_builder<int> VB;
static PT pt(const char* a, const char* b) { int x = vp_any_i32(a), y = vp_any_i32(b); return PT(x, y); }
static bool same(const PT& a, const PT& b) { return a.x() == b.x() && a.y() == b.y(); }
static bool pts(const SE& s) { return s.x0() == s.x1() && s.y0() == s.y1(); }
// an edge is secondary iff it separates a segment from one of its own ends; curved iff it separates a
// segment from a point that is not one of its ends
static bool secondary(const SE& s, const SE& t) {
  if (pts(s) == pts(t)) return false;
  const SE &g = pts(s) ? t : s, &p = pts(s) ? s : t; return (p.x0() == g.x0() && p.y0() == g.y0()) || (p.x0() == g.x1() && p.y0() == g.y1());
}
static bool curved(const SE& s, const SE& t) { return pts(s) != pts(t) && !secondary(s, t); }
HARNESS(h_C23_edge_kind) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"), d = pt("dx", "dy"); SE s(a, b), t(c, d); VD v;
  bool p = v.is_primary_edge(s, t), l = v.is_linear_edge(s, t);
  vp_assert(p == !secondary(s, t), "primary unless between a segment and its end"); vp_assert(l == !curved(s, t), "curved exactly between a segment and a foreign point");
  vp_assert(p == v.is_primary_edge(t, s) && l == v.is_linear_edge(t, s), "both directions agree"); vp_assert(p || l, "secondary edges are straight");
}
static void flags(bool l, bool p) {
  E e(l, p); vp_assert(e.is_linear() == l && e.is_curved() == !l && e.is_primary() == p && e.is_secondary() == !p, "kind flags"); vp_assert(e.color() == 0 && !e.cell() && !e.twin() && !e.next() && !e.prev() && !e.vertex0(), "fresh edge");
  u64 q = vp_range("color", 0, 576460752303423487ll); e.color(q); vp_assert(e.color() == q, "colour"); vp_assert(e.is_linear() == l && e.is_primary() == p, "colour keeps the kind");
}
HARNESS(h_C23_edge_flags) { int k = (int)vp_range("kind", 0, 3); if (k == 0) flags(false, false); else if (k == 1) flags(false, true); else if (k == 2) flags(true, false); else flags(true, true); }
HARNESS(h_C23_cell_flags) {
  u64 i = vp_any_i64("index"); int k = (int)vp_range("category", 0, 9); vp_assume(k <= 2 || k >= 8); C c(i, (SourceCategory)k);
  vp_assert(c.source_index() == i && c.source_category() == k && c.is_degenerate() && !c.incident_edge(), "source");
  vp_assert(c.contains_segment() == (k >= 8) && c.contains_point() == (k < 8), "point or segment inside");
  u64 q = vp_any_i64("color"); c.color(q); vp_assert(c.color() == ((q << 5) >> 5) && c.source_category() == k, "colour keeps the category");
}
HARNESS(h_C23_vertex) {
  double x = vp_any_f64("x"), y = vp_any_f64("y"); V v(x, y); vp_assert(v.x() == x && v.y() == y && v.is_degenerate() && v.color() == 0, "coordinates");
  u64 q = vp_any_i64("color"); v.color(q); vp_assert(v.color() == ((q << 5) >> 5) && v.x() == x && v.y() == y, "colour keeps the coordinates");
}
HARNESS(h_C23_insert_first) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"), d = pt("dx", "dy"); SE s(a, b), t(c, d); s.sorted_index(0); t.sorted_index(1); u64 i = vp_any_i64("i"), j = vp_any_i64("j"); s.initial_index(i); t.initial_index(j);
  s.source_category(SOURCE_CATEGORY_SEGMENT_START_POINT); t.source_category(SOURCE_CATEGORY_REVERSE_SEGMENT);
  VD v; v._reserve(2); std::pair<void*, void*> r = v._insert_new_edge(s, t);
  E *e = (E*)r.first, *f = (E*)r.second;
  vp_assert(v.edges_.size() == 2 && v.cells_.size() == 2 && e == &v.edges_[0] && f == &v.edges_[1], "two half-edges and two cells");
  vp_assert(e->twin() == f && f->twin() == e, "twins"); vp_assert(e->cell() == &v.cells_[0] && f->cell() == &v.cells_[1], "each half-edge on its own cell");
  vp_assert(v.cells_[0].source_index() == i && v.cells_[1].source_index() == j && v.cells_[0].source_category() == SOURCE_CATEGORY_SEGMENT_START_POINT && v.cells_[1].source_category() == SOURCE_CATEGORY_REVERSE_SEGMENT, "cells remember their input");
  vp_assert(e->is_linear() == f->is_linear() && e->is_primary() == f->is_primary() && e->is_linear() == !curved(s, t) && e->is_primary() == !secondary(s, t), "same kind");
  vp_assert(!e->vertex0() && !f->vertex0() && !e->next() && !e->prev() && !f->next() && !f->prev(), "unbounded so far");
}
// three bisectors meet: A|B and B|C end, A|C starts
HARNESS(h_C23_insert_at_circle) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"), d = pt("dx", "dy"); SE s(a), t(b), u(c, d); s.sorted_index(0); t.sorted_index(1); u.sorted_index(2);
  VD v; v._reserve(3); std::pair<void*, void*> r = v._insert_new_edge(s, t), q = v._insert_new_edge(t, u); CE ce(vp_any_f64("x"), vp_any_f64("y"), vp_any_f64("l"));
  E *e12 = (E*)r.first, *e21 = (E*)r.second, *e23 = (E*)q.first, *e32 = (E*)q.second;
  std::pair<void*, void*> n = v._insert_new_edge(s, u, ce, e12, e23); E *e13 = (E*)n.first, *e31 = (E*)n.second;
  vp_assert(v.edges_.size() == 6 && v.vertices_.size() == 1 && v.cells_.size() == 3, "one vertex and two half-edges more");
  V* x = &v.vertices_[0]; vp_assert(x->x() == ce.x() && x->y() == ce.y(), "the vertex is the centre of the circle");
  vp_assert(e12->vertex0() == x && e23->vertex0() == x && e31->vertex0() == x && !e21->vertex0() && !e32->vertex0() && !e13->vertex0(), "the three bisectors start at the vertex");
  vp_assert(e13->twin() == e31 && e31->twin() == e13 && e12->twin() == e21 && e23->twin() == e32, "twins");
  vp_assert(e13->cell() == &v.cells_[0] && e31->cell() == &v.cells_[2], "new half-edges on the outer cells");
  vp_assert(e13->next() == e12 && e12->prev() == e13 && e21->next() == e23 && e23->prev() == e21 && e32->next() == e31 && e31->prev() == e32, "faces close at the vertex");
  vp_assert(e12->rot_next()->rot_next()->rot_next() == e12 && e12->rot_next() == e31 && e31->rot_next() == e23 && e31->rot_prev() == e12, "one cycle around the vertex");
  vp_assert(e13->is_linear() == !curved(s, u) && e13->is_primary() == !secondary(s, u) && e31->is_linear() == e13->is_linear() && e31->is_primary() == e13->is_primary(), "kind of the new bisector");
  vp_assert(!e12->is_finite() && e12->is_infinite() && e12->vertex1() == 0, "still unbounded"); e21->vertex0(x); vp_assert(e12->is_finite() && !e12->is_infinite() && e12->vertex1() == x, "finite with two ends");
}
HARNESS(h_C23_single_site) {
  PT a = pt("ax", "ay"); SE s(a); u64 i = vp_any_i64("i"); s.initial_index(i); s.source_category(SOURCE_CATEGORY_SINGLE_POINT); VD v; v._reserve(1); v._process_single_site(s); v._build();
  vp_assert(v.num_cells() == 1 && v.num_edges() == 0 && v.num_vertices() == 0 && v.cells_[0].source_index() == i && v.cells_[0].contains_point() && v.cells_[0].is_degenerate(), "one cell without edges");
  v.clear(); vp_assert(v.cells().empty() && v.edges().empty() && v.vertices().empty(), "cleared");
}
// two sites: one line, closed by itself on either face
HARNESS(h_C23_build_line) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"); SE s(a), t(b); s.sorted_index(0); t.sorted_index(1); VD v; v._reserve(2); v._insert_new_edge(s, t); v._build();
  E *e = &v.edges_[0], *f = &v.edges_[1]; vp_assert(v.edges_.size() == 2 && v.vertices_.empty() && e->twin() == f && f->twin() == e && e->next() == e && e->prev() == e && f->next() == f && f->prev() == f, "a line is its own neighbour");
  vp_assert(v.cells_[0].incident_edge() == e && v.cells_[1].incident_edge() == f, "cells know an edge");
}
// three sites around one vertex, any coordinates
HARNESS(h_C23_build_star) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"); SE s(a), t(b), u(c); s.sorted_index(0); t.sorted_index(1); u.sorted_index(2);
  VD v; v._reserve(3); std::pair<void*, void*> r = v._insert_new_edge(s, t), q = v._insert_new_edge(t, u); CE ce(vp_any_f64("x"), vp_any_f64("y"), vp_any_f64("l"));
  E *e12 = (E*)r.first, *e23 = (E*)q.first; std::pair<void*, void*> n = v._insert_new_edge(s, u, ce, e12, e23); E *e31 = (E*)n.second; v._build();
  vp_assert(v.edges_.size() == 6 && v.vertices_.size() == 1, "nothing removed");
  bool ok = true; for (int i = 0; i < 6; ++i) { E* e = &v.edges_[i]; ok = ok && e->twin()->twin() == e && e->next() && e->prev() && e->next()->prev() == e && e->prev()->next() == e && e->next()->cell() == e->cell(); }
  vp_assert(ok, "every face is one closed cycle"); vp_assert(v.vertices_[0].incident_edge()->vertex0() == &v.vertices_[0], "vertex edge starts at the vertex");
  bool inc = true; for (int i = 0; i < 3; ++i) inc = inc && v.cells_[i].incident_edge() && v.cells_[i].incident_edge()->cell() == &v.cells_[i]; vp_assert(inc, "cell edge lies on the cell");
}
// ---------------------------------------------------------------- registration (C25)
HARNESS(h_C25_insert_point) {
  int x = vp_any_i32("x"), y = vp_any_i32("y"); u64 i = vp_any_i64("i"); VB b; b.index_ = i; u64 r = b.insert_point(x, y);
  vp_assert(r == i && b.index_ == i + 1 && b.site_events_.size() == 1, "next index, one site"); const SE& s = b.site_events_[0];
  vp_assert(s.x0() == x && s.y0() == y && s.x1() == x && s.y1() == y && s.is_point() && !s.is_segment() && !s.is_inverse(), "the point"); vp_assert(s.initial_index() == i && s.source_category() == SOURCE_CATEGORY_SINGLE_POINT, "identity");
}
HARNESS(h_C25_insert_segment) {
  PT p = pt("ax", "ay"), q = pt("bx", "by"); u64 i = vp_any_i64("i"); VB b; b.index_ = i; u64 r = b.insert_segment(p.x(), p.y(), q.x(), q.y());
  vp_assert(r == i && b.index_ == i + 1 && b.site_events_.size() == 3, "next index, three sites");
  const SE &s = b.site_events_[0], &e = b.site_events_[1], &g = b.site_events_[2]; bool fwd = p.x() < q.x() || (p.x() == q.x() && p.y() < q.y());
  vp_assert(same(s.point0(), p) && same(s.point1(), p) && s.source_category() == SOURCE_CATEGORY_SEGMENT_START_POINT, "start point"); vp_assert(same(e.point0(), q) && same(e.point1(), q) && e.source_category() == SOURCE_CATEGORY_SEGMENT_END_POINT, "end point");
  vp_assert(same(g.point0(), fwd ? p : q) && same(g.point1(), fwd ? q : p) && g.source_category() == (fwd ? SOURCE_CATEGORY_INITIAL_SEGMENT : SOURCE_CATEGORY_REVERSE_SEGMENT), "segment from its smaller end");
  vp_assert(s.initial_index() == i && e.initial_index() == i && g.initial_index() == i && !g.is_inverse(), "one index for all three");
}
HARNESS(h_C25_insert_sequence) {
  PT p = pt("ax", "ay"), q = pt("bx", "by"), t = pt("cx", "cy"); VB b; u64 r0 = b.insert_point(t.x(), t.y()), r1 = b.insert_segment(p.x(), p.y(), q.x(), q.y()), r2 = b.insert_point(p.x(), q.y());
  vp_assert(r0 == 0 && r1 == 1 && r2 == 2 && b.site_events_.size() == 5, "consecutive indices"); vp_assert(same(b.site_events_[0].point0(), t) && b.site_events_[0].initial_index() == 0 && same(b.site_events_[1].point0(), p) && same(b.site_events_[2].point0(), q) && b.site_events_[4].initial_index() == 2 && b.site_events_[4].y0() == q.y(), "earlier sites stay");
  b.clear(); vp_assert(b.site_events_.empty() && b.insert_point(p.x(), p.y()) == 0 && b.site_events_.size() == 1, "clear starts over");
}
HARNESS(h_C25_site) {
  PT p = pt("ax", "ay"), q = pt("bx", "by"); SE s(p, q); u64 i = vp_any_i64("i"), j = vp_any_i64("j"); int k = (int)vp_range("category", 0, 9); s.sorted_index(i).initial_index(j).source_category((SourceCategory)k);
  vp_assert(s.sorted_index() == i && s.initial_index() == j && s.source_category() == k && !s.is_inverse(), "fields");
  { bool single = same(p, q); vp_assert((s.is_point() == single) & (s.is_segment() == !single), "a point exactly when its ends coincide"); }
  s.inverse(); vp_assert(same(s.point0(), q) && same(s.point1(), p) && s.is_inverse() && s.source_category() == k && s.sorted_index() == i && s.initial_index() == j, "inverse swaps the ends only"); s.inverse(); vp_assert(same(s.point0(), p) && same(s.point1(), q) && !s.is_inverse() && s.source_category() == k, "twice is nothing");
  SE z, w(p.x(), p.y()), y(p.x(), p.y(), q.x(), q.y()); vp_assert(z.x0() == 0 && z.y0() == 0 && z.x1() == 0 && z.y1() == 0 && z.sorted_index() == 0 && !z.is_inverse() && w.x() == p.x() && w.y() == p.y() && w.is_point() && y == s, "constructors");
  vp_assert((w == SE(q)) == same(p, q) && (w != SE(q)) == !same(p, q) && (p == q) == same(p, q) && (p != q) == !same(p, q), "equality");
}
HARNESS(h_C25_circle) {
  double x = vp_any_f64("x"), y = vp_any_f64("y"), l = vp_any_f64("l"); CE c(x, y, l), d; vp_assert(c.x() == x && c.y() == y && c.lower_x() == l && c.lower_y() == y && c.is_active() && d.is_active(), "fields");
  d.x(l).y(x).lower_x(y); vp_assert(d.x() == l && d.y() == x && d.lower_x() == y, "setters"); d.deactivate(); vp_assert(!d.is_active() && d.x() == l && d.y() == x && d.lower_x() == y, "deactivation keeps the coordinates");
}
HARNESS(h_C25_node) {
  PT p = pt("ax", "ay"), q = pt("bx", "by"); SE s(p), t(p, q); beach_line_node_key<SE> k(s, t), m(t); vp_assert(k.left_site() == s && k.right_site() == t && m.left_site() == t && m.right_site() == t, "sites in order");
  k.left_site(t).right_site(s); vp_assert(k.left_site() == t && k.right_site() == s, "replaced"); int e; CE c; beach_line_node_data<int, CE> d(&e); vp_assert(d.edge() == &e && !d.circle_event(), "data"); d.circle_event(&c); d.edge(0); vp_assert(d.circle_event() == &c && !d.edge(), "data replaced");
}
// libstdc++ keeps these two out of line; the same text as its list.cc, so that the verifier sees a body
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
} }
struct More { bool operator()(int a, int b) const { return b < a; } };
HARNESS(h_C25_queue) {
  int a = vp_any_i32("a"), b = vp_any_i32("b"), c = vp_any_i32("c"); ordered_queue<int, More> q; vp_assert(q.empty(), "new queue is empty");
  int &x = q.push(a), &y = q.push(b); vp_assert(x == a && y == b && !q.empty() && q.top() == (a < b ? a : b), "smaller of two"); int &z = q.push(c); int m = a < b ? a : b; if (c < m) m = c;
  vp_assert(x == a && y == b && z == c, "handles stay"); vp_assert(q.top() == m && (&q.top() == &x || &q.top() == &y || &q.top() == &z), "smallest of three first");
  bool tx = &q.top() == &x, ty = &q.top() == &y; q.pop(); int r1 = tx ? b : a, r2 = tx ? c : ty ? c : b; vp_assert(q.top() == (r1 < r2 ? r1 : r2), "then the second"); if (!tx) vp_assert(x == a, "handles survive a removal");
  q.pop(); vp_assert(q.top() == (r1 < r2 ? r2 : r1), "then the last"); q.pop(); vp_assert(q.empty(), "nothing lost, nothing left");
}
// ---------------------------------------------------------------- geometry (C24): vertices of the diagram
// contract of the ulp comparison (C21): the answer never contradicts the order, equal values are equal
extern "C" int c_ulp128(const VD::vertex_equality_predicate_type*, double a, double b, unsigned n) {
  vp_assert(n == 128, "compared within 128 neighbours"); int r = (int)vp_range("ulp", -1, 1); vp_assume(a < b ? r <= 0 : a > b ? r >= 0 : r == 0); return r;
}
static bool face(E* e) { return e->twin()->twin() == e && e->twin() != e && e->next() && e->prev() && e->next()->prev() == e && e->prev()->next() == e && e->next()->cell() == e->cell(); }
// four sites, two circle events: the bisector between them disappears exactly when the two centres agree
HARNESS(h_C24u_merge_vertices) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"), d = pt("dx", "dy"); SE s(a), t(b), u(c), w(d); s.sorted_index(0); t.sorted_index(1); u.sorted_index(2); w.sorted_index(3);
  double x = vp_any_f64("x"), y = vp_any_f64("y"), x2 = vp_any_f64("x2"), y2 = vp_any_f64("y2"); CE p(x, y, x), q(x2, y2, x2);
  VD v; v._reserve(4); E *e12 = (E*)v._insert_new_edge(s, t).first, *e23 = (E*)v._insert_new_edge(t, u).first, *e34 = (E*)v._insert_new_edge(u, w).first;
  E* e13 = (E*)v._insert_new_edge(s, u, p, e12, e23).first; E* e14 = (E*)v._insert_new_edge(s, w, q, e13, e34).first;
  vp_assert(v.edges_.size() == 10 && v.vertices_.size() == 2 && e13->vertex0() == &v.vertices_[1] && e13->vertex1() == &v.vertices_[0] && e14->vertex1() == &v.vertices_[1], "inserted");
  v._build(); bool same = x == x2 && y == y2; size_t ne = v.edges_.size(), nv = v.vertices_.size();
  vp_assert(ne == 10 || ne == 8, "one bisector at most goes"); vp_assert(ne == 10 ? nv == 2 : nv == 1, "with it one vertex"); vp_assert(!same || ne == 8, "equal centres are one vertex");
  bool ok = true; for (size_t i = 0; i < ne; ++i) ok = ok && face(&v.edges_[i]); vp_assert(ok, "every face is one closed cycle");
  bool at = true; for (size_t i = 0; i < nv; ++i) { E* e = v.vertices_[i].incident_edge(); size_t n = 0; E* f = e; do { at = at && f->vertex0() == &v.vertices_[i]; f = f->rot_next(); ++n; } while (f != e && n < 6); at = at && n == (nv == 1 ? 4 : 3); } vp_assert(at, "one cycle of edges around each vertex");
  vp_assert(nv == 2 || (v.vertices_[0].x() == x && v.vertices_[0].y() == y) || (v.vertices_[0].x() == x2 && v.vertices_[0].y() == y2), "the vertex left is one of the two centres");
  vp_assert(nv == 1 || (v.vertices_[0].x() == x && v.vertices_[0].y() == y && v.vertices_[1].x() == x2 && v.vertices_[1].y() == y2), "the vertices are the centres");
}
HARNESS(h_C24u_equality) {
  double x = vp_any_f64("x"), y = vp_any_f64("y"), z = vp_any_f64("z"), w = vp_any_f64("w"); V a(x, y), b(z, w); VD::vertex_equality_predicate_type p; bool r = p(a, b); vp_assert(!(x == z && y == w) || r, "equal vertices are equal");
}
HARNESS(h_C24_circle_vertex) {
  PT a = pt("ax", "ay"), b = pt("bx", "by"), c = pt("cx", "cy"); SE s(a), t(b), u(c); s.sorted_index(0); t.sorted_index(1); u.sorted_index(2);
  VD v; v._reserve(3); E *e12 = (E*)v._insert_new_edge(s, t).first, *e23 = (E*)v._insert_new_edge(t, u).first; CE ce(vp_any_f64("x"), vp_any_f64("y"), vp_any_f64("l")); v._insert_new_edge(s, u, ce, e12, e23);
  vp_assert(v.num_vertices() == 1 && v.vertices()[0].x() == ce.x() && v.vertices()[0].y() == ce.y(), "the vertex is the centre of the circle");
}
