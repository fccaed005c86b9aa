// Bounded: whole diagrams.  args: topo | geom | reg
#define VOR_LD   // 64-bit mantissas are ample for the tolerances used here
#include "vor.h"
using namespace boost::polygon;
typedef voronoi_diagram<double> VD; typedef VD::edge_type E; typedef VD::cell_type C; typedef VD::vertex_type V;
struct Src { int kind; i64 x0, y0, x1, y1; size_t idx; int cat; };
static void source(const VI& v, const C& c, Src& s, bool& ok) {
  size_t i = c.source_index(); s.idx = i; s.cat = c.source_category(); ok = true; s.kind = 0;
  if (i < v.p.size()) { s.x0 = s.x1 = v.p[i].first; s.y0 = s.y1 = v.p[i].second; ok = s.cat == SOURCE_CATEGORY_SINGLE_POINT; return; }
  i -= v.p.size(); if (i >= v.s.size()) { ok = false; return; }
  const std::vector<i64>& g = v.s[i]; bool fwd = g[0] < g[2] || (g[0] == g[2] && g[1] < g[3]);
  s.x0 = g[0]; s.y0 = g[1]; s.x1 = g[2]; s.y1 = g[3];
  if (s.cat == SOURCE_CATEGORY_SEGMENT_START_POINT) { s.x1 = s.x0; s.y1 = s.y0; }
  else if (s.cat == SOURCE_CATEGORY_SEGMENT_END_POINT) { s.x0 = s.x1; s.y0 = s.y1; }
  else { s.kind = 1; ok = s.cat == (fwd ? SOURCE_CATEGORY_INITIAL_SEGMENT : SOURCE_CATEGORY_REVERSE_SEGMENT); }
}
#define F(key, cond) do { if (!(cond)) { bnd.fail(key, show(v)); return false; } } while (0)
static bool topo(const VI& v, VD& d) {
  std::set<std::vector<i64> > want, got;
  for (size_t i = 0; i < v.p.size(); ++i) { std::vector<i64> k(2); k[0] = v.p[i].first; k[1] = v.p[i].second; want.insert(k); }
  for (size_t i = 0; i < v.s.size(); ++i) { std::vector<i64> k(2), l(2), m = v.s[i]; k[0] = m[0]; k[1] = m[1]; l[0] = m[2]; l[1] = m[3]; want.insert(k); want.insert(l); if (l < k) { std::swap(m[0], m[2]); std::swap(m[1], m[3]); } want.insert(m); }
  const VD& cd = d; size_t nc = cd.num_cells(), ne = cd.num_edges(), nv = cd.num_vertices();
  F("container-counts", nc == cd.cells().size() && ne == cd.edges().size() && nv == cd.vertices().size());
  F("cells-per-site", nc == want.size());
  for (size_t i = 0; i < nc; ++i) {
    Src s; bool ok; source(v, cd.cells()[i], s, ok); F("cell-source", ok);
    std::vector<i64> k; k.push_back(s.x0); k.push_back(s.y0); if (s.kind) { k.push_back(s.x1); k.push_back(s.y1); if (std::make_pair(s.x1, s.y1) < std::make_pair(s.x0, s.y0)) { std::swap(k[0], k[2]); std::swap(k[1], k[3]); } }
    F("cell-site-once", want.count(k) && got.insert(k).second);
    F("cell-kind", cd.cells()[i].contains_segment() == (s.kind == 1) && cd.cells()[i].contains_point() == (s.kind == 0));
    F("color", cd.cells()[i].color() == 0);
  }
  F("edge-parity", ne % 2 == 0);
  const E* e0 = ne ? &cd.edges()[0] : 0; const C* c0 = &cd.cells()[0]; const V* v0 = nv ? &cd.vertices()[0] : 0;
#define INE(p) ((p) && (size_t)((p) - e0) < ne)
#define INC(p) ((p) && (size_t)((p) - c0) < nc)
#define INV(p) ((p) && (size_t)((p) - v0) < nv)
  for (size_t i = 0; i < ne; ++i) {
    const E& e = cd.edges()[i];
    F("edge-pointers", INE(e.twin()) && INE(e.next()) && INE(e.prev()) && INC(e.cell()) && (!e.vertex0() || INV(e.vertex0())));
  }
  for (size_t i = 0; i < ne; ++i) {
    const E& e = cd.edges()[i];
    F("twin", e.twin() != &e && e.twin()->twin() == &e);
    F("next-prev", e.next()->prev() == &e && e.prev()->next() == &e);
    F("face", e.next()->cell() == e.cell() && e.prev()->cell() == e.cell());
    F("face-neighbour", e.cell() != e.twin()->cell());
    F("chain", !e.vertex1() || e.next()->vertex0() == e.vertex1());
    F("chain-infinite", e.vertex1() || !e.next()->vertex0() || nv == 0);
    F("twin-kinds", e.is_linear() == e.twin()->is_linear() && e.is_primary() == e.twin()->is_primary() && e.is_finite() == e.twin()->is_finite() && e.is_curved() == !e.is_linear() && e.is_secondary() == !e.is_primary() && e.is_infinite() == !e.is_finite() && e.is_finite() == (e.vertex0() && e.vertex1()));
    Src a, b; bool ok; source(v, *e.cell(), a, ok); source(v, *e.twin()->cell(), b, ok);
    bool sec = false; if (a.kind != b.kind) { const Src &s = a.kind ? a : b, &p = a.kind ? b : a; sec = (p.x0 == s.x0 && p.y0 == s.y0) || (p.x0 == s.x1 && p.y0 == s.y1); }
    F("primary", e.is_primary() == !sec); F("linear", e.is_linear() == (sec || a.kind == b.kind));
    F("rot", e.rot_next() == e.prev()->twin() && e.rot_prev() == e.twin()->next());
  }
  std::set<const E*> seen;
  for (size_t i = 0; i < nc; ++i) {
    const C& c = cd.cells()[i]; const E* e = c.incident_edge();
    F("degenerate-cell", c.is_degenerate() == !e);
    if (!e) continue;
    F("incident-edge", INE(e) && e->cell() == &c);
    size_t g = 0; do { F("face-cycle", seen.insert(e).second && ++g <= ne); e = e->next(); } while (e != c.incident_edge());
  }
  F("faces-cover-edges", seen.size() == ne);
  std::set<const E*> vs;
  for (size_t i = 0; i < nv; ++i) {
    const V& x = cd.vertices()[i]; const E* e = x.incident_edge(); F("vertex-edge", INE(e) && e->vertex0() == &x && !x.is_degenerate());
    size_t g = 0; do { F("vertex-cycle", e->vertex0() == &x && vs.insert(e).second && ++g <= ne); e = e->rot_next(); } while (e != x.incident_edge());
    F("vertex-degree", g >= 3);
  }
  size_t fin = 0; for (size_t i = 0; i < ne; ++i) if (cd.edges()[i].vertex0()) ++fin;
  F("vertices-cover-edges", vs.size() == fin);
  size_t face = 0;    // an end point enclosed by its segments has an empty cell
  for (size_t i = 0; i < nc; ++i) if (cd.cells()[i].incident_edge()) ++face; else if (nc > 1) {
    Src s; bool ok; source(v, cd.cells()[i], s, ok); int deg = 0; for (size_t j = 0; j < v.s.size(); ++j) if (isend(v.s[j], s.x0, s.y0)) ++deg;
    F("cell-without-edges", s.kind == 0 && deg >= 3);
  } else ++face;
  F("euler", (i64)nv + 1 - (i64)ne / 2 + (i64)face == 2);
  return true;
}
static Q dist(const Src& s, Q x, Q y) { return dsegm(x, y, s.x0, s.y0, s.x1, s.y1); }
static bool geom(const VI& v, VD& d, bool exactly) {
  const VD& cd = d; size_t nc = cd.num_cells();
  std::vector<Src> s(nc); Q mc = 1; for (size_t i = 0; i < nc; ++i) { bool ok; source(v, cd.cells()[i], s[i], ok); mc = std::max(mc, std::max(std::max(qabs(s[i].x0), qabs(s[i].y0)), std::max(qabs(s[i].x1), qabs(s[i].y1)))); }
  Q u = (Q)ldexp(1.0, -52) * 800;
  for (size_t i = 0; i < cd.num_vertices(); ++i) {
    const V& x = cd.vertices()[i]; Q X = x.x(), Y = x.y(); F("vertex-finite", x.x() - x.x() == 0 && x.y() - x.y() == 0);
    std::vector<Q> ds(nc); Q best = 0; for (size_t j = 0; j < nc; ++j) { ds[j] = dist(s[j], X, Y); if (!j || ds[j] < best) best = ds[j]; }
    // events whose sweep positions differ by less than the documented 64 units may be processed in either
    // order, which moves a vertex by up to the square root of radius x units
    Q sc = u * (qabs(X) + qabs(Y) + mc), tol = sc + 2 * qsqrt(sc * (best + sc));
    const E* e = x.incident_edge();
    do {
      Q g = ds[e->cell() - &cd.cells()[0]];
      if (g - best > tol) { bnd.fail("vertex-equidistant", show(v) + " vertex " + qs(X) + "," + qs(Y) + " own site at " + qs(g) + " nearest at " + qs(best)); return false; }
      e = e->rot_next();
    } while (e != x.incident_edge());
  }
  for (size_t i = 0; i < cd.num_edges(); ++i) {
    const E& e = cd.edges()[i]; const Src &a = s[e.cell() - &cd.cells()[0]], &b = s[e.twin()->cell() - &cd.cells()[0]];
    Q px[3], py[3]; int n = 0; 
    if (e.is_finite()) {
      Q x0 = e.vertex0()->x(), y0 = e.vertex0()->y(), x1 = e.vertex1()->x(), y1 = e.vertex1()->y();
      if (e.is_linear()) { for (int k = 1; k < 4; ++k) { px[n] = x0 + (x1 - x0) * k / 4; py[n++] = y0 + (y1 - y0) * k / 4; } }
      else {
        const Src &sg = a.kind ? a : b, &pt = a.kind ? b : a; Q dx = sg.x1 - sg.x0, dy = sg.y1 - sg.y0, l2 = dx * dx + dy * dy, l = qsqrt(l2);
        Q h = ((Q)(pt.x0 - sg.x0) * dy - (Q)(pt.y0 - sg.y0) * dx) / l; if (h == 0) continue; // focus on the directrix
        Q t0 = ((x0 - sg.x0) * dx + (y0 - sg.y0) * dy) / l, t1 = ((x1 - sg.x0) * dx + (y1 - sg.y0) * dy) / l, tp = ((Q)(pt.x0 - sg.x0) * dx + (Q)(pt.y0 - sg.y0) * dy) / l;
        for (int k = 1; k < 4; ++k) { Q t = t0 + (t1 - t0) * k / 4, hh = ((t - tp) * (t - tp) + h * h) / (2 * h); px[n] = sg.x0 + t * dx / l + hh * dy / l; py[n++] = sg.y0 + t * dy / l - hh * dx / l; }
      }
    } else if (a.kind == b.kind || !e.is_primary()) {
      Q dx, dy, ox, oy; bool has0 = e.vertex0(), has1 = e.vertex1();
      if (!a.kind && !b.kind) { Q ux = a.x0 - b.x0, uy = a.y0 - b.y0; dx = uy; dy = -ux; ox = ((Q)a.x0 + b.x0) / 2; oy = ((Q)a.y0 + b.y0) / 2; }
      else if (a.kind != b.kind) {
        const Src &sg = a.kind ? a : b, &pt = a.kind ? b : a; bool at0 = pt.x0 == sg.x0 && pt.y0 == sg.y0;
        Q ux = at0 ? sg.x1 - sg.x0 : sg.x0 - sg.x1, uy = at0 ? sg.y1 - sg.y0 : sg.y0 - sg.y1;   // into the segment
        if (!a.kind) { ux = -ux; uy = -uy; }                                                        // towards the cell on the left
        dx = uy; dy = -ux; ox = pt.x0; oy = pt.y0;
      } else continue;
      Q l = qsqrt(dx * dx + dy * dy); dx /= l; dy /= l;
      if (has0) { ox = e.vertex0()->x(); oy = e.vertex0()->y(); } else if (has1) { ox = e.vertex1()->x(); oy = e.vertex1()->y(); dx = -dx; dy = -dy; }
      Q st = (has0 || has1) ? mc : 0; px[n] = ox + dx * st; py[n++] = oy + dy * st; px[n] = ox + dx * mc / 3; py[n++] = oy + dy * mc / 3;
      if (!has0 && !has1) { px[n] = ox - dx * mc; py[n++] = oy - dy * mc; }
    } else { bnd.fail("infinite-edge-kind", show(v)); return false; }
    for (int k = 0; k < n; ++k) {
      Q best = -1; for (size_t j = 0; j < nc; ++j) { Q g = dist(s[j], px[k], py[k]); if (best < 0 || g < best) best = g; }
      Q da = dist(a, px[k], py[k]), db = dist(b, px[k], py[k]); Q m0 = qabs(px[k]) + qabs(py[k]) + mc; if (e.vertex0()) m0 += qabs(e.vertex0()->x()) + qabs(e.vertex0()->y()); if (e.vertex1()) m0 += qabs(e.vertex1()->x()) + qabs(e.vertex1()->y());
      Q tol = u * m0; tol += 2 * qsqrt(tol * (best + tol)); if (a.kind != b.kind && e.is_primary()) tol *= 64;
      if (da - best > tol || db - best > tol) { bnd.fail(e.is_finite() ? (e.is_linear() ? "edge-nearest-linear" : "edge-nearest-curved") : "edge-nearest-infinite", show(v) + " at " + qs(px[k]) + "," + qs(py[k]) + " cells at " + qs(da) + " and " + qs(db) + " nearest " + qs(best)); return false; }
    }
  }
  return true;
}
// what does not depend on numbering: which site pairs are neighbours, by geometry, per edge kind
typedef std::multiset<std::vector<i64> > Can;
static Can canon(const VI& v, const VD& cd, int sx, int sy, bool swap, i64 tx, i64 ty) {
  Can r;
  for (size_t i = 0; i < cd.num_edges(); ++i) {
    const E& e = cd.edges()[i]; std::vector<i64> k[2];
    for (int h = 0; h < 2; ++h) { Src s; bool ok; source(v, h ? *e.twin()->cell() : *e.cell(), s, ok); i64 q[4] = {s.x0, s.y0, s.x1, s.y1}; for (int t = 0; t < 4; t += 2) { q[t] = (q[t] - tx) * sx; q[t + 1] = (q[t + 1] - ty) * sy; if (swap) std::swap(q[t], q[t + 1]); } if (std::make_pair(q[2], q[3]) < std::make_pair(q[0], q[1])) { std::swap(q[0], q[2]); std::swap(q[1], q[3]); } k[h].assign(q, q + 4); }
    std::vector<i64> a = k[0]; a.insert(a.end(), k[1].begin(), k[1].end()); a.push_back(e.is_finite()); a.push_back(e.is_linear()); a.push_back(e.is_primary()); r.insert(a);
  }
  return r;
}
template <class Fx> static VI moved(const VI& v, Fx f) { VI r = v; for (size_t i = 0; i < r.p.size(); ++i) f(r.p[i].first, r.p[i].second); for (size_t i = 0; i < r.s.size(); ++i) { f(r.s[i][0], r.s[i][1]); f(r.s[i][2], r.s[i][3]); } return r; }
static void shuffle(VI& w) {
  for (size_t i = w.p.size(); i > 1; --i) std::swap(w.p[i - 1], w.p[bnd.in(0, i - 1)]); for (size_t i = w.s.size(); i > 1; --i) std::swap(w.s[i - 1], w.s[bnd.in(0, i - 1)]);
  for (size_t i = 0; i < w.s.size(); ++i) if (bnd.in(0, 1)) { std::swap(w.s[i][0], w.s[i][2]); std::swap(w.s[i][1], w.s[i][3]); }
}
static bool small(const VI& v, i64 m) { for (size_t i = 0; i < v.p.size(); ++i) if (std::abs(v.p[i].first) > m || std::abs(v.p[i].second) > m) return false; for (size_t i = 0; i < v.s.size(); ++i) for (int k = 0; k < 4; ++k) if (std::abs(v.s[i][k]) > m) return false; return true; }
static bool moves(const VI& v, const VD& d) {
  if (!small(v, 1000)) return true;
  int sx = bnd.in(0, 1) ? 1 : -1, sy = bnd.in(0, 1) ? 1 : -1; bool sw = bnd.in(0, 1); i64 tx = 0, ty = 0; int what = bnd.in(0, 2); if (what == 0) { sx = sy = 1; sw = false; tx = bnd.in(-50, 50); ty = bnd.in(-50, 50); } if (what == 1) { sx = sy = 1; sw = false; }
  VI w = v;
  for (int k = 0; k < 1; ++k) { w = moved(v, [&](i64& x, i64& y) { if (sw) std::swap(x, y); x = x * sx + tx; y = y * sy + ty; }); if (what == 1) shuffle(w); }
  VD f; { voronoi_builder<int> b; feed(b, w); b.construct(&f); }
  // undo: (x - tx) * sx, (y - ty) * sy, swap
  const char* nm = what == 0 ? "translation" : what == 1 ? "insertion-order" : "symmetry";
  if (d.num_vertices() != f.num_vertices() || d.num_edges() != f.num_edges() || canon(v, d, 1, 1, false, 0, 0) != canon(w, f, sx, sy, sw, tx, ty)) { bnd.fail(nm, show(v) + " against " + show(w)); return false; }
  return true;
}
typedef voronoi_builder<int> VB;
static bool reg(const VI& v0) {
  VI v = v0; shuffle(v); if (v.p.size() && bnd.in(0, 1)) v.p.push_back(v.p[bnd.in(0, v.p.size() - 1)]);
  VB b; size_t np = 0, ns = 0; std::vector<std::vector<i64> > in; std::map<std::vector<i64>, int> want;
  // interleave points and segments
  while (np < v.p.size() || ns < v.s.size()) {
    bool pt = ns == v.s.size() || (np < v.p.size() && bnd.in(0, 1)); size_t idx = in.size(), r; std::vector<i64> g;
    if (pt) { g.push_back(v.p[np].first); g.push_back(v.p[np].second); ++np; r = b.insert_point((int)g[0], (int)g[1]); want[g] = 1; }
    else { g = v.s[ns++]; r = b.insert_segment((int)g[0], (int)g[1], (int)g[2], (int)g[3]); std::vector<i64> a(g.begin(), g.begin() + 2), c(g.begin() + 2, g.end()), n; want[a] = 1; want[c] = 1; n = a < c ? a : c; std::vector<i64> h = a < c ? c : a; n.insert(n.end(), h.begin(), h.end()); want[n] = 1; }
    in.push_back(g); if (r != idx) { bnd.fail("index", show(v)); return false; }
  }
  b.init_sites_queue();
  F("one-event-per-site", b.site_events_.size() == want.size());
  F("iterator-at-start", b.site_event_iterator_ == b.site_events_.begin());
  for (size_t i = 0; i < b.site_events_.size(); ++i) {
    const VB::site_event_type& s = b.site_events_[i]; std::vector<i64> k; k.push_back(s.x0()); k.push_back(s.y0()); if (s.is_segment()) { k.push_back(s.x1()); k.push_back(s.y1()); }
    F("event-of-a-site", want.count(k) && want[k]-- == 1);
    F("sorted-index", s.sorted_index() == i); F("not-inverse", !s.is_inverse());
    F("initial-index", s.initial_index() < in.size()); const std::vector<i64>& g = in[s.initial_index()];
    int c = s.source_category(); bool ok;
    if (s.is_segment()) { bool fwd = std::make_pair(g[0], g[1]) < std::make_pair(g[2], g[3]); ok = g.size() == 4 && c == (fwd ? SOURCE_CATEGORY_INITIAL_SEGMENT : SOURCE_CATEGORY_REVERSE_SEGMENT) && k == std::vector<i64>({fwd ? g[0] : g[2], fwd ? g[1] : g[3], fwd ? g[2] : g[0], fwd ? g[3] : g[1]}); }
    else ok = (c == SOURCE_CATEGORY_SINGLE_POINT && g.size() == 2 && k == g) || (c == SOURCE_CATEGORY_SEGMENT_START_POINT && g.size() == 4 && k[0] == g[0] && k[1] == g[1]) || (c == SOURCE_CATEGORY_SEGMENT_END_POINT && g.size() == 4 && k[0] == g[2] && k[1] == g[3]);
    F("category", ok);
    if (i) { const VB::site_event_type& q = b.site_events_[i - 1]; std::vector<i64> A({q.x0(), q.is_segment() && q.x0() != q.x1(), q.y0(), q.is_segment()}), B({s.x0(), s.is_segment() && s.x0() != s.x1(), s.y0(), s.is_segment()}); F("sorted", A <= B); }
  }
  b.clear(); F("clear", b.site_events_.empty()); F("clear-index", b.insert_point(1, 2) == 0);
  return true;
}
struct Less { bool operator()(int a, int b) const { return b < a; } };
static void queue() {
  detail::ordered_queue<int, Less> q; std::map<int*, int> live; std::multiset<int> all; std::string d; int n = bnd.in(1, 40);
  for (int i = 0; i < n && bnd.fails < 6; ++i) {
    if (bnd.in(0, 2) || all.empty()) { int x = bnd.in(-6, 6); d += " +" + S(x); int& r = q.push(x); if (r != x) bnd.fail("queue-push", d); if (live.count(&r)) bnd.fail("queue-handle-reused", d); live[&r] = x; all.insert(x); }
    else { d += " -"; int x = q.top(); if (x != *all.begin()) bnd.fail("queue-order", d); int* gone = 0; for (std::map<int*, int>::iterator it = live.begin(); it != live.end(); ++it) if (it->first == &q.top()) gone = it->first; if (!gone) bnd.fail("queue-top-handle", d); live.erase(gone); q.pop(); all.erase(all.begin()); }
    if (q.empty() != all.empty()) bnd.fail("queue-empty", d);
    for (std::map<int*, int>::iterator it = live.begin(); it != live.end(); ++it) if (*it->first != it->second) bnd.fail("queue-handle", d);
    if (!all.empty() && q.top() != *all.begin()) bnd.fail("queue-top", d);
    if (bnd.in(0, 60) == 0) { q.clear(); d += " clear"; live.clear(); all.clear(); if (!q.empty()) bnd.fail("queue-clear", d); }
  }
  bnd.count(n > 4);
}
int main(int argc, char** argv) {
  bnd_init(argc, argv); std::string mode = bnd.args[0];
  while (bnd.more()) {
    if (mode == "reg") { for (int k = 0; k < 50; ++k) queue(); }
    VI v = gen(); if (mode != "reg") { std::set<std::pair<i64, i64> > u(v.p.begin(), v.p.end()); if (bnd.in(0, 3)) v.p.assign(u.begin(), u.end()); shuffle(v); }
    std::string d = show(v); bnd_case(d); bnd.sample(d);
    if (mode == "reg") { reg(v); bnd.count(v.p.size() + v.s.size() > 1); bnd_endcase(); continue; }
    VD vd; VB b; feed(b, v); b.construct(&vd);
    bool ok = topo(v, vd); 
    if (mode == "geom" && ok) { geom(v, vd, true); moves(v, vd); }
    if (mode == "topo" && ok && bnd.in(0, 3) == 0) { b.clear(); feed(b, v); vd.clear(); b.construct(&vd); topo(v, vd); }   // reuse of builder and diagram
    bnd_endcase(); bnd.count(vd.num_vertices() > 0);
  }
  return bnd.done();
}
