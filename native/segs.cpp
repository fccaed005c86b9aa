// Bounded: intersecting segments (C17).  Exact inputs: crossings on the grid, clear of other segments.  Otherwise: no crossings left, pieces chain and stay near.
#include "geo.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_utils.hpp>
#include <boost/polygon/segment_concept.hpp>
#include <boost/polygon/segment_data.hpp>
using namespace boost::polygon;
typedef point_data<int> PT; typedef segment_data<int> ST;
struct Sg { P a, b; };
static std::vector<Sg> in; static std::string text; static bool exact;
static std::string S(Sg s) { return S(s.a.x) + "," + S(s.a.y) + "-" + S(s.b.x) + "," + S(s.b.y); }
static std::string S(const std::vector<Sg>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + S(v[i]); return "{" + r + "}"; }
static bool flat(Sg s) { return s.a == s.b; }
static i128 cross(P a, P b) { return (i128)a.x * b.y - (i128)a.y * b.x; }
static P sub(P a, P b) { P r = {a.x - b.x, a.y - b.y}; return r; }
// crossing of non-parallel meeting segments; false when it is not on the grid
static bool crossing(Sg s, Sg t, P& r) { P d = sub(s.b, s.a), e = sub(t.b, t.a); i128 det = cross(d, e), k = cross(sub(t.a, s.a), e); if ((k * d.x) % det || (k * d.y) % det) return false; r.x = s.a.x + (i64)(k * d.x / det); r.y = s.a.y + (i64)(k * d.y / det); return true; }
static i64 gcd(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
static double dist(P p, Sg s) { double dx = (double)(s.b.x - s.a.x), dy = (double)(s.b.y - s.a.y), n = dx * dx + dy * dy, t = n ? ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / n : 0; if (t < 0) t = 0; if (t > 1) t = 1; double ux = p.x - s.a.x - t * dx, uy = p.y - s.a.y - t * dy; return __builtin_sqrt(ux * ux + uy * uy); }
// interiors cross, or an end lies inside the other, or proper overlap without being equal
static bool conflict(Sg s, Sg t) {
  if ((s.a == t.a && s.b == t.b) || (s.a == t.b && s.b == t.a)) return false;
  if (std::max(s.a.x, s.b.x) < std::min(t.a.x, t.b.x) || std::max(t.a.x, t.b.x) < std::min(s.a.x, s.b.x) || std::max(s.a.y, s.b.y) < std::min(t.a.y, t.b.y) || std::max(t.a.y, t.b.y) < std::min(s.a.y, s.b.y)) return false;
  P q[4] = {s.a, s.b, t.a, t.b};
  for (int i = 0; i < 4; ++i) { Sg o = i < 2 ? t : s; if (q[i] != o.a && q[i] != o.b && onseg(q[i], o.a, o.b)) return true; }
  int w = sg(crs(s.a, s.b, t.a)), x = sg(crs(s.a, s.b, t.b)), y = sg(crs(t.a, t.b, s.a)), z = sg(crs(t.a, t.b, s.b));
  return w * x < 0 && y * z < 0;
}
static bool less_sg(const Sg& s, const Sg& t) { return s.a != t.a ? s.a < t.a : s.b < t.b; }
static bool same_sg(const Sg& s, const Sg& t) { return s.a == t.a && s.b == t.b; }
static Sg norm(Sg s) { if (s.b < s.a) std::swap(s.a, s.b); return s; }
static void one_case() {
  in.clear(); exact = bnd.in(0, 2) != 0; int n; i64 r; bool far = false;
  if (exact) { n = (int)bnd.in(1, 7); r = bnd.in(1, 9); } else { static const i64 R[] = {3, 8, 20, 100, 5000, 1 << 20}; r = R[bnd.in(0, 5)]; n = (int)bnd.in(1, bnd.in(0, 4) ? 12 : 45); }
  int shape = (int)bnd.in(0, 5);
  for (int i = 0; i < n; ++i) {
    Sg s; s.a.x = bnd.in(-r, r); s.a.y = bnd.in(-r, r); s.b.x = bnd.in(-r, r); s.b.y = bnd.in(-r, r);
    if (shape == 1) { if (bnd.in(0, 1)) s.b.x = s.a.x; else s.b.y = s.a.y; }
    if (shape == 2 && i && bnd.in(0, 1)) { Sg t = in[bnd.in(0, i - 1)]; s.a = bnd.in(0, 1) ? t.a : t.b; }
    if (shape == 3 && i && bnd.in(0, 1)) { Sg t = in[bnd.in(0, i - 1)]; P d = sub(t.b, t.a); i64 g = gcd(d.x, d.y); if (g) { i64 u = bnd.in(-1, g + 1), v = bnd.in(-1, g + 1); s.a.x = t.a.x + d.x / g * u; s.a.y = t.a.y + d.y / g * u; s.b.x = t.a.x + d.x / g * v; s.b.y = t.a.y + d.y / g * v; } }
    if (shape == 4) { i64 l = std::max<i64>(1, r / 4); s.b.x = s.a.x + bnd.in(-l, l); s.b.y = s.a.y + bnd.in(-1, 1); }        // nearly flat
    if (shape == 5) { i64 l = std::max<i64>(1, r / 6); far = true; s.b.x = s.a.x + bnd.in(-l, l); s.b.y = s.a.y + bnd.in(-l, l); }  // short: the input is divided into bands when there are many
    if (bnd.in(0, 12) == 0 && i) s = in[bnd.in(0, i - 1)];
    if (flat(s) && bnd.in(0, 9)) { --i; continue; }
    in.push_back(s);
  }
  if (exact) {
    i64 L = 1; for (int i = 0; i < n && L; ++i) for (int j = 0; j < i && L; ++j) { Sg s = in[i], t = in[j]; if (!meets(s.a, s.b, t.a, t.b)) continue; P d = sub(s.b, s.a), e = sub(t.b, t.a); i64 det = (i64)cross(d, e); if (!det) continue; i64 k = (i64)cross(sub(t.a, s.a), e); i64 den = std::llabs(det) / gcd(det, gcd(k * d.x, k * d.y)); L = L / gcd(L, den) * den; if (L > 40000) L = 0; }
    if (!L) return;
    for (int p = 0; p < 2; ++p) {
      for (int i = 0; i < n; ++i) { in[i].a.x *= L; in[i].a.y *= L; in[i].b.x *= L; in[i].b.y *= L; } r *= L; if (p) break;
      std::vector<P> q; for (int i = 0; i < n; ++i) { q.push_back(in[i].a); q.push_back(in[i].b); for (int j = 0; j < i; ++j) { P d = sub(in[i].b, in[i].a), e = sub(in[j].b, in[j].a), c; if (meets(in[i].a, in[i].b, in[j].a, in[j].b) && cross(d, e) && crossing(in[i], in[j], c)) q.push_back(c); } }
      double m = 1e9; for (size_t k = 0; k < q.size(); ++k) for (int i = 0; i < n; ++i) if (!onseg(q[k], in[i].a, in[i].b)) m = std::min(m, dist(q[k], in[i]));
      L = m < 1.5 ? (i64)(1.5 / m) + 1 : 1; if (bnd.in(0, 1)) L *= bnd.in(1, 5); if (L * r > (1 << 20)) return;
    }
  }
  text = S(in); bnd_case(text); bnd.sample(text); bnd.count(n > 1);
  std::vector<ST> v; for (int i = 0; i < n; ++i) v.push_back(ST(PT((int)in[i].a.x, (int)in[i].a.y), PT((int)in[i].b.x, (int)in[i].b.y)));
  // the box around all ends
  { rectangle_data<int> e; bool f = envelope_segments(e, v.begin(), v.end()); i64 b[4] = {in[0].a.x, in[0].a.x, in[0].a.y, in[0].a.y}; for (int i = 0; i < n; ++i) { P q[2] = {in[i].a, in[i].b}; for (int k = 0; k < 2; ++k) { b[0] = std::min(b[0], q[k].x); b[1] = std::max(b[1], q[k].x); b[2] = std::min(b[2], q[k].y); b[3] = std::max(b[3], q[k].y); } } if (!f || xl(e) != b[0] || xh(e) != b[1] || yl(e) != b[2] || yh(e) != b[3]) bnd.fail("envelope", text); if (envelope_segments(e, v.begin(), v.begin())) bnd.fail("envelope-empty", text); }
  std::vector<std::pair<std::size_t, ST> > out; if (bnd.in(0, 1)) out.push_back(std::make_pair((std::size_t)77, v[0])); std::size_t base = out.size(); ST keep = v[0]; intersect_segments(out, v.begin(), v.end());
  if (base && (out.size() < 1 || out[0].first != 77 || !(out[0].second == keep))) bnd.fail("append", text);
  std::vector<ST> plain; intersect_segments(plain, v.begin(), v.end()); if (plain.size() != out.size() - base) bnd.fail("forms-differ", text); else for (size_t i = 0; i < plain.size(); ++i) if (!(plain[i] == out[base + i].second)) bnd.fail("forms-differ", text);
  std::vector<std::vector<Sg> > by(n); std::vector<Sg> all;
  for (size_t i = base; i < out.size(); ++i) { P a = {x(low(out[i].second)), y(low(out[i].second))}, b = {x(high(out[i].second)), y(high(out[i].second))}; Sg s = {a, b}; if (out[i].first >= (std::size_t)n) { bnd.fail("id", text); return; } by[out[i].first].push_back(s); all.push_back(norm(s)); if (flat(s)) bnd.fail("zero-length", text + " " + S(s)); }
  for (int i = 0; i < n; ++i) {
    const std::vector<Sg>& w = by[i]; std::string at = text + " segment " + S(in[i]) + " gave " + S(w);
    if (flat(in[i])) { if (!w.empty() ) bnd.fail("point-pieces", at); continue; }
    if (w.empty()) { bnd.fail("lost", at); return; }
    // the pieces form a path from one end to the other
    for (size_t k = 0; k + 1 < w.size(); ++k) if (w[k].b != w[k + 1].a) { bnd.fail("chain", at); return; }
    P s = w[0].a, e = w.back().b; if (!((s == in[i].a && e == in[i].b) || (s == in[i].b && e == in[i].a))) { bnd.fail("ends", at); return; }
    for (size_t k = 0; k < w.size(); ++k) if (dist(w[k].a, in[i]) > 1.5) { bnd.fail("far", at); return; }
    if (exact) {
      std::set<P> cut; cut.insert(in[i].a); cut.insert(in[i].b);
      for (int j = 0; j < n; ++j) if (j != i) { Sg t = in[j]; if (onseg(t.a, in[i].a, in[i].b)) cut.insert(t.a); if (onseg(t.b, in[i].a, in[i].b)) cut.insert(t.b); P c; if (meets(in[i].a, in[i].b, t.a, t.b) && cross(sub(in[i].b, in[i].a), sub(t.b, t.a)) && crossing(in[i], t, c)) cut.insert(c); }
      std::set<P> got; for (size_t k = 0; k < w.size(); ++k) { got.insert(w[k].a); got.insert(w[k].b); } if (got != cut || w.size() + 1 != cut.size()) { std::string c; for (std::set<P>::iterator q = cut.begin(); q != cut.end(); ++q) c += " " + S(q->x) + "," + S(q->y); bnd.fail("cuts", at + " expected cuts" + c); return; }
    }
  }
  std::sort(all.begin(), all.end(), less_sg); all.erase(std::unique(all.begin(), all.end(), same_sg), all.end());
  bool clean = true; for (size_t i = 0; i < all.size() && clean; ++i) for (size_t j = i + 1; j < all.size() && all[j].a.x <= all[i].b.x; ++j) if (conflict(all[i], all[j])) { bnd.fail(exact ? "still-cross" : "still-cross-rounded", text + " pieces " + S(all[i]) + " and " + S(all[j])); clean = false; break; }
}
// does a segment meet the grid square [x,x+1) x [y,y+1)?  (the criterion by which crossings and vertices snap to segments)
static void pixel_case() {
  typedef scanline_base<int> SB; i64 r = bnd.in(0, 1) ? 6 : 1 << 20; i64 b = bnd.in(0, 3) ? 0 : (i64)bnd.in(0, 4) * 1000003;
  PT a((int)(b + bnd.in(0, r - 1)), (int)(b + bnd.in(0, r - 1))), c((int)(b + bnd.in(0, r - 1)), (int)(b + bnd.in(0, r - 1))); PT p;
  if (a == c) return;
  if (r == 6) p = PT((int)(b + bnd.in(0, 5)), (int)(b + bnd.in(0, 5))); else { i64 t = bnd.in(0, (1 << 20) - 1); p = PT((int)(a.x() + (c.x() - a.x()) * t / (1 << 20)) + (int)bnd.in(0, 2) - 1, (int)(a.y() + (c.y() - a.y()) * t / (1 << 20)) + (int)bnd.in(0, 2) - 1); }
  // parameters t in [0,1] (as fractions) at which the point of the segment is in the square
  i128 ln = 0, ld = 1, hn = 1, hd = 1; bool lstrict = false, hstrict = false, none = false;
  for (int k = 0; k < 2; ++k) {
    i64 f = k ? a.y() : a.x(), d = (k ? c.y() : c.x()) - f, q = k ? p.y() : p.x();
    if (!d) { if (f != q) none = true; continue; }
    // q <= f + t d < q + 1
    i128 n1 = q - f, n2 = q + 1 - f, dd = d; bool s1 = false, s2 = true; if (dd < 0) { dd = -dd; i128 t1 = -n2, t2 = -n1; n1 = t1; n2 = t2; s1 = true; s2 = false; }
    if (n1 * ld > ln * dd) { ln = n1; ld = dd; lstrict = s1; } else if (n1 * ld == ln * dd) lstrict |= s1;
    if (n2 * hd < hn * dd) { hn = n2; hd = dd; hstrict = s2; } else if (n2 * hd == hn * dd) hstrict |= s2;
  }
  bool e = !none && (ln * hd < hn * ld || (ln * hd == hn * ld && !lstrict && !hstrict));
  bool g = SB::intersects_grid(p, SB::half_edge(a, c)), h = SB::intersects_grid(p, SB::half_edge(c, a));
  bnd.count(e);
  if (g != e || h != e) bnd.fail("grid-square", "segment " + S(Sg{P{a.x(), a.y()}, P{c.x(), c.y()}}) + " and the square at " + S((i64)p.x()) + "," + S((i64)p.y()) + ": library " + S(g) + "/" + S(h) + ", exact " + S(e));
}
int main(int argc, char** argv) { bnd_init(argc, argv); while (bnd.more()) { for (int i = 0; i < 200; ++i) pixel_case(); one_case(); bnd_endcase(); } return bnd.done(); }
