// Bounded: directed edges of rectangles and rectilinear polygons with holes, and the compact form of the library types.
#include "geo.h"
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/detail/iterator_geometry_to_set.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
static std::vector<PT> pts(const Loop& l) { std::vector<PT> r; for (size_t i = 0; i < l.size(); ++i) r.push_back(PT((int)l[i].x, (int)l[i].y)); return r; }
static std::string text;
struct E { i64 x, y; int w; };
template <class C, class T> static std::vector<E> edges(const T& p, orientation_2d o, bool hole) {
  typedef iterator_geometry_to_set<C, T> I; std::vector<E> r; I i(p, LOW, o, hole), e(p, HIGH, o, hole);
  for (int n = 0; i != e; ++i) { if (++n > 5000) { bnd.fail("geometry-to-set-endless", text); break; } std::pair<int, std::pair<int, int> > v = *i; E k; k.x = o == HORIZONTAL ? v.second.first : v.first; k.y = o == HORIZONTAL ? v.first : v.second.first; k.w = v.second.second; r.push_back(k); }
  return r;
}
static void cells(const std::vector<E>& es, const std::vector<Loop>& ls, bool hole, const char* what) {
  for (int t = 0; t < 40; ++t) {
    const Loop& l = ls[bnd.in(0, (i64)ls.size() - 1)]; i64 X = l[bnd.in(0, (i64)l.size() - 1)].x + bnd.in(-2, 1), Y = l[bnd.in(0, (i64)l.size() - 1)].y + bnd.in(-2, 1);
    // the unit cell [X,X+1]x[Y,Y+1]: test its centre on doubled coordinates
    int want = 0; for (size_t k = 0; k < ls.size(); ++k) { Loop d = mapped(ls[k], 2, 0, 0); P c = {2 * X + 1, 2 * Y + 1}; if (where(c, d) > 0) want += k ? -1 : 1; }
    if (hole) want = -want;
    i64 sum = 0; for (size_t k = 0; k < es.size(); ++k) if (es[k].x <= X && es[k].y <= Y) sum += es[k].w;
    if (sum != want) { bnd.fail(what, text + " cell " + S(X) + "," + S(Y) + " counts " + S(sum)); return; }
  }
}
int main(int argc, char** argv) {
  bnd_init(argc, argv);
  while (bnd.more()) {
    Loop o = polyomino((int)bnd.in(1, 6), (int)bnd.in(1, 6), (int)bnd.in(0, 20)); rotate_start(o); std::vector<Loop> ls;
    i64 sc = 9; o = mapped(o, sc, bnd.in(-20, 20), bnd.in(-20, 20)); ls.push_back(o); int want = (int)bnd.in(0, 3);
    for (int t = 0; t < 40 && (int)ls.size() <= want; ++t) { Loop h = polyomino((int)bnd.in(1, 3), (int)bnd.in(1, 3), (int)bnd.in(0, 6)); rotate_start(h); P b = o[bnd.in(0, (i64)o.size() - 1)]; h = mapped(h, 1, b.x + bnd.in(-9, 9), b.y + bnd.in(-9, 9)); if (!strictly_inside(h, o)) continue; bool ok = true; for (size_t k = 1; k < ls.size(); ++k) ok = ok && apart(h, ls[k]); if (ok) ls.push_back(h); }
    text = S(ls); bnd_case(text); bnd.count(o.size() > 4); bnd.sample(text);
    bool hole = bnd.in(0, 1); orientation_2d r = bnd.in(0, 1) ? HORIZONTAL : VERTICAL;
    std::vector<PT> v = pts(o); polygon_90_data<int> p; p.set(v.begin(), v.end()); polygon_90_with_holes_data<int> q; q.set(v.begin(), v.end());
    std::vector<polygon_90_data<int> > hs; for (size_t k = 1; k < ls.size(); ++k) { std::vector<PT> w = pts(ls[k]); polygon_90_data<int> h; h.set(w.begin(), w.end()); hs.push_back(h); } q.set_holes(hs.begin(), hs.end());
    std::vector<Loop> just(1, o);
    cells(edges<polygon_90_concept>(p, r, hole), just, hole, "polygon-edges"); cells(edges<polygon_90_with_holes_concept>(q, r, hole), ls, hole, "polygon-with-holes-edges");
    rectangle_data<int> b; extents(b, p); Loop bx; P c[4] = {{xl(b), yl(b)}, {xh(b), yl(b)}, {xh(b), yh(b)}, {xl(b), yh(b)}}; bx.assign(c, c + 4);
    cells(edges<rectangle_concept>(b, r, hole), std::vector<Loop>(1, bx), hole, "rectangle-edges");
    // compact form
    std::vector<int> co(p.begin_compact(), p.end_compact()); polygon_90_data<int> p2; p2.set_compact(co.begin(), co.end()); Loop got; for (polygon_90_data<int>::iterator_type i = p2.begin(); i != p2.end(); ++i) { P g = {x(*i), y(*i)}; got.push_back(g); }
    if (!same_cycle(got, o)) bnd.fail("compact", text + " gives " + S(got)); if (!(p == p2)) bnd.fail("compact-copy", text);
    polygon_90_data<int> p3; p3.set(p.begin(), p.end()); if (!(p3 == p)) bnd.fail("compact-round-trip", text);
    bnd_endcase();
  }
  return bnd.done();
}
