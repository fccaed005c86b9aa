// Forming rectangles from the edges of a scan (C13): the loop of form_rectangles over a stream of any length, against
// the contract of ScanLineToRects::processEdge (its body is the subject of rectform.cpp).
#define VP_NO_REALS
#include "vp.h"
#include <set>
#include <vector>
#include <algorithm>
#include <climits>
#include <cmath>
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
typedef std::pair<int, std::pair<int, int> > Ent;         // stored edge: scan coordinate, position, count
typedef rectangle_data<int> RC; typedef rectangle_formation::ScanLineToRects<RC> SL;
#ifdef VP_VERIFY
extern "C" int vp_uf_p(const char*, i64);
static i64 N, NEXT; static int gcur, moved;                // entries, the first one not handled yet, the scan coordinate told to the scan line
static int pos(i64 i) { return vp_uf_p("pos", i); } static int yy(i64 i) { return vp_uf_p("y", i); } static int cc(i64 i) { return vp_uf_p("c", i); } static int ss(i64 i) { return vp_uf_p("s", i); }
static void facts(i64 i) {                                 // precondition: sorted, no entry is void, the sums at a scan coordinate are -1, 0 or 1 and end at 0
  int p = pos(i), a = pos(i - 1), b = pos(i + 1), s = ss(i), c = cc(i);
  bool first = (i == 0) | (a != p), last = (i + 1 >= N) | (b != p);
  vp_assume(((i == 0) | (a < p) | ((a == p) & (yy(i - 1) < yy(i)))) & (last | (yy(i) < yy(i + 1))) & ((i + 1 >= N) | (p <= b)) & (c != 0) & (s >= -1) & (s <= 1) & (c >= -2) & (c <= 2) & ((i64)s == (i64)c + (first ? 0 : (i64)ss(i - 1))) & (!last | (s == 0)));
}
struct EIt {
  i64 i; mutable Ent cell; EIt() : i(0), cell() {} EIt(i64 k) : i(k), cell() {} EIt(const EIt& o) : i(o.i), cell() {} EIt& operator=(const EIt& o) { i = o.i; return *this; }
  Ent& operator*() const { vp_assert((i >= 0) & (i < N), "inside the stream"); facts(i); cell.first = pos(i); cell.second.first = yy(i); cell.second.second = cc(i); return cell; }
  EIt& operator++() { vp_assert((i >= 0) & (i < N), "inside the stream"); ++i; return *this; }
  bool operator==(const EIt& o) const { return i == o.i; } bool operator!=(const EIt& o) const { return i != o.i; }
};
struct Out { typedef RC value_type; };
namespace boost { namespace polygon { namespace rectangle_formation {
  template <> inline SL& SL::nextMajorCoordinate(int x) { vp_assert((NEXT < N) & (moved == 0), "the scan moves when an entry follows"); facts(NEXT); vp_assert((x == pos(NEXT)) & ((NEXT == 0) | (pos(NEXT - 1) < x)), "the scan moves on, to the next scan coordinate"); gcur = x; return *this; }
  // contract of processEdge: toggles the cells of the edge at the scan coordinate
  template <> template <> inline SL& SL::processEdge(Out&, const interval_data<int>& e) {
    vp_assert((NEXT >= 0) & (NEXT + 1 < N), "an edge has two ends in the stream"); facts(NEXT); facts(NEXT + 1);
    vp_assert((gcur == pos(NEXT)) & (pos(NEXT + 1) == gcur) & (e.coords_[0] == yy(NEXT)) & (e.coords_[1] == yy(NEXT + 1)), "the edge runs between consecutive entries of the scan coordinate");
    vp_assert(ss(NEXT) != 0, "there is an edge between the entries");
    NEXT = NEXT + (ss(NEXT + 1) != 0 ? 1 : 2); if (NEXT < N) facts(NEXT); return *this; }   // an interval whose sum is 0 holds no edge
} } }
HARNESS(h_C13f_loop) {
  N = vp_any_i64("n"); vp_assume((N >= 0) & (N <= (1 << 30))); NEXT = 0; gcur = INT_MAX; moved = 0; Out out; int z = ss(0) + 0 * pos(0); vp_assume(z == z); if (N > 0) facts(0);
  form_rectangles(out, EIt(0), EIt(N), orientation_2d(HORIZONTAL), rectangle_concept());
  vp_assert(NEXT == N, "every edge of every scan coordinate is handed on, once and in order");
}
#else
HARNESS(h_C13f_loop) {
  std::vector<Ent> v; int n = vp_range("n", 0, 4), x = 0; std::vector<std::vector<int> > cells;
  for (int k = 0; k < n; ++k) { x += vp_range("dx", 1, 3); int y = vp_range("y", -2, 2), s = 0, m = vp_range("m", 1, 3);
    for (int j = 0; j < m; ++j) { int t = vp_range("t", -1, 1); if (t != s) v.push_back(Ent(x, std::pair<int, int>(y, t - s))); s = t; y += vp_range("dy", 1, 2); }
    if (s) v.push_back(Ent(x, std::pair<int, int>(y, -s))); }
  // the region of the stream: close it at the end so that every cell ends outside
  std::vector<int> in(40, 0); for (std::size_t i = 0; i < v.size(); ++i) for (int q = v[i].second.first; q < 30; ++q) in[q + 8] += v[i].second.second;
  bool ok = true; { std::vector<int> w(40, 0); std::size_t i = 0; while (i < v.size()) { int p = v[i].first; for (; i < v.size() && v[i].first == p; ++i) for (int q = v[i].second.first; q < 30; ++q) w[q + 8] += v[i].second.second; for (int q = 0; q < 40; ++q) if (w[q] < 0 || w[q] > 1) ok = false; } }
  vp_assume(ok);
  int s = 0; ++x; for (int q = 0; q < 40; ++q) { if (in[q] != s) v.push_back(Ent(x, std::pair<int, int>(q - 8, s - in[q]))); s = in[q]; }
  if (s) v.push_back(Ent(x, std::pair<int, int>(32, s)));
  std::vector<RC> out; form_rectangles(out, v.begin(), v.end(), orientation_2d(VERTICAL), rectangle_concept());
  for (int c = 0; c < x; ++c) for (int q = -8; q < 30; ++q) { int w = 0, k = 0; for (std::size_t i = 0; i < v.size(); ++i) if (v[i].first <= c && v[i].second.first <= q) w += v[i].second.second;
    for (std::size_t i = 0; i < out.size(); ++i) if (xl(out[i]) <= c && c < xh(out[i]) && yl(out[i]) <= q && q < yh(out[i])) ++k;
    vp_assert(k == w, "every edge of every scan coordinate is handed on, once and in order"); }
}
#endif
