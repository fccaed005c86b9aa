// Forming rectangles from the edges of a scan (C13): rectangle_formation::processEdge_ over a set of open rectangles of
// any size.  The set and the output are template parameters of the function; the set used here holds N sorted disjoint
// rectangles whose bounds are uninterpreted functions of the index.  One arbitrary cell [A,B] of the scan line (B = A+1),
// or one arbitrary point (B = A), is observed.
#define VP_NO_REALS
#include "vp.h"
#include <set>
#include <vector>
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include <functional>
#include <limits>
#include <iostream>
#include <sstream>
#include <string>
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
typedef rectangle_data<int> RC; typedef interval_data<int> IV;
static int A, B, CUR; static orientation_2d OR;
static int lo_(const RC& r) { return r.get(OR).get(LOW); } static int hi_(const RC& r) { return r.get(OR).get(HIGH); }
static int pl_(const RC& r) { return r.get(OR.get_perpendicular()).get(LOW); } static int ph_(const RC& r) { return r.get(OR.get_perpendicular()).get(HIGH); }
static bool covers(const RC& r) { return (lo_(r) <= A) & (hi_(r) >= B); }
static RC mk(int l, int h, int pl, int ph) { RC r; bool v = OR == orientation_2d(VERTICAL); IV a, b; a.coords_[0] = l; a.coords_[1] = h; b.coords_[0] = pl; b.coords_[1] = ph; r.ranges_[v ? 1 : 0] = a; r.ranges_[v ? 0 : 1] = b; return r; }
static int outs, out_lo, out_hi;                                            // emissions over the observed cell
struct OutC { typedef RC value_type; typedef int iterator; int end() { return 0; } void insert(int, const RC& r) { vp_assert((lo_(r) < hi_(r)) & (pl_(r) < ph_(r)), "emitted rectangles have area"); if (covers(r)) { outs += 1; out_lo = pl_(r); out_hi = ph_(r); } } };
static int EL, EH, CL, CH; static bool HAVE, closing;
#ifdef VP_VERIFY
extern "C" int vp_uf_k(const char*, i64);
static i64 N, G, er1, er2, er3; static int cnt, plow; static bool g_open; static RC cell;
static int lo(i64 i) { return vp_uf_k("lo", i); } static int hi(i64 i) { return vp_uf_k("hi", i); } static int pp(i64 i) { return vp_uf_k("pp", i); }
static void facts(i64 i) {                                                   // order, disjointness and the preconditions at one element
  bool c = (lo(i) < hi(i)) & (pp(i) <= CUR) & ((i < 1) | (hi(i - 1) < lo(i))) & ((i + 1 >= N) | (hi(i) < lo(i + 1)));
  c = c & ((i >= G) | (hi(i) < B)) & ((i <= G) | (lo(i) > A));
  if (HAVE) c = c & ((hi(i) < CL) | (lo(i) > CH));                            // the current rectangle touches no other
  bool apart = (hi(i) <= EL) | (lo(i) >= EH);                                 // an edge opens or closes all of its length
  vp_assume(closing ? c & (apart | ((lo(i) <= EL) & (hi(i) >= EH))) : c & apart);
}
struct It { i64 i; It() : i(0) {} It(i64 k) : i(k) {} It(const It& o) : i(o.i) {} It& operator=(const It& o) { i = o.i; return *this; }
  const RC& operator*() const { vp_assert((i >= 0) & (i < N) & (i != er1) & (i != er2) & (i != er3), "element of the set"); facts(i); cell = mk(lo(i), hi(i), pp(i), pp(i)); return cell; }
  bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; }
  It& operator++() { vp_assert(i < N, "increment within the set"); i += 1; return *this; } It& operator--() { vp_assert(i > 0, "decrement within the set"); i -= 1; return *this; } };
struct Scan { typedef It iterator;
  bool empty() { return N == 0; } It begin() { return It(0); } It end() { return It(N); }
  It lower_bound(const RC& k) { i64 b = vp_any_i64("lb"); vp_assume((b >= 0) & (b <= N));
    int v = lo_(k); if (b < N) { facts(b); vp_assume(lo(b) >= v); } if (b > 0) { facts(b - 1); vp_assume(lo(b - 1) <= v); } return It(b); }
  void erase(const It& t) { vp_assert((t.i >= 0) & (t.i < N) & (t.i != er1) & (t.i != er2) & (t.i != er3), "erase an element once"); er3 = er2; er2 = er1; er1 = t.i; if (t.i == G) { if (g_open) { cnt -= 1; } g_open = false; } }
  void insert(const RC& r) { vp_assert((lo_(r) < hi_(r)) & (pl_(r) == CUR) & (ph_(r) == CUR), "inserted rectangles start at the scan position and have length"); if (covers(r)) { cnt += 1; plow = CUR; } }
  It insert(const It& t, const RC& r) { insert(r); return t; } };
#else
struct Scan : std::set<RC, less_rectangle_concept<RC, RC> > { Scan() : std::set<RC, less_rectangle_concept<RC, RC> >(less_rectangle_concept<RC, RC>(OR)) {} };
#endif
static void run(int o, bool have, bool is_closing, bool pointwise) {
  OR = orientation_2d(o ? VERTICAL : HORIZONTAL); HAVE = have; closing = is_closing; outs = 0;
#ifdef VP_VERIFY
  CUR = vp_any_i32("cur"); EL = vp_any_i32("el"); EH = vp_any_i32("eh"); A = vp_any_i32("at"); vp_assume(EL < EH); vp_assume(pointwise | (A < 2147483647)); B = pointwise ? A : A + 1;
  if (have) { CL = vp_any_i32("cl"); CH = vp_any_i32("ch"); vp_assume((CL < CH) & (CL < EL)); vp_assume((CH >= EH) | (CH <= EL)); } else CL = CH = 0;
  N = vp_any_i64("n"); G = vp_any_i64("g"); vp_assume((N >= 0) & (N <= (1 << 30)) & (G >= 0) & (G <= N)); er1 = er2 = er3 = -1; cnt = 0; plow = 0; g_open = false;
  if (G < N) { facts(G); g_open = (lo(G) <= A) & (hi(G) >= B); vp_assume(g_open | (lo(G) > A)); cnt = g_open ? 1 : 0; plow = pp(G); }
  bool cin = have & (CL <= A) & (CH >= B); if (cin) { cnt += 1; plow = CUR; }
  RC cr = mk(CL, CH, CUR, CUR); Scan s;
  // which kind of edge: some open rectangle contains it, or none does
  i64 w = vp_any_i64("inside"); bool in_cur = have & (CH >= EH);
  if (is_closing) { if (!in_cur) { vp_assume((w >= 0) & (w < N)); facts(w); vp_assume((lo(w) <= EL) & (hi(w) >= EH)); } }
  else { vp_assume(!in_cur); if ((A >= EL) & (B <= EH) & (A < B)) vp_assume(cnt == 0); }
#else
  Scan s; A = (int)vp_range("at", 0, 40); B = pointwise ? A : A + 1; CUR = 100; std::vector<int> c; int x = 0; for (;;) { x += 1 + (int)vp_range("gap", 0, 5); int y = x + 1 + (int)vp_range("len", 0, 9); if (y > 40) break; c.push_back(x); c.push_back(y); x = y; }
  EL = (int)vp_range("el", 0, 39); EH = EL + 1 + (int)vp_range("elen", 0, 6); int ci = have ? 2 * (int)vp_range("ci", 0, 10) : -1; vp_assume(!have || ci < (int)c.size()); bool in = false, bad = false; CL = CH = 0;
  for (size_t i = 0; i < c.size(); i += 2) { if ((int)i == ci) { CL = c[i]; CH = c[i + 1]; if (!(CL < EL)) bad = true; } else s.insert(mk(c[i], c[i + 1], (int)vp_range("p", 90, 100), 0)); if (c[i] <= EL && c[i + 1] >= EH) in = true; else if (!(c[i + 1] <= EL || c[i] >= EH)) bad = true; }
  { Scan q; for (Scan::iterator i = s.begin(); i != s.end(); ++i) { int p = std::max(pl_(*i), 1); q.insert(mk(lo_(*i), hi_(*i), p, p)); } s.swap(q); }
  vp_assume(!bad && in == is_closing); RC cr = mk(CL, CH, CUR, CUR); int cnt = 0, plow = 0; for (Scan::iterator i = s.begin(); i != s.end(); ++i) if (covers(*i)) { ++cnt; plow = pl_(*i); } if (have && covers(cr)) { ++cnt; plow = CUR; }
#endif
  int cnt0 = cnt, low0 = plow; bool h = have; OutC out; IV edge(EL, EH);
  vp_assume(cnt0 <= 1);
  rectangle_formation::processEdge_(out, s, edge, h, cr, CUR, OR);
#ifdef VP_VERIFY
  if (have) cnt -= cin ? 1 : 0;
#else
  cnt = 0; for (Scan::iterator i = s.begin(); i != s.end(); ++i) if (covers(*i)) { ++cnt; plow = pl_(*i); }
#endif
  if (h) { vp_assert((lo_(cr) < hi_(cr)) & (pl_(cr) == CUR) & (ph_(cr) == CUR), "the current rectangle starts at the scan position and has length"); vp_assert(is_closing ? lo_(cr) <= EH : lo_(cr) < EH, "the current rectangle starts below the end of the edge"); if (covers(cr)) { cnt += 1; plow = CUR; } }
  if (pointwise) { vp_assert(cnt <= 1, "open rectangles neither overlap nor touch"); return; }
  bool inside = (EL <= A) & (B <= EH); vp_assert(!is_closing | !inside | (cnt0 == 1), "a closing edge closes an open cell");
  vp_assert((cnt == 1) == ((cnt0 == 1) != inside) && cnt <= 1, "exactly the cells of the edge change between open and closed");
  if (cnt0) {
    if (outs != 0) { vp_assert((outs == 1) & (out_lo == low0) & (out_hi == CUR), "what was open is emitted once, from where it was opened to the scan position"); vp_assert((cnt == 0) | (plow == CUR), "what stays open starts anew"); vp_cover("emitted"); }
    else vp_assert(((cnt == 1) & (plow == low0)) | (low0 == CUR), "what is not emitted stays open as it was");
  } else { vp_assert(outs == 0, "nothing is emitted where nothing was open"); vp_assert((cnt == 0) | (plow == CUR), "what opens starts at the scan position"); }
}
#define H4(o, nm) HARNESS(h_C13r_open_##nm) { run(o, false, false, false); } HARNESS(h_C13r_close_##nm) { run(o, false, true, false); } \
  HARNESS(h_C13r_open_current_##nm) { run(o, true, false, false); } HARNESS(h_C13r_close_current_##nm) { run(o, true, true, false); } \
  HARNESS(h_C13r_apart_open_##nm) { run(o, false, false, true); } HARNESS(h_C13r_apart_close_##nm) { run(o, false, true, true); } \
  HARNESS(h_C13r_apart_open_current_##nm) { run(o, true, false, true); } HARNESS(h_C13r_apart_close_current_##nm) { run(o, true, true, true); }
// @harnesses: h_C13r_open_h h_C13r_close_h h_C13r_open_current_h h_C13r_close_current_h h_C13r_apart_open_h h_C13r_apart_close_h h_C13r_apart_open_current_h h_C13r_apart_close_current_h h_C13r_open_v h_C13r_close_v h_C13r_open_current_v h_C13r_close_current_v h_C13r_apart_open_v h_C13r_apart_close_v h_C13r_apart_open_current_v h_C13r_apart_close_current_v
H4(0, h) H4(1, v)
// the set of open rectangles is ordered by the lower end along the scan line first
HARNESS(h_C13r_order) {
  RC a, b; int v[8]; for (int i = 0; i < 8; ++i) v[i] = vp_any_i32("v"); OR = orientation_2d(vp_any_bool("o") ? VERTICAL : HORIZONTAL);
  vp_assume((v[0] <= v[1]) & (v[2] <= v[3]) & (v[4] <= v[5]) & (v[6] <= v[7])); a = mk(v[0], v[1], v[2], v[3]); b = mk(v[4], v[5], v[6], v[7]);
  less_rectangle_concept<RC, RC> lt(OR); bool l = lt(a, b); vp_assert(!l | (v[0] <= v[4]), "the first of two has the lower start"); vp_assert(l | (v[0] >= v[4]), "the lower start is first");
  rectangle_formation::ScanLineToRects<RC> sl(OR, a); vp_assert(sl.scanData_.key_comp().orient_ == OR && sl.orient_ == OR && !sl.haveCurrentRect_, "the scan uses this order");
}
