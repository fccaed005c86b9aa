// Sets of segments (C17): the envelope of any number of segments, over a user-defined segment sequence.
#define VP_NO_REALS
#include "vp.h"
#include <vector>
#include <cmath>
#include <algorithm>
#include <map>
static i64 N;
static int gxl, gxh, gyl, gyh;       // smallest and largest coordinates of the segments passed
#ifdef VP_VERIFY
extern "C" int vp_uf_px(const char*, i64);
static int px(i64 i) { return vp_uf_px("px", i); } static int py(i64 i) { return vp_uf_px("py", i); } static int ux(i64 i) { return vp_uf_px("ux", i); } static int uy(i64 i) { return vp_uf_px("uy", i); }
#else
static std::map<i64, int> M[4];
static int pick(int k, const char* n, i64 i) { if (!M[k].count(i)) M[k][i] = vp_any_i32(n); return M[k][i]; }
static int px(i64 i) { return pick(0, "px", i); } static int py(i64 i) { return pick(1, "py", i); } static int ux(i64 i) { return pick(2, "ux", i); } static int uy(i64 i) { return pick(3, "uy", i); }
#endif
static int lo(int a, int b) { return a < b ? a : b; } static int hi(int a, int b) { return a > b ? a : b; }
#include <boost/polygon/polygon.hpp>
#include <boost/polygon/segment_utils.hpp>
using namespace boost::polygon;
typedef segment_data<int> SD; typedef point_data<int> PT;
struct SIt {
  typedef std::forward_iterator_tag iterator_category; typedef SD value_type; typedef std::ptrdiff_t difference_type; typedef const SD* pointer; typedef SD reference;
  i64 i; SIt(i64 k) : i(k) {}
  SD operator*() const { vp_assert(i >= 0 && i < N, "inside the sequence"); return SD(PT(px(i), py(i)), PT(ux(i), uy(i))); }
  SIt& operator++() {
    int a = lo(px(i), ux(i)), b = hi(px(i), ux(i)), c = lo(py(i), uy(i)), d = hi(py(i), uy(i));
    gxl = i == 0 ? a : lo(gxl, a); gxh = i == 0 ? b : hi(gxh, b); gyl = i == 0 ? c : lo(gyl, c); gyh = i == 0 ? d : hi(gyh, d); ++i; return *this; }
  SIt operator++(int) { SIt t(*this); ++*this; return t; }
  bool operator==(const SIt& o) const { return i == o.i; } bool operator!=(const SIt& o) const { return i != o.i; }
};
HARNESS(h_C17_envelope) {
  N = vp_any_i64("n");
#ifndef VP_VERIFY
  N &= 15; for (int k = 0; k < 4; ++k) M[k].clear();
#endif
  vp_assume(N >= 0 && N <= (1 << 30)); gxl = gxh = gyl = gyh = 0;
  rectangle_data<int> r(0, 0, 0, 0); bool any = envelope_segments(r, SIt(0), SIt(N));
  vp_assert(any == (N > 0), "an envelope exactly if there is a segment");
  if (any) vp_assert(xl(r) == gxl && xh(r) == gxh && yl(r) == gyl && yh(r) == gyh, "smallest and largest coordinates of all ends");
}
