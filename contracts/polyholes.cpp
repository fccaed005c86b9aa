// Measures of and containment in polygons with any number of holes, against the contracts of the single-boundary
// functions (proved in polyloop.cpp); C09, C10.
#define VP_NO_REALS
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
static i64 N;                                        // number of holes
struct Ghost { i64 i; i64 sum; i64 len; bool all45, in; int ct; } G;
#ifdef VP_VERIFY
extern "C" int vp_uf_area(const char*, i64); extern "C" int vp_uf_len(const char*, i64); extern "C" int vp_uf_oct(const char*, i64); extern "C" int vp_uf_has(const char*, i64, int);
static int area_of(i64 k) { return vp_uf_area("area", k); }
static int len_of(i64 k) { int r = vp_uf_len("len", k); vp_assume(r >= 0); return r; }
static bool oct(i64 k) { return vp_uf_oct("oct", k) != 0; }
static bool has(i64 k, bool t) { return vp_uf_has("has", k, t) != 0; }
#else
// native: boundary k is a real rectilinear (or sheared, when not octilinear) loop around the origin of its own
static std::vector<int> SX, SY, SK, CX, CY; static int QX, QY;
static int area_of(i64 k) { int a = SX[k + 1] * SY[k + 1]; return SK[k + 1] & 1 ? a : -a; }
static int len_of(i64 k) { return 2 * (SX[k + 1] + SY[k + 1]); }
static bool oct(i64 k) { return SK[k + 1] < 2; }
static bool has(i64 k, bool t) { int x = QX - CX[k + 1], y = QY - CY[k + 1]; bool e = x >= 0 && x <= SX[k + 1] && y >= 0 && y <= SY[k + 1], i = x > 0 && x < SX[k + 1] && y > 0 && y < SY[k + 1]; return t ? e : i; }
#endif
struct Jt {                                          // walks boundary id: a rectangle
  typedef std::forward_iterator_tag iterator_category; typedef PT value_type; typedef std::ptrdiff_t difference_type; typedef const PT* pointer; typedef PT reference;
  i64 id; int k; Jt() : id(0), k(0) {} Jt(i64 d, int p) : id(d), k(p) {}
  PT operator*() const {
#ifdef VP_VERIFY
    return PT(0, 0);
#else
    int w = SX[id + 1], h = SY[id + 1], c = SK[id + 1] & 1 ? k : (4 - k) % 4, sx = SK[id + 1] >= 2 && (c == 1 || c == 2) ? h + 1 : 0; (void)sx;
    int x = c == 2 || c == 3 ? w : 0, y = c == 1 || c == 2 ? h : 0;
    if (SK[id + 1] >= 2 && (c == 1 || c == 2)) x += h + 1;    // sheared: same area, not octilinear
    return PT(CX[id + 1] + x, CY[id + 1] + y);
#endif
  }
  Jt& operator++() { ++k; return *this; } Jt operator++(int) { Jt t(*this); ++k; return t; }
  bool operator==(const Jt& o) const { return k == o.k; } bool operator!=(const Jt& o) const { return k != o.k; }
};
struct HoleT { i64 id; };
struct HIt {
  typedef std::forward_iterator_tag iterator_category; typedef HoleT value_type; typedef std::ptrdiff_t difference_type; typedef const HoleT* pointer; typedef const HoleT& reference;
  HoleT h; HIt(i64 k) { h.id = k; }
  // (at most 2^20 holes of less than 2^31 each)
  static void small() { vp_assume(G.sum < (1ll << 53) && G.sum > -(1ll << 53) && G.len < (1ll << 53)); }
  const HoleT& operator*() const { small(); return h; } const HoleT* operator->() const { return &h; }
  HIt& operator++() {
    small();
    i64 a = area_of(h.id); G.sum -= a < 0 ? -a : a; G.len += len_of(h.id); if (!oct(h.id)) G.all45 = false; if (has(h.id, !G.ct)) G.in = true;
    ++h.id; G.i = h.id; return *this;
  }
  bool operator==(const HIt& o) const { return h.id == o.h.id; } bool operator!=(const HIt& o) const { return h.id != o.h.id; }
};
struct PolyH {};
namespace boost { namespace polygon {
  template <> struct geometry_concept<HoleT> { typedef polygon_90_concept type; };
  template <> struct geometry_concept<PolyH> { typedef polygon_90_with_holes_concept type; };
  template <> struct polygon_traits<HoleT> { typedef int coordinate_type; typedef Jt iterator_type; typedef PT point_type; static Jt begin_points(const HoleT& h) { return Jt(h.id, 0); } static Jt end_points(const HoleT& h) { return Jt(h.id, 4); } static std::size_t size(const HoleT&) { return 4; } static winding_direction winding(const HoleT&) { return unknown_winding; } };
  template <> struct polygon_traits<PolyH> { typedef int coordinate_type; typedef Jt iterator_type; typedef PT point_type; static Jt begin_points(const PolyH&) { return Jt(-1, 0); } static Jt end_points(const PolyH&) { return Jt(-1, 4); } static std::size_t size(const PolyH&) { return 4; } static winding_direction winding(const PolyH&) { return unknown_winding; } };
  template <> struct polygon_with_holes_traits<PolyH> { typedef HIt iterator_holes_type; typedef HoleT hole_type; static HIt begin_holes(const PolyH&) { return HIt(0); } static HIt end_holes(const PolyH&) { return HIt(N); } static std::size_t size_holes(const PolyH&) { return N; } };
} }
#ifdef VP_VERIFY
extern "C" i64 c_area(i64 ida, int ka, i64 idb, int kb) { vp_assert(ida == idb && ka == 0 && kb == 4, "the whole of one boundary"); return area_of(ida); }
extern "C" i64 c_len(i64 ida, int ka, i64 idb, int kb) { vp_assert(ida == idb && ka == 0 && kb == 4, "the whole of one boundary"); return len_of(ida); }
extern "C" bool c_oct(i64 ida, int ka, i64 idb, int kb) { vp_assert(ida == idb && ka == 0 && kb == 4, "the whole of one boundary"); return oct(ida); }
static int QX, QY;
extern "C" bool c_has_outer(const void*, const PT* p, bool t) { vp_assert(p->x() == QX && p->y() == QY, "asked about the query point"); return has(-1, t); }
extern "C" bool c_has_hole(const HoleT* h, const PT* p, bool t) { vp_assert(p->x() == QX && p->y() == QY, "asked about the query point"); return has(h->id, t); }
#endif
static void start() {
#ifdef VP_VERIFY
  N = vp_range("holes", 0, 1 << 20);
#else
  N = vp_range("holes", 0, 4); SX.clear(); SY.clear(); SK.clear(); CX.clear(); CY.clear();
  for (i64 k = 0; k <= N; ++k) { SX.push_back((int)vp_range("w", 1, 9)); SY.push_back((int)vp_range("h", 1, 9)); SK.push_back((int)vp_range("kind", 0, 1)); CX.push_back((int)vp_range("cx", -5, 5)); CY.push_back((int)vp_range("cy", -5, 5)); }
#endif
  i64 a = area_of(-1); G.i = 0; G.sum = a < 0 ? -a : a; G.len = len_of(-1); G.all45 = oct(-1); G.in = false; G.ct = 0;
}
HARNESS(h_C09h_area) { start(); PolyH p; long long a = area(p); vp_assert(a == G.sum, "outer area minus the areas of all holes"); vp_assert(G.i == N, "every hole was counted"); }
HARNESS(h_C09h_perimeter) { start(); PolyH p; long long a = perimeter(p); vp_assert(a == G.len, "outer length plus the lengths of all holes"); vp_assert(G.i == N, "every hole was counted"); }
HARNESS(h_C09h_is_45) {
  start(); 
#ifndef VP_VERIFY
  SK[vp_range("skewed", 0, N)] = (int)vp_range("kind", 0, 3);
  G.all45 = oct(-1);
#endif
  PolyH p; bool r = is_45(p); if (G.i < N && !r && oct(-1)) { bool o = oct(G.i); if (!o) G.all45 = false; }
  vp_assert(r == G.all45, "octilinear exactly when every boundary is"); if (r) vp_assert(G.i == N, "every hole was looked at");
}
HARNESS(h_C10h_contains) {
  start(); QX = (int)vp_range("qx", -5, 14); QY = (int)vp_range("qy", -5, 14); bool ct = vp_any_bool("touch"); G.ct = ct; PolyH p;
  bool r = contains(p, PT(QX, QY), ct);
  if (!r && has(-1, ct) && G.i < N) { if (has(G.i, !ct)) G.in = true; }
  vp_assert(r == (has(-1, ct) && !G.in), "inside the outer boundary and outside every hole, boundaries as the caller asked"); if (r) vp_assert(G.i == N, "every hole was looked at");
}
