// Rectilinear sets as stored (C14, C26): the loops over the stored edges of a set of any size, and the sizing of one vertex.
// The stored edges live in a specialisation of std::vector that records the entry at one arbitrary but fixed position.
#define VP_NO_REALS
#include "vp.h"
#include <vector>
#include <list>
#include <cmath>
#include <algorithm>
typedef std::pair<int, std::pair<int, int> > ED;      // stored edge: scan coordinate, position, count
static i64 N, K;
static ED kept, other; static int inbox;
#ifdef VP_VERIFY
extern "C" int vp_uf_im(const char*, int, int); extern "C" int vp_uf_id(const char*, int); extern "C" i64 vp_uf_ar(const char*, int);
static int imx(int x, int y) { return vp_uf_im("imx", x, y); }
static int imy(int x, int y) { return vp_uf_im("imy", x, y); }
#else
static int imx(int x, int y) { return 3 * x - y; }
static int imy(int x, int y) { return x + 2 * y; }
#endif
static int small_any(const char* n, int lim) {
#ifndef VP_VERIFY
  if (n[0] == 'o') return lim > 5 ? 5 : lim;
#endif
  int v = vp_any_i32(n); vp_assume(v >= -lim && v <= lim); return v; }
static void boxed();
struct EdIt {
  typedef std::forward_iterator_tag iterator_category; typedef ED value_type; typedef std::ptrdiff_t difference_type; typedef ED* pointer; typedef ED& reference;
  i64 i; EdIt() : i(0) {} EdIt(i64 k) : i(k) {}
  ED& operator*() const { vp_assert(i >= 0 && i < N, "inside the sequence"); if (vp_pathsplit(i == K)) return kept; other.first = small_any("o1", 1 << 28); other.second.first = small_any("o2", 1 << 28); other.second.second = small_any("o3", 1 << 20); boxed(); return other; }
  EdIt& operator++() { ++i; return *this; }
  bool operator==(const EdIt& o) const { return i == o.i; } bool operator!=(const EdIt& o) const { return i != o.i; }
};
namespace boost { namespace polygon { template <typename T> class polygon_90_data; } }
typedef boost::polygon::polygon_90_data<int> P90;
static P90& piece(); static i64 CUR, GONE; static int goneK;
struct LIt {
  typedef std::forward_iterator_tag iterator_category; typedef P90 value_type; typedef std::ptrdiff_t difference_type; typedef P90* pointer; typedef P90& reference;
  i64 i; LIt() : i(0) {} LIt(i64 k) : i(k) {}
  P90& operator*() const { vp_assert(i >= 0 && i < N && i > GONE, "a piece still there"); CUR = i; return piece(); }
  LIt& operator++() { vp_assert(i >= 0 && i < N && i > GONE, "a piece still there"); ++i; return *this; }
  bool operator==(const LIt& o) const { return i == o.i; } bool operator!=(const LIt& o) const { return i != o.i; }
};
namespace std {
  template <> class vector<ED, allocator<ED> > { public:
    typedef EdIt iterator; typedef EdIt const_iterator; typedef ED value_type; typedef std::size_t size_type;
    vector() {} vector(const vector&) {}
    EdIt begin() const { return EdIt(0); } EdIt end() const { return EdIt(N); }
    std::size_t size() const { return N; } bool empty() const { return N == 0; } void clear() {} void reserve(std::size_t) {}
    ED& operator[](std::size_t k) const { return *EdIt(k); }
    template <class I> void insert(EdIt, I, I) { vp_assert(false, "nothing is inserted"); }
    void push_back(const ED&) { vp_assert(false, "nothing is inserted"); } ED& back() const { return *EdIt(N - 1); }
  };
  template <> class list<P90, allocator<P90> > { public:
    typedef LIt iterator; typedef LIt const_iterator; typedef P90 value_type; typedef std::size_t size_type;
    list() {} LIt begin() const { return LIt(0); } LIt end() const { return LIt(N); }
    LIt erase(LIt it) { vp_assert(it.i >= 0 && it.i < N && it.i > GONE, "each piece is removed at most once"); GONE = it.i; if (it.i == K) ++goneK; return LIt(it.i + 1); }
    void clear() { vp_assert(false, "no"); } void push_back(const P90&) { vp_assert(false, "no"); } template <class I, class X> LIt insert(I, const X&) { vp_assert(false, "no"); return LIt(0); } bool empty() const { return N == 0; } std::size_t size() const { return N; }
  };
}
#define private public
#include <boost/polygon/polygon.hpp>
#undef private
using namespace boost::polygon;
typedef polygon_90_set_data<int> S90; typedef point_data<int> PT;
// contract of clean(): the stored edges describe the same region, sorted and merged (checked, bounded, under C12)
namespace boost { namespace polygon { template <> inline void polygon_90_set_data<int>::clean() const {} template <> inline void polygon_90_set_data<int>::sort() const {} } }
static int X0, Y0, C0, WX, WY, WC;                 // the observed entry before and (wanted) after, as a point and a count
static void edge(bool vert) {
  N = vp_any_i64("n");
#ifndef VP_VERIFY
  N = 1 + (N & 31); K = vp_any_i64("k"); K = (K & 0x7fffffff) % N;
#else
  K = vp_any_i64("k"); vp_assume(N >= 1 && N <= (1 << 30) && K >= 0 && K < N);
#endif
  X0 = small_any("x", 1 << 28); Y0 = small_any("y", 1 << 28); C0 = small_any("c", 1 << 20);
  kept.first = vert ? X0 : Y0; kept.second.first = vert ? Y0 : X0; kept.second.second = C0;
}
static bool wanted(bool vert) { return kept.first == (vert ? WX : WY) && kept.second.first == (vert ? WY : WX) && kept.second.second == WC; }
static S90 make(bool vert) { if (vert) return S90(VERTICAL); return S90(HORIZONTAL); }
#ifdef VP_VERIFY
#define SPLITV(v) bool v = vp_pathsplit(vp_any_bool("vertical"))
#else
#define SPLITV(v) bool v = vp_any_bool("vertical")
#endif
HARNESS(h_C14_move) {
  SPLITV(v); edge(v); int dx = small_any("dx", 1 << 28), dy = small_any("dy", 1 << 28); WX = X0 + dx; WY = Y0 + dy; WC = C0;
  S90 s = make(v); s.move(dx, dy); vp_assert(wanted(v), "every stored edge moves by the displacement"); vp_assert(s.orient_ == orientation_2d(v ? VERTICAL : HORIZONTAL), "the scan orientation stays");
}
struct Map {                                       // a user's axis transformation, scaling: any function of the point
  int d1, d2; Map(int a, int b) : d1(a), d2(b) {}
  void get_directions(direction_2d& a, direction_2d& b) const { a = direction_2d((direction_2d_enum)d1); b = direction_2d((direction_2d_enum)d2); }
  void transform(int& x, int& y) const { int a = imx(x, y), b = imy(x, y); x = a; y = b; }
  void scale(int& x, int& y) const { transform(x, y); }
};
HARNESS(h_C14_transform) {
  SPLITV(v); edge(v); int n1 = 0, n2 = 0;
#ifdef VP_VERIFY
  bool p = vp_pathsplit(vp_any_bool("swap")), q = vp_pathsplit(vp_any_bool("neg1")), r = vp_pathsplit(vp_any_bool("neg2"));
#else
  bool p = vp_any_bool("swap"), q = vp_any_bool("neg1"), r = vp_any_bool("neg2");
#endif
  n1 = q ? -1 : 1; n2 = r ? -1 : 1;
  direction_2d_enum a = p ? (q ? SOUTH : NORTH) : (q ? WEST : EAST), b = p ? (r ? WEST : EAST) : (r ? SOUTH : NORTH);
  Map m(a, b); WX = imx(X0, Y0); WY = imy(X0, Y0); WC = C0 * n1 * n2;
  S90 s = make(v); s.unsorted_ = false; s.transform(m); vp_assert(wanted(v), "every stored edge is mapped, and its count keeps or changes sign with the two axes");
  vp_assert(s.unsorted_ || (!p && !q && !r), "a set whose axes changed is sorted again");
}
HARNESS(h_C14_scale_up) {
  SPLITV(v); edge(v); int f = vp_any_i32("f"); vp_assume(f >= 1 && f <= 7); WX = X0 * f; WY = Y0 * f; WC = C0;
  S90 s = make(v); s.scale_up(f); vp_assert(wanted(v), "every stored edge is multiplied by the factor");
}
HARNESS(h_C14_scale) {
  SPLITV(v); edge(v); Map m(0, 0); WX = imx(X0, Y0); WY = imy(X0, Y0); WC = C0;
  S90 s = make(v); s.unsorted_ = false; s.scale_with(m); vp_assert(wanted(v), "every stored edge is scaled, x and y by their own factor"); vp_assert(s.unsorted_, "a scaled set is sorted again");
}
// Sizing one vertex of a rectilinear boundary: the two edges at it are moved outward, whichever way they are walked.
HARNESS(h_C14_vertex) {
  int px = small_any("px", 1 << 28), py = small_any("py", 1 << 28), x = small_any("cx", 1 << 28), y = small_any("cy", 1 << 28), nx = small_any("nx", 1 << 28), ny = small_any("ny", 1 << 28);
  int w = small_any("w", 1 << 28), e = small_any("e", 1 << 28), s = small_any("s", 1 << 28), n = small_any("nn", 1 << 28);
  vp_assume((px == x && py != y && ny == y && nx != x) || (py == y && px != x && nx == x && ny != y));
  PT p(x, y); S90::modify_pt(p, PT(px, py), PT(x, y), PT(nx, ny), w, e, s, n);
  // boundary counterclockwise?  no: the library sizes with the interior on the left; eastward edges face south
  bool in_h = px != x; bool east = in_h ? px < x : nx > x, north = in_h ? ny > y : py < y;
  vp_assert(p.y() == (east ? y - s : y + n), "the horizontal edge moves out"); vp_assert(p.x() == (north ? x + e : x - w), "the vertical edge moves out");
}
static int BXL, BXH, BYL, BYH;
static void boxed() { if (inbox) { int x = inbox == 1 ? other.first : other.second.first, y = inbox == 1 ? other.second.first : other.first; vp_assume(x >= BXL && x <= BXH && y >= BYL && y <= BYH); } }
// The extents of a set: contain every stored point, and nothing more than a box that contains every stored point.
#ifdef VP_VERIFY
HARNESS(h_C13_extents) {
  SPLITV(v); edge(v); WX = X0; WY = Y0; WC = C0; BXL = small_any("bxl", 1 << 28); BXH = small_any("bxh", 1 << 28); BYL = small_any("byl", 1 << 28); BYH = small_any("byh", 1 << 28);
  vp_assume(X0 >= BXL && X0 <= BXH && Y0 >= BYL && Y0 <= BYH); inbox = v ? 1 : 2;
  S90 s = make(v); rectangle_data<int> r; bool any = s.extents(r);
  vp_assert(any, "a set with an edge has extents"); vp_assert(xl(r) <= X0 && X0 <= xh(r) && yl(r) <= Y0 && Y0 <= yh(r), "every stored point is inside");
  vp_assert(xl(r) >= BXL && xh(r) <= BXH && yl(r) >= BYL && yh(r) <= BYH, "no more than any box that contains them");
}
#ifdef KEEP
// keep: the pieces of the extracted set whose width, height and area are within the bounds, and no others.
static polygon_90_data<int>* the_piece; static int stage; static std::list<P90>* the_list;
static P90& piece() { return *the_piece; }
extern "C" u64 vp_uf_w(const char*, i64); extern "C" i64 vp_uf_a(const char*, i64);
static u64 W(i64 k) { return vp_uf_w("w", k); } static u64 H(i64 k) { return vp_uf_w("h", k); } static u64 A(i64 k) { return vp_uf_w("a", k); }
extern "C" bool c_extents(rectangle_data<int>* r, const P90* p) { vp_assert(p == the_piece, "a piece"); int w = (int)W(CUR), h = (int)H(CUR); vp_assume(W(CUR) <= (1u << 30) && H(CUR) <= (1u << 30) && w >= 0 && h >= 0); int x = small_any("x", 1 << 28), y = small_any("y", 1 << 28); *r = rectangle_data<int>(x, y, x + w, y + h); return true; }
extern "C" i64 c_area(const P90* p) { vp_assert(p == the_piece, "a piece"); u64 a = A(CUR); vp_assume(a <= ((u64)1 << 62)); return (i64)a; }
extern "C" std::list<P90>* c_extract(std::list<P90>* l, const S90*) { vp_assert(stage == 0, "the pieces are extracted first"); stage = 1; the_list = l; return l; }
extern "C" void c_clear(S90*) { vp_assert(stage == 1, "then the set is emptied"); stage = 2; }
extern "C" S90* c_store(S90* s, const std::list<P90>* l) { vp_assert(stage == 2 && l == the_list, "then the remaining pieces are stored"); stage = 3; return s; }
HARNESS(h_C26_keep) {
  edge(true); polygon_90_data<int> p; the_piece = &p; stage = 0; GONE = -1; goneK = 0; CUR = 0;
  u64 a1 = vp_any_u64("a1"), a2 = vp_any_u64("a2"), w1 = vp_any_u64("w1"), w2 = vp_any_u64("w2"), h1 = vp_any_u64("h1"), h2 = vp_any_u64("h2");
  vp_assume(W(K) <= (1u << 30) && H(K) <= (1u << 30) && A(K) <= ((u64)1 << 62));
  bool in = W(K) > w1 && W(K) <= w2 && H(K) > h1 && H(K) <= h2 && A(K) >= a1 && A(K) <= a2; WX = !in;
  S90 s; keep(s, a1, a2, w1, w2, h1, h2);
  vp_assert(stage == 3, "the result is stored"); vp_assert(goneK == (in ? 0 : 1), "a piece stays exactly if its width, height and area are within the bounds");
}
#endif
#endif
#if !defined(VP_VERIFY) || !defined(KEEP)
static P90& piece() { static P90 p; return p; }
#endif
