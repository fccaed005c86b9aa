// Editing of polygons with any number of vertices and holes (C11): the library's loops over vertices and over holes,
// against the contracts of the point-level operations (proved in transform.cpp and rectangle.cpp) and of the
// single-boundary operations.  The polygon is a user-defined type modelling the library's concepts; its points and
// holes are user-defined too, so that the std::vector the library collects them in is a specialisation that records
// the element at one arbitrary but fixed position and the number of elements.
#define VP_NO_REALS
#include "vp.h"
#include <cmath>
#include <vector>
#include <algorithm>
struct UPt { int a, b; UPt() : a(0), b(0) {} UPt(int x, int y) : a(x), b(y) {} UPt(const UPt& o) : a(o.a), b(o.b) {} UPt& operator=(const UPt& o) { a = o.a; b = o.b; return *this; } };
struct HT { int id, ops; UPt p; HT() : id(-2), ops(0), p() {} HT(const HT& o) : id(o.id), ops(o.ops), p(o.p) {} HT& operator=(const HT& o) { id = o.id; ops = o.ops; p = o.p; return *this; } };
struct W { int v; W() : v(0) {} W(int k) : v(k) {} W(const W& o) : v(o.v) {} W& operator=(const W& o) { v = o.v; return *this; } };
static int wsum(int a, int b);
static W operator+(const W& a, int b) { return W(wsum(a.v, b)); }
static i64 N, K;                      // number of elements; the observed one
template <class T> struct Seen {      // a sequence of which one element is known
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef const T& reference;
  T at; i64 i, n; Seen() : at(), i(0), n(0) {}
};
namespace std {
  template <class T> struct seen_vector {
    typedef Seen<T> iterator; typedef Seen<T> const_iterator; typedef T value_type; typedef std::size_t size_type;
    T kept, other; i64 n;
    seen_vector() : kept(), other(), n(0) {}
    void reserve(std::size_t) {}
    void push_back(const T& v) { if (n == K) kept = v; else other = v; ++n; }
    T& back() { return n - 1 == K ? kept : other; }
    Seen<T> begin() const { Seen<T> s; s.at = kept; s.i = 0; s.n = n; return s; }
    Seen<T> end() const { Seen<T> s; s.at = kept; s.i = n; s.n = n; return s; }
    std::size_t size() const { return n; } bool empty() const { return n == 0; }
  };
  template <> class vector<UPt, allocator<UPt> > : public seen_vector<UPt> {};
  template <> class vector<HT, allocator<HT> > : public seen_vector<HT> {};
  template <> class vector<W, allocator<W> > : public seen_vector<W> {};
}
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef point_data<int> PT;
#ifdef VP_VERIFY
extern "C" int vp_uf_px(const char*, i64); extern "C" int vp_uf_im(const char*, int, int);
static int px(i64 i) { return vp_uf_px("px", i); }
static int py(i64 i) { return vp_uf_px("py", i); }
static int imx(int x, int y) { return vp_uf_im("imx", x, y); }
static int imy(int x, int y) { return vp_uf_im("imy", x, y); }
static int wsum(int a, int b) { return vp_uf_im("wsum", a, b); }
#else
static std::vector<int> PX, PY;
static int px(i64 i) { return PX[i]; }
static int py(i64 i) { return PY[i]; }
static int wsum(int a, int b) { return a + b; }
#endif
static int WX, WY;                    // the wanted image of the observed vertex
static int OP, DX, DY, FC, AT;        // the requested edit
static int times; static i64 gotN; static UPt got; static HT goth, gouter; static W gotw;
struct It {
  typedef std::forward_iterator_tag iterator_category; typedef UPt value_type; typedef std::ptrdiff_t difference_type; typedef const UPt* pointer; typedef UPt reference;
  i64 i; It() : i(0) {} It(i64 k) : i(k) {}
  UPt operator*() const { return UPt(px(i), py(i)); }
  It& operator++() { ++i; return *this; } It operator++(int) { It t(*this); ++i; return t; }
  bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; }
};
struct CIt {                          // compact coordinates
  typedef std::forward_iterator_tag iterator_category; typedef W value_type; typedef std::ptrdiff_t difference_type; typedef const W* pointer; typedef W reference;
  i64 i; CIt() : i(0) {} CIt(i64 k) : i(k) {}
  W operator*() const { return W(px(i)); }
  CIt& operator++() { ++i; return *this; } CIt operator++(int) { CIt t(*this); ++i; return t; }
  bool operator==(const CIt& o) const { return i == o.i; } bool operator!=(const CIt& o) const { return i != o.i; }
};
struct PolyAny {}; struct Poly90 {}; struct PolyH {};
struct Jt {                           // walks boundary id as a whole; natively the boundary is a single vertex
  typedef std::forward_iterator_tag iterator_category; typedef UPt value_type; typedef std::ptrdiff_t difference_type; typedef const UPt* pointer; typedef UPt reference;
  HT h; int k; Jt() : h(), k(0) {} Jt(const HT& o, int e) : h(o), k(e) {}
  UPt operator*() const { return h.p; }
  Jt& operator++() { ++k; return *this; } Jt operator++(int) { Jt t(*this); ++k; return t; }
  bool operator==(const Jt& o) const { return k == o.k; } bool operator!=(const Jt& o) const { return k != o.k; }
};
static HT hole(i64 k) { HT h; h.id = (int)k; h.ops = 0;
#ifndef VP_VERIFY
  h.p = UPt(px(k + 1), py(k + 1));
#endif
  return h; }
struct HIt {
  typedef std::forward_iterator_tag iterator_category; typedef HT value_type; typedef std::ptrdiff_t difference_type; typedef const HT* pointer; typedef HT reference;
  i64 i; HIt(i64 k) : i(k) {}
  HT operator*() const { return hole(i); }
  HIt& operator++() { ++i; return *this; } HIt operator++(int) { HIt t(*this); ++i; return t; }
  bool operator==(const HIt& o) const { return i == o.i; } bool operator!=(const HIt& o) const { return i != o.i; }
};
static void put(UPt, const Seen<UPt>& b, const Seen<UPt>& e) { ++times; vp_assert(b.i == 0 && b.i <= e.i && e.i == b.n && b.n == e.n, "the whole sequence"); gotN = b.n; got = b.at; }
static HT whole(const Jt& b, const Jt& e) { vp_assert(b.k == 0 && e.k == 1 && b.h.id == e.h.id && b.h.ops == e.h.ops, "the whole of one boundary"); return b.h; }
namespace boost { namespace polygon {
  template <> struct geometry_concept<UPt> { typedef point_concept type; };
  template <> struct point_traits<UPt> { typedef int coordinate_type; static int get(const UPt& p, orientation_2d o) { return o == HORIZONTAL ? p.a : p.b; } };
  template <> struct point_mutable_traits<UPt> { typedef int coordinate_type; static void set(UPt& p, orientation_2d o, int v) { if (o == HORIZONTAL) p.a = v; else p.b = v; } static UPt construct(int x, int y) { return UPt(x, y); } };
  template <> struct geometry_concept<PolyAny> { typedef polygon_concept type; };
  template <> struct geometry_concept<Poly90> { typedef polygon_90_concept type; };
  template <> struct geometry_concept<PolyH> { typedef polygon_with_holes_concept type; };
  template <> struct geometry_concept<HT> { typedef polygon_concept type; };
  template <> struct polygon_traits<PolyAny> { typedef int coordinate_type; typedef It iterator_type; typedef UPt point_type; static It begin_points(const PolyAny&) { return It(0); } static It end_points(const PolyAny&) { return It(N); } static std::size_t size(const PolyAny&) { return N; } static winding_direction winding(const PolyAny&) { return unknown_winding; } };
  template <> struct polygon_mutable_traits<PolyAny> {
    static PolyAny& set_points(PolyAny& p, const Seen<UPt>& b, const Seen<UPt>& e) { put(UPt(), b, e); return p; }
    static PolyAny& set_points(PolyAny& p, const It& b, const It& e) { ++times; vp_assert(b.i == 0 && e.i == N, "the whole sequence"); gotN = N; got = UPt(px(K), py(K)); return p; }
  };
  template <> struct polygon_traits<Poly90> { typedef int coordinate_type; typedef It iterator_type; typedef UPt point_type; static It begin_points(const Poly90&) { return It(0); } static It end_points(const Poly90&) { return It(N); } static std::size_t size(const Poly90&) { return N; } static winding_direction winding(const Poly90&) { return unknown_winding; } };
  template <> struct polygon_90_traits<Poly90> { typedef W coordinate_type; typedef CIt compact_iterator_type; static CIt begin_compact(const Poly90&) { return CIt(0); } static CIt end_compact(const Poly90&) { return CIt(N); } static std::size_t size(const Poly90&) { return N; } static winding_direction winding(const Poly90&) { return unknown_winding; } };
  template <> struct polygon_90_mutable_traits<Poly90> {
    static Poly90& set_compact(Poly90& p, const Seen<W>& b, const Seen<W>& e) { ++times; vp_assert(b.i == 0 && b.i <= e.i && e.i == b.n && b.n == e.n, "the whole sequence"); gotN = b.n; gotw = b.at; return p; }
    static Poly90& set_compact(Poly90& p, const CIt& b, const CIt& e) { ++times; vp_assert(b.i == 0 && e.i == N, "the whole sequence"); gotN = N; gotw = W(px(K)); return p; }
  };
  template <> struct polygon_mutable_traits<Poly90> { static Poly90& set_points(Poly90& p, const Seen<UPt>& b, const Seen<UPt>& e) { put(UPt(), b, e); return p; } };
  template <> struct polygon_traits<HT> { typedef int coordinate_type; typedef Jt iterator_type; typedef UPt point_type; static Jt begin_points(const HT& h) { return Jt(h, 0); } static Jt end_points(const HT& h) { return Jt(h, 1); } static std::size_t size(const HT&) { return 1; } static winding_direction winding(const HT&) { return unknown_winding; } };
  template <> struct polygon_mutable_traits<HT> {
    static HT& set_points(HT& h, const Jt& b, const Jt& e) { h = whole(b, e); return h; }
    static HT& set_points(HT& h, const Seen<UPt>& b, const Seen<UPt>&) {
#ifndef VP_VERIFY
      h.p = b.at;      // (the vertex at position K of a one-vertex boundary: native runs observe hole 0 and vertex 0)
#endif
      return h; }
  };
  template <> struct polygon_traits<PolyH> { typedef int coordinate_type; typedef Jt iterator_type; typedef UPt point_type; static Jt begin_points(const PolyH&) { return Jt(hole(-1), 0); } static Jt end_points(const PolyH&) { return Jt(hole(-1), 1); } static std::size_t size(const PolyH&) { return 1; } static winding_direction winding(const PolyH&) { return unknown_winding; } };
  template <> struct polygon_mutable_traits<PolyH> { static PolyH& set_points(PolyH& p, const Jt& b, const Jt& e) { ++times; gouter = whole(b, e); gotN = 0; return p; } };
  template <> struct polygon_with_holes_traits<PolyH> { typedef HIt iterator_holes_type; typedef HT hole_type; static HIt begin_holes(const PolyH&) { return HIt(0); } static HIt end_holes(const PolyH&) { return HIt(N); } static std::size_t size_holes(const PolyH&) { return N; } };
  template <> struct polygon_with_holes_mutable_traits<PolyH> {
    static PolyH& set_holes(PolyH& p, const Seen<HT>& b, const Seen<HT>& e) { vp_assert(b.i == 0 && b.i <= e.i && e.i == b.n && b.n == e.n, "all holes"); gotN = b.n; goth = b.at; return p; }
    static PolyH& set_holes(PolyH& p, const HIt& b, const HIt& e) { vp_assert(b.i == 0 && e.i == N, "all holes"); gotN = N; goth = hole(K); return p; }
    template <class I> static PolyH& set_holes(PolyH& p, I b, I e) { vp_assert(b == e, "a polygon without holes has none"); gotN = 0; return p; }
  };
} }
enum { CONV, E_UP, E_DOWN, SC, TR, TRF };
#ifdef VP_VERIFY
// point-level contracts: the image of a point is a function of the point (which one: C04, C06)
static void im(UPt* p) { int a = imx(p->a, p->b), b = imy(p->a, p->b); p->a = a; p->b = b; }
extern "C" UPt* c_conv(UPt* p, const PT* d) { vp_assert(OP == CONV && d->x() == DX && d->y() == DY, "the requested displacement"); im(p); return p; }
extern "C" UPt* c_up(UPt* p, unsigned long long f) { vp_assert(OP == E_UP && f == (unsigned long long)FC, "the requested factor"); im(p); return p; }
extern "C" UPt* c_down(UPt* p, unsigned long long f) { vp_assert(OP == E_DOWN && f == (unsigned long long)FC, "the requested factor"); im(p); return p; }
extern "C" UPt* c_sc(UPt* p, const anisotropic_scale_factor<double>* f) { vp_assert(OP == SC && f->get(HORIZONTAL) == (double)FC && f->get(VERTICAL) == (double)FC, "the requested factor in both directions"); im(p); return p; }
extern "C" UPt* c_tr(UPt* p, const axis_transformation* t) { vp_assert(OP == TR && *t == axis_transformation((axis_transformation::ATR)AT), "the requested transformation"); im(p); return p; }
// boundary-level contracts
extern "C" HT* c_hconv(HT* h, const PT* d) { vp_assert(OP == CONV && d->x() == DX && d->y() == DY, "the requested displacement"); h->ops++; return h; }
extern "C" HT* c_hup(HT* h, unsigned long long f) { vp_assert(OP == E_UP && f == (unsigned long long)FC, "the requested factor"); h->ops++; return h; }
extern "C" HT* c_hdown(HT* h, unsigned long long f) { vp_assert(OP == E_DOWN && f == (unsigned long long)FC, "the requested factor"); h->ops++; return h; }
extern "C" HT* c_hsc(HT* h, double f) { vp_assert(OP == SC && f == (double)FC, "the requested factor"); h->ops++; return h; }
extern "C" HT* c_htr(HT* h, const axis_transformation* t) { vp_assert(OP == TR && *t == axis_transformation((axis_transformation::ATR)AT), "the requested transformation"); h->ops++; return h; }
#endif
static void start(int op) {
  OP = op; times = 0; gotN = -1; got = UPt();
#ifdef VP_VERIFY
  N = vp_range("n", 1, 1 << 30); K = vp_range("k", 0, (1 << 30) - 1); vp_assume(K < N); (void)px(0); (void)py(0); (void)imx(0, 0); (void)imy(0, 0);
  int x = px(K), y = py(K); WX = imx(x, y); WY = imy(x, y);
#else
  N = vp_range("n", 1, 9); K = vp_range("k", 0, 8) % N; PX.clear(); PY.clear(); for (i64 i = 0; i <= N + 1; ++i) { PX.push_back((int)vp_range("x", -1000, 1000)); PY.push_back((int)vp_range("y", -1000, 1000)); }
#endif
  DX = (int)vp_range("dx", -1000, 1000); DY = (int)vp_range("dy", -1000, 1000); FC = (int)vp_range("factor", 1, 1000); AT = (int)vp_range("atr", 0, 7);
}
// the edit applied to one point (natively: the point-level operation itself)
static void want(int k) {
#ifndef VP_VERIFY
  UPt q(px(k), py(k)); if (OP == CONV) convolve(q, PT(DX, DY)); else if (OP == E_UP) scale_up(q, FC); else if (OP == E_DOWN) scale_down(q, FC); else if (OP == SC) scale(q, anisotropic_scale_factor<double>(FC, FC)); else transform(q, axis_transformation((axis_transformation::ATR)AT)); WX = q.a; WY = q.b;
#else
  (void)k;
#endif
}
static void check_p() { want((int)K); vp_assert(times == 1, "the boundary is stored once"); vp_assert(gotN == N, "as many vertices as before"); vp_assert(got.a == WX && got.b == WY, "every vertex replaced by its image"); }
HARNESS(h_C11_convolve) { start(CONV); PolyAny p; convolve(p, PT(DX, DY)); check_p(); }
HARNESS(h_C11_move) { start(CONV); PolyAny p; bool h = vp_any_bool("horizontal"); int d = h ? DX : DY; if (h) DY = 0; else DX = 0; move(p, h ? HORIZONTAL : VERTICAL, d); check_p(); }
HARNESS(h_C11_scale_up) { start(E_UP); PolyAny p; scale_up(p, FC); check_p(); }
HARNESS(h_C11_scale_down) { start(E_DOWN); PolyAny p; scale_down(p, FC); check_p(); }
HARNESS(h_C11_scale) { start(SC); PolyAny p; scale(p, (double)FC); check_p(); }
HARNESS(h_C11_transform) { start(TR); PolyAny p; transform(p, axis_transformation((axis_transformation::ATR)AT)); check_p(); }
HARNESS(h_C11_assign) { start(CONV); PolyAny p, q; assign(p, q); WX = px(K); WY = py(K); vp_assert(times == 1 && gotN == N && got.a == WX && got.b == WY, "assignment hands over every vertex unchanged"); }
HARNESS(h_C11_convolve_90) {
  start(CONV); Poly90 p; int v = px(K); WX = wsum(v, DX); WY = wsum(v, DY);
  convolve(p, PT(DX, DY));
  vp_assert(times == 1 && gotN == N, "as many coordinates as before"); vp_assert(gotw.v == (K % 2 == 0 ? WX : WY), "x displacement on x coordinates, y displacement on y coordinates");
}
HARNESS(h_C11_move_90) {
  start(CONV); Poly90 p; bool h = vp_any_bool("horizontal"); int d = h ? DX : DY; int v = px(K); WX = wsum(v, h ? d : 0); WY = wsum(v, h ? 0 : d);
  move(p, h ? HORIZONTAL : VERTICAL, d);
  vp_assert(times == 1 && gotN == N, "as many coordinates as before"); vp_assert(gotw.v == (K % 2 == 0 ? WX : WY), "x displacement on x coordinates, y displacement on y coordinates");
}
HARNESS(h_C11_scale_90) { bool up = vp_any_bool("up"); start(up ? E_UP : SC); Poly90 p; if (up) scale_up(p, FC); else scale(p, (double)FC); check_p(); }
HARNESS(h_C11_transform_90) { start(TR); Poly90 p; transform(p, axis_transformation((axis_transformation::ATR)AT)); check_p(); }
HARNESS(h_C11_assign_90) { start(CONV); Poly90 p, q; assign(p, q); vp_assert(times == 1 && gotN == N && gotw.v == px(K), "assignment hands over every coordinate unchanged"); }
// ---- with holes
static void check_h() {
  vp_assert(gotN == N, "as many holes as before");
#ifdef VP_VERIFY
  vp_assert(gouter.id == -1 && gouter.ops == 1, "the outer boundary edited once"); vp_assert(goth.id == (int)K && goth.ops == 1, "every hole edited once, in order");
#else
  want(0); vp_assert(gouter.p.a == WX && gouter.p.b == WY, "the outer boundary edited once"); want((int)K + 1); vp_assert(goth.p.a == WX && goth.p.b == WY, "every hole edited once, in order");
#endif
}
static void starth(int op) { start(op);
#ifndef VP_VERIFY
  N = 1; K = 0;
#else
  WX = (int)K;
#endif
}
HARNESS(h_C11h_convolve) { starth(CONV); PolyH p; convolve(p, PT(DX, DY)); check_h(); }
HARNESS(h_C11h_move) { starth(CONV); PolyH p; bool h = vp_any_bool("horizontal"); int d = h ? DX : DY; if (h) DY = 0; else DX = 0; move(p, h ? HORIZONTAL : VERTICAL, d); check_h(); }
HARNESS(h_C11h_scale_up) { starth(E_UP); PolyH p; scale_up(p, FC); check_h(); }
HARNESS(h_C11h_scale_down) { starth(E_DOWN); PolyH p; scale_down(p, FC); check_h(); }
HARNESS(h_C11h_scale) { starth(SC); PolyH p; scale(p, (double)FC); check_h(); }
HARNESS(h_C11h_transform) { starth(TR); PolyH p; transform(p, axis_transformation((axis_transformation::ATR)AT)); check_h(); }
HARNESS(h_C11h_assign) { starth(CONV); PolyH p, q; assign(p, q); vp_assert(gotN == N && gouter.id == -1 && gouter.ops == 0 && goth.id == (int)K && goth.ops == 0, "assignment hands over the boundary and every hole unchanged"); }
