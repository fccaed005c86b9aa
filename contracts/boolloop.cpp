// The walk over the stored edges in the Manhattan boolean operations (C12): applyBooleanOr and applyBooleanBinaryOp over
// streams of any length, against the contract of BooleanOp::processInterval (proved in boolop.cpp).
// The sequences are specialisations of std::vector with uninterpreted contents; one cell [Q,Q+1) is observed.
#define VP_NO_REALS
#include "vp.h"
#include <map>
#include <vector>
#include <algorithm>
#include <climits>
#include <cmath>
typedef std::pair<int, std::pair<int, int> > Ent;         // stored edge: scan coordinate, position, count
#ifdef VP_VERIFY
extern "C" int vp_uf_p(const char*, i64); extern "C" int vp_uf_e(const char*, int, int); extern "C" int vp_uf_q(const char*, i64, i64);
static i64 N1, N2, M, J, calls;                           // entries of the two streams; pieces emitted by the last call, the one over the cell
static int Q, gpos, gY, T0, T1, S0, S1, F0, F1, f0, f1, outS, outY, scanHi, EV, PL, PH, started, stored, emptied;
static int small(int v) { vp_assume((v >= -(1 << 28)) & (v <= (1 << 28))); return v; }
static int gpu(int s, i64 i) { return s ? vp_uf_p("pos2", i) : vp_uf_p("pos1", i); }
static int gyu(int s, i64 i) { return s ? vp_uf_p("y2", i) : vp_uf_p("y1", i); }
static int cnt(int s, i64 i) { int v = s ? vp_uf_p("c2", i) : vp_uf_p("c1", i); vp_assume((v >= -(1 << 28)) & (v <= (1 << 28))); return v; }
static void sorted(int s, i64 i) {                        // precondition: each stream is sorted; instances around entry i
  i64 n = s ? N2 : N1; int p = gpu(s, i), y = gyu(s, i), a = gpu(s, i - 1), b = gyu(s, i - 1), c = gpu(s, i + 1), d = gyu(s, i + 1);
  vp_assume(p < INT_MAX); vp_assume((i == 0) | (a < p) | ((a == p) & (b <= y))); vp_assume((i + 1 >= n) | (p < c) | ((p == c) & (y <= d))); }
static int ev(int a, int b) { return vp_uf_e("ev", a, b); }
static int pos(int a, int b) { return ev(a, b) > 0 ? 1 : 0; }
static void closing() { vp_assume((T0 == 0) & (T1 == 0)); }   // precondition: the edges at one scan coordinate close up
static void settled() { closing(); vp_assert(outS == pos(F0 + S0, F1 + S1) - pos(F0, F1), "the output at a scan coordinate is the change there from outside to inside"); }
static void pass(int s, i64 i) {                          // the walk passes an entry
  sorted(s, i); int p = gpu(s, i), y = gyu(s, i), c = cnt(s, i);
  vp_assert((started == 0) | (gpos < p) | ((gpos == p) & (gY <= y)), "entries are taken in order");
  if (vp_pathsplit((started == 0) | (p != gpos))) {
    if (vp_pathsplit(started != 0)) { settled(); F0 = small(F0 + S0); F1 = small(F1 + S1); }
    S0 = S1 = T0 = T1 = 0; outS = 0; outY = INT_MIN; gpos = p; started = 1;
  }
  gY = y; int in = y <= Q; if (s) { T1 = small(T1 + c); S1 = small(S1 + in * c); } else { T0 = small(T0 + c); S0 = small(S0 + in * c); }
}
struct EIt {
  typedef std::forward_iterator_tag iterator_category; typedef Ent value_type; typedef std::ptrdiff_t difference_type; typedef Ent* pointer; typedef Ent& reference;
  i64 i; int s; mutable Ent cell; EIt() : i(0), s(0), cell() {} EIt(i64 k, int t) : i(k), s(t), cell() {} EIt(const EIt& o) : i(o.i), s(o.s), cell() {} EIt& operator=(const EIt& o) { i = o.i; s = o.s; return *this; }
  Ent& operator*() const { vp_assert((i >= 0) & (i < (s ? N2 : N1)), "inside the stream"); sorted(s, i); cell.first = gpu(s, i); cell.second.first = gyu(s, i); cell.second.second = cnt(s, i); return cell; }
  EIt& operator++() { vp_assert((i >= 0) & (i < (s ? N2 : N1)), "inside the stream"); pass(s, i); ++i; return *this; }
  bool operator==(const EIt& o) const { return i == o.i; } bool operator!=(const EIt& o) const { return i != o.i; }
};
struct Cnt {                                              // a user's count: two numbers, any rule
  int v, w; Cnt() : v(0), w(0) {} explicit Cnt(int a) : v(a), w(0) {} Cnt(const Cnt& o) : v(o.v), w(o.w) {} Cnt& operator=(const Cnt& o) { v = o.v; w = o.w; return *this; } Cnt& operator=(int a) { v = a; w = a; return *this; }
  Cnt& operator+=(const Cnt& o) { v += o.v; w += o.w; return *this; } bool operator==(const Cnt& o) const { return (v == o.v) & (w == o.w); } bool operator!=(const Cnt& o) const { return !(*this == o); }
  int& operator[](bool b) { return b ? w : v; } operator int() const { return ev(v, w); }
};
namespace boost { namespace polygon { template <typename T> class interval_data; } }
typedef std::pair<boost::polygon::interval_data<int>, int> Piece;
namespace std {
  template <> class map<int, Cnt, less<int>, allocator<pair<const int, Cnt> > > { public: typedef int* iterator; map() {} map(const map&) {} iterator begin() { return 0; } iterator end() { return 0; } };
  template <> class vector<Ent, allocator<Ent> > { public:
    typedef EIt iterator; typedef EIt const_iterator; typedef Ent value_type; typedef std::size_t size_type;
    int role; Ent last; i64 n;                            // role 1: an input stream; 0: output, of which the last entry and the sums are known
    vector() : role(0), last(), n(0) {} explicit vector(int r) : role(r), last(), n(0) {} vector(const vector& o) : role(o.role), last(o.last), n(o.n) {}
    vector& operator=(const vector& o) { vp_assert(role == 1 && o.n == 0 && o.role == 0, "the input is replaced at the end"); emptied = 1; return *this; }
    void reserve(std::size_t) {} EIt begin() const { return EIt(role ? 0 : -1, 0); } EIt end() const { return EIt(role ? N1 : -2, 0); }
    std::size_t size() const { return role ? N1 : n; } bool empty() const { return size() == 0; }
    void clear() { vp_assert(role == 1, "the input is replaced at the end"); emptied = 1; }
    Ent& back() { vp_assert(role == 0 && n > 0, "there is a last entry"); return last; }
    void push_back(const Ent& e) {
      vp_assert(role == 0, "output"); vp_assert((started == 1) & (e.first == gpos), "output at the scan coordinate of the input"); vp_assert(e.second.first >= outY, "output in increasing order");
      outY = e.second.first; outS = small(outS + (e.second.first <= Q) * e.second.second); last = e; vp_assume((n >= 0) & (n < ((i64)1 << 40))); n = n + 1; }
    void pop_back() {
      vp_assert((role == 0) & (n > 0), "there is a last entry"); vp_assert(last.first == gpos, "no entry of another scan coordinate is taken back"); outS = small(outS - (last.second.first <= Q) * last.second.second); n = n - 1;
      last.first = vp_any_i32("b1"); last.second.first = vp_any_i32("b2"); last.second.second = vp_any_i32("b3"); vp_assume((last.second.second == 1) | (last.second.second == -1)); vp_assume((last.first != gpos) | (last.second.first <= outY)); }
    void insert(EIt, EIt b, EIt e) { vp_assert((role == 1) & (b.i == -1) & (e.i == -2) & (emptied == 1), "the whole output is stored"); stored = stored + 1; }
  };
  template <> class vector<Piece, allocator<Piece> > { public: vector() {} void clear() { M = 0; } std::size_t size() const { return M; } Piece& operator[](std::size_t k); };
}
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
typedef boolean_op::BooleanOp<Cnt, int> BOp;
static Piece cellp;
inline Piece& std::vector<Piece>::operator[](std::size_t k) {
  vp_assert((i64)k >= 0 && (i64)k < M, "inside the container"); i64 i = (i64)k;
  int a = vp_uf_q("lo", calls, i), b = vp_uf_q("hi", calls, i), v = vp_uf_q("v", calls, i), c = vp_uf_q("hi", calls, i - 1);
  vp_assume((a < b) & (a >= PL) & (b <= PH) & ((v == 1) | (v == -1))); vp_assume((i == 0) | (c <= a)); vp_assume(((a <= Q) & (Q < b)) == (i == J)); vp_assume((i != J) | (v == EV));
  cellp = Piece(interval_data<int>(a, b), v); return cellp; }
namespace boost { namespace polygon { namespace boolean_op {
  template <> inline void BooleanOp<Cnt, int>::advanceScan() { scanHi = INT_MIN; }
  // contract of processInterval: proved in boolop.cpp
  template <> template <> inline void BooleanOp<Cnt, int>::processInterval(std::vector<Piece>&, interval_data<int> ivl, Cnt d) {
    int lo = ivl.get(LOW), hi = ivl.get(HIGH); vp_assert(lo < hi, "a proper interval"); vp_assert(lo >= scanHi, "intervals in order along the scan line"); vp_assert(M == 0, "an empty container");
    scanHi = hi; int in = (lo <= Q) & (Q < hi); int g0 = f0 + in * d.v, g1 = f1 + in * d.w; vp_assume((g0 >= -(1 << 28)) & (g0 <= (1 << 28)) & (g1 >= -(1 << 28)) & (g1 <= (1 << 28)));
    EV = pos(g0, g1) - pos(f0, f1); f0 = g0; f1 = g1; vp_assume((calls >= 0) & (calls < ((i64)1 << 40))); calls = calls + 1; PL = lo; PH = hi; M = vp_any_i64("pieces"); J = vp_any_i64("piece"); vp_assume((M >= 0) & (M <= (1 << 30))); vp_assume((EV != 0) ? ((J >= 0) & (J < M)) : (J == -1));
  }
} } }
static void start() {
  Q = vp_any_i32("q"); N1 = vp_any_i64("n1"); N2 = vp_any_i64("n2"); vp_assume((N1 >= 0) & (N1 <= (1 << 30)) & (N2 >= 0) & (N2 <= (1 << 30))); vp_assume(Q < INT_MAX);
  gpos = gY = INT_MAX; T0 = T1 = S0 = S1 = F0 = F1 = f0 = f1 = outS = 0; outY = scanHi = INT_MIN; M = 0; J = -1; EV = 0; calls = 0; started = stored = emptied = 0; PL = PH = 0; vp_assume(ev(0, 0) <= 0);
}
static void end(i64 n1, i64 n2) {
  closing(); vp_assert(outS == pos(F0 + S0, F1 + S1) - pos(F0, F1), "the output at the last scan coordinate is the change there from outside to inside"); vp_assert((f0 == F0 + S0) & (f1 == F1 + S1), "the scan line holds the count of every cell");
}
HARNESS(h_C12w_or) {
  start(); N2 = 0; std::vector<Ent> in(1); boolean_op::default_arg_workaround<Cnt>::applyBooleanOr(in); end(N1, 0); vp_assert(stored == 1, "the result replaces the input");
}
static void binary(bool n1, bool n2, int order = 0) {
  start(); vp_assume((N1 > 0) == n1); vp_assume((N2 > 0) == n2); 
  if (n1 && n2) { int a = gpu(0, 0), b = gpu(1, 0), c = gyu(0, 0), d = gyu(1, 0); vp_assume((((a < b) | ((a == b) & (c < d))) ? 0 : ((a == b) & (c == d)) ? 1 : 2) == order); }
  std::vector<Ent> out; boolean_op::applyBooleanBinaryOp(out, EIt(0, 0), EIt(N1, 0), EIt(0, 1), EIt(N2, 1), Cnt(0)); end(N1, N2);
}
HARNESS(h_C12w_none) { binary(false, false); }
HARNESS(h_C12w_first) { binary(true, false); }
HARNESS(h_C12w_second) { binary(false, true); }
HARNESS(h_C12w_both1) { binary(true, true, 0); }
HARNESS(h_C12w_both2) { binary(true, true, 1); }
HARNESS(h_C12w_both3) { binary(true, true, 2); }
#else
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
// native: small streams, every cell
static std::vector<Ent> stream() {
  std::vector<Ent> v; int n = vp_any_i32("n") & 3;
  for (int i = 0; i < n; ++i) { int x = vp_any_i32("x") & 7, y = vp_any_i32("y") & 7, w = 1 + (vp_any_i32("w") & 3), h = 1 + (vp_any_i32("h") & 3), c = vp_any_i32("c") & 1 ? 1 : 2;
    for (int k = 0; k < 4; ++k) v.push_back(Ent(x + (k & 1) * w, std::make_pair(y + (k >> 1) * h, ((k & 1) ^ (k >> 1)) ? -c : c))); }
  std::sort(v.begin(), v.end()); return v; }
static int at(const std::vector<Ent>& v, int x, int y) { int r = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i].first <= x && v[i].second.first <= y) r += v[i].second.second; return r; }
static void order(const std::vector<Ent>& v) { for (size_t i = 1; i < v.size(); ++i) vp_assert(v[i - 1].first < v[i].first || (v[i - 1].first == v[i].first && v[i - 1].second.first <= v[i].second.first), "output in increasing order"); }
HARNESS(h_C12w_or) {
  std::vector<Ent> a = stream(), r = a; boolean_op::default_arg_workaround<int>::applyBooleanOr(r); order(r);
  for (int x = 0; x < 12; ++x) for (int y = 0; y < 12; ++y) vp_assert(at(r, x, y) == (at(a, x, y) > 0), "the output at a scan coordinate is the change there from outside to inside");
}
static void binary() {
  std::vector<Ent> a = stream(), b = stream(), r; typedef boolean_op::BinaryCount<boolean_op::BinaryNot> C; boolean_op::applyBooleanBinaryOp(r, a.begin(), a.end(), b.begin(), b.end(), C()); order(r);
  for (int x = 0; x < 12; ++x) for (int y = 0; y < 12; ++y) vp_assert(at(r, x, y) == (at(a, x, y) > 0 && at(b, x, y) <= 0), "the output at a scan coordinate is the change there from outside to inside");
}
HARNESS(h_C12w_none) { binary(); }
HARNESS(h_C12w_first) { binary(); }
HARNESS(h_C12w_second) { binary(); }
HARNESS(h_C12w_both1) { binary(); }
HARNESS(h_C12w_both2) { binary(); }
HARNESS(h_C12w_both3) { binary(); }
#endif
