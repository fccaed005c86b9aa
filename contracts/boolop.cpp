// The scan line of the Manhattan boolean operations (C12): BooleanOp::processInterval over a scan map of any size.
// The counts are a user-defined type, so that the std::map the library keeps them in is a specialisation whose
// contents are N sorted keys with values (uninterpreted) and at most two inserted and two erased nodes.
#define VP_NO_REALS
#include "vp.h"
#include <map>
#include <vector>
#include <algorithm>
#include <cmath>
static int Q, L, H, D, acc, lastHigh;         // observed cell [Q,Q+1); the interval and count added; what was emitted for the cell
#ifdef VP_VERIFY
extern "C" int vp_uf_k(const char*, i64); extern "C" int vp_uf_e(const char*, int);
static i64 N, aL, aH, aQ;                     // number of keys; first key >= L, >= H, > Q
static i64 loI, hiI, er1, er2, mS, mT, OW;    // inserted nodes (-1: none), erased nodes, nodes whose count changed; owner of the cell
static int loV, hiV, GV;
static int small(int v) { vp_assume((v >= -(1 << 28)) & (v <= (1 << 28))); return v; }
static int cv(i64 i) { return small(vp_uf_k("cv", i)); }
static int ev(int v) { return vp_uf_e("ev", v); }
static int ck(i64 i) {                        // sorted keys: instances of the order at every key looked at
  int k = vp_uf_k("ck", i);
  vp_assume((k >= L) == (i >= aL)); vp_assume((k >= H) == (i >= aH)); vp_assume((k > Q) == (i >= aQ));
  vp_assume((i + 1 >= N) | (k < vp_uf_k("ck", i + 1))); vp_assume((i < 1) | (vp_uf_k("ck", i - 1) < k));
  return k;
}
#else
static int ev(int v) { return (v * 7 + (v >> 1)) % 3; }
#endif
static int pos(int v) { return ev(v) > 0 ? 1 : 0; }
struct Cnt {
  int v; i64 i; int k;                        // k < 0: not in the map
  Cnt() : v(0), i(0), k(-1) {} explicit Cnt(int a) : v(a), i(0), k(-1) {} Cnt(const Cnt& o) : v(o.v), i(0), k(-1) {}
  Cnt& operator=(const Cnt& o);
  Cnt& operator+=(const Cnt& o);
  bool operator==(const Cnt& o) const { return v == o.v; } bool operator!=(const Cnt& o) const { return v != o.v; }
  operator int() const { return ev(v); }
};
#ifdef VP_VERIFY
static i64 code(i64 i, int k) { return 4 * i - k; }    // k: 0 an original key, 1 the node of H, 2 the node of L; order of the nodes
static int key(i64 i, int k) { return k == 0 ? ck(i) : k == 1 ? H : L; }
static bool marked(i64 i, int k) { i64 c = code(i, k); return (mS <= c) & (c < mT); }
static int value(i64 i, int k) { int b = k == 0 ? cv(i) : k == 1 ? hiV : loV; return b + (int)marked(i, k) * D; }
static bool gone(i64 i, int k) { i64 c = code(i, k); return (c == er1) | (c == er2); }
struct Pos { i64 i; int k; Pos(i64 a, int b) : i(a), k(b) {} Pos(const Pos& o) : i(o.i), k(o.k) {} Pos& operator=(const Pos& o) { i = o.i; k = o.k; return *this; } };
static Pos from(i64 i) {                               // first node at or after the place before original i
  if (vp_pathsplit(loI == i)) return Pos(i, 2); if (vp_pathsplit(hiI == i)) return Pos(i, 1); return Pos(i, 0); }
static Pos succ1(Pos p) { if (p.k == 2) return vp_pathsplit(hiI == p.i) ? Pos(p.i, 1) : Pos(p.i, 0); if (p.k == 1) return Pos(p.i, 0); return from(p.i + 1); }
static bool pred1(Pos& p) {                            // false: there is none
  if (p.k == 0 && vp_pathsplit(hiI == p.i)) { p.k = 1; return true; }
  if (p.k <= 1 && vp_pathsplit(loI == p.i)) { p.k = 2; return true; }
  if (vp_pathsplit(p.i == 0)) return false;
  p.i = p.i - 1; p.k = 0; return true; }
static Pos live(Pos p) { if (vp_pathsplit(gone(p.i, p.k))) { p = succ1(p); if (vp_pathsplit(gone(p.i, p.k))) p = succ1(p); } return p; }
static bool pred(Pos& p) { if (!pred1(p)) return false; if (vp_pathsplit(gone(p.i, p.k))) { if (!pred1(p)) return false; if (vp_pathsplit(gone(p.i, p.k))) return pred1(p); } return true; }
static Pos owner(bool& any) {                          // last node with key <= Q
  Pos p(0, 0); any = true;
  if (vp_pathsplit((hiI == aQ) & (H <= Q))) p = Pos(aQ, 1); else if (vp_pathsplit((loI == aQ) & (L <= Q))) p = Pos(aQ, 2); else if (vp_pathsplit(aQ > 0)) p = Pos(aQ - 1, 0); else { any = false; return p; }
  if (vp_pathsplit(gone(p.i, p.k))) any = pred(p);
  return p; }
static void valid(i64 i, int k) { vp_assert(!gone(i, k), "a node still in the map"); vp_assert(((k == 0) & (i >= 0) & (i < N)) | ((k == 1) & (i == hiI)) | ((k == 2) & (i == loI)), "a node of the map"); }
Cnt& Cnt::operator=(const Cnt& o) { vp_assert(k < 0, "counts in the map change by the added count only"); v = o.v; return *this; }
Cnt& Cnt::operator+=(const Cnt& o) {
  if (k >= 0) {
    vp_assert(o.v == D, "counts in the map change by the added count only"); i64 c = code(i, k);
    if (vp_pathsplit(mT == -9)) mS = c; else vp_assert(c == mT, "each node of the interval changes once, in order");
    Pos n = succ1(Pos(i, k)); mT = code(n.i, n.k);
  }
  v += o.v; return *this; }
struct El { int first; Cnt second; };
struct It {
  i64 i; int k; mutable El cell;
  It() : i(0), k(0), cell() {} It(i64 a, int b) : i(a), k(b), cell() {} It(const It& o) : i(o.i), k(o.k), cell() {} It& operator=(const It& o) { i = o.i; k = o.k; return *this; }
  El* operator->() const { valid(i, k); cell.first = key(i, k); cell.second.k = -1; cell.second.v = value(i, k); cell.second.i = i; cell.second.k = k; return &cell; }
  El& operator*() const { return *operator->(); }
  It& operator++() { valid(i, k); Pos p = live(succ1(Pos(i, k))); i = p.i; k = p.k; return *this; }
  It& operator--() { Pos p(i, k); bool b = pred(p); vp_assert(b, "there is a node before"); i = p.i; k = p.k; return *this; }
  bool operator==(const It& o) const { return (i == o.i) & (k == o.k); } bool operator!=(const It& o) const { return !(*this == o); }
};
static void look() { bool any; Pos p = owner(any); OW = any ? code(p.i, p.k) : -9; int b = any ? value(p.i, p.k) : 0; GV = pos(b + D) - pos(b); }
namespace std {
  template <> class map<int, Cnt, less<int>, allocator<pair<const int, Cnt> > > { public:
    typedef It iterator; typedef It const_iterator; typedef pair<const int, Cnt> value_type;
    map() {} map(const map&) {} map& operator=(const map&) { return *this; }
    It end() { return It(N, 0); } It begin() { Pos p = live(from(0)); return It(p.i, p.k); } bool empty() { return begin() == end(); }
    It lower_bound(int k) {
      vp_assert((k == L) | (k == H), "looks up an end of the interval"); vp_assert(er1 == -9, "before nodes are erased");
      if (vp_pathsplit(k == L)) { if (vp_pathsplit(loI >= 0)) return It(loI, 2); if (vp_pathsplit(hiI == aL)) return It(aL, vp_pathsplit(aL < N && ck(aL) < H) ? 0 : 1); return It(aL, 0); }
      if (vp_pathsplit(hiI >= 0)) return It(hiI, 1); return It(aH, 0); }
    template <class P> It insert(It, const P& e) {           // the position is only a hint
      vp_assert((e.first == L) | (e.first == H), "inserts an end of the interval"); vp_assert(er1 == -9, "before nodes are erased");
      if (vp_pathsplit(e.first == L)) { if (vp_pathsplit(loI >= 0)) return It(loI, 2); if (vp_pathsplit(aL < N && ck(aL) == L)) return It(aL, 0); loI = aL; loV = e.second.v; look(); return It(aL, 2); }
      if (vp_pathsplit(hiI >= 0)) return It(hiI, 1); if (vp_pathsplit(aH < N && ck(aH) == H)) return It(aH, 0); hiI = aH; hiV = e.second.v; look(); return It(aH, 1); }
    void erase(It p) { valid(p.i, p.k); i64 c = code(p.i, p.k); if (er1 == -9) er1 = c; else { vp_assert(er2 == -9, "at most two nodes are erased"); er2 = c; } }
  };
}
#else
Cnt& Cnt::operator=(const Cnt& o) { v = o.v; return *this; }
Cnt& Cnt::operator+=(const Cnt& o) { v += o.v; return *this; }
#endif
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
typedef boolean_op::BooleanOp<Cnt, int> BOp; typedef std::pair<interval_data<int>, int> OE;
struct Out {                                  // what is emitted: its sum over the observed cell, in order from low to high
  int end() { return 0; }
  void insert(int, const OE& e) {
    int lo = e.first.get(LOW), hi = e.first.get(HIGH); vp_assert((lo < hi) & (lo >= lastHigh) & (lo >= L) & (hi <= H), "pieces of the interval in increasing order"); vp_assert((e.second == 1) | (e.second == -1), "a unit change");
    lastHigh = hi; acc += ((lo <= Q) & (Q < hi)) * e.second; }
};
#ifdef VP_VERIFY
static void interval(int part) {
  Q = vp_any_i32("q"); L = vp_any_i32("lo"); H = vp_any_i32("hi"); vp_assume(L < H); vp_assume((Q < L ? 0 : Q < H ? 1 : 2) == part); D = small(vp_any_i32("count"));
  N = vp_any_i64("n"); vp_assume((N >= 0) & (N <= (1 << 30))); aL = vp_any_i64("al"); aH = vp_any_i64("ah"); aQ = vp_any_i64("aq");
  vp_assume((0 <= aL) & (aL <= aH) & (aH <= N) & (0 <= aQ) & (aQ <= N)); vp_assume((Q >= L) | (aQ <= aL)); vp_assume((Q < L) | (aQ >= aL)); vp_assume((Q >= H) | (aQ <= aH)); vp_assume((Q < H) | (aQ >= aH));
  if (vp_pathsplit(aL > 0)) ck(aL - 1); if (vp_pathsplit(aL < N)) ck(aL); if (vp_pathsplit(aH > 0)) ck(aH - 1); if (vp_pathsplit(aH < N)) ck(aH); if (vp_pathsplit(aQ > 0)) ck(aQ - 1); if (vp_pathsplit(aQ < N)) ck(aQ);
  vp_assume(N == 0 || cv(N - 1) == 0); vp_assume(ev(0) <= 0);    // nothing above the last key; a count of nothing is outside
  loI = hiI = -1; er1 = er2 = mS = mT = -9; acc = 0; lastHigh = L; OW = -9; GV = 0;
  look(); int f0 = vp_pathsplit(aQ > 0) ? cv(aQ - 1) : 0;
  BOp op((Cnt(0))); i64 i0 = vp_any_i64("next"); vp_assume((i0 >= 0) & (i0 <= N)); if (vp_pathsplit((i0 > 0) & (i0 < N))) vp_assume(ck(i0 - 1) < L); op.nextItr_ = It(i0, 0);
  Out out; op.processInterval(out, interval_data<int>(L, H), Cnt(D));
  bool any; Pos p = owner(any); int f1 = any ? value(p.i, p.k) : 0, f2 = f0 + ((L <= Q) & (Q < H)) * D;
  vp_assert(f1 == f2, "the count of every cell of the interval changes by the count added, and no other");
  vp_assert(acc == pos(f2) - pos(f0), "what is emitted over a cell is its change from outside to inside");
  It n = op.nextItr_; Pos r(n.i, n.k); vp_assert(((n.i == N) & (n.k == 0)) | !gone(n.i, n.k), "the scan position is in the map");
  if (pred(r)) vp_assert(key(r.i, r.k) < H, "the scan position is not past the next interval");
}
HARNESS(h_C12b_below) { interval(0); }
HARNESS(h_C12b_inside) { interval(1); }
HARNESS(h_C12b_above) { interval(2); }
#else
static void interval() {
  typedef std::map<int, Cnt> M; BOp op((Cnt(0))); M& m = op.scanData_; int n = vp_any_i32("n") & 7, f[64], prev = 0;
  for (int i = 0; i < 64; ++i) f[i] = 0;
  for (int i = 0; i < n; ++i) { int k = vp_any_i32("k") & 63, v = vp_any_i32("v") & 3; m.insert(std::pair<const int, Cnt>(k, Cnt(v - 1))); }
  if (!m.empty()) (--m.end())->second = Cnt(0);
  for (M::iterator i = m.begin(); i != m.end(); ++i) for (int q = i->first; q < 64; ++q) f[q] = i->second.v;
  L = vp_any_i32("lo") & 63; H = vp_any_i32("hi") & 63; D = (vp_any_i32("count") & 3) - 2; vp_assume(L < H); if (D == 0) D = 2; int w = vp_any_i32("next") & 3;
  vp_assume(ev(0) <= 0);
  op.nextItr_ = w == 0 ? m.end() : w == 1 ? m.begin() : m.lower_bound(L);
  std::vector<OE> out; op.processInterval(out, interval_data<int>(L, H), Cnt(D));
  for (int q = 0; q < 64; ++q) {
    int g = 0, e = f[q] + (L <= q && q < H ? D : 0), s = 0; M::iterator i = m.upper_bound(q); if (i != m.begin()) { --i; g = i->second.v; }
    for (size_t j = 0; j < out.size(); ++j) if (out[j].first.get(LOW) <= q && q < out[j].first.get(HIGH)) s += out[j].second;
    vp_assert(g == e, "the count of every cell of the interval changes by the count added, and no other"); vp_assert(s == pos(e) - pos(f[q]), "what is emitted over a cell is its change from outside to inside");
  }
  for (size_t j = 0; j < out.size(); ++j) vp_assert(out[j].first.get(LOW) < out[j].first.get(HIGH) && (j == 0 || out[j].first.get(LOW) >= out[j - 1].first.get(HIGH)), "pieces of the interval in increasing order");
  M::iterator i = op.nextItr_; if (i != m.begin()) { --i; vp_assert(i->first < H, "the scan position is not past the next interval"); }
}
HARNESS(h_C12b_below) { interval(); }
HARNESS(h_C12b_inside) { interval(); }
HARNESS(h_C12b_above) { interval(); }
#endif
