// Property counts of the layers (C18): merge_scanline::mergeCount, setProperty over property maps of any length.
// A property map is a sorted sequence of (property, count); its class is specialised here with uninterpreted contents.
// One property P is observed.
#define VP_NO_REALS
#include "vp.h"
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <climits>
#include <cmath>
struct Prop { int v; Prop() : v(0) {} Prop(int a) : v(a) {} Prop(const Prop& o) : v(o.v) {} Prop& operator=(const Prop& o) { v = o.v; return *this; } };   // a user's property type: compared only
inline bool operator<(const Prop& a, const Prop& b) { return a.v < b.v; } inline bool operator<=(const Prop& a, const Prop& b) { return a.v <= b.v; } inline bool operator>(const Prop& a, const Prop& b) { return a.v > b.v; } inline bool operator==(const Prop& a, const Prop& b) { return a.v == b.v; } inline bool operator!=(const Prop& a, const Prop& b) { return a.v != b.v; }
typedef std::pair<Prop, int> PC;
#ifdef VP_VERIFY
extern "C" int vp_uf_p(const char*, i64);
static i64 N1, N2, G1, G2, GT, TN, RN;                     // lengths; where P is; entries collected and entries of the result
static int P, TC, SG, rprop, rcnt, rhas, cleared, swapped; static bool NZ; static PC last;   // SG: sign of the second map; NZ: no counts of zero
static bool small(int v) { return (v >= -(1 << 28)) & (v <= (1 << 28)); }
static int pr(int s, i64 i) { return s == 1 ? vp_uf_p("p1", i) : s == 2 ? vp_uf_p("p2", i) : vp_uf_p("pt", i); }
static int ct(int s, i64 i) { return s == 1 ? vp_uf_p("c1", i) : s == 2 ? vp_uf_p("c2", i) : vp_uf_p("ct", i); }
static i64 len(int s) { return s == 1 ? N1 : s == 2 ? N2 : TN; }
static i64 loc(int s) { return s == 1 ? G1 : s == 2 ? G2 : GT; }
static void facts(int s, i64 i) { int p = pr(s, i); vp_assume(((i == 0) | (pr(s, i - 1) < p)) & ((i + 1 >= len(s)) | (p < pr(s, i + 1))) & ((p == P) == (i == loc(s))) & ((i <= loc(s)) | (loc(s) < 0) | (p > P)) & ((i >= loc(s)) | (p < P)) & ((s == 0) | small(ct(s, i)))); if (NZ && s) vp_assume(ct(s, i) != 0); }
struct PIt { i64 i; int s; mutable PC cell; PIt() : i(0), s(0), cell() {} PIt(i64 k, int t) : i(k), s(t), cell() {} PIt(const PIt& o) : i(o.i), s(o.s), cell() {} PIt& operator=(const PIt& o) { i = o.i; s = o.s; return *this; }
  PC& operator*() const { vp_assert((i >= 0) & (i < len(s)), "inside the sequence"); facts(s, i); cell.first.v = pr(s, i); cell.second = ct(s, i); return cell; }
  PIt& operator++() { vp_assert((i >= 0) & (i < len(s)), "inside the sequence"); ++i; return *this; }
  bool operator==(const PIt& o) const { return i == o.i; } bool operator!=(const PIt& o) const { return i != o.i; } };
static PC tcell, acell, bcell;
namespace std { template <> class vector<PC, allocator<PC> > { public:
  typedef PIt iterator; typedef PIt const_iterator; typedef PC value_type; typedef std::size_t size_type;
  int role;                                                // 1, 2: arguments; 0: the collected counts
  vector() : role(0) {} explicit vector(int r) : role(r) {} vector(const vector& o) : role(o.role) {} vector& operator=(const vector& o) { role = o.role; return *this; }
  PIt begin() { return PIt(0, role); } PIt end() { return PIt(len(role), role); }
  std::size_t size() const { return len(role); } void reserve(std::size_t) { vp_assert(role == 0, "only the result grows"); }
  void swap(vector& o) { vp_assert((role == 1) & (o.role == 0) & (swapped == 0), "the first map becomes the result"); if (TN > 0) { vp_assert(!NZ | (last.second != 0), "no count of zero is kept"); if (last.first.v == P) TC = last.second; } swapped = 1; } bool empty() const { return len(role) == 0; }
  void clear() { if (role == 1) { vp_assert(cleared == 0, "the argument is replaced once"); if ((TN > 0) & (last.first.v == P)) TC = last.second; cleared = 1; RN = 0; } else { vp_assert(role == 0, "only the result is cleared"); TN = 0; GT = -1; } }
  PC& back() { vp_assert((role == 0) & (TN > 0) & (cleared == 0), "there is a last entry"); return last; }
  void push_back(const PC& e) {
    if (role == 0) { vp_assert(cleared == 0, "collecting"); vp_assert((TN == 0) | (last.first < e.first), "collected in increasing order"); vp_assert((TN == 0) | !NZ | (last.second != 0), "no count of zero is kept"); if ((TN > 0) & (last.first.v == P)) TC = last.second; last = e; if (e.first.v == P) GT = TN; vp_assume((TN >= 0) & (TN < ((i64)1 << 40))); TN = TN + 1; }
    else { vp_assert((role == 1) & (cleared == 1), "the result"); vp_assert(e.second != 0, "no count of zero is kept"); vp_assert((RN == 0) | (rprop < e.first.v), "the result is sorted"); rprop = e.first.v; if (e.first.v == P) { rhas = 1; rcnt = e.second; } vp_assume((RN >= 0) & (RN < ((i64)1 << 40))); RN = RN + 1; } }
  PC& operator[](std::size_t k) const { i64 i = (i64)k; if (role) { vp_assert((i >= 0) & (i < len(role)), "inside the sequence"); facts(role, i); PC& c = role == 1 ? acell : bcell; c.first.v = pr(role, i); c.second = ct(role, i); return c; } vp_assert((role == 0) & (cleared == 1) & (i >= 0) & (i < TN), "inside the sequence"); facts(0, i); vp_assume((i != GT) | (ct(0, i) == TC)); tcell.first.v = pr(0, i); tcell.second = ct(0, i); return tcell; }
}; }
#endif
#define private public
#define protected public
#include <boost/polygon/polygon.hpp>
#undef private
#undef protected
using namespace boost::polygon;
#ifdef VP_VERIFY
struct PSet { i64 n; int prev, has; PSet() : n(0), prev(0), has(0) {} PSet(const PSet& o) : n(o.n), prev(o.prev), has(o.has) {} PSet& operator=(const PSet& o) { n = o.n; prev = o.prev; has = o.has; return *this; }
  int end() { return 0; } void insert(int, Prop q) { int p = q.v; vp_assert((n == 0) | (prev < p), "properties in order"); prev = p; if (p == P) has += 1; vp_assume((n >= 0) & (n < ((i64)1 << 40))); n += 1; } };
typedef merge_scanline<int, Prop, int, PSet> MS;
static void start(bool nz = false) { NZ = nz; P = vp_any_i32("prop"); N1 = vp_any_i64("n1"); N2 = vp_any_i64("n2"); G1 = vp_any_i64("g1"); G2 = vp_any_i64("g2"); vp_assume((N1 >= 0) & (N1 <= (1 << 30)) & (N2 >= 0) & (N2 <= (1 << 30)) & (G1 >= -1) & (G1 < N1) & (G2 >= -1) & (G2 < N2));
  GT = -1; TN = RN = 0; TC = rprop = rcnt = rhas = cleared = swapped = 0; SG = 1; last.first.v = last.second = 0; int z = pr(1, 0) & pr(2, 0) & pr(0, 0) & ct(1, 0) & ct(2, 0) & ct(0, 0); vp_assume(z == z); if (N1 > 0) facts(1, 0); if (N2 > 0) facts(2, 0); if (G1 >= 0) facts(1, G1); if (G2 >= 0) facts(2, G2); }
HARNESS(h_C18p_merge) {
  start(); MS m; std::vector<PC> a(1), b(2); m.tmpVector.role = 0; m.mergeCount(a, b);
  int w = (G1 >= 0 ? ct(1, G1) : 0) + (G2 >= 0 ? ct(2, G2) : 0);
  vp_assert(cleared == 1, "the first map is replaced"); vp_assert(rhas == (w != 0) && (w == 0 || rcnt == w), "the count of every property is the sum of the two counts");
}
HARNESS(h_C18p_set) {
  start(); vp_assume(N2 == 0); std::vector<PC> a(1); PSet s; MS::setProperty(s, a);
  vp_assert(s.has == (G1 >= 0 && ct(1, G1) > 0 ? 1 : 0), "the set has exactly the properties of positive count");
}
static void maps(bool arb, int sign) {
  start(true); SG = sign; std::vector<PC> a(1), b(2); if (arb) scanline<int, Prop>::merge_property_maps(a, b); else polygon_45_touch<int>::merge_property_maps(a, b, sign < 0);
  int w = (G1 >= 0 ? ct(1, G1) : 0) + SG * (G2 >= 0 ? ct(2, G2) : 0);
  vp_assert(swapped == 1, "the first map is replaced"); vp_assert((GT >= 0) == (w != 0) && (w == 0 || TC == w), "the count of every property is the sum or difference of the two counts");
}
HARNESS(h_C18p_maps_add) { maps(false, 1); }
HARNESS(h_C18p_maps_sub) { maps(false, -1); }
HARNESS(h_C18p_maps_arb) { maps(true, 1); }
#else
typedef merge_scanline<int, Prop, int> MS; typedef std::vector<PC> PM;
static PM any() { PM v; int n = vp_range("n", 0, 4), p = -3; for (int i = 0; i < n; ++i) { p += vp_range("dp", 1, 2); int c = vp_range("c", -2, 2); if (c) v.push_back(PC(Prop(p), c)); } return v; }
static int at(const PM& v, int p) { int s = 0; for (std::size_t i = 0; i < v.size(); ++i) if (v[i].first.v == p) s += v[i].second; return s; }
HARNESS(h_C18p_merge) { MS m; PM a = any(), b = any(), r = a; m.mergeCount(r, b); for (std::size_t i = 0; i < r.size(); ++i) { vp_assert(r[i].second != 0, "no count of zero is kept"); vp_assert(i == 0 || r[i - 1].first < r[i].first, "the result is sorted"); }
  for (int p = -4; p < 9; ++p) vp_assert(at(r, p) == at(a, p) + at(b, p), "the count of every property is the sum of the two counts"); }
static void maps(bool arb, int sign) { PM a = any(), b = any(), r = a; if (arb) scanline<int, Prop>::merge_property_maps(r, b); else polygon_45_touch<int>::merge_property_maps(r, b, sign < 0);
  for (std::size_t i = 0; i < r.size(); ++i) { vp_assert(r[i].second != 0, "no count of zero is kept"); vp_assert(i == 0 || r[i - 1].first < r[i].first, "collected in increasing order"); }
  for (int p = -4; p < 9; ++p) vp_assert(at(r, p) == at(a, p) + sign * at(b, p), "the count of every property is the sum or difference of the two counts"); }
HARNESS(h_C18p_maps_add) { maps(false, 1); }
HARNESS(h_C18p_maps_sub) { maps(false, -1); }
HARNESS(h_C18p_maps_arb) { maps(true, 1); }
HARNESS(h_C18p_set) { PM a = any(); std::set<Prop> s; MS::setProperty(s, a); for (int p = -4; p < 9; ++p) vp_assert((s.count(Prop(p)) == 1) == (at(a, p) > 0), "the set has exactly the properties of positive count"); }
#endif
