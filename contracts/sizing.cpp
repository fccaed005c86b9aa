// The forms of sizing a Manhattan set (C14) and of growing its pieces (C26) that name a direction, an orientation or one amount:
// each is the four-sided form with exactly the amounts asked for.
#define VP_NO_REALS
#include "vp.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
typedef polygon_90_set_data<int> PS;
typedef unsigned long long U;
enum { GROW = 1, BLOAT = 2, SHRINK = 3 };
static int Calls, What; static U Got[4]; static PS* At;
static PS* note(int w, PS* p, U a, U b, U c, U d) { ++Calls; What = w; At = p; Got[0] = a; Got[1] = b; Got[2] = c; Got[3] = d; return p; }
extern "C" PS* c_grow(PS* p, U a, U b, U c, U d) { return note(GROW, p, a, b, c, d); }
extern "C" PS* c_bloat(PS* p, U a, U b, U c, U d) { return note(BLOAT, p, a, b, c, d); }
extern "C" PS* c_shrink(PS* p, U a, U b, U c, U d) { return note(SHRINK, p, a, b, c, d); }
#ifdef VP_VERIFY
alignas(16) static char Mem[sizeof(PS)];
static PS& the() { return *(PS*)Mem; }
static void is(int w, PS& r, U a, U b, U c, U d) {
  vp_assert(Calls == 1 && What == w && At == &the() && &r == &the(), "one four-sided step on the set itself");
  vp_assert(Got[0] == a && Got[1] == b && Got[2] == c && Got[3] == d, "amounts on the west, east, south and north sides");
}
#else
// replay: the recorder is not linked in; the region is compared with the four-sided form on a small set
static PS Set; static PS& the() { Set.clear(); Set.insert(rectangle_data<int>(0, 0, 20, 20)); Set.insert(rectangle_data<int>(30, 0, 50, 20)); Set.insert(rectangle_data<int>(0, 30, 20, 50)); return Set; }
static void is(int w, PS& r, U a, U b, U c, U d) {
  PS x(r), y; if (&r == &Set) {} { PS z; z.insert(rectangle_data<int>(0, 0, 20, 20)); z.insert(rectangle_data<int>(30, 0, 50, 20)); z.insert(rectangle_data<int>(0, 30, 20, 50)); y = z; }
  if (w == GROW) grow_and(y, a, b, c, d); else if (w == BLOAT) bloat(y, a, b, c, d); else shrink(y, a, b, c, d);
  vp_assert(equivalence(x, y), "amounts on the west, east, south and north sides");
}
#endif
static U amt(const char* n) { return (U)vp_range(n, 0, 1000000); }
static void side(int w, int d, U n, PS& r) { is(w, r, d == 0 ? n : 0, d == 1 ? n : 0, d == 2 ? n : 0, d == 3 ? n : 0); }
#define FORMS(P, NAME, fn, w) \
HARNESS(P##NAME##_all) { U n = amt("n"); PS& p = the(); is(w, fn(p, n), n, n, n, n); } \
HARNESS(P##NAME##_direction) { U n = amt("n"); int d = (int)vp_range("dir", 0, 3); PS& p = the(); side(w, d, n, fn(p, direction_2d((direction_2d_enum)d), n)); } \
HARNESS(P##NAME##_axis) { U n = amt("n"); bool v = vp_any_bool("vertical"); PS& p = the(); PS& r = fn(p, v ? orientation_2d(VERTICAL) : orientation_2d(HORIZONTAL), n); is(w, r, v ? 0 : n, v ? 0 : n, v ? n : 0, v ? n : 0); } \
HARNESS(P##NAME##_axis_sides) { U n = amt("low"), m = amt("high"); bool v = vp_any_bool("vertical"); PS& p = the(); PS& r = fn(p, v ? orientation_2d(VERTICAL) : orientation_2d(HORIZONTAL), n, m); is(w, r, v ? 0 : n, v ? 0 : m, v ? n : 0, v ? m : 0); }
// @harnesses: h_C14f_bloat_all h_C14f_bloat_direction h_C14f_bloat_axis h_C14f_bloat_axis_sides h_C14f_shrink_all h_C14f_shrink_direction h_C14f_shrink_axis h_C14f_shrink_axis_sides h_C26f_grow_all h_C26f_grow_direction h_C26f_grow_axis h_C26f_grow_axis_sides
FORMS(h_C14f_, bloat, bloat, BLOAT)
FORMS(h_C14f_, shrink, shrink, SHRINK)
FORMS(h_C26f_, grow, grow_and, GROW)
HARNESS(h_C14f_resize) {
  int k = (int)vp_range("k", -1000000, 1000000); PS& p = the(); PS& r = resize(p, k); U n = (U)(k < 0 ? -k : k);
#ifdef VP_VERIFY
  if (k == 0) { vp_assert(&r == &the() && (Calls == 0 || (Calls == 1 && Got[0] == 0 && Got[1] == 0 && Got[2] == 0 && Got[3] == 0)), "no change asked, none made"); return; }
#endif
  is(k < 0 ? SHRINK : BLOAT, r, n, n, n, n);
}
