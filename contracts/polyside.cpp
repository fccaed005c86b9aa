// Side of a point relative to a polygon edge (edge_utils of polygon_traits.hpp), exact for all int coordinates (C10).
#include "vp.h"
#include <cmath>
#include <algorithm>
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef point_data<int> PT; typedef edge_utils<int> EU; typedef std::pair<PT, PT> HE;
static int xof(const PT& p) { return bp::x(p); }
static int yof(const PT& p) { return bp::y(p); }
static PT any_p(const char* a, const char* b) { int x = vp_any_i32(a), y = vp_any_i32(b); return PT(x, y); }
static bool lexless(const PT& a, const PT& b) { return xof(a) < xof(b) || (xof(a) == xof(b) && yof(a) < yof(b)); }
static int sg(Z v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static Z crs(const PT& o, const PT& a, const PT& b) { return ((Z)xof(a) - xof(o)) * ((Z)yof(b) - yof(o)) - ((Z)xof(b) - xof(o)) * ((Z)yof(a) - yof(o)); }
#define SIGNS(v) vp_pathsplit((v) > 0); vp_pathsplit((v) < 0)
HARNESS(h_C10p_equal_slope) {
  PT o = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  bool r = EU::equal_slope(xof(o), yof(o), a, b);
  SIGNS((Z)xof(a) - xof(o)); SIGNS((Z)yof(a) - yof(o)); SIGNS((Z)xof(b) - xof(o)); SIGNS((Z)yof(b) - yof(o));
  vp_assert(r == (crs(o, a, b) == 0), "equal slopes are collinear points");
}
HARNESS(h_C10p_less_slope) {
  PT o = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  bool r = EU::less_slope(xof(o), yof(o), a, b);
  Z dx1 = (Z)xof(a) - xof(o), dx2 = (Z)xof(b) - xof(o), c = crs(o, a, b);
  SIGNS(dx1); SIGNS((Z)yof(a) - yof(o)); SIGNS(dx2); SIGNS((Z)yof(b) - yof(o));
  bool e = dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? c > 0 : c < 0;
  vp_assert(r == e, "smaller slope seen from the pivot");
}
extern "C" bool c_equal_slope_points(const int& x, const int& y, const PT& a, const PT& b) { return crs(PT(x, y), a, b) == 0; }
extern "C" bool c_less_slope_points(const int& x, const int& y, const PT& a, const PT& b) {
  Z dx1 = (Z)xof(a) - x, dx2 = (Z)xof(b) - x, c = crs(PT(x, y), a, b);
  return dx1 == 0 ? false : dx2 == 0 ? true : (dx1 > 0) == (dx2 > 0) ? c > 0 : c < 0;
}
HARNESS(h_C10s_on_above_or_below) {
  PT p = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by");
  int r = EU::on_above_or_below(p, HE(a, b));
  Z c = crs(a, b, p); int e = lexless(a, b) ? sg(c) : -sg(c);
  SIGNS((Z)xof(a) - xof(p)); SIGNS((Z)xof(b) - xof(p));
  vp_assert(r == e, "point below, on or above an edge");
}
// the facts polyloop.cpp assumes about its opaque side function
HARNESS(h_C10s_side_of_ends) {
  PT p = any_p("x", "y"), a = any_p("ax", "ay"), b = any_p("bx", "by"); vp_assume(p == a || p == b);
  vp_assert(sg(crs(a, b, p)) == 0, "an end of an edge is on it");
}
