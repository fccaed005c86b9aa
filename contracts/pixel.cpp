// C17: which integer pixels an edge visits (scanline_base<int>::intersects_grid): the rounding of the intersection code moves
// an edge to the lower left corner of exactly the pixels for which this holds.
#include "vp.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef point_data<int> PT; typedef scanline_base<int> SB; typedef SB::half_edge HE;
static int sg(Z v) { return (int)(v > 0) - (int)(v < 0); }
static int X(const PT& p) { return bp::x(p); }
static int Y(const PT& p) { return bp::y(p); }
static bool lexless(const PT& a, const PT& b) { return X(a) < X(b) || (X(a) == X(b) && Y(a) < Y(b)); }
static PT P, A, B;                     // the pixel's lower left corner and the edge
static Z DX, DY, C0;                   // the edge's extent and the side of P
// side of a point among the pixel's corners relative to the line through A and B (positive: left of A->B)
static Z side_edge(const PT& p) { Z a = (Z)X(p) - X(P), b = (Z)Y(p) - Y(P); return C0 + (b == 0 ? (Z)0 : DX) - (a == 0 ? (Z)0 : DY); }
static bool corner(const PT& p) { return (X(p) == X(P) || X(p) == X(P) + 1) && (Y(p) == Y(P) || Y(p) == Y(P) + 1); }
// side of any point relative to the rising (from P) or falling (from P + (0,1)) diagonal of the pixel
static Z side_diag(bool rising, const PT& p) { Z a = (Z)X(p) - X(P), b = (Z)Y(p) - Y(P); return rising ? b - a : a + b - 1; }
// contract discharged in sweep.cpp (h_C08s_on_above_or_below)
extern "C" int c_side(const PT& p, const HE& h) {
  Z c; bool l;
  if (h.first == A && h.second == B) { vp_assert(corner(p), "only corners of the pixel are compared with the edge"); c = side_edge(p); l = lexless(A, B); }
  else {
    bool rising = h.first == P;
    vp_assert(rising ? X(h.second) == X(P) + 1 && Y(h.second) == Y(P) + 1 : X(h.first) == X(P) && Y(h.first) == Y(P) + 1 && X(h.second) == X(P) + 1 && Y(h.second) == Y(P), "the other edge is a diagonal of the pixel");
    c = side_diag(rising, p); l = true;
  }
  return l ? sg(c) : -sg(c);
}
// contract discharged in sweep.cpp (h_C08_equal_slope_points): x,y is a corner of the pixel or an end of the edge on a diagonal
extern "C" bool c_equal_slope(const int& x, const int& y, const PT& a, const PT& b) {
  return ((Z)X(a) - x) * ((Z)Y(b) - y) == ((Z)X(b) - x) * ((Z)Y(a) - y);
}
template <int KIND> static void grid() {
  const int R = 1 << 30;
  P = PT(vp_range("x", -R, R), vp_range("y", -R, R)); A = PT(vp_range("ax", -R, R), vp_range("ay", -R, R)); B = PT(vp_range("bx", -R, R), vp_range("by", -R, R));
  DX = (Z)X(B) - X(A); DY = (Z)Y(B) - Y(A);
  Z u = (Z)X(P) - X(A), v = (Z)Y(P) - Y(A);
  C0 = DX * v - DY * u;
  bool in = X(P) >= std::min(X(A), X(B)) && X(P) <= std::max(X(A), X(B)) && Y(P) >= std::min(Y(A), Y(B)) && Y(P) <= std::max(Y(A), Y(B));
  if (KIND == 0) vp_assume(!in);
  if (KIND == 1) vp_assume(in & ((DX == 0) | (DY == 0)));
  if (KIND >= 2) vp_assume(in & (KIND == 2 ? (DX > 0) & (DY > 0) : KIND == 3 ? (DX > 0) & (DY < 0) : KIND == 4 ? (DX < 0) & (DY > 0) : (DX < 0) & (DY < 0)));
  Z c10 = C0 - DY, c01 = C0 + DX, c11 = C0 + DX - DY;
  bool neg = C0 < 0 || c10 < 0 || c01 < 0 || c11 < 0, pos = C0 > 0 || c10 > 0 || c01 > 0 || c11 > 0;
  bool expect = in && (DX == 0 || DY == 0 || C0 == 0 || (neg && pos));
  bool r = SB::intersects_grid(P, HE(A, B));
  vp_assert(r == expect, "a pixel counts exactly when the edge meets its half-open square");
}
HARNESS(h_C17p_grid_outside) { grid<0>(); }
HARNESS(h_C17p_grid_axis) { grid<1>(); }
HARNESS(h_C17p_grid_up) { grid<2>(); }
HARNESS(h_C17p_grid_down) { grid<3>(); }
HARNESS(h_C17p_grid_up_reversed) { grid<4>(); }
HARNESS(h_C17p_grid_down_reversed) { grid<5>(); }
