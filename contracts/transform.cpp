// Contracts of isotropy.hpp and transform.hpp (C06): the algebra of directions and axis transformations.
#include "vp.h"
#include <boost/polygon/polygon.hpp>
using namespace boost::polygon;
namespace bp = boost::polygon;
typedef point_data<int> PT; typedef axis_transformation AT; typedef transformation<int> TR; typedef anisotropic_scale_factor<double> SF;
static int dxof(direction_2d d) { return d == WEST ? -1 : d == EAST ? 1 : 0; }
static int dyof(direction_2d d) { return d == SOUTH ? -1 : d == NORTH ? 1 : 0; }
static direction_2d any_dir(const char* n) { return direction_2d((direction_2d_enum)vp_range(n, 0, 3)); }
static AT any_at(const char* n) { return AT((AT::ATR)vp_range(n, 0, 7)); }
static void apply(const AT& a, Z x, Z y, Z& ox, Z& oy) {      // the meaning of the eight values, from the table in transform.hpp
  switch ((int)(a == AT(AT::EAST_NORTH) ? 0 : a == AT(AT::WEST_NORTH) ? 1 : a == AT(AT::EAST_SOUTH) ? 2 : a == AT(AT::WEST_SOUTH) ? 3 :
          a == AT(AT::NORTH_EAST) ? 4 : a == AT(AT::SOUTH_EAST) ? 5 : a == AT(AT::NORTH_WEST) ? 6 : 7)) {
    case 0: ox = x; oy = y; break;  case 1: ox = -x; oy = y; break;
    case 2: ox = x; oy = -y; break; case 3: ox = -x; oy = -y; break;
    // the horizontal axis goes to the first direction, the vertical one to the second
    case 4: ox = y; oy = x; break;  case 5: ox = y; oy = -x; break;
    case 6: ox = -y; oy = x; break; default: ox = -y; oy = -x; break;
  }
}
HARNESS(h_C06_direction_1d) {
  direction_1d d = vp_any_bool("d") ? HIGH : LOW, e = vp_any_bool("e") ? HIGH : LOW;
  direction_1d b = d; b.backward();
  vp_assert(b != d && !(b == d), "backward differs");
  direction_1d c = b; c.backward();
  vp_assert(c == d && !(c != d), "backward twice is the identity");
  vp_assert(d.get_sign() == (d == HIGH ? 1 : -1) && b.get_sign() == -d.get_sign(), "sign of a direction");
  vp_assert((d == e) == (d.to_int() == e.to_int()), "equality is by value");
  direction_1d f; f = e; vp_assert(f == e, "assignment");
  vp_assert(direction_1d(LEFT) == direction_1d(LOW) && direction_1d(CLOCKWISE) != direction_1d(COUNTERCLOCKWISE), "named directions");
}
HARNESS(h_C06_orientation) {
  orientation_2d o = vp_any_bool("o") ? VERTICAL : HORIZONTAL;
  orientation_2d p = o.get_perpendicular();
  vp_assert(p != o && !(p == o), "the perpendicular differs");
  vp_assert(p.get_perpendicular() == o, "perpendicular twice is the identity");
  orientation_2d q = o; q.turn_90(); vp_assert(q == p, "turn_90 gives the perpendicular");
  q.turn_90(); vp_assert(q == o, "turn_90 twice is the identity");
  for (int k = 0; k < 2; ++k) {
    direction_1d d = k ? HIGH : LOW;
    direction_2d r = o.get_direction(d);
    vp_assert(orientation_2d(r) == o, "the direction lies along its orientation");
    vp_assert(r.get_sign() == d.get_sign() && direction_1d(r) == d, "the direction has the chosen sign");
    vp_assert((dxof(r) != 0) == (o == orientation_2d(HORIZONTAL)), "horizontal directions move in x");
    vp_assert(dxof(r) + dyof(r) == d.get_sign(), "high is the positive direction");
  }
}
HARNESS(h_C06_direction_2d) {
  direction_2d d = any_dir("d"), e = any_dir("e");
  vp_assert(d.backward() != d && d.backward().backward() == d, "backward twice is the identity");
  vp_assert(dxof(d.backward()) == -dxof(d) && dyof(d.backward()) == -dyof(d), "backward is the opposite vector");
  vp_assert(dxof(d.left()) == -dyof(d) && dyof(d.left()) == dxof(d), "left is a counterclockwise quarter turn");
  vp_assert(dxof(d.right()) == dyof(d) && dyof(d.right()) == -dxof(d), "right is a clockwise quarter turn");
  vp_assert(d.left().right() == d && d.right().left() == d, "left then right is the identity");
  vp_assert(d.left().left() == d.backward() && d.right().right() == d.backward(), "two turns reverse");
  vp_assert(d.turn(HIGH) == d.left() && d.turn(LOW) == d.right(), "turn picks the side");
  vp_assert(d.is_positive() == (dxof(d) + dyof(d) > 0) && d.is_negative() == !d.is_positive(), "positive directions are north and east");
  vp_assert(d.get_sign() == dxof(d) + dyof(d), "sign of a direction");
  vp_assert(orientation_2d(d).get_direction(direction_1d(d)) == d, "orientation and sign determine the direction");
  vp_assert((d == e) == (dxof(d) == dxof(e) && dyof(d) == dyof(e)) && (d != e) == !(d == e), "equality");
  vp_assert((int)(d < e) + (int)(e < d) + (int)(d == e) == 1 && (d <= e) == !(e < d) && (d > e) == (e < d) && (d >= e) == !(d < e), "total order");
  direction_2d f; f = e; vp_assert(f == e, "assignment");
}
HARNESS(h_C06_direction_3d) {
  int k = (int)vp_range("k", 0, 5);
  direction_3d d = k < 4 ? direction_3d((direction_2d_enum)k) : direction_3d((direction_3d_enum)k);
  vp_assert(d.to_int() == (unsigned)k, "value");
  vp_assert(d.backward().backward() == d && d.backward() != d, "backward twice is the identity");
  vp_assert(orientation_3d(d.backward()) == orientation_3d(d) && d.backward().get_sign() == -d.get_sign(), "backward keeps the axis and flips the sign");
  vp_assert(d.is_positive() == (k == EAST || k == NORTH || k == UP) && d.is_negative() == !d.is_positive(), "positive directions");
  vp_assert(orientation_3d(d).get_direction(direction_1d(d)) == d, "orientation and sign determine the direction");
  orientation_3d o(d);
  vp_assert((o == orientation_3d(orientation_2d(HORIZONTAL))) == (k < 2) && (o == orientation_3d(PROXIMAL)) == (k >= 4), "axis of the direction");
}
HARNESS(h_C06_axis_point) {
  AT a = any_at("a"); int x = vp_any_i32("x"), y = vp_any_i32("y");
  vp_assume(x > -2147483647 - 1 && y > -2147483647 - 1);
  int tx = x, ty = y; a.transform(tx, ty);
  Z ex, ey; apply(a, x, y, ex, ey);
  vp_assert(tx == ex && ty == ey, "action on a point");
  AT b = a.inverse(); b.transform(tx, ty);
  vp_assert(tx == x && ty == y, "inverse restores the point");
  vp_assert(a + b == AT() && b + a == AT(), "transformation and inverse compose to the identity");
  AT c = a; c.invert(); vp_assert(c == b && c.inverse() == a, "invert in place");
}
HARNESS(h_C06_axis_compose) {
  AT a = any_at("a"), b = any_at("b"), c = any_at("c"); int x = vp_any_i32("x"), y = vp_any_i32("y");
  vp_assume(x > -2147483647 - 1 && y > -2147483647 - 1);
  AT s = a + b; int tx = x, ty = y; s.transform(tx, ty);
  int ux = x, uy = y; a.transform(ux, uy); b.transform(ux, uy);
  vp_assert(tx == ux && ty == uy, "composition applies the left one first");
  AT r = a; r += b; vp_assert(r == s, "in-place composition");
  vp_assert((a + b) + c == a + (b + c), "associative");
  vp_assert(a + AT() == a && AT() + a == a, "identity");
  vp_assert((a == b) != (a != b) && (int)(a < b) + (int)(b < a) + (int)(a == b) == 1, "order of transformations");
  AT::INDIVIDUAL_AXIS p[2], q[2]; a.populate_axis_array(p); b.populate_axis_array(q);
  AT::combine_axis_arrays(p, q); AT w; w.write_back_axis_array(p);
  vp_assert(w == s, "combining axis arrays is composition");
}
HARNESS(h_C06_axis_directions) {
  AT a = any_at("a"); direction_2d h, v; a.get_directions(h, v);
  vp_assert(orientation_2d(h) != orientation_2d(v), "the axes stay perpendicular");
  int x = 1, y = 0; AT b = a.inverse(); 
  // horizontal axis of the new system points along h in the old one
  b.transform(x, y); int x2 = 1, y2 = 0; a.transform(x2, y2);
  vp_assert(orientation_2d(h) == orientation_2d(x2 != 0 ? HORIZONTAL : VERTICAL), "horizontal axis direction");
  AT c; c.set_directions(h, v); vp_assert(c == a, "directions determine the transformation");
  vp_assert((h == EAST && v == NORTH) == (a == AT()), "identity directions");
  AT::INDIVIDUAL_AXIS p[2]; a.populate_axis_array(p);
  vp_assert((p[0] >= 2) == (orientation_2d(h) == orientation_2d(VERTICAL)) && ((p[0] & 1) == 0) == h.is_positive(), "horizontal axis entry");
  vp_assert((p[1] >= 2) == (orientation_2d(v) == orientation_2d(VERTICAL)) && ((p[1] & 1) == 0) == v.is_positive(), "vertical axis entry");
  AT w; w.write_back_axis_array(p); vp_assert(w == a, "axis array round trip");
}
HARNESS(h_C06_axis_named) {
  int x = vp_any_i32("x"), y = vp_any_i32("y"); vp_assume(x > -2147483647 - 1 && y > -2147483647 - 1);
  int a = x, b = y; AT(AT::FLIP_X).transform(a, b); vp_assert(a == -x && b == y, "FLIP_X");
  a = x; b = y; AT(AT::FLIP_Y).transform(a, b); vp_assert(a == x && b == -y, "FLIP_Y");
  a = x; b = y; AT(AT::FLIP_XY).transform(a, b); vp_assert(a == -x && b == -y, "FLIP_XY");
  a = x; b = y; AT(AT::SWAP_XY).transform(a, b); vp_assert(a == y && b == x, "SWAP_XY");
  vp_assert(AT(AT::ROTATE_LEFT) + AT(AT::ROTATE_RIGHT) == AT(), "left and right rotations cancel");
  vp_assert(AT(AT::ROTATE_LEFT) + AT(AT::ROTATE_LEFT) == AT(AT::FLIP_XY), "two quarter turns");
  vp_assert(AT(AT::FLIP_SWAP_XY) + AT(AT::FLIP_SWAP_XY) == AT(), "flip swap is an involution");
  vp_assert(AT(orientation_2d(HORIZONTAL)) == AT(AT::NORTH_EAST) && AT(orientation_2d(VERTICAL)) == AT(AT::EAST_NORTH), "from an orientation");
  vp_assert(AT(direction_2d(WEST)) == AT(AT::SOUTH_EAST) && AT(direction_2d(EAST)) == AT(AT::NORTH_EAST) && AT(direction_2d(SOUTH)) == AT(AT::EAST_SOUTH) && AT(direction_2d(NORTH)) == AT(AT::EAST_NORTH), "from a direction");
}
// ---- translations; |coordinates| <= 2^28 keeps every intermediate displacement representable
static int c28(const char* n) { return (int)vp_range(n, -268435456LL, 268435456LL); }
static TR any_tr(const char* a, const char* x, const char* y) { AT t = any_at(a); int px = c28(x), py = c28(y); return TR(t, PT(px, py)); }
HARNESS(h_C06_transform_point) {
  AT a = any_at("a"); int px = c28("px"), py = c28("py"), x = c28("x"), y = c28("y");
  TR t(a, PT(px, py)); int tx = x, ty = y; t.transform(tx, ty);
  Z ex, ey; apply(a, (Z)x - px, (Z)y - py, ex, ey);
  vp_assert(tx == ex && ty == ey, "the translation is the origin of the new system");
  TR u = t.inverse(); int ux = tx, uy = ty; u.transform(ux, uy);
  vp_assert(ux == x && uy == y, "inverse restores the point");
  ux = x; uy = y; u.transform(ux, uy); t.transform(ux, uy);
  vp_assert(ux == x && uy == y, "inverse on the other side");
  TR w = t; w.invert(); vp_assert(w == u && !(w != u), "invert in place");
  PT g; t.get_translation(g); vp_assert(bp::x(g) == px && bp::y(g) == py && t.get_axis_transformation() == a, "components");
  TR z = t; z.set_translation(PT(x, y)); z.get_translation(g); vp_assert(bp::x(g) == x && bp::y(g) == y, "set translation");
  z.set_axis_transformation(AT()); vp_assert(z.get_axis_transformation() == AT(), "set axis transformation");
  vp_assert(TR(PT(px, py)) == TR(AT(), PT(px, py)) && TR(a) == TR(a, PT(0, 0)), "constructors");
}
HARNESS(h_C06_transform_compose) {
  TR s = any_tr("a", "px", "py"), t = any_tr("b", "qx", "qy"); int x = c28("x"), y = c28("y");
  TR c = s + t; int tx = x, ty = y; c.transform(tx, ty);
  int ux = x, uy = y; s.transform(ux, uy); t.transform(ux, uy);
  vp_assert(tx == ux && ty == uy, "composition applies the left one first");
  TR r = s; r += t; vp_assert(r == c, "in-place composition");
  vp_assert(s + s.inverse() == TR() && s.inverse() + s == TR(), "transformation and inverse compose to the identity");
  vp_assert(s + TR() == s && TR() + s == s, "identity");
  vp_assert((s == t) != (s != t) && (int)(s < t) + (int)(t < s) + (int)(s == t) == 1, "order of transformations");
}
HARNESS(h_C06_transform_reference) {
  AT a = any_at("a"); int rx = c28("rx"), ry = c28("ry"), dx = c28("dx"), dy = c28("dy"), x = c28("x"), y = c28("y");
  TR t(a, PT(rx, ry), PT(dx, dy)); int tx = x, ty = y; t.transform(tx, ty);
  Z ex, ey; apply(a, (Z)x - rx, (Z)y - ry, ex, ey);
  vp_assert(tx == ex + dx && ty == ey + dy, "maps the reference point to the destination");
}
HARNESS(h_C06_transform_api) {
  TR t = any_tr("a", "px", "py"); int x = c28("x"), y = c28("y");
  PT p(x, y); transform(p, t); int tx = x, ty = y; t.transform(tx, ty);
  vp_assert(bp::x(p) == tx && bp::y(p) == ty, "transform of a point");
  AT a = any_at("b"); PT q(x, y); transform(q, a); tx = x; ty = y; a.transform(tx, ty);
  vp_assert(bp::x(q) == tx && bp::y(q) == ty, "axis transform of a point");
}
// ---- scaling: factors k/8
static Z fdiv8(Z v) { return v >= 0 ? v / 8 : -((-v + 7) / 8); }
HARNESS(h_C06_scale_point) {
  int kx = (int)vp_range("kx", -64, 64), ky = (int)vp_range("ky", -64, 64); int x = vp_any_i32("x"), y = vp_any_i32("y");
  Z ex = fdiv8((Z)x * kx + 4), ey = fdiv8((Z)y * ky + 4); vp_assume(fits32(ex) && fits32(ey));
  SF f(kx / 8.0, ky / 8.0); int sx = x, sy = y; f.scale(sx, sy);
  vp_assert(sx == ex && sy == ey, "each axis is scaled by its own factor, to the nearest coordinate");
  PT p(x, y); scale(p, f); vp_assert(bp::x(p) == ex && bp::y(p) == ey, "scale of a point");
}
HARNESS(h_C06_scale_algebra) {
  int ax = (int)vp_range("ax", -4096, 4096), ay = (int)vp_range("ay", -4096, 4096), bx = (int)vp_range("bx", -4096, 4096), by = (int)vp_range("by", -4096, 4096);
  SF f(ax, ay), g(bx, by), s = f + g;
  vp_assert(s.x() == (double)ax * bx && s.y() == (double)ay * by, "composition multiplies per axis");
  SF h = f; h += g; vp_assert(h.x() == s.x() && h.y() == s.y(), "in-place composition");
  vp_assert(f.get(HORIZONTAL) == ax && f.get(VERTICAL) == ay && f.x() == ax && f.y() == ay, "components");
  SF k; vp_assert(k.x() == 1 && k.y() == 1, "default is the identity");
  k.set(VERTICAL, by); vp_assert(k.x() == 1 && k.y() == by, "set a component");
  k.x(bx); vp_assert(k.x() == bx && k.y() == by, "set the horizontal component");
  k.y(ay); vp_assert(k.x() == bx && k.y() == ay, "set the vertical component");
  AT a = any_at("a"); SF m = f; m.transform(a);
  direction_2d dh, dv; a.get_directions(dh, dv); bool sw = orientation_2d(dh) == orientation_2d(VERTICAL);
  vp_assert(m.x() == (sw ? ay : ax) && m.y() == (sw ? ax : ay), "axis transformation of a scale");
}
static int pinned(const char* n) {        // an arbitrary factor of -8..8 without 0, one path per value
  int k = (int)vp_range(n, -8, 8); vp_assume(k != 0);
  for (int j = -8; j <= 8; ++j) if (vp_pathsplit(k == j)) return j;
  return 1;
}
HARNESS(h_C06_scale_invert_x) {
  int k = pinned("k"), x = (int)vp_range("x", -2097152, 2097152), y = (int)vp_range("y", -2097152, 2097152);
  SF f(k, 4), g = f; g.invert();
  int sx = x, sy = y; f.scale(sx, sy); g.scale(sx, sy);
  vp_assert(sx == x && sy == y, "the inverted scale undoes the horizontal scaling");
}
HARNESS(h_C06_scale_invert_y) {
  int k = pinned("k"), x = (int)vp_range("x", -2097152, 2097152), y = (int)vp_range("y", -2097152, 2097152);
  SF f(2, k), g = f; g.invert();
  int sx = x, sy = y; f.scale(sx, sy); g.scale(sx, sy);
  vp_assert(sx == x && sy == y, "the inverted scale undoes the vertical scaling");
}
