// Exact plane geometry and shape generators for the bounded stand-ins.
#ifndef GEO_H
#define GEO_H
#include "bnd.h"
struct P { i64 x, y; };
inline bool operator==(P a, P b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(P a, P b) { return !(a == b); }
inline bool operator<(P a, P b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
typedef std::vector<P> Loop;
inline int sg(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline i128 crs(P o, P a, P b) { return (i128)(a.x - o.x) * (b.y - o.y) - (i128)(a.y - o.y) * (b.x - o.x); }
inline bool onseg(P p, P a, P b) { return crs(a, b, p) == 0 && p.x >= std::min(a.x, b.x) && p.x <= std::max(a.x, b.x) && p.y >= std::min(a.y, b.y) && p.y <= std::max(a.y, b.y); }
inline bool meets(P a, P b, P c, P d) {
  int s1 = sg(crs(a, b, c)), s2 = sg(crs(a, b, d)), s3 = sg(crs(c, d, a)), s4 = sg(crs(c, d, b));
  if (s1 * s2 < 0 && s3 * s4 < 0) return true;
  return onseg(c, a, b) || onseg(d, a, b) || onseg(a, c, d) || onseg(b, c, d);
}
inline bool simple(const Loop& l) {
  size_t n = l.size(); if (n < 3) return false;
  for (size_t i = 0; i < n; ++i) {
    P a = l[i], b = l[(i + 1) % n], c = l[(i + 2) % n];
    if (a == b) return false;
    if (crs(a, b, c) == 0) return false;             // no straight or reversing corners
    for (size_t j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; if (meets(a, b, l[j], l[(j + 1) % n])) return false; }
  }
  return true;
}
inline i128 area2(const Loop& l) { i128 s = 0; for (size_t i = 0; i < l.size(); ++i) { P a = l[i], b = l[(i + 1) % l.size()]; s += (i128)a.x * b.y - (i128)b.x * a.y; } return s; }   // twice, counterclockwise positive
// 1 inside, 0 on the boundary, -1 outside
inline int where(P p, const Loop& l) {
  bool in = false;
  for (size_t i = 0; i < l.size(); ++i) {
    P a = l[i], b = l[(i + 1) % l.size()];
    if (onseg(p, a, b)) return 0;
    if ((a.y > p.y) != (b.y > p.y)) { int s = sg(crs(a, b, p)); if ((b.y > a.y) == (s > 0)) in = !in; }
  }
  return in ? 1 : -1;
}
// is the point in the region bounded by any number of loops (odd winding by crossing parity); 0 on an edge
inline int winding_at(P p, const std::vector<Loop>& ls, bool& on) {
  int w = 0;
  for (size_t k = 0; k < ls.size(); ++k) for (size_t i = 0; i < ls[k].size(); ++i) {
    P a = ls[k][i], b = ls[k][(i + 1) % ls[k].size()];
    if (onseg(p, a, b)) on = true;
    if ((a.y > p.y) != (b.y > p.y)) { int s = sg(crs(a, b, p)); if (b.y > a.y) { if (s > 0) ++w; } else if (s < 0) --w; }
  }
  return w;
}
inline std::string S(const Loop& l) { std::string r = "["; for (size_t i = 0; i < l.size(); ++i) r += (i ? " " : "") + S(l[i].x) + "," + S(l[i].y); return r + "]"; }
inline std::string S(const std::vector<Loop>& l) { std::string r; for (size_t i = 0; i < l.size(); ++i) r += S(l[i]); return r; }
// ---- generators
// outer boundary loop of a random simply connected polyomino in a w x h box; vertices at corners only
inline Loop polyomino(int w, int h, int grow) {
  for (;;) {
    std::vector<std::vector<int> > c(w + 2, std::vector<int>(h + 2, 0));
    int cx = (int)bnd.in(1, w), cy = (int)bnd.in(1, h); c[cx][cy] = 1;
    for (int k = 0; k < grow; ++k) { int x = (int)bnd.in(1, w), y = (int)bnd.in(1, h); if (!c[x][y] && (c[x - 1][y] + c[x + 1][y] + c[x][y - 1] + c[x][y + 1]) >= 1) {
      // stay simply connected without corner contacts: the filled neighbours must form one arc
      int n[8] = {c[x - 1][y - 1], c[x][y - 1], c[x + 1][y - 1], c[x + 1][y], c[x + 1][y + 1], c[x][y + 1], c[x - 1][y + 1], c[x - 1][y]}, ch = 0;
      for (int i = 0; i < 8; ++i) if (n[i] != n[(i + 1) & 7]) ++ch;
      if (ch == 2) c[x][y] = 1; } }
    // trace counterclockwise
    int sx = -1, sy = -1; for (int y = 1; y <= h && sx < 0; ++y) for (int x = 1; x <= w; ++x) if (c[x][y]) { sx = x; sy = y; break; }
    Loop l; int x = sx, y = sy, dx = 1, dy = 0; P s = {x, y}; l.push_back(s);
    for (int it = 0; it < 4000; ++it) {
      x += dx; y += dy;
      // cell ahead-left and ahead-right of the corner (cell (a,b) covers [a,a+1]x[b,b+1])
      int lx = dx > 0 ? x : dx < 0 ? x - 1 : dy > 0 ? x - 1 : x, ly = dy > 0 ? y : dy < 0 ? y - 1 : dx > 0 ? y : y - 1;
      int rx = dx > 0 ? x : dx < 0 ? x - 1 : dy > 0 ? x : x - 1, ry = dy > 0 ? y : dy < 0 ? y - 1 : dx > 0 ? y - 1 : y;
      int nd = 0;
      if (c[rx][ry]) nd = -1; else if (!c[lx][ly]) nd = 1;
      if (x == sx && y == sy) break;
      if (nd) { P p = {x, y}; l.push_back(p); int t = dx; if (nd > 0) { dx = -dy; dy = t; } else { dx = dy; dy = -t; } }
    }
    if (l.size() >= 4) return l;
  }
}
inline Loop random_simple(int n, i64 m, bool octi) {
  for (;;) {
    Loop l; P p = {bnd.in(-m, m), bnd.in(-m, m)}; l.push_back(p);
    if (!octi) { while ((int)l.size() < n) { P q = {bnd.in(-m, m), bnd.in(-m, m)}; l.push_back(q); } }
    else {
      // random octilinear walk; the last two edges close it
      while ((int)l.size() < n - 1) { int d = (int)bnd.in(0, 7); i64 k = bnd.in(1, m); static const int X[] = {1, 1, 0, -1, -1, -1, 0, 1}, Y[] = {0, 1, 1, 1, 0, -1, -1, -1}; P b = l.back(), q = {b.x + X[d] * k, b.y + Y[d] * k}; l.push_back(q); }
      P a = l.back(), o = l[0]; int e = (int)bnd.in(0, 3); P q;
      i64 dx = o.x - a.x, dy = o.y - a.y;
      if (e == 0) { q.x = o.x; q.y = a.y; } else if (e == 1) { q.x = a.x; q.y = o.y; }
      else if (e == 2) { q.x = a.x + (std::llabs(dy)) * (dx < 0 ? -1 : 1); q.y = o.y; }
      else { q.x = o.x; q.y = a.y + std::llabs(dx) * (dy < 0 ? -1 : 1); }
      l.push_back(q);
      if (l.back() == l[0]) l.pop_back();
    }
    if (simple(l)) return l;
  }
}
inline void rotate_start(Loop& l) { std::rotate(l.begin(), l.begin() + bnd.in(0, (i64)l.size() - 1), l.end()); if (bnd.in(0, 1)) std::reverse(l.begin(), l.end()); }
inline Loop mapped(Loop l, i64 k, i64 dx, i64 dy) { for (size_t i = 0; i < l.size(); ++i) { l[i].x = l[i].x * k + dx; l[i].y = l[i].y * k + dy; } return l; }
// same cyclic sequence
inline bool same_cycle(const Loop& a, const Loop& b) { if (a.size() != b.size()) return false; size_t n = a.size(); for (size_t s = 0; s < n; ++s) { bool ok = true; for (size_t i = 0; i < n && ok; ++i) ok = a[i] == b[(i + s) % n]; if (ok) return true; } return n == 0; }
// the loop lies strictly inside the other
inline bool strictly_inside(const Loop& in, const Loop& out) {
  for (size_t i = 0; i < in.size(); ++i) { if (where(in[i], out) <= 0) return false; for (size_t j = 0; j < out.size(); ++j) if (meets(in[i], in[(i + 1) % in.size()], out[j], out[(j + 1) % out.size()])) return false; }
  return true;
}
inline bool apart(const Loop& a, const Loop& b) {
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) if (meets(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) return false;
  return where(a[0], b) < 0 && where(b[0], a) < 0;
}
#endif
