#include "core/maps/grid_rasterization.h"
#include "common.h"
#include <set>
CASE(enumeration, 1) {
  double s = r.chance(0.5) ? 1.0 : r.chance(0.5) ? 0.1 : r.d(0.05, 3);
  if (s < 0.01) throw Discard{};
  RegularSquaresGrid g(r.i(1, 60), r.i(1, 60), s);
  double L = s * r.i(1, 12);
  double a = r.d(-L, L), b = r.d(-L, L), c = r.d(-L, L), d = r.d(-L, L);
  if (r.chance(0.1)) b = a;
  if (r.chance(0.1)) d = c;
  if (r.chance(0.2)) { a = std::round(a / s) * s; c = std::round(c / s) * s; }
  if (r.chance(0.2)) { b = std::round(b / s) * s; d = std::round(d / s) * s; }
  if (a > b) std::swap(a, b);
  if (c > d) std::swap(c, d);
  bool border = r.chance(0.6);
  LightWeightRectangle rc(a, b, c, d);
  NOTE("scale=" << s << " border=" << border << " bot=" << a << " top=" << b << " left=" << c << " right=" << d);
  double off = border ? 0 : 1e-9;
  bool empty = rc.area() == 0;
  if (!empty && (b - a < 4e-9 || d - c < 4e-9)) throw Discard{};
  DiscretePoint2D lb = g.world_to_cell(c + off, a + off), rt = g.world_to_cell(d - off, b - off);
  if (empty) lb = rt = g.world_to_cell(c, a);
  auto v = GridRasterizedRectangle{g, rc, border}.to_vector();
  std::set<std::pair<int, int>> seen;
  for (auto &p : v) {
    CHECK(lb.x <= p.x && p.x <= rt.x && lb.y <= p.y && p.y <= rt.y, "cell " << p << " outside of " << lb << rt);
    CHECK(seen.insert({p.x, p.y}).second, "cell " << p << " repeated");
  }
  CHECK((long)v.size() == (long)(rt.x - lb.x + 1) * (rt.y - lb.y + 1), v.size());
  GridRasterizedRectangle it{g, rc, border}; size_t k = 0;
  while (it.has_next()) { auto p = it.next(); CHECK(k < v.size() && v[k] == p, "stepwise enumeration differs at " << k); ++k; }
  CHECK(k == v.size(), k);
}
CASE(own_bounds, 0.5) {
  double s = r.chance(0.5) ? 1.0 : r.d(0.05, 3);
  if (s < 0.01) throw Discard{};
  RegularSquaresGrid g(r.i(1, 60), r.i(1, 60), s);
  DiscretePoint2D c(r.i(-400, 400), r.i(-400, 400)); NOTE("scale=" << s); IN(c);
  auto v = GridRasterizedRectangle{g, g.world_cell_bounds(c), false}.to_vector();
  CHECK(v.size() == 1 && v[0] == c, "bounds of a cell cover " << v.size() << " cells");
}
CASE(infinite, 0.2) {
  int w = r.i(1, 20), h = r.i(1, 20); RegularSquaresGrid g(w, h, r.d(0.1, 2)); IN(w); IN(h);
  double I = INFINITY;
  // some side lies at infinity (bottom, top, left, right)
  int open = r.chance(0.3) ? 15 : r.i(1, 15); IN(open);
  double b = r.d(-9, 9), l = r.d(-9, 9), t = b + r.d(0.01, 9), rt = l + r.d(0.01, 9);
  auto v = GridRasterizedRectangle{g, LightWeightRectangle(open & 1 ? -I : b, open & 2 ? I : t, open & 4 ? -I : l, open & 8 ? I : rt), r.chance(0.5)}.to_vector();
  CHECK((int)v.size() == w * h, v.size());
  std::set<std::pair<int, int>> seen;
  for (auto &p : v) { CHECK(g.has_cell(p), p); CHECK(seen.insert({p.x, p.y}).second, p); }
}
