#include "core/maps/regular_squares_grid.h"
#include "core/maps/plain_grid_map.h"
#include "common.h"
struct G : RegularSquaresGrid {
  using RegularSquaresGrid::RegularSquaresGrid;
  using RegularSquaresGrid::external2internal; using RegularSquaresGrid::has_internal_cell;
  using RegularSquaresGrid::set_width; using RegularSquaresGrid::set_height; using RegularSquaresGrid::set_scale;
};
static double any_scale(Rng &r) { double s = r.chance(0.3) ? 0.1 : r.chance(0.3) ? 1.0 : r.chance(0.5) ? std::ldexp(1.0, r.i(-8, 4)) : r.d(0.01, 5); if (s < 0.005) throw Discard{}; return s; }
CASE(points, 2) {
  double s = any_scale(r); G g(r.i(1, 400), r.i(1, 400), s);
  long c = r.chance(0.8) ? r.i(-50, 50) : r.i(-100000, 100000), d = r.chance(0.8) ? r.i(-50, 50) : r.i(-100000, 100000);
  double u = r.u(), v = r.u();
  if (r.chance(0.2)) u = 0; 
  if (r.chance(0.2)) v = 0;
  double x = (c + u) * s, y = (d + v) * s;
  NOTE("scale=" << s << " x=" << x << " y=" << y);
  auto k = g.world_to_cell(x, y);
  // outside of the rounding zone of the cell border the cell is fixed
  double eps = 1e-9 * (1 + std::fabs(x / s) + std::fabs(y / s));
  double rx = x / s, ry = y / s;
  CHECK(k.x <= rx + eps && rx - eps < k.x + 1, "x cell " << k.x);
  CHECK(k.y <= ry + eps && ry - eps < k.y + 1, "y cell " << k.y);
  CHECK(k == (DiscretePoint2D{(int)std::floor(x / s), (int)std::floor(y / s)}), "cell " << k);
  CHECK(g.world_to_cell(Point2D{x, y}) == k, "point overload");
  CHECK(g.world_to_cell(x, y, s) == k, "explicit scale overload");
  auto b = g.world_cell_bounds(k);
  double t = 1e-9 * (1 + std::fabs(x) + std::fabs(y));
  CHECK(b.left() <= x + t && x - t <= b.right() && b.bot() <= y + t && y - t <= b.top(), "bounds " << b);
  CHECK(close(b.hside_len(), s, 1e-7) && close(b.vside_len(), s, 1e-7), "bounds size " << b);
}
CASE(cells, 2) {
  double s = any_scale(r); int w = r.i(1, 400), h = r.i(1, 400); G g(w, h, s);
  long L = r.chance(0.7) ? 300 : 1000000;
  DiscretePoint2D c(r.i(-L, L), r.i(-L, L)); NOTE("scale=" << s << " w=" << w << " h=" << h); IN(c);
  auto p = g.cell_to_world(c);
  CHECK(close(p.x, s * (c.x + 0.5)) && close(p.y, s * (c.y + 0.5)), p);
  CHECK(g.world_to_cell(p) == c, "center goes to " << g.world_to_cell(p));
  auto b = g.world_cell_bounds(c);
  CHECK(b.left() < p.x && p.x < b.right() && b.bot() < p.y && p.y < b.top(), "center outside of bounds " << b);
  CHECK(close(b.left(), s * c.x) && close(b.right(), s * (c.x + 1)) && close(b.bot(), s * c.y) && close(b.top(), s * (c.y + 1)), b);
  CHECK(b.right() == g.world_cell_bounds(DiscretePoint2D{c.x + 1, c.y}).left() && b.top() == g.world_cell_bounds(DiscretePoint2D{c.x, c.y + 1}).bot(), "neighbours share a side");
  auto i = g.external2internal(c);
  CHECK(g.internal2external(i) == c, "internal " << i);
  CHECK(i == c + g.origin(), "internal " << i);
  CHECK(g.origin() == (DiscretePoint2D{w / 2, h / 2}), g.origin());
  bool in = 0 <= i.x && i.x < w && 0 <= i.y && i.y < h;
  CHECK(g.has_cell(c) == in, "has_cell");
  CHECK(g.has_internal_cell(i) == in, "has_internal_cell");
  CHECK(g.width() == w && g.height() == h && g.scale() == s, "dimensions");
  g.set_width(w + 3); g.set_height(h + 7); g.set_scale(s * 2);
  CHECK(g.width() == w + 3 && g.height() == h + 7 && g.scale() == s * 2, "dimension setters");
}
CASE(infinite_cell, 0.1) {
  G g(r.i(1, 9), r.i(1, 9), std::numeric_limits<double>::infinity());
  auto b = g.world_cell_bounds(DiscretePoint2D(r.i(-3, 3), r.i(-3, 3)));
  CHECK(b.left() == -INFINITY && b.right() == INFINITY && b.bot() == -INFINITY && b.top() == INFINITY, "bounds");
}
CASE(point_ops, 0.5) {
  DiscretePoint2D a(r.i(-100000, 100000), r.i(-100000, 100000)), b(r.i(-100000, 100000), r.i(-100000, 100000));
  if (r.chance(0.2)) b = a;
  if (r.chance(0.2)) b.x = a.x;
  IN(a); IN(b);
  auto s = a + b, d = a - b, n = -a;
  CHECK(s.x == a.x + b.x && s.y == a.y + b.y, s);
  CHECK(d.x == a.x - b.x && d.y == a.y - b.y, d);
  CHECK(n.x == -a.x && n.y == -a.y, n);
  CHECK((a == b) == (a.x == b.x && a.y == b.y) && (a != b) == !(a == b), "equality");
  auto c = a; auto &ref = (c += b);
  CHECK(c == s && &ref == &c, c);
}
