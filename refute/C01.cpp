#include "core/geometry_discrete_primitives.h"
#include "core/maps/regular_squares_grid.h"
#include "core/geometry_utils.h"
#include "common.h"

static void check_chain(const DiscretePoint2D &b, const DiscretePoint2D &e, const std::vector<DiscretePoint2D> &p) {
  long dx = (long)e.x - b.x, dy = (long)e.y - b.y, M = std::max(std::labs(dx), std::labs(dy));
  CHECK((long)p.size() == M + 1, "size " << p.size());
  CHECK(p.front() == b, "first " << p.front());
  CHECK(p.back() == e, "last " << p.back());
  for (size_t j = 0; j < p.size(); ++j) {
    long cx = (long)p[j].x - b.x, cy = (long)p[j].y - b.y;
    CHECK(2 * std::labs(cx * dy - cy * dx) <= M, "point " << j << " " << p[j] << " is off the line");
    CHECK(std::min(b.x, e.x) <= p[j].x && p[j].x <= std::max(b.x, e.x) && std::min(b.y, e.y) <= p[j].y && p[j].y <= std::max(b.y, e.y), "outside the box of the ends");
    if (!j) continue;
    CHECK(std::abs(p[j].x - p[j-1].x) <= 1 && std::abs(p[j].y - p[j-1].y) <= 1 && !(p[j] == p[j-1]), "gap at " << j);
  }
}
CASE(bresenham, 1) {
  long L = r.chance(0.7) ? 12 : (r.chance(0.9) ? 200 : 3000);
  DiscretePoint2D b(r.i(-L, L), r.i(-L, L)), e(r.i(-L, L), r.i(-L, L));
  if (r.chance(0.1)) e.x = b.x;
  if (r.chance(0.1)) e.y = b.y;
  if (r.chance(0.05)) { long o = 1 << 28; b.x += o; e.x += o; }
  IN(b); IN(e);
  std::vector<DiscretePoint2D> p = DiscreteSegment2D(b, e);
  check_chain(b, e, p);
}
CASE(world_to_cells, 1) {
  double scale = r.chance(0.5) ? 1.0 : r.d(0.01, 3);
  if (scale <= 0.005) throw Discard{};
  RegularSquaresGrid g(100, 100, scale);
  double L = scale * 30;
  Segment2D s{{r.d(-L, L), r.d(-L, L)}, {r.d(-L, L), r.d(-L, L)}};
  if (r.chance(0.4)) { // between points of a fine lattice: corners are met exactly
    auto p = [&] { return scale * r.i(-60, 60) / 2.0; };
    s = Segment2D{{p(), p()}, {p(), p()}};
  }
  NOTE("scale=" << scale); IN(s);
  auto c = g.world_to_cells(s);
  auto b = g.world_to_cell(s.beg()), e = g.world_to_cell(s.end());
  CHECK(!c.empty(), "");
  CHECK(c.front() == b, "first " << c.front() << " expected " << b);
  CHECK(c.back() == e, "last " << c.back() << " expected " << e);
  CHECK(c.size() <= (size_t)(std::abs(e.x - b.x) + std::abs(e.y - b.y) + 2), "size " << c.size());
  for (size_t j = 1; j < c.size(); ++j)
    CHECK(std::abs(c[j].x - c[j-1].x) <= 1 && std::abs(c[j].y - c[j-1].y) <= 1 && !(c[j] == c[j-1]), "gap at " << j);
  // only cells the segment crosses, each step over the side or corner it crosses
  long double dx = (long double)s.end().x - s.beg().x, dy = (long double)s.end().y - s.beg().y, m = scale;
  long double ap = std::fabs(dx) * m, aq = std::fabs(dy) * m, tol = 3e-7L;
  if (ap + aq < 1e-5L) throw Discard{};
  auto f = [&](const DiscretePoint2D &q) { return dx * (s.beg().y - (q.y + 0.5L) * m) + ((q.x + 0.5L) * m - s.beg().x) * dy; };
  CHECK(c.size() <= (size_t)(std::abs(e.x - b.x) + std::abs(e.y - b.y) + 1), "size " << c.size());
  for (size_t j = 0; j < c.size(); ++j) {
    CHECK(2 * std::fabs(f(c[j])) <= ap + aq + tol, "cell " << c[j] << " is not crossed");
    CHECK(std::min(b.x, e.x) <= c[j].x && c[j].x <= std::max(b.x, e.x) && std::min(b.y, e.y) <= c[j].y && c[j].y <= std::max(b.y, e.y), "cell " << c[j] << " is outside the box of the ends");
    if (!j) continue;
    long double sum = std::fabs(f(c[j]) + f(c[j-1]));
    long double lim = c[j].x == c[j-1].x ? aq : c[j].y == c[j-1].y ? ap : 0;
    CHECK(sum <= lim + tol, "the step from " << c[j-1] << " to " << c[j] << " leaves out a crossed cell");
  }
}
