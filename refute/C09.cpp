#include "core/maps/area_occupancy_estimator.h"
#include "core/maps/const_occupancy_estimator.h"
#include "common.h"
#include <memory>

using P = Point2D;

CASE(constant, 1) {
  Occupancy occ{r.d(0, 1), r.d(0, 1)}, emp{r.d(0, 1), r.d(0, 1)};
  ConstOccupancyEstimator e{occ, emp};
  for (int k = 0; k < 3; ++k) {
    bool h = r.chance(0.5);
    auto v = e.estimate_occupancy(Segment2D{{r.d(-2, 2), r.d(-2, 2)}, {r.d(-2, 2), r.d(-2, 2)}}, Rectangle{0, 1, 0, 1}, h);
    auto x = h ? occ : emp;
    CHECK(v.prob_occ == x.prob_occ && v.estimation_quality == x.estimation_quality, "hit " << h << " gives " << v << " of " << occ << " " << emp);
  }
}

// the part of a polygon where a*x + b*y >= c
static std::vector<P> clip(const std::vector<P> &p, double a, double b, double c) {
  std::vector<P> o;
  for (unsigned i = 0; i < p.size(); ++i) {
    P u = p[i], v = p[(i + 1) % p.size()];
    double fu = a * u.x + b * u.y - c, fv = a * v.x + b * v.y - c;
    if (fu >= 0) o.push_back(u);
    if ((fu >= 0) != (fv >= 0)) { double t = fu / (fu - fv); o.push_back({u.x + t * (v.x - u.x), u.y + t * (v.y - u.y)}); }
  }
  return o;
}
static double area(const std::vector<P> &p) {
  double s = 0;
  for (unsigned i = 0; i < p.size(); ++i) { P u = p[i], v = p[(i + 1) % p.size()]; s += u.x * v.y - v.x * u.y; }
  return std::fabs(s) / 2;
}
static bool same(const Occupancy &a, const Occupancy &b, double tol = 1e-6) { return close(a.prob_occ, b.prob_occ, tol) && close(a.estimation_quality, b.estimation_quality, tol); }

CASE(area, 8) {
  Occupancy occ{r.d(0, 1), r.d(0, 1)}, emp{r.chance(0.3) ? 0.01 : r.d(0, 1), r.d(0, 1)};
  double low = r.chance(0.5) ? 0.01 : r.d(0.01, 0.5), unk = r.d(0, 1);
  AreaOccupancyEstimator used{occ, emp, low, unk};
  for (int call = r.i(1, 4); call > 0; --call) {
    double side = r.chance(0.5) ? 1 : r.d(0.05, 4), bot = r.d(-5, 5), left = r.d(-5, 5);
    Rectangle c{bot, bot + side, left, left + side};
    // the stored sides may differ in the last bit
    bool hit = r.chance(0.5);
    auto pt = [&] { double m = r.chance(0.5) ? 0 : r.d(0, 2); return P{r.d(left - m * side, left + side + m * side), r.d(bot - m * side, bot + side + m * side)}; };
    P b = pt(), e = pt();
    int kind = r.i(0, 9);
    if (kind == 0) e.y = b.y;
    if (kind == 1) e.x = b.x;
    if (kind == 2) b = c.corners()[r.i(0, 3)];
    if (kind == 3) { b.y = e.y = r.chance(0.5) ? bot : bot + side; }
    if (kind == 4) { b.x = e.x = r.chance(0.5) ? left : left + side; }
    if (kind == 5 && r.chance(0.2)) { b = e; if (r.chance(0.5)) b.x = e.x = left; if (r.chance(0.3)) b.y = e.y = bot + side; }
    NOTE("cell b " << bot << " t " << bot + side << " l " << left << " r " << left + side << " beam " << b << " " << e << " hit " << hit << " low " << low << ";");
    Segment2D beam{b, e};
    Occupancy v = used.estimate_occupancy(beam, c, hit);
    AreaOccupancyEstimator fresh{occ, emp, low, unk};
    Occupancy f = fresh.estimate_occupancy(beam, c, hit);
    CHECK(same(v, f, 1e-12), "the estimate is " << v << " but " << f << " without the earlier calls");
    bool invalid = std::isnan(v.prob_occ) && std::isnan(v.estimation_quality);
    CHECK(invalid || (0 <= v.prob_occ && v.prob_occ <= 1 && 0 <= v.estimation_quality && v.estimation_quality <= 1), "estimate " << v);
    // a beam along the line of an edge is looked at slightly inside
    if (b.x == e.x && b.y == e.y) continue;
    double sh = low * side;
    auto on = [](double x, double y) { return x == y; };
    if (on(b.x, e.x) && (on(b.x, c.left()) || on(b.x, c.right()))) { double d = on(b.x, c.right()) ? -sh : sh; b.x += d; e.x += d; }
    else if (on(b.y, e.y) && (on(b.y, c.top()) || on(b.y, c.bot()))) { double d = on(b.y, c.top()) ? -sh : sh; b.y += d; e.y += d; }
    double dx = e.x - b.x, dy = e.y - b.y, len = std::hypot(dx, dy);
    // beams too close to a special position are not decided here
    double eps = 1e-4;
    auto fuzzy = [&](P p) { double h = std::min(std::fabs(p.x - c.left()), std::fabs(p.x - c.right())), w = std::min(std::fabs(p.y - c.bot()), std::fabs(p.y - c.top())); return h < eps || w < eps; };
    if (len < 1e-2 || fuzzy(b) || fuzzy(e)) continue;
    if ((std::fabs(dx) < 1e-3 && dx != 0) || (std::fabs(dy) < 1e-3 && dy != 0)) continue;
    bool near = false;
    for (auto q : c.corners()) {
      double across = std::fabs((q.x - b.x) * dy - (q.y - b.y) * dx) / len, along = std::fabs((q.x - e.x) * dx + (q.y - e.y) * dy) / len;
      near = near || (hit ? along : across) < eps || across < eps;
    }
    if (near) continue;
    auto in = [&](P p) { return c.left() < p.x && p.x < c.right() && c.bot() < p.y && p.y < c.top(); };
    std::vector<P> sq{{left, bot}, {left + side, bot}, {left + side, bot + side}, {left, bot + side}};
    bool bi = in(b), ei = in(e);
    Occupancy bad = Occupancy::invalid(), x = bad;
    if (hit) {
      if (ei && !bi) {
        double far = area(clip(sq, dx, dy, dx * e.x + dy * e.y)) / (side * side);
        x = Occupancy{std::max(far, emp.prob_occ), occ.estimation_quality};
      }
    } else if (bi || ei) {
      x = Occupancy{emp.prob_occ, unk};
    } else {
      // does the segment cross the cell
      double t0 = 0, t1 = 1;
      auto cut = [&](double p, double d, double lo, double hi) {
        if (d == 0) { if (p < lo || p > hi) t1 = -1; return; }
        double u = (lo - p) / d, w = (hi - p) / d;
        if (u > w) std::swap(u, w);
        t0 = std::max(t0, u); t1 = std::min(t1, w);
      };
      cut(b.x, dx, c.left(), c.right()); cut(b.y, dy, c.bot(), c.top());
      if (t0 < t1) {
        double one = area(clip(sq, dy, -dx, dy * b.x - dx * b.y)) / (side * side);
        x = Occupancy{emp.prob_occ, emp.estimation_quality * std::min(one, 1 - one)};
      }
    }
    CHECK(same(v, x), "the estimate is " << v << ", the geometry gives " << x);
  }
}

// beams that end exactly at a corner of the cell: all numbers are multiples of 1/8, so nothing is rounded
CASE(corner, 2) {
  Occupancy occ{r.d(0, 1), r.d(0, 1)}, emp{r.d(0, 1), r.d(0, 1)};
  double unk = r.d(0, 1), side = r.pick(std::vector<double>{0.5, 1, 2}), left = r.i(-8, 8) / 4.0, bot = r.i(-8, 8) / 4.0;
  AreaOccupancyEstimator est{occ, emp, 0.01, unk};
  Rectangle c{bot, bot + side, left, left + side};
  P e = c.corners()[r.i(0, 3)], b{left + r.i(-16, 16) / 8.0, bot + r.i(-16, 16) / 8.0};
  bool hit = r.chance(0.7);
  NOTE("cell b " << bot << " l " << left << " side " << side << " beam " << b << " " << e << " hit " << hit << " base " << occ << " " << emp << " unk " << unk);
  double dx = e.x - b.x, dy = e.y - b.y;
  if (dx == 0 || dy == 0 || (left <= b.x && b.x <= left + side && bot <= b.y && b.y <= bot + side)) throw Discard{};
  auto v = est.estimate_occupancy(Segment2D{b, e}, c, hit);
  std::vector<P> sq{{left, bot}, {left + side, bot}, {left + side, bot + side}, {left, bot + side}};
  double far = area(clip(sq, dx, dy, dx * e.x + dy * e.y)) / (side * side), one = area(clip(sq, dy, -dx, dy * b.x - dx * b.y)) / (side * side);
  Occupancy x = Occupancy::invalid();
  if (!hit) {
    x = Occupancy{emp.prob_occ, unk};
    // a beam that went through the whole cell before it ended at the corner
    if (0 < one && one < 1 && far < 1e-12) x = Occupancy{emp.prob_occ, emp.estimation_quality * std::min(one, 1 - one)};
  } else if (1e-12 < far && far < 1 - 1e-12) x = Occupancy{std::max(far, emp.prob_occ), occ.estimation_quality};
  else if (far >= 1 - 1e-12) x = Occupancy{std::max(1.0, emp.prob_occ), occ.estimation_quality};
  else x = Occupancy{emp.prob_occ, emp.estimation_quality * std::min(one, 1 - one)};
  CHECK(same(v, x), "the estimate is " << v << ", the geometry gives " << x);
}

// beams that start exactly on an edge of the cell and end inside of it
CASE(edge, 2) {
  Occupancy occ{r.d(0, 1), r.d(0, 1)}, emp{r.d(0, 1), r.d(0, 1)};
  double unk = r.d(0, 1), side = r.pick(std::vector<double>{0.5, 1, 2}), left = r.i(-8, 8) / 4.0, bot = r.i(-8, 8) / 4.0;
  AreaOccupancyEstimator est{occ, emp, 0.01, unk};
  Rectangle c{bot, bot + side, left, left + side};
  double at = r.i(1, 31) / 32.0 * side, bx = left, by = bot;
  switch (r.i(0, 3)) { case 0: by += at; break; case 1: bx += side; by += at; break; case 2: bx += at; break; default: bx += at; by += side; }
  P b{bx, by}, e{left + r.i(1, 15) / 16.0 * side, bot + r.i(1, 15) / 16.0 * side};
  bool hit = r.chance(0.5), back = r.chance(0.2);
  if (back) std::swap(b, e);
  NOTE("cell b " << bot << " l " << left << " side " << side << " beam " << b << " " << e << " hit " << hit << " base " << occ << " " << emp << " unk " << unk);
  double dx = e.x - b.x, dy = e.y - b.y;
  if (dx == 0 || dy == 0) throw Discard{};
  auto v = est.estimate_occupancy(Segment2D{b, e}, c, hit);
  std::vector<P> sq{{left, bot}, {left + side, bot}, {left + side, bot + side}, {left, bot + side}};
  double far = area(clip(sq, dx, dy, dx * e.x + dy * e.y)) / (side * side);
  Occupancy x{emp.prob_occ, unk};
  // a hit says nothing about a cell the beam only left
  if (hit) x = back ? Occupancy::invalid() : Occupancy{std::max(far, emp.prob_occ), occ.estimation_quality};
  if (hit && !back)
    for (auto q : c.corners()) if (std::fabs((q.x - e.x) * dx + (q.y - e.y) * dy) < 1e-9) throw Discard{};
  CHECK(same(v, x), "the estimate is " << v << ", the geometry gives " << x);
}
