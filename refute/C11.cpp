#include "core/maps/grid_map.h"
#include "core/geometry_primitives.h"
#include "common.h"
using LR = LightWeightRectangle;
static LR rect(Rng &r, bool degenerate = true) {
  double b = r.d(-8, 8), l = r.d(-8, 8), h = r.d(0.01, 6), w = r.d(0.01, 6);
  if (degenerate && r.chance(0.05)) h = 0;
  if (degenerate && r.chance(0.05)) w = 0;
  LR x{b, b + h, l, l + w};
  NOTE("rect(" << x << ")");
  return x;
}
static bool is(const LR &x, double b, double t, double l, double rr) { return close(x.bot(), b) && close(x.top(), t) && close(x.left(), l) && close(x.right(), rr); }
CASE(intersection, 2) {
  LR a = rect(r), b = rect(r);
  double ib = std::max(a.bot(), b.bot()), it = std::min(a.top(), b.top()), il = std::max(a.left(), b.left()), ir = std::min(a.right(), b.right());
  if (std::abs(it - ib) < 1e-6 || std::abs(ir - il) < 1e-6) throw Discard{};
  LR x = a.intersect(b), y = b.intersect(a);
  bool em = it < ib || ir < il;
  CHECK(is(x, em ? 0 : ib, em ? 0 : it, em ? 0 : il, em ? 0 : ir), "intersection " << x);
  CHECK(is(y, x.bot(), x.top(), x.left(), x.right()), "not symmetric " << y);
  if (a.area() == 0 || b.area() == 0) throw Discard{};
  double ov = a.overlap(b);
  CHECK(close(ov, (em ? 0 : (it - ib) * (ir - il)) / a.area(), 1e-9), "overlap " << ov);
  CHECK(close(a.overlap(a), 1) && -1e-9 <= ov && ov <= 1 + 1e-9, "overlap " << ov);
}
CASE(containment, 1) {
  LR a = rect(r);
  Point2D p{r.d(-15, 15), r.d(-15, 15)};
  if (r.chance(0.3)) p.x = r.chance(0.5) ? a.left() : a.right();
  if (r.chance(0.3)) p.y = r.chance(0.5) ? a.bot() : a.top();
  NOTE("p=" << p);
  double m = std::max(std::max(a.left() - p.x, p.x - a.right()), std::max(a.bot() - p.y, p.y - a.top()));
  if (m <= 0) CHECK(a.contains(p), "inside");
  if (m > 1e-4) CHECK(!a.contains(p), "outside");
  if (a.area()) CHECK(LR{p}.overlap(a) == a.contains(p), "point overlap");
}
CASE(shape, 1) {
  LR a = rect(r);
  auto c = a.center();
  double cx = (a.left() + a.right()) / 2, cy = (a.bot() + a.top()) / 2;
  CHECK(close(c.x, cx) && close(c.y, cy), "center " << c);
  CHECK(close(a.area(), (a.top() - a.bot()) * (a.right() - a.left())), "area");
  Point2D n{r.d(-9, 9), r.d(-9, 9)}; NOTE("n=" << n);
  auto m = a.move_center(n);
  CHECK(is(m, n.y - a.vside_len() / 2, n.y + a.vside_len() / 2, n.x - a.hside_len() / 2, n.x + a.hside_len() / 2), "moved " << m);
  double f = r.d(0.1, 5); IN(f);
  auto s = a.shrink(f);
  CHECK(is(s, cy - a.vside_len() / 2 / f, cy + a.vside_len() / 2 / f, cx - a.hside_len() / 2 / f, cx + a.hside_len() / 2 / f), "shrunk " << s);
  auto v = a.split_vert(), h = a.split_horz(), q = a.split4_evenly();
  CHECK(v.size() == 2 && is(v[0], a.bot(), cy, a.left(), a.right()) && is(v[1], cy, a.top(), a.left(), a.right()), "split_vert");
  CHECK(h.size() == 2 && is(h[0], a.bot(), a.top(), a.left(), cx) && is(h[1], a.bot(), a.top(), cx, a.right()), "split_horz");
  CHECK(q.size() == 4, "split4");
  double ar = 0; for (auto &x : q) { ar += x.area(); CHECK(x.bot() >= a.bot() - 1e-9 && x.top() <= a.top() + 1e-9 && x.left() >= a.left() - 1e-9 && x.right() <= a.right() + 1e-9, "quarter outside"); }
  CHECK(close(ar, a.area()), "split4 area");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) CHECK(q[i].intersect(q[j]).area() < 1e-9, "quarters overlap");
  auto k = a.corners();
  CHECK(k.size() == 4, "corners");
  for (double x : {a.left(), a.right()}) for (double y : {a.bot(), a.top()}) {
    bool f = false; for (auto &p : k) f |= p.x == x && p.y == y; CHECK(f, "corner missing");
  }
}
CASE(beams, 2) {
  double b = r.d(-8, 8), l = r.d(-8, 8), h = r.d(0.05, 6), w = r.d(0.05, 6);
  Rectangle a{b, b + h, l, l + w};
  NOTE("rect(" << static_cast<LR&>(a) << ")");
  Point2D p{r.d(-15, 15), r.d(-15, 15)}, q{r.d(-15, 15), r.d(-15, 15)};
  if (r.chance(0.2)) q.x = p.x; else if (r.chance(0.2)) q.y = p.y;
  if (r.chance(0.3)) p = Point2D{l + w * r.u(), b + h * r.u()};
  Segment2D s{p, q}; NOTE("segment " << s);
  double dx = q.x - p.x, dy = q.y - p.y;
  if (std::abs(dx) + std::abs(dy) < 1e-3) throw Discard{};
  if ((dx && std::abs(dx) < 1e-3) || (dy && std::abs(dy) < 1e-3)) throw Discard{};
  // reference: clip the line to the rectangle
  double t0 = -1e18, t1 = 1e18; bool miss = false; bool fuzzy = false;
  auto clip = [&](double o, double d, double lo, double hi) {
    if (d == 0) { if (std::abs(o - lo) < 1e-5 || std::abs(o - hi) < 1e-5) fuzzy = true; if (o < lo || o > hi) miss = true; return; }
    double a0 = (lo - o) / d, a1 = (hi - o) / d; if (a0 > a1) std::swap(a0, a1);
    t0 = std::max(t0, a0); t1 = std::min(t1, a1);
  };
  clip(p.x, dx, a.left(), a.right()); clip(p.y, dy, a.bot(), a.top());
  double len = std::hypot(dx, dy);
  if (fuzzy || std::abs(t1 - t0) * len < 1e-4 || std::abs(t0) < 1e-5 || std::abs(t1) < 1e-5 || std::abs(t0 - 1) < 1e-5 || std::abs(t1 - 1) < 1e-5) throw Discard{};
  if (t0 > t1) miss = true;
  std::vector<double> ts; if (!miss) ts = {t0, t1};
  auto line = a.find_intersections(Ray{s});
  auto check = [&](const Intersections &in, const char *what) {
    CHECK(in.size() == ts.size(), what << ": " << in.size() << " intersections, expected " << ts.size());
    for (double t : ts) {
      bool f = false;
      for (auto &i : in) f |= std::abs(i.x - p.x - t * dx) < 1e-5 && std::abs(i.y - p.y - t * dy) < 1e-5;
      CHECK(f, what << ": intersection " << p.x + t * dx << "," << p.y + t * dy << " missing");
    }
    for (auto &i : in) {
      using L = Intersection::Location;
      CHECK(i.location == L::Bot ? close(i.y, a.bot(), 1e-6) : i.location == L::Top ? close(i.y, a.top(), 1e-6) : i.location == L::Left ? close(i.x, a.left(), 1e-6) : close(i.x, a.right(), 1e-6), what << ": wrong edge for " << i);
    }
  };
  check(line, "ray");
  ts.erase(std::remove_if(ts.begin(), ts.end(), [](double t) { return t < 0 || t > 1; }), ts.end());
  check(a.find_intersections(s), "segment");
}
