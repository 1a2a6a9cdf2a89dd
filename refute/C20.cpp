#include "core/features/angle_histogram.h"
#include "common.h"
using SP = ScanPoint2D;
static SP point(Rng &r) {
  if (r.chance(0.5)) return SP::make_polar(r.d(0, 20), r.d(-3.2, 3.2), r.chance(0.5));
  return SP::make_cartesian({r.d(-20, 20), r.d(-20, 20)}, r.chance(0.5));
}
static std::string show(const SP &p) { std::ostringstream o; o.precision(17); o << "r " << p.range() << " a " << p.angle() << " x " << p.x() << " y " << p.y(); return o.str(); }

CASE(cached_trigonometry, 1) {
  CachedTrigonometryProvider t;
  for (int k = 0, n = r.i(1, 3); k < n; ++k) {
    double mn = r.d(-4, 4), mx = mn + r.d(0.01, 6), inc = r.chance(0.5) ? deg2rad(r.i(1, 30)) : r.d(0.01, 1);
    if (inc < 0.005) inc = 0.1;
    if (mx <= mn) continue;
    if (r.chance(0.5)) mx = mn + inc * r.i(1, 200);
    NOTE("grid " << mn << ".." << mx << " step " << inc << " update " << k);
    if (r.chance(0.7)) t.update(mn, mx, inc);
    else { t.update(mn, mx, inc); t.update(mn, mx, inc); }
    for (int q = 0; q < 2; ++q) {
      double base = q || !k ? r.d(-7, 7) : 0;
      t.set_base_angle(base);
      // a grid angle within rounding distance of the maximum may or may not belong to the grid
      for (int i = 0; mn + i * inc < mx - 1e-7; ++i) {
        double a = mn + i * inc + r.d(-0.3, 0.3) * inc * (r.chance(0.3) ? 1 : 0);
        double g = mn + i * inc;
        CHECK(close(t.sin(a), std::sin(base + g), 1e-9), "sin of grid angle " << g << " at base " << base << " is " << t.sin(a) << ", exact " << std::sin(base + g));
        CHECK(close(t.cos(a), std::cos(base + g), 1e-9), "cos of grid angle " << g << " at base " << base << " is " << t.cos(a) << ", exact " << std::cos(base + g));
      }
    }
  }
}
CASE(raw_trigonometry, 1) {
  RawTrigonometryProvider t;
  double a = r.d(-7, 7), b = r.d(-7, 7);
  CHECK(close(t.sin(a), std::sin(a)) && close(t.cos(a), std::cos(a)), "initial rotation is not zero");
  t.set_base_angle(b); t.set_base_angle(b);
  CHECK(close(t.sin(a), std::sin(a + b)) && close(t.cos(a), std::cos(a + b)), "base " << b << " angle " << a);
}
CASE(scan_points, 2) {
  SP p = point(r); double w = r.d(0, 5);
  NOTE(show(p));
  CHECK(p.factor() == 1, "initial factor " << p.factor());
  CHECK(&p.set_factor(w) == &p && p.factor() == w, "factor");
  CHECK(close(p.x(), p.range() * std::cos(p.angle()), 1e-7) && close(p.y(), p.range() * std::sin(p.angle()), 1e-7), "coordinates disagree");
  double dx = r.d(-5, 5), dy = r.d(-5, 5), da = r.d(-4, 4), dr = r.d(0, 3);
  SP c = p.to_cartesian(), l = p.to_polar();
  CHECK(close(c.x(), p.x(), 1e-7) && close(c.y(), p.y(), 1e-7) && c.is_occupied() == p.is_occupied(), "to_cartesian gives " << show(c));
  CHECK(close(l.x(), p.x(), 1e-7) && close(l.y(), p.y(), 1e-7) && l.is_occupied() == p.is_occupied(), "to_polar gives " << show(l));
  SP c2 = p.to_cartesian(da, dr), l2 = p.to_polar(dx, dy);
  CHECK(close(c2.x(), (p.range() + dr) * std::cos(p.angle() + da), 1e-7) && close(c2.y(), (p.range() + dr) * std::sin(p.angle() + da), 1e-7), "to_cartesian(" << da << "," << dr << ") gives " << show(c2));
  CHECK(close(l2.x(), p.x() + dx, 1e-7) && close(l2.y(), p.y() + dy, 1e-7) && c2.is_occupied() == p.is_occupied() && l2.is_occupied() == p.is_occupied(), "to_polar(" << dx << "," << dy << ") gives " << show(l2));
  Point2D m = p.move_origin(dx, dy), n = p.move_origin(dx, dy, da);
  CHECK(close(m.x, p.x() + dx, 1e-7) && close(m.y, p.y() + dy, 1e-7), "moved to " << m.x << "," << m.y);
  CHECK(close(n.x, dx + p.range() * std::cos(p.angle() + da), 1e-7) && close(n.y, dy + p.range() * std::sin(p.angle() + da), 1e-7), "turned by " << da << " to " << n.x << "," << n.y);
  auto tp = std::make_shared<RawTrigonometryProvider>(); tp->set_base_angle(da);
  Point2D o = p.move_origin({dx, dy}, tp); SP c3 = p.to_cartesian(tp);
  CHECK(close(o.x, n.x, 1e-7) && close(o.y, n.y, 1e-7), "provider moves to " << o.x << "," << o.y << " instead of " << n.x << "," << n.y);
  CHECK(close(c3.x(), n.x - dx, 1e-7) && close(c3.y(), n.y - dy, 1e-7) && c3.is_occupied() == p.is_occupied(), "to_cartesian(tp) gives " << show(c3));
}
CASE(scan_rotation, 1) {
  LaserScan2D s; int n = r.i(0, 8); double a = r.d(-4, 4);
  for (int i = 0; i < n; ++i) s.points().push_back(point(r));
  auto t = s.to_cartesian(a);
  CHECK((int)t.points().size() == n && (int)s.points().size() == n, "number of points");
  for (int i = 0; i < n; ++i) {
    auto &p = s.points()[i], &q = t.points()[i];
    CHECK(close(q.x(), p.range() * std::cos(p.angle() + a), 1e-7) && close(q.y(), p.range() * std::sin(p.angle() + a), 1e-7) && q.is_occupied() == p.is_occupied(), "point " << show(p) << " turned by " << a << " is " << show(q));
  }
}
// directions: every interesting direction, also those that round to 180 degrees
static double dir_of(double dx, double dy) { if (dy == 0) return 0; double a = std::atan2(dy, dx); if (a < 0) a += M_PI; return a >= M_PI ? 0 : a; }
static double gap(double a, double b) { double d = std::fabs(a - b); return std::min(d, std::fabs(M_PI - d)); }
CASE(histogram, 3) {
  size_t n = r.i(1, 24); LaserScan2D s; int k = r.i(0, 12);
  Point2D p(r.d(-5, 5), r.d(-5, 5));
  std::ostringstream os; os.precision(17); os << "resolution " << n << " points";
  for (int i = 0; i < k; ++i) {
    s.points().push_back(SP::make_cartesian(p, true));
    os << " (" << p.x << "," << p.y << ")";
    switch (r.i(0, 4)) {
    case 0: { double a = M_PI * r.i(0, 2 * n) / n, d = r.d(0.1, 3); p = Point2D(p.x + d * std::cos(a), p.y + d * std::sin(a)); break; }
    case 1: { double e = std::pow(10, -r.i(1, 17)) * (r.chance(0.5) ? 1 : -1); p = Point2D(p.x + (r.chance(0.5) ? 1 : -1), p.y + e); break; }
    case 2: { double e = std::pow(10, -r.i(1, 17)) * (r.chance(0.5) ? 1 : -1); p = Point2D(p.x + e, p.y + (r.chance(0.5) ? 1 : -1)); break; }
    case 3: p = Point2D(r.d(-5, 5), r.d(-5, 5)); break;
    default: p = Point2D(p.x + r.i(-1, 1), p.y + r.i(-1, 1));
    }
  }
  NOTE(os.str());
  AngleHistogram h{n};
  if (r.chance(0.5)) { LaserScan2D o; for (int i = 0; i < 5; ++i) o.points().push_back(point(r)); h.reset(o); }
  auto copy = h.reset(s);
  CHECK(close(h.angle_step(), M_PI / n), "step " << h.angle_step());
  std::vector<unsigned> lo(n), hi(n); std::vector<double> sum(n);
  size_t total = 0;
  for (size_t b = 0; b < n; ++b) { total += h[b]; CHECK(h[b] == copy[b], "returned histogram differs"); }
  CHECK(total == (k ? k - 1u : 0u), total << " pairs counted of " << (k ? k - 1 : 0));
  CHECK(h.value(s.points(), 0) == (unsigned)k || !k, "value of the first point " << h.value(s.points(), 0));
  for (int i = 1; i < k; ++i) {
    auto &a = s.points()[i - 1], &b = s.points()[i];
    double d = AngleHistogram::estimate_ox_based_angle(a, b), e = dir_of(b.x() - a.x(), b.y() - a.y());
    CHECK(0 <= d && d < M_PI, "direction " << d);
    CHECK(gap(d, e) < 1e-6, "direction of pair " << i << " is " << d << ", expected " << e);
    double q = e / (M_PI / n); size_t f = std::min<size_t>(n - 1, std::floor(q));
    bool edge = std::fabs(q - std::round(q)) < 1e-5 * n;
    for (size_t c = 0; c < n; ++c) {
      bool in = c == f, near = edge && (c == (size_t)std::round(q) % n || c == ((size_t)std::round(q) + n - 1) % n);
      if (in && !edge) { lo[c]++; hi[c]++; sum[c] += d; } else if (near) hi[c]++;
    }
    if (!edge) CHECK(h.value(s.points(), i) == h[f], "value of point " << i << " is " << h.value(s.points(), i) << ", its bin " << f << " holds " << h[f]);
  }
  for (size_t b = 0; b < n; ++b) CHECK(lo[b] <= h[b] && h[b] <= hi[b], "bin " << b << " holds " << h[b] << ", expected " << lo[b] << ".." << hi[b]);
  size_t mx = h.max_i(), mn = h.min_i();
  for (size_t b = 0; b < n; ++b) {
    CHECK(h[b] <= h[mx] && h[b] >= h[mn], "extreme bins " << mx << "," << mn);
    if (lo[b] == hi[b] && h[b]) CHECK(close(h.mean_bin_angle(b), sum[b] / h[b], 1e-6), "mean direction of bin " << b << " is " << h.mean_bin_angle(b));
  }
  if (h[mx]) CHECK(close(h.major_direction(), h.mean_bin_angle(mx)), "major direction");
}
