#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "common.h"
#include <tuple>

using Coord = GridMap::Coord;
struct Up { Coord c; AreaOccupancyObservation a; };
struct Map : UnboundedPlainGridMap {
  std::vector<Up> ups;
  Map(double s) : UnboundedPlainGridMap(std::make_shared<AffineQualityMergeCell>(), {4, 4, s}) {}
  void update(const Coord &c, const AreaOccupancyObservation &a) override { ups.push_back({c, a}); }
};
struct Est : CellOccupancyEstimator {
  double nan_share; int calls = 0;
  Est(double n) : CellOccupancyEstimator({1, 1}, {0, 1}), nan_share(n) {}
  Occupancy estimate_occupancy(const Segment2D &b, const Rectangle &r, bool occ) override {
    ++calls;
    double h = std::fabs(std::sin(r.left() * 12.9898 + r.bot() * 78.233 + b.end().x * 3.7 + b.end().y * 1.3 + b.beg().x + (occ ? 17 : 0)));
    if (h < nan_share) return Occupancy::invalid();
    return {occ ? 0.5 + h / 2 : h / 2, 0.25 + h / 2};
  }
};
struct Q : ObservationMappingQualityEstimator {
  std::vector<std::pair<double, double>> seen; mutable std::vector<int> asked; double at0 = -1;
  void reset(const LaserScan2D &s) override { seen.clear(); for (auto &p : s.points()) seen.push_back({p.range(), p.angle()}); }
  double quality(const LaserScan2D::Points &p, PointId i) const override {
    CHECK(seen.size() == p.size() && i < p.size() && seen[i].first == p[i].range(), "the quality estimator was not prepared for this scan");
    asked.push_back(i); return 1.0 / (2 + i % 5);
  }
};
static bool eq(double a, double b) { return close(a, b, 1e-9); }
static auto key(const Up &u) { return std::make_tuple(u.c.x, u.c.y, u.a.is_occupied); }

CASE(scan_adder, 3) {
  double scale = r.pick<double>({0.1, 0.25, 1.0, 0.05}); IN(scale);
  Map map(scale);
  auto est = std::make_shared<Est>(r.chance(0.3) ? 0.3 : 0.0);
  auto q = std::make_shared<Q>();
  double blur = r.pick<double>({0, 0, 0.3, 1.0, -0.1, -0.02, 3}); IN(blur);
  bool lim = r.chance(0.5); double maxr = r.d(1, 8); IN(lim); IN(maxr);
  auto b = WallDistanceBlurringScanAdder::builder();
  b.set_occupancy_estimator(est).set_observation_quality_estimator(q).set_blur_distance(blur);
  if (lim) b.set_max_usable_range(maxr);
  auto adder = b.build();
  auto tp = std::make_shared<RawTrigonometryProvider>();
  for (int round = 0; round < 2; ++round) {
    map.ups.clear(); q->asked.clear();
    RobotPose pose(r.d(-3, 3), r.d(-3, 3), r.chance(0.2) ? 0 : r.d(-3.2, 3.2)); IN(pose);
    LaserScan2D scan; scan.trig_provider = tp;   // shared by the scans, as a sensor does
    if (r.chance(0.5)) tp->set_base_angle(r.d(-3, 3));
    int n = r.i(0, 7); unsigned margin = r.chance(0.5) ? 0 : r.i(0, 4); IN(n); IN(margin);
    for (int i = 0; i < n; ++i) scan.points().push_back(ScanPoint2D::make_polar(r.d(0.05, 9), r.d(-3, 3), r.chance(0.7)));
    double sq = r.d(0, 1); IN(sq);
    auto before = scan.points();
    GridMap &back = adder->append_scan(map, pose, scan, sq, margin);
    CHECK(&back == &map, "another map is returned");
    CHECK(scan.points().size() == before.size(), "the scan is changed");
    // expected updates, point by point
    size_t at = 0; std::vector<int> pts;
    for (int i = margin; i + (int)margin < n; ++i) {
      pts.push_back(i);
      auto &sp = scan.points()[i];
      double ex = pose.x + sp.range() * std::cos(sp.angle() + pose.theta), ey = pose.y + sp.range() * std::sin(sp.angle() + pose.theta);
      Point2D end = sp.move_origin(pose.point(), scan.trig_provider);
      CHECK(eq(end.x, ex) && eq(end.y, ey), "point placed at " << end);
      Segment2D beam{pose.point(), end};
      double d2 = beam.length_sq();
      if (lim && std::fabs(d2 - maxr * maxr) < 1e-6) throw Discard{};
      if (lim && d2 > maxr * maxr) continue;
      auto cells = map.world_to_cells(beam);
      bool occ = sp.is_occupied(); double qual = sq / (2 + i % 5);
      double h = 0;
      if (occ) { h = blur / scale; if (h < 0) h *= -d2; }
      auto rc = map.world_to_cell(pose.point()), oc = map.world_to_cell(end);
      double od2 = rc.dist_sq(oc);
      auto base = est->estimate_occupancy(beam, map.world_cell_bounds(cells.back()), occ);
      std::vector<Up> want{{cells.back(), {occ, base, end, qual}}};
      cells.pop_back();
      for (auto &c : cells) {
        double cd2 = c.dist_sq(oc);
        if (std::fabs(cd2 - h * h) < 1e-7 || std::fabs(od2 - h * h) < 1e-7) { if (h != 0) throw Discard{}; }
        Up u{c, {false, est->estimate_occupancy(beam, map.world_cell_bounds(c), false), end, qual}};
        if (cd2 < h * h && h * h < od2) { u.a.is_occupied = true; u.a.occupancy.prob_occ = base.prob_occ * (1 - cd2 / (h * h)); }
        want.push_back(u);
      }
      CHECK(at + want.size() <= map.ups.size(), "only " << map.ups.size() - at << " updates for point " << i << ", expected " << want.size());
      std::vector<Up> got(map.ups.begin() + at, map.ups.begin() + at + want.size());
      at += want.size();
      auto cmp = [](const Up &a, const Up &b) { return key(a) < key(b); };
      std::sort(got.begin(), got.end(), cmp); std::sort(want.begin(), want.end(), cmp);
      for (size_t k = 0; k < want.size(); ++k) {
        auto &g = got[k]; auto &w = want[k];
        CHECK(g.c == w.c, "cell " << g.c << " updated, expected " << w.c << " (point " << i << ")");
        CHECK(g.a.is_occupied == w.a.is_occupied && eq(g.a.occupancy.prob_occ, w.a.occupancy.prob_occ) && eq(g.a.occupancy.estimation_quality, w.a.occupancy.estimation_quality),
              "evidence for " << g.c << ": " << g.a.is_occupied << " " << g.a.occupancy.prob_occ << " " << g.a.occupancy.estimation_quality << ", expected " << w.a.is_occupied << " " << w.a.occupancy.prob_occ << " " << w.a.occupancy.estimation_quality);
        CHECK(eq(g.a.quality, w.a.quality) && eq(g.a.obstacle.x, ex) && eq(g.a.obstacle.y, ey), "quality " << g.a.quality << " expected " << w.a.quality);
      }
    }
    CHECK(at == map.ups.size(), map.ups.size() - at << " updates too many");
    CHECK(q->asked == pts, "quality asked " << q->asked.size() << " times");
  }
}
CASE(histogram_quality, 1) {
  LaserScan2D s; s.trig_provider = std::make_shared<RawTrigonometryProvider>();
  int n = r.i(2, 12); IN(n);
  for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D::make_polar(r.d(0.5, 9), i * 0.1 + r.d(0, 0.05), true));
  AngleHistogramResiprocalOMQE q; q.reset(s);
  AngleHistogram h; h.reset(s);
  for (int i = 0; i < n; ++i) CHECK(close(q.quality(s.points(), i) * h.value(s.points(), i), 1), "quality " << q.quality(s.points(), i));
  IdleOMQE id; CHECK(id.quality(s.points(), 0) == 1.0, "idle quality");
}
