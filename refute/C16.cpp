#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "common.h"

struct Ev { char k; double x, y, th, q, m; };
static std::vector<Ev> evs;
static double map_mark = 0;

struct Sm : GridScanMatcher {
  RobotPoseDelta d;
  Sm() : GridScanMatcher(nullptr) {}
  double process_scan(const TransformedLaserScan &, const RobotPose &p, const GridMap &, RobotPoseDelta &o) override {
    evs.push_back({'p', p.x, p.y, p.theta, 0, map_mark});
    o = d;
    return 0.5;
  }
  void reset_state() override { evs.push_back({'r'}); }
};
struct Adder : GridMapScanAdder {
  Adder() : GridMapScanAdder(nullptr, std::make_shared<IdleOMQE>()) {}
  void handle_scan_point(GridMap &, bool, double q, const Segment2D &b) const override {
    map_mark += 1;
    evs.push_back({'a', b.beg().x, b.beg().y, std::atan2(b.end().y - b.beg().y, b.end().x - b.beg().x), q, map_mark});
  }
};
struct PObs : WorldPoseObserver { void on_pose_update(const RobotPose &p) override { evs.push_back({'P', p.x, p.y, p.theta, 0, map_mark}); } };
static const GridMap *the_map;
struct MObs : WorldMapObserver<GridMap> { void on_map_update(const GridMap &m) override { evs.push_back({'M', 0, 0, 0, &m == the_map ? 1.0 : 0.0, map_mark}); } };

static double comp(Rng &r) { return r.chance(0.3) ? 0.0 : r.d(-3, 3); }
CASE(step, 1) {
  auto sm = std::make_shared<Sm>();
  auto ad = std::make_shared<Adder>();
  auto map = std::make_shared<PlainGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{3, 3, 1});
  the_map = map.get();
  SingleStateHypothesisLSGWProperties pr;
  pr.localized_scan_quality = r.d(0, 1); pr.raw_scan_quality = r.d(0, 1);
  pr.scan_margin = r.i(0, 1); pr.grid_map = map; pr.gsm = sm; pr.gmsa = ad;
  SingleStateHypothesisLaserScanGridWorld w{pr};
  int np = r.i(0, 2), nm = r.i(0, 2);
  std::vector<std::shared_ptr<PObs>> po; std::vector<std::shared_ptr<MObs>> mo;
  int dropped = r.chance(0.3);
  if (dropped) { auto t = std::make_shared<PObs>(); w.subscribe_pose(t); }
  for (int i = 0; i < np; ++i) { po.push_back(std::make_shared<PObs>()); w.subscribe_pose(po.back()); }
  for (int i = 0; i < nm; ++i) { mo.push_back(std::make_shared<MObs>()); w.subscribe_map(mo.back()); }
  double X = 0, Y = 0, T = 0;
  int steps = r.i(1, 4);
  for (int s = 0; s < steps; ++s) {
    TransformedLaserScan sc;
    sc.pose_delta = RobotPoseDelta{comp(r), comp(r), comp(r)};
    sc.quality = 7;
    sc.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
    int n = r.i(0, 3);
    if (n) n += 2;
    for (int i = 0; i < n; ++i) sc.scan.points().emplace_back(1.0, 0.0, true);
    if (r.chance(0.3)) sm->d = RobotPoseDelta{0, 0, 0};
    else sm->d = RobotPoseDelta{comp(r), comp(r), comp(r)};
    auto z = [](double v) { return std::fabs(v) < 1e-5 ? 0.0 : v; };
    sm->d = RobotPoseDelta{z(sm->d.x), z(sm->d.y), z(sm->d.theta)};
    IN(sc.pose_delta); NOTE("corr=" << sm->d);
    evs.clear();
    double mark0 = map_mark;
    w.handle_sensor_data(sc);
    double ox = X + sc.pose_delta.x, oy = Y + sc.pose_delta.y, ot = T + sc.pose_delta.theta;
    X = ox + sm->d.x; Y = oy + sm->d.y; T = ot + sm->d.theta;
    CHECK(close(w.pose().x, X) && close(w.pose().y, Y) && close(w.pose().theta, T), "pose " << w.pose() << " expected " << RobotPose(X, Y, T));
    CHECK(evs.size() >= 2 && evs[0].k == 'r' && evs[1].k == 'p', "matching is the first thing done");
    CHECK(close(evs[1].x, ox) && close(evs[1].y, oy) && close(evs[1].th, ot), "matched at " << evs[1].x << "," << evs[1].y << "," << evs[1].th);
    CHECK(evs[1].m == mark0, "the map was changed before matching");
    bool moved = sm->d.x != 0 || sm->d.y != 0 || sm->d.theta != 0;
    double q = moved ? pr.localized_scan_quality : pr.raw_scan_quality;
    CHECK(close(sc.quality, q), "quality " << sc.quality);
    int exp_a = n ? n - 2 * (int)pr.scan_margin : 0;
    size_t e = 2;
    for (int i = 0; i < exp_a; ++i, ++e) {
      CHECK(e < evs.size() && evs[e].k == 'a', "point " << i << " is not mapped");
      CHECK(close(evs[e].x, X) && close(evs[e].y, Y) && close(evs[e].q, q), "mapped from " << evs[e].x << "," << evs[e].y << " quality " << evs[e].q);
      CHECK(std::fabs(std::remainder(evs[e].th - T, 2 * M_PI)) < 1e-6, "mapped at angle " << evs[e].th);
    }
    for (int i = 0; i < np; ++i, ++e) {
      CHECK(e < evs.size() && evs[e].k == 'P', "pose observer " << i << " is not told");
      CHECK(close(evs[e].x, X) && close(evs[e].y, Y) && close(evs[e].th, T) && evs[e].m == map_mark, "pose observer told " << evs[e].x);
    }
    for (int i = 0; i < nm; ++i, ++e)
      CHECK(e < evs.size() && evs[e].k == 'M' && evs[e].q == 1 && evs[e].m == map_mark, "map observer " << i);
    CHECK(e == evs.size(), "unexpected event " << evs[e].k);
  }
}
CASE(pose_arithmetic, 1) {
  RobotPose a(r.d(-9, 9), r.d(-9, 9), r.d(-9, 9)), b(r.d(-9, 9), r.d(-9, 9), r.d(-9, 9));
  IN(a); IN(b);
  auto d = a - b;
  CHECK(close(d.x, a.x - b.x) && close(d.y, a.y - b.y) && close(d.theta, a.theta - b.theta), d);
  auto s = b + d;
  CHECK(close(s.x, a.x) && close(s.y, a.y) && close(s.theta, a.theta), s);
  RobotPose c = b; c += d;
  CHECK(close(c.x, a.x) && close(c.y, a.y) && close(c.theta, a.theta), c);
  RobotPose e; e = a; RobotPose f(a); RobotPose g(d);
  CHECK(e.x == a.x && e.y == a.y && e.theta == a.theta, e);
  CHECK(f.x == a.x && f.y == a.y && f.theta == a.theta, f);
  CHECK(g.x == d.x && g.y == d.y && g.theta == d.theta, g);
  RobotPoseDelta h = d; h += d; auto k = d + d; auto m = -d; auto n = d.abs();
  CHECK(close(h.x, 2 * d.x) && close(h.y, 2 * d.y) && close(h.theta, 2 * d.theta), h);
  CHECK(close(k.x, 2 * d.x) && close(k.y, 2 * d.y) && close(k.theta, 2 * d.theta), k);
  CHECK(m.x == -d.x && m.y == -d.y && m.theta == -d.theta, m);
  CHECK(n.x == std::fabs(d.x) && n.y == std::fabs(d.y) && n.theta == std::fabs(d.theta), n);
  CHECK(close(d.sq_dist(), d.x * d.x + d.y * d.y), "");
  CHECK(a.point().x == a.x && a.point().y == a.y, "");
  RobotPoseDelta o = d; o.reset();
  CHECK(o.x == 0 && o.y == 0 && o.theta == 0 && !o, o);
  RobotPoseDelta big{0, 0, 0}; double v = r.chance(0.5) ? 0.01 : -0.01;
  (r.chance(0.33) ? big.x : r.chance(0.5) ? big.y : big.theta) = v;
  CHECK((bool)big, big);
}
