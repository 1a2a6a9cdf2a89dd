#include "core/scan_matchers/pose_enumeration_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "common.h"

struct Rec { RobotPose p; double s; };
struct Spe : ScanProbabilityEstimator {
  mutable std::vector<Rec> log;
  double ax, ay, at, cx, cy, ct, step; int mode;
  Spe(Rng &r) : ScanProbabilityEstimator(nullptr), ax(r.d(0, 3)), ay(r.d(0, 3)), at(r.d(0, 3)), cx(r.d(-1, 1)), cy(r.d(-1, 1)), ct(r.d(-1, 1)), step(r.d(0.05, 0.4)), mode(r.i(0, 4)) { if (step < 1e-3) step = 0.1; }
  double f(const RobotPose &p) const {
    double v = 1 / (1 + ax * std::pow(p.x - cx, 2) + ay * std::pow(p.y - cy, 2) + at * std::pow(p.theta - ct, 2));
    switch (mode) {
    case 1: return std::floor(v / step) * step;                                // plateaus
    case 2: return std::fabs(std::sin(37 * p.x + 91 * p.y + 53 * p.theta));    // rough
    case 3: return 0.5;                                                        // flat
    case 4: return -v;
    }
    return v;
  }
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &) override { auto c = s; c.points().pop_back(); return c; }
  double estimate_scan_probability(const LaserScan2D &s, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    CHECK(s.points().size() == 1, "the scan is scored unfiltered");
    log.push_back({p, f(p)});
    if (log.size() > 3000) throw Discard{};
    return log.back().s;
  }
};
struct Obs : GridScanMatcherObserver {
  std::vector<Rec> tests, upd; int starts = 0, ends = 0; RobotPose start, end; double es = 0;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &, const GridMap &) override { ++starts; start = p; }
  void on_scan_test(const RobotPose &p, const LaserScan2D &, double s) override { tests.push_back({p, s}); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &, double s) override { upd.push_back({p, s}); }
  void on_matching_end(const RobotPose &p, const LaserScan2D &, double s) override { ++ends; end = p; es = s; }
};
static bool same(const RobotPose &a, const RobotPose &b) { return close(a.x, b.x) && close(a.y, b.y) && close(a.theta, b.theta); }
struct Pe : PoseEnumerator {
  Rng &r; int left = 0, total; const Spe *spe; std::vector<std::pair<RobotPose, bool>> fb; bool pending = false, started = false; bool adaptive;
  RobotPose last;
  Pe(Rng &q, const Spe *s) : r(q), total(q.i(0, 12)), spe(s), adaptive(q.chance(0.5)) {}
  bool has_next() const override { return left > 0; }
  RobotPose next(const RobotPose &p) override {
    CHECK(left > 0 && started && !pending, "next without has_next, reset or feedback");
    pending = true; --left;
    const Rec *b = &spe->log[0];
    for (auto &e : spe->log) if (b->s < e.s) b = &e;
    CHECK(same(p, b->p), "next is given " << p << " while the best pose is " << b->p);
    last = adaptive ? p : RobotPose{};
    last += RobotPoseDelta{r.d(-1, 1), r.d(-1, 1), r.d(-1, 1)};
    return last;
  }
  void reset() override { left = total; started = true; pending = false; }
  void feedback(bool ok) override {
    CHECK(pending, "feedback without next");
    pending = false;
    bool better = true;
    for (size_t i = 0; i + 1 < spe->log.size(); ++i) better &= spe->log[i].s < spe->log.back().s;
    CHECK(ok == better, "feedback " << ok << " for a pose scored " << spe->log.back().s);
  }
};
static TransformedLaserScan scan() {
  TransformedLaserScan s; s.pose_delta = {0, 0, 0}; s.quality = 1;
  s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
  s.scan.points().emplace_back(1, 0, true); s.scan.points().emplace_back(2, 1, true);
  return s;
}
static void run(GridScanMatcher &sm, Spe &spe, const RobotPose &init, bool observed, bool argmax, Rng &r) {
  UnboundedPlainGridMap map{std::make_shared<AffineQualityMergeCell>(), {3, 3, 1}};
  int n = r.i(0, 3);
  std::vector<std::shared_ptr<Obs>> obs;
  for (int i = 0; i < n; ++i) { obs.push_back(std::make_shared<Obs>()); sm.subscribe(obs.back()); }
  { auto gone = std::make_shared<Obs>(); if (r.chance(0.3)) sm.subscribe(gone); }
  std::shared_ptr<Obs> out;
  if (n > 1 && r.chance(0.4)) { int k = r.i(0, n - 1); out = obs[k]; sm.unsubscribe(out); obs.erase(obs.begin() + k); }
  RobotPoseDelta d{7, 7, 7};
  auto s = scan();
  for (int rep = 0; rep < 2; ++rep) {
  spe.log.clear();
  for (auto &o : obs) *o = Obs{};
  double p = sm.process_scan(s, init, map, d);
  auto &L = spe.log;
  CHECK(!L.empty() && same(L[0].p, init), "the initial pose is not scored first");
  auto fin = init + d;
  bool found = false;
  for (auto &e : L) found |= same(e.p, fin) && close(e.s, p);
  CHECK(found, "result " << fin << " with " << p << " is not a scored pose with its score");
  CHECK(p >= L[0].s - 1e-9, "worse than the start: " << p << " < " << L[0].s);
  if (argmax) for (auto &e : L) CHECK(!(p < e.s), "pose " << e.p << " scored " << e.s << " > " << p);
  if (out) CHECK(out->tests.empty() && out->upd.empty() && !out->starts && !out->ends, "an unsubscribed observer is told");
  if (!observed) return;
  for (auto &o : obs) {
    CHECK(o->starts == 1 && o->ends == 1 && same(o->start, init) && same(o->end, RobotPose(d)) && o->es == p, "start and end events " << o->starts << " " << o->ends);
    CHECK(o->tests.size() == L.size(), "observer saw " << o->tests.size() << " of " << L.size() << " scored poses");
    for (size_t i = 0; i < L.size(); ++i) CHECK(same(o->tests[i].p, L[i].p) && o->tests[i].s == L[i].s, "test event " << i);
    std::vector<Rec> want;
    for (auto &e : L) if (want.empty() || want.back().s < e.s) want.push_back(e);
    CHECK(o->upd.size() == want.size(), o->upd.size() << " updates, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) CHECK(same(o->upd[i].p, want[i].p) && o->upd[i].s == want[i].s, "update event " << i);
  }
  if (!r.chance(0.3)) break;
  sm.reset_state();
  }
}
static RobotPose init_pose(Rng &r) { return r.chance(0.3) ? RobotPose{} : RobotPose(r.d(-2, 2), r.d(-2, 2), r.d(-2, 2)); }
CASE(candidate_loop, 3) {
  auto spe = std::make_shared<Spe>(r);
  auto pe = std::make_shared<Pe>(r, spe.get());
  auto ip = init_pose(r);
  NOTE("mode=" << spe->mode << " candidates=" << pe->total); IN(ip);
  PoseEnumerationScanMatcher sm{spe, pe};
  run(sm, *spe, ip, true, true, r);
}
CASE(hill_climbing_fixed, 1) {
  auto spe = std::make_shared<Spe>(r);
  if (spe->mode == 4) throw Discard{};
  auto ip = init_pose(r);
  NOTE("mode=" << spe->mode); IN(ip);
  HillClimbingSMFixed sm{spe};
  run(sm, *spe, ip, false, false, r);
}
CASE(hill_climbing, 1) {
  auto spe = std::make_shared<Spe>(r);
  auto ip = init_pose(r);
  NOTE("mode=" << spe->mode); IN(ip);
  HillClimbingScanMatcher sm{spe, (unsigned)r.i(0, 5), r.d(0.01, 0.5), r.d(0.01, 0.5)};
  run(sm, *spe, ip, true, true, r);
}
CASE(brute_force, 1) {
  auto spe = std::make_shared<Spe>(r);
  auto ip = init_pose(r);
  NOTE("mode=" << spe->mode); IN(ip);
  double a = -r.d(0, 0.3), b = r.d(0, 0.3), st = r.d(0.1, 0.4);
  if (st < 0.05) throw Discard{};
  BruteForceScanMatcher sm{spe, a, b, st, a, b, st, a, b, st};
  run(sm, *spe, ip, true, true, r);
}
CASE(monte_carlo, 1) {
  auto spe = std::make_shared<Spe>(r);
  auto ip = init_pose(r);
  NOTE("mode=" << spe->mode); IN(ip);
  MonteCarloScanMatcher sm{spe, (unsigned)r.i(0, 99), r.d(0.01, 0.5), r.d(0.01, 0.5), (unsigned)r.i(0, 9), (unsigned)r.i(0, 30)};
  run(sm, *spe, ip, true, true, r);
}
struct MCell : public GridCell {
  explicit MCell(double p) : GridCell{Occupancy{p, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<MCell>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override { GridCell::operator+=(a); _occupancy = a.occupancy; }
};
CASE(multi_resolution, 0.7) {   // a fully observed map, ranges off the cell borders (the recorded findings of C14 lie elsewhere)
  auto oie = std::make_shared<DiscrepancyOIE>();
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>());
  double sc = std::pow(2.0, r.i(-4, -1));
  int n = r.i(12, 30);
  M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<MCell>(0.5), GridMapParams{n, n, sc}};
  for (int x = -n / 2; x < n - n / 2; ++x) for (int y = -n / 2; y < n - n / 2; ++y) { double v = r.chance(0.6) ? 0.01 : r.u(); m.update({x, y}, AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}); }
  auto rd = [&](double lo, double hi) { return lo + (hi - lo) * r.u(); };
  TransformedLaserScan s; s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>(); s.quality = 1;
  for (int k = 0, p = r.i(1, 8); k < p; ++k) s.scan.points().emplace_back(rd(0, n * sc / 4), rd(-3, 3));
  RobotPose pose{rd(-1, 1) * sc, rd(-1, 1) * sc, rd(-1, 1)};
  double lx = sc * rd(0.2, n / 4. - 2.5), ly = sc * rd(0.2, n / 4. - 2.5), lr = r.chance(0.3) ? 0 : rd(0.01, 0.1), as = rd(0.02, 0.1), ts = sc * rd(0.4, 1.5);
  IN(pose); NOTE("scale " << sc << " size " << n << " limits " << lx << " " << ly << " " << lr << " steps " << as << " " << ts);
  BruteForceMultiResolutionScanMatcher sm{spe, lx, ly, lr, as, ts};
  auto a = std::make_shared<Obs>(), b = std::make_shared<Obs>();
  sm.subscribe(a); sm.subscribe(b);
  for (int rep = 0; rep < 2; ++rep) {
    *a = Obs{}; *b = Obs{};
    RobotPoseDelta d{7, 7, 7};
    double p = sm.process_scan(s, pose, m, d);
    auto at = [&](const RobotPose &q) {
      return spe->estimate_scan_probability(s.scan.to_cartesian(q.theta), RobotPose{q.x, q.y, 0}, m, ScanProbabilityEstimator::SPEParams{LightWeightRectangle{0, 0, 0, 0}, true}); };
    CHECK(close(p, at(pose + d), 1e-6), "reported " << p << ", the pose " << (pose + d) << " scores " << at(pose + d));
    CHECK(p >= at(pose) - 1e-5, "worse than the start: " << p << " < " << at(pose));
    for (auto &o : {a, b}) CHECK(o->starts == 1 && o->ends == 1 && same(o->start, pose) && same(o->end, RobotPose(d)) && o->es == p, "start and end events " << o->starts << " " << o->ends);
    if (!r.chance(0.5)) return;
    sm.reset_state();
  }
}
CASE(no_action, 0.1) {
  auto spe = std::make_shared<Spe>(r);
  NoActionScanMatcher sm{spe};
  UnboundedPlainGridMap map{std::make_shared<AffineQualityMergeCell>(), {3, 3, 1}};
  auto s = scan(); RobotPoseDelta d{7, 7, 7};
  CHECK(sm.process_scan(s, init_pose(r), map, d) == 1.0 && d.x == 0 && d.y == 0 && d.theta == 0, d);
}
