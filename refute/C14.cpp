#include <memory>
#include <vector>
#include <set>
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include <sys/wait.h>
#include "common.h"

struct Cell : public GridCell {
  bool known = false;
  explicit Cell(double p = 0.5) : GridCell{Occupancy{p, 1}} {}
  Cell(double p, bool k) : GridCell{Occupancy{p, 1}} { set(p, k); }
  void set(double p, bool k) { _occupancy = Occupancy{p, 1}; known = k; if (k) *this += AreaOccupancyObservation{true, Occupancy{p, 1}, Point2D{0, 0}, 1}; }
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<Cell>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override { GridCell::operator+=(a); _occupancy = a.occupancy; }
};
using C = DiscretePoint2D;
template <class M> struct Open : public M3RSMRescalableGridMap<M> {
  using M3RSMRescalableGridMap<M>::M3RSMRescalableGridMap;
  const GridMap &level(unsigned k) const { return this->map(k); }
};
static AreaOccupancyObservation aoo(double v) { return AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}; }

template <class M> static void levels(Rng &r, bool grows) {
  int w = r.chance(0.5) ? r.i(1, 6) : r.i(1, 40), h = r.chance(0.5) ? r.i(1, 6) : r.i(1, 40);
  double sc = r.chance(0.5) ? std::pow(2.0, r.i(-4, 1)) : r.d(0.05, 2), blank = r.chance(0.5) ? 0.5 : r.u();
  auto oie = std::make_shared<DiscrepancyOIE>();
  Open<M> m{oie, std::make_shared<Cell>(blank), GridMapParams{w, h, sc}};
  NOTE(w << "x" << h << " scale " << sc << " blank " << blank << ":");
  std::vector<C> spots;
  for (int k = 0, n = r.i(1, 10); k < n; ++k) {
    C o = m.origin(), c{r.i(0, w - 1) - w / 2, r.i(0, h - 1) - h / 2};
    if (grows && r.chance(0.3)) { int q = r.pick(std::vector<int>{3, 20, 130, 300}); c = C(r.i(-q, q), r.i(-q, q)); }
    else if (grows && r.chance(0.2)) c = C(m.width() - o.x + r.i(-1, 1), r.i(-1, 1));
    if (!m.has_cell(c)) continue;
    double v = r.u();
    NOTE(c.x << "," << c.y << "=" << v);
    if (r.chance(0.5)) m.update(c, aoo(v)); else m.reset(c, Cell{v, true});
    CHECK(close(m.occupancy(c), v), "written cell reads " << m.occupancy(c));
    spots.push_back(c);
    CHECK(m.scale_id() == m.finest_scale_id() && close(m.scale(), sc), "active level changed");
    const GridMap &f = m.level(0);
    for (auto &s : spots) {
      auto area = f.world_cell_bounds(s);
      double fine = oie->estimate_obstacle_impact(f[s]);
      for (unsigned id = 1; id <= m.coarsest_scale_id(); ++id) {
        auto &cm = m.level(id);
        CHECK(id == m.coarsest_scale_id() || close(cm.scale(), sc * (1 << id)), "level " << id << " has scale " << cm.scale());
        for (auto &cc : GridRasterizedRectangle{cm, area, false}.to_vector()) {
          CHECK(cm.has_cell(cc), "level " << id << " has no cell over " << s.x << "," << s.y);
          double coarse = oie->estimate_obstacle_impact(cm[cc]);
          CHECK(fine <= coarse + 1e-6, "cell " << s.x << "," << s.y << " has impact " << fine << ", level " << id << " of " << m.coarsest_scale_id() << " says " << coarse << (cm[cc].is_unknown() ? " (unknown)" : ""));
        }
      }
    }
    double t = r.d(0, sc * 64);
    if (r.chance(0.3)) t = sc * (1 << r.i(0, 5));
    m.rescale(t);
    CHECK(t <= m.scale() && (m.scale_id() == 0 || m.level(m.scale_id() - 1).scale() < t), "rescale to " << t << " chose " << m.scale());
    { SafeRescalableMap safe{m}; static_cast<GridMap &>(safe).rescale(r.d(0, sc * 100)); }
    CHECK(t <= m.scale() && (m.scale_id() == 0 || m.level(m.scale_id() - 1).scale() < t), "scale was not restored");
    m.rescale(0);
  }
}
CASE(plain, 1) { levels<PlainGridMap>(r, false); }
CASE(unbounded, 2) { levels<UnboundedPlainGridMap>(r, true); }
CASE(tiled, 1) { levels<LazyTiledGridMap>(r, false); }
CASE(unbounded_tiled, 1) { levels<UnboundedLazyTiledGridMap>(r, true); }

// known: every cell the search may look at has been observed
// lattice: poses, points and limits may be multiples of the cell size
static void search(Rng &r, bool known, bool lattice) {
  auto rd = [&](double lo, double hi) { return lattice ? r.d(lo, hi) : lo + (hi - lo) * r.u(); };
  auto oie = std::make_shared<DiscrepancyOIE>();
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>());
  double sc = std::pow(2.0, r.i(-4, -1)), blank = r.chance(0.7) ? 0.5 : r.u();
  int n = r.i(12, 40);
  NOTE("scale " << sc << " size " << n << " blank " << blank);
  Open<UnboundedPlainGridMap> m{oie, std::make_shared<Cell>(blank), GridMapParams{n, n, sc}};
  if (known) for (int x = -n / 2; x < n - n / 2; ++x) for (int y = -n / 2; y < n - n / 2; ++y) m.update(C{x, y}, aoo(r.chance(0.5) ? 0.01 : r.u()));
  int wr = r.i(0, 60);
  for (int k = 0; k < wr; ++k) { C c{r.i(-n / 2, n / 2 - 1), r.i(-n / 2, n / 2 - 1)}; double v = r.chance(0.5) ? r.u() : (r.chance(0.5) ? 0.95 : 0.01); if (wr < 6) NOTE(c.x << "," << c.y << "=" << v); m.update(c, aoo(v)); }
  TransformedLaserScan scan; scan.scan.trig_provider = std::make_shared<RawTrigonometryProvider>(); scan.quality = 1;
  for (int k = 0, p = r.i(1, 12); k < p; ++k) { double a = rd(-3, 3), d = known ? rd(0, n * sc / 4) : rd(0.1, n * sc); NOTE("pt " << d << "@" << a); scan.scan.points().emplace_back(d, a); }
  RobotPose pose{rd(-1, 1) * sc, rd(-1, 1) * sc, rd(-1, 1)};
  double lx = sc * (known ? rd(0.2, n / 4. - 2.5) : rd(0.5, 8)), ly = sc * (known ? rd(0.2, n / 4. - 2.5) : rd(0.5, 8)), lr = r.chance(0.3) ? 0 : rd(0.01, 0.1), as = rd(0.02, 0.1), ts = sc * rd(0.4, 1.5);
  NOTE("limits " << lx << " " << ly << " " << lr << " steps " << as << " " << ts);
  BruteForceMultiResolutionScanMatcher sm{spe, lx, ly, lr, as, ts};
  RobotPoseDelta res;
  double p = sm.process_scan(scan, pose, m, res);
  CHECK(m.scale_id() == 0, "map left at level " << m.scale_id());
  CHECK(std::fabs(res.x) <= lx + 1e-9 && std::fabs(res.y) <= ly + 1e-9 && std::fabs(res.theta) <= lr + 1e-9, "result outside of the window " << res.x << "," << res.y << "," << res.theta);
  auto at = [&](double x, double y, double t) {
    return spe->estimate_scan_probability(*std::make_shared<LaserScan2D>(scan.scan.to_cartesian(t + pose.theta)), RobotPose{pose.x + x, pose.y + y, 0}, m, ScanProbabilityEstimator::SPEParams{LightWeightRectangle{0, 0, 0, 0}, true}); };
  CHECK(close(p, at(res.x, res.y, res.theta), 1e-6), "reported " << p << ", the place scores " << at(res.x, res.y, res.theta));
  for (double t = 0; t <= lr; t += as) for (double s : {t, -t})
    CHECK(at(0, 0, s) <= p + 1e-5, "zero drift with rotation " << s << " scores " << at(0, 0, s) << " > " << p);
}

CASE(search, 2) { search(r, true, false); }
// recorded (each a fixed input, in a process of its own): never observed cells are not bounded by the levels; a window whose side lies on a cell border
static void recorded(unsigned long seed, bool known, bool lattice) {
  Rng::hints().clear();
  fflush(stdout);
  pid_t p = fork();
  if (!p) {
    signal(SIGABRT, SIG_DFL);
    for (int f : {0, 1, 2}) close(f);
    Rng q{seed};
    try { search(q, known, lattice); } catch (...) { _exit(3); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  NOTE("seed " << seed);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the search " << (WIFSIGNALED(st) ? "aborted" : "gave a wrong result"));
}
CASE(search_unknown, .1) { recorded(1732, false, false); }
CASE(search_border, .1) { recorded(4156, true, true); }

// the score of a range of drifts is that of its points nearest to the peaks: an estimator that meets the bounding assumption
struct Peaks : public ScanProbabilityEstimator {
  std::vector<Point2D> at; std::vector<double> high, wide; mutable std::vector<double> scales; mutable bool pre = false;
  Peaks() : ScanProbabilityEstimator{nullptr} {}
  using ScanProbabilityEstimator::estimate_scan_probability;
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &m, const SPEParams &q) const override {
    auto a = q.sp_analysis_area; scales.push_back(m.scale()); pre = q.scan_is_prerotated;
    double best = 0;
    for (size_t i = 0; i < at.size(); ++i) {
      double dx = std::max(0., std::fabs(p.x - at[i].x) - a.hside_len() / 2), dy = std::max(0., std::fabs(p.y - at[i].y) - a.vside_len() / 2);
      best = std::max(best, high[i] * std::exp(-(dx * dx + dy * dy) * wide[i]));
    }
    return best;
  }
};
struct Level : public M3RSMRescalableGridMap<UnboundedPlainGridMap> {
  using M3RSMRescalableGridMap<UnboundedPlainGridMap>::M3RSMRescalableGridMap;
  double level(unsigned k) const { return this->map(k).scale(); }
};
struct Setup {
  RobotPose pose; std::shared_ptr<Peaks> spe = std::make_shared<Peaks>(); std::shared_ptr<LaserScan2D> scan = std::make_shared<LaserScan2D>();
  Level map;
  Setup(Rng &r) : pose{r.d(-2, 2), r.d(-2, 2), r.d(-1, 1)}, map{std::make_shared<DiscrepancyOIE>(), std::make_shared<Cell>(0.5), GridMapParams{r.i(4, 40), r.i(4, 40), std::pow(2.0, r.i(-4, 0))}} {
    scan->trig_provider = std::make_shared<RawTrigonometryProvider>(); scan->points().emplace_back(1, 0);
    for (int k = r.i(1, 4); k; --k) { spe->at.push_back(Point2D{pose.x + r.d(-2, 2), pose.y + r.d(-2, 2)}); spe->high.push_back(r.d(0.3, 1)); spe->wide.push_back(r.d(0.05, 2)); }
  }
  Match match(LightWeightRectangle a) { return Match{0, a, spe, scan, true, pose, map}; }
  double score(double x, double y) { return spe->estimate_scan_probability(*scan, RobotPose{pose.x + x, pose.y + y, 0}, map, ScanProbabilityEstimator::SPEParams{LightWeightRectangle{0, 0, 0, 0}, true}); }
};
CASE(ranges, 2) {
  Setup s{r};
  double step = r.d(0.1, 0.6), diff = r.chance(0.5) ? 0 : r.d(0, 0.3);
  M3RSMEngine e{diff};
  std::vector<LightWeightRectangle> all;
  double found = 0;
  NOTE("step " << step << " difference " << diff);
  for (int k = r.i(1, 5); k; --k) {
    double x = r.d(-2, 2), y = r.d(-2, 2), w = r.chance(0.4) ? 0 : r.d(0, 2), h = r.chance(0.4) ? 0 : r.d(0, 2);
    LightWeightRectangle a{y, y + h, x, x + w};
    NOTE("range " << x << ".." << x + w << "," << y << ".." << y + h);
    s.spe->scales.clear();
    auto m = s.match(a);
    double need = std::max(w, h), got = s.spe->scales.at(0);
    CHECK(got >= need - 1e-12 && (s.map.scale_id() == 0 || s.map.level(s.map.scale_id() - 1) < need + 1e-12), "range " << w << "x" << h << " is scored at scale " << got);
    CHECK(s.spe->pre, "the scan is given as rotated");
    CHECK(close(m.prob_upper_bound, s.spe->estimate_scan_probability(*s.scan, RobotPose{s.pose.x + x + w / 2, s.pose.y + y + h / 2, 0}, s.map, ScanProbabilityEstimator::SPEParams{a, true}), 1e-12), "the score is not that of the range");
    if (a.hside_len() + a.vside_len() <= 0 && m.prob_upper_bound >= found) found = std::max(found, m.prob_upper_bound - diff);
    e.add_match(std::move(m)); all.push_back(a);
  }
  std::vector<LightWeightRectangle> out;
  double last = 2;
  for (int n = 0; n < 3000; ++n) {
    auto b = e.next_best_match(step);
    if (!b.is_valid()) break;
    auto a = b.translation_drift;
    CHECK(a.hside_len() <= step + 1e-12 && a.vside_len() <= step + 1e-12, "range " << a.hside_len() << "x" << a.vside_len() << " is wider than the step");
    CHECK(b.prob_upper_bound <= last + 1e-5, "a better match " << b.prob_upper_bound << " after " << last);
    last = b.prob_upper_bound; out.push_back(a);
  }
  for (int n = 0; n < 60; ++n) {
    auto &a = all[r.i(0, all.size() - 1)];
    double x = a.left() + a.hside_len() * r.u(), y = a.bot() + a.vside_len() * r.u();
    if (s.score(x, y) < found + 1e-9) continue;
    bool in = false;
    for (auto &o : out) in |= o.left() - 1e-9 <= x && x <= o.right() + 1e-9 && o.bot() - 1e-9 <= y && y <= o.top() + 1e-9;
    CHECK(in, "drift " << x << "," << y << " scores " << s.score(x, y) << ", more than " << found << ", and is in no returned range");
  }
}
CASE(matcher, 1) {
  Setup s{r};
  double lx = r.d(0.05, 2), ly = r.d(0.05, 2), lt = r.chance(0.5) ? 0 : r.d(0, 0.1), as = r.d(0.02, 0.1), ts = r.d(0.1, 0.5), t0 = r.d(0, 4);
  struct Obs : public GridScanMatcherObserver { RobotPose p{0, 0, 0}; double q = -1; int n = 0; void on_matching_end(const RobotPose &d, const LaserScan2D &, double pr) override { p = d; q = pr; ++n; } };
  auto obs = std::make_shared<Obs>();
  TransformedLaserScan scan; scan.scan = *s.scan; scan.quality = 1;
  NOTE("limits " << lx << " " << ly << " " << lt << " steps " << as << " " << ts << " scale " << t0);
  s.map.rescale(t0);
  double was = s.map.scale();
  BruteForceMultiResolutionScanMatcher sm{s.spe, lx, ly, lt, as, ts};
  sm.subscribe(obs);
  RobotPoseDelta d;
  double p = sm.process_scan(scan, s.pose, s.map, d);
  CHECK(s.map.scale() == was, "the map had scale " << was << ", is left with " << s.map.scale());
  CHECK(std::fabs(d.x) <= lx + 1e-9 && std::fabs(d.y) <= ly + 1e-9 && std::fabs(d.theta) <= lt + 1e-9, "result out of the limits");
  CHECK(close(p, s.score(d.x, d.y), 1e-9), "reported " << p << " scores " << s.score(d.x, d.y));
  CHECK(p >= s.score(0, 0) - 1e-6, "worse than staying");
  CHECK(obs->n == 1 && obs->q == p && obs->p.x == d.x && obs->p.y == d.y && obs->p.theta == d.theta, "the observer is told something else");
}
