#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "slams/credibilist/TBM_prob_conversion.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "slams/gmapping/gmapping_occupancy_observation_pe.h"
#include "common.h"
static AreaOccupancyObservation obs(Rng &r, double lim = 5, bool plain = false) {
  AreaOccupancyObservation a{r.chance(0.5), Occupancy{r.d(0, 1), r.d(0, 1)}, Point2D{r.d(-lim, lim), r.d(-lim, lim)}, r.d(0, 1)};
  if (plain || r.chance(0.2)) { a.quality = 1; a.occupancy.estimation_quality = 1; }
  return a;
}
#define LOGA(a) NOTE("obs(p=" << (a).occupancy.prob_occ << " eq=" << (a).occupancy.estimation_quality << " q=" << (a).quality << " x=" << (a).obstacle.x << " y=" << (a).obstacle.y << ")")
static bool unit(double v) { return std::isfinite(v) && v >= -1e-9 && v <= 1 + 1e-9; }
template <class C> static void cell(Rng &r, std::function<double(const C &, const AreaOccupancyObservation &)> expect) {
  C c;
  for (int i = r.i(0, 4); i > 0; --i) { auto a = obs(r); LOGA(a); c += a; }
  NOTE("probe"); auto a = obs(r); LOGA(a);
  double d = c.discrepancy(a);
  CHECK(unit(d), "discrepancy " << d);
  if (expect) { double e = expect(c, a); CHECK(close(d, e, 1e-7), "discrepancy " << d << " expected " << e); }
  double i = DiscrepancyOIE{}.estimate_impact(c, a);
  CHECK(close(i, 1 - d), "impact " << i);
  double o = OccupancyOIE{}.estimate_impact(c, a);
  CHECK(close(o, c.occupancy().prob_occ), "occupancy impact " << o);
}
static double prob_diff(const GridCell &c, const AreaOccupancyObservation &a) { return std::abs(c.occupancy().prob_occ - a.occupancy.prob_occ); }
CASE(plain_cells, 1) { cell<AffineQualityMergeCell>(r, prob_diff); cell<MeanProbabilityCell>(r, prob_diff); }
CASE(gmapping_cell, 1) {
  cell<GmappingBaseCell>(r, nullptr);
  GmappingBaseCell c; Point2D s{0, 0}; int n = 0;
  for (int i = r.i(1, 5); i > 0; --i) { auto a = obs(r, 1); LOGA(a); if (a.occupancy.prob_occ > 0.5) { s = s + a.obstacle; ++n; } c += a; }
  if (n) s = s * (1.0 / n);
  auto a = obs(r, 1); LOGA(a);
  double d2 = s.dist_sq(a.obstacle);
  CHECK(close(c.discrepancy(a), 1 - std::exp(-d2 / 0.05), 1e-7), "distance " << std::sqrt(d2) << " discrepancy " << c.discrepancy(a));
}
template <class C> static void tbm(Rng &r) {
  cell<C>(r, [](const C &c, const AreaOccupancyObservation &a) {
    double k = a.occupancy.estimation_quality * a.quality, eo = a.occupancy.prob_occ * k, ee = (1 - a.occupancy.prob_occ) * k, eu = 1 - eo - ee;
    double bu = c.belief().unknown(), be = c.belief().empty(), bo = c.belief().occupied();
    double t = (eu + bu) / 2, conf = be * eo + bo * ee;
    return t / 2 + (1 - t) * (conf + std::abs(eo - bo)) / 2;
  });
}
CASE(tbm_cells, 1) { tbm<TbmUnknownEvenOccCell>(r); tbm<TbmOccConsistentCell>(r); }
CASE(credibilist_cell, 1) {
  cell<CredibilistCell>(r, [](const CredibilistCell &c, const AreaOccupancyObservation &a) {
    return 1 - c.belief().occupied() * a.occupancy.prob_occ * a.occupancy.estimation_quality * a.quality; });
}
using Cells = std::shared_ptr<GridCell>;
static Cells proto(Rng &r) {
  switch (r.i(0, 4)) {
  case 0: return std::make_shared<AffineQualityMergeCell>();
  case 1: return std::make_shared<MeanProbabilityCell>();
  case 2: return std::make_shared<GmappingBaseCell>();
  case 3: return std::make_shared<TbmUnknownEvenOccCell>();
  default: return std::make_shared<CredibilistCell>();
  }
}
struct World {
  std::unique_ptr<PlainGridMap> map; double s; int w, h;
  World(Rng &r) {
    s = r.chance(0.5) ? 1 : r.chance(0.5) ? 0.1 : r.d(0.05, 2); w = r.i(4, 14); h = r.i(4, 14);
    map = std::make_unique<PlainGridMap>(proto(r), GridMapParams{w, h, s});
    NOTE("map " << w << "x" << h << " scale " << s);
    fill(r, r.i(0, 60));
  }
  void fill(Rng &r, int n) {
    for (int i = 0; i < n; ++i) {
      GridMap::Coord c(r.i(-(w / 2), w - 1 - w / 2), r.i(-(h / 2), h - 1 - h / 2));
      auto a = obs(r, s * w / 2, true); if (r.chance(0.5)) a.occupancy.prob_occ = 1; a.obstacle = Point2D{(c.x + r.u()) * s, (c.y + r.u()) * s};
      map->update(c, a);
    }
  }
};
CASE(area_probability, 2) {
  World W(r); auto &m = *W.map; double s = W.s;
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (r.chance(0.5) || dynamic_cast<const GmappingBaseCell *>(&m[{0, 0}])) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
  auto a = oie->obstacle_AOO();
  CHECK(a.is_occupied && a.occupancy.prob_occ == 1 && a.quality == 1, "expected observation");
  for (int k = 0; k < 3; ++k) {
    a.obstacle = Point2D{r.d(-1, 1) * s * (W.w / 2 - 2), r.d(-1, 1) * s * (W.h / 2 - 2)};
    double hx = s * r.d(0, 1.3), hy = s * r.d(0, 1.3); if (r.chance(0.15)) hx = hy = 0; if (hx * hy == 0) hx = hy = 0;
    LightWeightRectangle ar{a.obstacle.y - hy, a.obstacle.y + hy, a.obstacle.x - hx, a.obstacle.x + hx};
    LOGA(a); NOTE("area " << ar);
    // reference, computed from the cells around
    double mx = 0, sum = 0, n = 0, ws = 0, wt = 0; bool fuzzy = false;
    for (int x = -(W.w / 2); x < W.w - W.w / 2; ++x) for (int y = -(W.h / 2); y < W.h - W.h / 2; ++y) {
      double l = x * s, b = y * s;
      double ox = std::min(l + s, ar.right()) - std::max(l, ar.left()), oy = std::min(b + s, ar.top()) - std::max(b, ar.bot());
      if (std::abs(ox) < 1e-6 * s && hx || std::abs(oy) < 1e-6 * s && hy) fuzzy = true;
      if (!hx && (std::abs(a.obstacle.x - l) < 1e-6 || std::abs(a.obstacle.y - b) < 1e-6)) fuzzy = true;
      bool in = hx ? ox > 0 && oy > 0 : l <= a.obstacle.x && a.obstacle.x < l + s && b <= a.obstacle.y && a.obstacle.y < b + s;
      if (!in) continue;
      double i = oie->estimate_impact(m[{x, y}], a);
      CHECK(unit(i), "impact " << i);
      double w = hx ? ox * oy : 1;
      mx = std::max(mx, i); sum += i; n += 1; ws += w * i; wt += w;
    }
    if (n == 0) throw Discard{};
    double pm = MaxOccupancyObservationPE{oie}.probability(a, ar, m), pa = MeanOccupancyObservationPE{oie}.probability(a, ar, m),
           po = OverlapWeightedOccupancyObservationPE{oie}.probability(a, ar, m), pb = ObstacleBasedOccupancyObservationPE{oie}.probability(a, ar, m);
    CHECK(unit(pm) && unit(pa) && unit(po) && unit(pb), pm << " " << pa << " " << po << " " << pb);
    CHECK(close(pb, oie->estimate_impact(m[m.world_to_cell(a.obstacle)], a)), "obstacle based " << pb);
    if (fuzzy) continue;
    CHECK(close(pm, mx, 1e-7), "max " << pm << " expected " << mx);
    CHECK(close(pa, sum / n, 1e-7), "mean " << pa << " expected " << sum / n);
    CHECK(close(po, ws / wt, 1e-6), "overlap weighted " << po << " expected " << ws / wt);
  }
}
CASE(gmapping_probability, 1) {
  World W(r); auto &m = *W.map;
  double th = r.d(0, 1); int win = r.i(0, 2); IN(th); IN(win);
  GmappingOccupancyObservationPE pe{th, (unsigned)win};
  AreaOccupancyObservation a{true, {1, 1}, {0, 0}, 1};
  if (W.w / 2 - win - 2 < 1 || W.h / 2 - win - 2 < 1) throw Discard{};
  for (int k = 0; k < 5; ++k) {
    if (k != 2 && k != 4) a.obstacle = Point2D{r.d(-1, 1) * W.s * (W.w / 2 - win - 2), r.d(-1, 1) * W.s * (W.h / 2 - win - 2)};
    if (k == 2) W.fill(r, 30);
    if (k == 4) { auto c = m.world_to_cell(a.obstacle); a.obstacle = Point2D{(c.x + r.d(0.1, 0.9)) * W.s, (c.y + r.d(0.1, 0.9)) * W.s}; }
    LOGA(a);
    auto c = m.world_to_cell(a.obstacle); double best = 0;
    for (int dx = -win; dx <= win; ++dx) for (int dy = -win; dy <= win; ++dy) {
      auto &cell = m[{c.x + dx, c.y + dy}];
      if ((double)cell < th) continue;
      best = std::max(best, 1 - cell.discrepancy(a));
    }
    double p = pe.probability(a, LightWeightRectangle{}, m);
    CHECK(unit(p) && close(p, best, 1e-9), "query " << k << ": " << p << " expected " << best);
  }
}
struct Spw : ScanPointWeighting { std::vector<double> w; double weight(const LaserScan2D::Points &, PointId i) const override { return w[i]; } };
CASE(scan_probability, 2) {
  World W(r); auto &m = *W.map;
  std::shared_ptr<ObservationImpactEstimator> oie;
  if (r.chance(0.5) || dynamic_cast<const GmappingBaseCell *>(&m[{0, 0}])) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
  std::shared_ptr<OccupancyObservationProbabilityEstimator> pe = std::make_shared<ObstacleBasedOccupancyObservationPE>(oie);
  if (r.chance(0.4)) pe = std::make_shared<MaxOccupancyObservationPE>(oie);
  auto spw = std::make_shared<Spw>();
  unsigned skip = r.chance(0.5) ? 0 : r.i(1, 4); double maxr = r.chance(0.5) ? -1 : r.d(0.1, W.s * W.w);
  WeightedMeanPointProbabilitySPE spe{pe, spw, skip, maxr};
  RobotPose pose{r.d(-1, 1) * W.s, r.d(-1, 1) * W.s, r.chance(0.2) ? 0 : r.d(-3, 3)};
  LaserScan2D scan; if (r.chance(0.7)) scan.trig_provider->set_base_angle(r.d(-3, 3));
  int n = r.i(0, 8); bool pre = r.chance(0.3); bool zero = r.chance(0.1);
  NOTE("pose " << pose.x << " " << pose.y << " " << pose.theta << " skip " << skip << " max range " << maxr << " prerotated " << pre);
  double L = W.s * (std::min(W.w, W.h) / 2 - 2);
  ScanProbabilityEstimator::SPEParams prm; prm.scan_is_prerotated = pre;
  if (r.chance(0.4)) { double q = W.s * r.d(0.05, 0.4); prm.sp_analysis_area = LightWeightRectangle{-q, q, -q, q}; }
  double sp = 0, sw = 0;
  std::vector<int> kept;
  for (int i = 0; i < n; ++i) {
    ScanPoint2D p{r.d(0, std::max(0.0, L)), r.d(-3.2, 3.2), r.chance(0.8)};
    if (r.chance(0.1)) p = ScanPoint2D{L * 5, p.angle(), true};
    double f = r.chance(0.6) ? 1 : r.d(0, 1); p.set_factor(f);
    scan.points().push_back(p);
    spw->w.push_back(zero ? 0 : r.d(0, 3));
    double th = (pre ? 0 : pose.theta) + p.angle();
    NOTE("pt(" << p.range() << "," << p.angle() << " occ " << p.is_occupied() << " f " << f << " w " << spw->w.back() << ")");
    Point2D at{pose.x + p.range() * std::cos(pose.theta + p.angle()), pose.y + p.range() * std::sin(pose.theta + p.angle())};
    int cx = std::floor(at.x / W.s), cy = std::floor(at.y / W.s);
    bool has = -(W.w / 2) <= cx && cx < W.w - W.w / 2 && -(W.h / 2) <= cy && cy < W.h - W.h / 2;
    if (maxr > 0 && std::abs(p.range() - maxr) < 1e-9) throw Discard{};
    if (p.is_occupied() && has && !(maxr > 0 && p.range() > maxr) && !(skip && i % skip)) kept.push_back(i);
  }
  auto fl = spe.filter_scan(scan, pose, m);
  CHECK(fl.points().size() == kept.size(), "filtered scan has " << fl.points().size() << " points, expected " << kept.size());
  for (size_t i = 0; i < kept.size(); ++i) {
    auto &p = fl.points()[i], &q = scan.points()[kept[i]];
    CHECK(p.range() == q.range() && p.angle() == q.angle() && p.is_occupied() == q.is_occupied() && p.factor() == q.factor(), "filtered point " << i);
  }
  CHECK(scan.points().size() == (size_t)n, "the raw scan changed");
  // likelihood of the points that are inside of the map
  LaserScan2D in; std::vector<double> w;
  for (int i = 0; i < n; ++i) if (scan.points()[i].range() <= L) { in.points().push_back(scan.points()[i]); w.push_back(spw->w[i]); }
  spw->w = w;
  for (size_t i = 0; i < w.size(); ++i) {
    auto &p = in.points()[i]; double th = (pre ? 0 : pose.theta) + p.angle();
    auto a = oie->obstacle_AOO(); a.obstacle = Point2D{pose.x + p.range() * std::cos(th), pose.y + p.range() * std::sin(th)};
    if (std::abs(a.obstacle.x / W.s - std::round(a.obstacle.x / W.s)) < 1e-7 || std::abs(a.obstacle.y / W.s - std::round(a.obstacle.y / W.s)) < 1e-7) throw Discard{};
    if (!m.has_cell(m.world_to_cell(a.obstacle))) throw Discard{};
    auto &ar = prm.sp_analysis_area;
    for (double dx : {ar.left(), ar.right()}) for (double dy : {ar.bot(), ar.top()}) if (!m.has_cell(m.world_to_cell(a.obstacle.x + dx, a.obstacle.y + dy))) throw Discard{};
    double o = pe->probability(a, LightWeightRectangle{a.obstacle.y + ar.bot(), a.obstacle.y + ar.top(), a.obstacle.x + ar.left(), a.obstacle.x + ar.right()}, m);
    sp += o * w[i] * p.factor(); sw += w[i];
  }
  if (r.chance(0.7)) in.trig_provider->set_base_angle(r.d(-3, 3));   // left from another use of the scan
  double v = spe.estimate_scan_probability(in, pose, m, prm);
  if (sw == 0) { CHECK(std::isnan(v) && ScanProbabilityEstimator::is_prob_unknown(v), "likelihood of nothing: " << v); return; }
  CHECK(!ScanProbabilityEstimator::is_prob_unknown(v), "known");
  CHECK(unit(v) && close(v, sp / sw, 1e-7), "likelihood " << v << " expected " << sp / sw);
}
CASE(weighting, 1) {
  LaserScan2D s; int n = r.i(1, 9);
  for (int i = 0; i < n; ++i) s.points().push_back(ScanPoint2D{r.d(0.1, 9), r.d(-3, 3), true});
  EvenSPW e; e.reset(s); double t = 0;
  VinySlamSPW v;
  for (int i = 0; i < n; ++i) {
    t += e.weight(s.points(), i);
    double a = std::abs(std::cos(s.points()[i].angle())), b = std::abs(std::sin(s.points()[i].angle()));
    double x = v.weight(s.points(), i), ex = (a > 0.9 ? 3 : a > 0.8 ? 2 : a + b) * std::sqrt(s.points()[i].range());
    if (std::abs(a - 0.9) > 1e-9 && std::abs(a - 0.8) > 1e-9) CHECK(close(x, ex), "weight " << x << " expected " << ex);
  }
  CHECK(close(t, 1), "even weights sum up to " << t);
}
