// The master particle draws its noise from normal_distribution{0, 0}, which libstdc++ only accepts unchecked.
#undef _GLIBCXX_ASSERTIONS
#include "slams/gmapping/gmapping_particle_filter.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "common.h"
#include <map>
#include <set>
#undef CHECK
#define CHECK(c, ...) do { if (!(c)) { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); throw Failure{std::string(#c " is false: ") + b_}; } } while (0)

static int made = 0;
struct Pt : Particle {
  int serial, origin, samples = 0;
  Pt() : serial(made++), origin(serial) {}
  Pt &operator=(const Pt &o) { Particle::operator=(o); origin = o.origin; samples = o.samples; return *this; }
  void sample() override { ++samples; }
};
struct Fac : ParticleFactory<Pt> { std::shared_ptr<Pt> create_particle() override { return std::make_shared<Pt>(); } };

static double wgt(Rng &r) { return r.chance(0.25) ? 0.0 : r.chance(0.2) ? r.d(0, 1e-9) : r.chance(0.2) ? r.d(5, 50) : r.d(0, 1); }

CASE(filter, 6) {
  int n = r.i(1, 9);
  ParticleFilter<Pt> f{std::make_shared<Fac>(), (unsigned)n};
  CHECK((int)f.particles().size() == n, "population at start");
  for (auto &p : f.particles()) CHECK(close(p->weight(), 1.0 / n, 1e-12), "initial weights");
  for (int step = r.i(1, 3); step > 0; --step) {
    std::vector<double> w; double tot = 0; bool any = false;
    bool peaked = r.chance(0.5);
    for (int i = 0; i < n; ++i) { double v = peaked && i ? r.d(0, 0.01) : wgt(r); w.push_back(v); tot += v; }
    for (auto v : w) { NOTE("w=" << v); any = any || v > 0; }
    std::vector<Pt *> was; std::vector<int> samp, orig;
    for (int i = 0; i < n; ++i) { f.particles()[i]->set_weight(w[i]); was.push_back(f.particles()[i].get()); samp.push_back(was[i]->samples); orig.push_back(was[i]->origin); }
    f.normalize_weights();
    double s = 0, sq = 0, best = -1;
    for (int i = 0; i < n; ++i) {
      double v = f.particles()[i]->weight(), e = any ? w[i] / tot : 1.0 / n;
      CHECK(f.particles()[i].get() == was[i], "normalisation moved particles");
      CHECK(v >= 0 && close(v, e, 1e-9), "weight %d is %g instead of %g", i, v, e);
      w[i] = v; s += v; sq += v * v; best = std::max(best, v);
    }
    CHECK(close(s, 1, 1e-9), "weights sum to %g", s);
    const auto &cf = f;
    const Pt &h = cf.heaviest_particle();
    bool mine = false;
    for (auto &p : f.particles()) mine = mine || p.get() == &h;
    CHECK(mine && h.weight() == best, "the reported particle weighs %g, the heaviest %g", h.weight(), best);
    CHECK(f.heaviest_particle().weight() == best, "mutable heaviest");
    double eff = 1 / sq;
    bool need = 2 * eff < n;
    if (std::fabs(2 * eff - n) < 1e-9) throw Discard();
    // keeps everybody alive
    auto keep = f.particles();
    bool did = f.try_resample();
    CHECK(did == need, "resampled: %d, effective %g of %d", did, eff, n);
    auto &ps = f.particles();
    CHECK((int)ps.size() == n, "population is %d of %d", (int)ps.size(), n);
    std::set<Pt *> uniq;
    double total = 0;
    std::vector<int> from;
    for (auto &p : ps) { CHECK(bool(p), "null particle"); uniq.insert(p.get()); total += p->weight(); }
    CHECK((int)uniq.size() == n, "a particle is in the population twice");
    CHECK(close(total, 1, 1e-9), "weights after resampling sum to %g", total);
    if (!did) { for (int i = 0; i < n; ++i) CHECK(ps[i].get() == was[i] && ps[i]->weight() == w[i], "changed without resampling"); continue; }
    double kept = 0;
    std::vector<double> sel;
    std::map<int, int> seen;
    for (auto &p : ps) {
      int src = -1;
      for (int i = 0; i < n; ++i) if (was[i] == p.get()) src = i;
      bool copy = src < 0;
      if (copy) for (int i = 0; i < n; ++i) if (orig[i] == p->origin) src = i;
      CHECK(src >= 0, "survivor of unknown origin");
      CHECK(w[src] > 0, "a particle of zero weight survived");
      CHECK(copy == (seen[orig[src]] > 0), "first survivor of a particle must be itself, further ones copies");
      CHECK(p->samples == samp[src] + (copy ? 1 : 0), "sample() called %d times", p->samples - samp[src]);
      seen[orig[src]]++;
      sel.push_back(w[src]); kept += w[src];
    }
    for (int i = 0; i < n; ++i) CHECK(close(ps[i]->weight(), sel[i] / kept, 1e-9), "survivor's weight %g, expected %g", ps[i]->weight(), sel[i] / kept);
    for (int i = 0; i < n; ++i) ps[i]->origin = ps[i]->serial = made++;
  }
}

CASE(draws, 1) {
  int n = r.i(2, 6);
  std::vector<std::shared_ptr<Pt>> ps;
  double t = 0;
  std::vector<double> w;
  for (int i = 0; i < n; ++i) { w.push_back(r.chance(0.3) ? 0 : r.d(0.05, 1)); t += w.back(); }
  if (t == 0) throw Discard();
  for (int i = 0; i < n; ++i) { w[i] /= t; NOTE("w=" << w[i]); ps.push_back(std::make_shared<Pt>()); ps[i]->set_weight(w[i]); }
  UniformResamling<std::shared_ptr<Pt>> u;
  std::vector<long> c(n);
  int calls = 400;
  for (int k = 0; k < calls; ++k) { auto v = u.resample(ps); CHECK((int)v.size() == n, "picks"); for (auto i : v) { CHECK((int)i < n, "index %u", i); c[i]++; } }
  double N = (double)calls * n;
  for (int i = 0; i < n; ++i) {
    double sd = std::sqrt(N * w[i] * (1 - w[i])) + 1e-9;
    CHECK(std::fabs(c[i] - N * w[i]) <= 9 * sd + 1, "particle %d of weight %g drawn %ld of %g times", i, w[i], c[i], N);
  }
}

// ---- the gmapping particles
struct Sm : GridScanMatcher {
  std::vector<double> probs; unsigned k = 0; RobotPoseDelta d{0, 0, 0}; std::vector<RobotPose> starts; const GridMap *seen = nullptr;
  Sm() : GridScanMatcher(nullptr) {}
  double process_scan(const TransformedLaserScan &, const RobotPose &p, const GridMap &m, RobotPoseDelta &o) override {
    starts.push_back(p); seen = &m; o = d; return probs[k++ % probs.size()];
  }
};
struct Adder : GridMapScanAdder {
  Adder() : GridMapScanAdder(nullptr, std::make_shared<IdleOMQE>()) {}
  mutable std::vector<const GridMap *> maps; mutable std::vector<Point2D> begs;
  void handle_scan_point(GridMap &m, bool, double, const Segment2D &b) const override { maps.push_back(&m); begs.push_back(b.beg()); }
};

static TransformedLaserScan scan(RobotPoseDelta d) {
  TransformedLaserScan s; s.pose_delta = d; s.quality = 0.5;
  s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
  s.scan.points().emplace_back(1.0, 0.0, true);
  return s;
}

CASE(world, 4) {
  auto sm = std::make_shared<Sm>(); auto ad = std::make_shared<Adder>();
  SingleStateHypothesisLSGWProperties pr;
  pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{4, 4, 1});
  pr.gsm = sm; pr.gmsa = ad;
  GmappingWorld w{pr, GMappingParams{0, 1e-9, 0, 1e-9, 0.2, 0.4, 0.1, 0.2}};
  double weight = r.d(0.1, 1);
  w.set_weight(weight);
  bool first = true;
  double X = 0, Y = 0, T = 0, RT = 0, sx = 0, sy = 0, st = 0;
  for (int s = r.i(1, 6); s > 0; --s) {
    RobotPoseDelta d{r.d(-0.5, 0.5), r.d(-0.5, 0.5), r.chance(0.5) ? 0 : r.d(-0.5, 0.5)};
    if (r.chance(0.4)) d = RobotPoseDelta{d.x / 10, d.y / 10, d.theta / 10};
    NOTE("d=" << d.x << "," << d.y << "," << d.theta);
    double a = T - RT, dx = std::cos(a) * d.x - std::sin(a) * d.y, dy = std::sin(a) * d.x + std::cos(a) * d.y;
    X += dx; Y += dy; T += d.theta; RT += d.theta;
    sx += std::fabs(dx); sy += std::fabs(dy); st += std::fabs(d.theta);
    w.update_robot_pose(d);
    CHECK(close(w.pose().x, X, 1e-6) && close(w.pose().y, Y, 1e-6) && close(w.pose().theta, T, 1e-6), "pose (%g %g %g), expected (%g %g %g)", w.pose().x, w.pose().y, w.pose().theta, X, Y, T);
    double p = r.chance(0.2) ? 0 : r.chance(0.2) ? std::nan("") : r.d(0.01, 1);
    NOTE("p=" << p);
    sm->probs = {p}; sm->k = 0;
    sm->d = r.chance(0.5) ? RobotPoseDelta{0, 0, 0} : RobotPoseDelta{r.d(-0.3, 0.3), r.d(-0.3, 0.3), r.d(-0.3, 0.3)};
    auto nst = sm->starts.size(), nad = ad->maps.size();
    auto sc = scan(d);
    w.handle_observation(sc);
    bool matched = sm->starts.size() > nst;
    bool must = sx * sx + sy * sy >= 2 * 0.4 * 0.4 || st >= 0.2, mustnt = sx * sx + sy * sy < 2 * 0.2 * 0.2 && st < 0.1;
    CHECK(!must || matched, "moved %g %g %g without matching", sx, sy, st);
    CHECK(!mustnt || !matched, "matched after a move of %g %g %g", sx, sy, st);
    if (!matched) {
      CHECK(w.weight() == weight && ad->maps.size() == nad, "skipped scan changed the particle");
      CHECK(close(w.pose().x, X, 1e-6) && close(w.pose().y, Y, 1e-6), "skipped scan moved the particle");
      continue;
    }
    CHECK(sm->starts.size() == nst + 1, "matched more than once");
    CHECK(close(sm->starts.back().x, X, 1e-6) && close(sm->starts.back().theta, T, 1e-6), "matching started elsewhere");
    CHECK(sm->seen == &w.map(), "matched with another map");
    X += sm->d.x; Y += sm->d.y; T += sm->d.theta; sx = sy = st = 0;
    CHECK(close(w.pose().x, X, 1e-6) && close(w.pose().y, Y, 1e-6) && close(w.pose().theta, T, 1e-6), "the correction is not applied once");
    if (!first && !std::isnan(p)) weight *= p;
    CHECK(close(w.weight(), weight, 1e-9), "weight %g, expected %g", w.weight(), weight);
    bool maps = first || p > 0;
    CHECK((ad->maps.size() > nad) == maps, "map updated: %d, likelihood %g", ad->maps.size() > nad, p);
    if (maps) {
      CHECK(ad->maps.back() == &w.map() && close(ad->begs.back().x, X, 1e-6), "another map or pose");
      first = false;
    }
    // keeps exact
    X = w.pose().x; Y = w.pose().y; T = w.pose().theta;
  }
}

CASE(copies, 2) {
  auto sm = std::make_shared<Sm>(); auto ad = std::make_shared<Adder>();
  SingleStateHypothesisLSGWProperties pr;
  pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{4, 4, 1});
  pr.gsm = sm; pr.gmsa = ad;
  GMappingParams gp{0, 1, 0, 1, 0, 0, 0, 0};
  GmappingWorld a{pr, gp}, b{pr, gp};
  a.mark_master();
  a.set_weight(0.25);
  int x = r.i(-6, 6), y = r.i(-6, 6);
  GridCell c0 = a.map()[DiscretePoint2D(x, y)];
  a.map().update({x, y}, {true, {0.75, 0.5}, {0, 0}, 1});
  double va = a.map()[DiscretePoint2D(x, y)].occupancy().prob_occ;
  b = a;
  b.sample();
  CHECK(a.is_master() && !b.is_master(), "master flag");
  CHECK(b.weight() == 0.25, "weight of the copy");
  CHECK(b.map()[DiscretePoint2D(x, y)].occupancy().prob_occ == va, "the copy starts with another map");
  for (int i = 0; i < 3; ++i) {
    b.map().update({x, y}, {false, {0.01, 0.9}, {0, 0}, 1});
    CHECK(a.map()[DiscretePoint2D(x, y)].occupancy().prob_occ == va, "updating the copy changed the original's map");
  }
  double vb = b.map()[DiscretePoint2D(x, y)].occupancy().prob_occ;
  a.map().update({x, y + 1}, {true, {0.9, 0.9}, {0, 0}, 1});
  a.map().update({x, y}, {true, {0.9, 0.9}, {0, 0}, 1});
  CHECK(b.map()[DiscretePoint2D(x, y)].occupancy().prob_occ == vb, "updating the original changed the copy's map");
}

CASE(gmapping, 3) {
  auto sm = std::make_shared<Sm>(); auto ad = std::make_shared<Adder>();
  SingleStateHypothesisLSGWProperties pr;
  pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{4, 4, 1});
  pr.gsm = sm; pr.gmsa = ad;
  int n = r.i(1, 6);
  GmappingParticleFilter f{pr, GMappingParams{0, 1e-9, 0, 1e-9, 0, 0, 0, 0}, (unsigned)n};
  struct Told : WorldPoseObserver, WorldMapObserver<GridMap> {
    std::vector<RobotPose> poses; std::vector<const GridMap *> maps;
    void on_pose_update(const RobotPose &p) override { poses.push_back(p); }
    void on_map_update(const GridMap &m) override { maps.push_back(&m); }
  };
  auto told = std::make_shared<Told>();
  f.subscribe_pose(told); f.subscribe_map(told);
  for (int s = r.i(1, 5); s > 0; --s) {
    RobotPoseDelta d{r.d(-0.6, 0.6), r.d(-0.6, 0.6), r.chance(0.5) ? 0 : r.d(-0.5, 0.5)};
    double lo = r.chance(0.5) ? 0.001 : 0.5;
    sm->probs.clear(); sm->k = 0;
    for (int i = 0; i < n; ++i) sm->probs.push_back(i ? lo : 0.9);
    auto sc = scan(d);
    auto before = sm->starts.size();
    f.handle_sensor_data(sc);
    CHECK((int)(sm->starts.size() - before) == n, "%d of %d particles observed", (int)(sm->starts.size() - before), n);
    CHECK(std::isfinite(f.pose().x), "pose");
    CHECK(told->poses.size() == 1 && told->maps.size() == 1, "observers told %d poses and %d maps", (int)told->poses.size(), (int)told->maps.size());
    CHECK(told->poses[0].x == f.pose().x && told->poses[0].y == f.pose().y && told->poses[0].theta == f.pose().theta && told->maps[0] == &f.map(), "observers are told another pose or map than the reported one");
    told->poses.clear(); told->maps.clear();
    auto &hw = dynamic_cast<const GmappingWorld &>(f.world());
    CHECK(hw.weight() >= 1.0 / n - 1e-9 && hw.weight() <= 1 + 1e-9, "the reported hypothesis weighs %g of %d particles", hw.weight(), n);
    CHECK(&f.map() == &hw.map() && f.pose().x == hw.pose().x, "pose and map of different hypotheses");
  }
}

// The travelled distance counts until a resampling happens.
CASE(due, 1) {
  auto sm = std::make_shared<Sm>(); auto ad = std::make_shared<Adder>();
  SingleStateHypothesisLSGWProperties pr;
  pr.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<AffineQualityMergeCell>(), GridMapParams{4, 4, 1});
  pr.gsm = sm; pr.gmsa = ad;
  int n = r.i(4, 10);
  GmappingParticleFilter f{pr, GMappingParams{0, 1e-12, 0, 1e-12, 0, 0, 0, 0}, (unsigned)n};
  std::vector<double> w(n, 1.0 / n);
  double x = 0, y = 0, t = 0;
  for (int s = 0; s < 5; ++s) {
    bool turn = r.chance(0.3);
    double d = r.d(0, 0.6), a = turn ? r.d(0, 0.15) : 0;
    double lo = s && r.chance(0.4) ? 1e-7 : 1;
    NOTE("move=" << d << "," << a << " others=" << lo);
    sm->probs.assign(n, lo); sm->probs[0] = 1; sm->k = 0;
    auto sc = scan(RobotPoseDelta{d, 0, a});
    f.handle_sensor_data(sc);
    x += d; t += a;
    double sum = 0, sq = 0;
    if (s) for (int i = 0; i < n; ++i) w[i] *= i ? lo : 1;
    for (auto v : w) sum += v;
    for (auto &v : w) { v /= sum; sq += v * v; }
    double d2 = x * x + y * y;
    if (std::fabs(d2 - 0.5) < 1e-6 || std::fabs(t - 0.2) < 1e-6) throw Discard();
    bool due = (d2 > 0.5 || t > 0.2) && 2 / sq < n;
    double hw = dynamic_cast<const GmappingWorld &>(f.world()).weight();
    if (due) { CHECK(hw < 0.9, "travelled %g, turned %g, effective %g of %d, not resampled", std::sqrt(d2), t, 1 / sq, n); return; }
    CHECK(close(hw, *std::max_element(w.begin(), w.end()), 1e-9), "weight %g, expected %g (resampled though not due?)", hw, *std::max_element(w.begin(), w.end()));
  }
}
