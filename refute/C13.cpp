#include "core/scan_matchers/pose_enumerators.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/features/angle_histogram.h"
#include "common.h"

using Poses = std::vector<RobotPose>;
static bool same(const RobotPose &a, const RobotPose &b, double t = 1e-7) { return close(a.x, b.x, t) && close(a.y, b.y, t) && close(a.theta, b.theta, t); }
static RobotPose pose(Rng &r) { return RobotPose(r.d(-3, 3), r.d(-3, 3), r.d(-3, 3)); }
// the grid: from + k*step until the first value that reaches `to`
static std::vector<double> axis(double f, double t, double s) { std::vector<double> v{f}; while (v.back() < t) v.push_back(v.back() + s); return v; }
static std::vector<double> upto(double f, double t, double s) { std::vector<double> v; for (double x = f; x <= t; x += s) v.push_back(x); return v; }
struct Range { double f, t, s; };
static Range range(Rng &r) {
  Range g{r.d(-1, 1), 0, r.d(0.05, 1)};
  if (g.s < 0.05) g.s = 0.3;
  g.t = g.f + (r.chance(0.1) ? 0 : r.d(0, 1.2));
  return g;
}
static Poses drain(PoseEnumerator &e, const RobotPose &base, Rng &r, size_t cap) {
  Poses out;
  while (e.has_next()) {
    CHECK(out.size() <= cap, "enumeration does not end");
    out.push_back(e.next(out.empty() ? base : (r.chance(0.5) ? base : pose(r))));
    e.feedback(r.chance(0.3));
  }
  return out;
}
static void expect(const Poses &got, const Poses &want) {
  CHECK(got.size() == want.size(), got.size() << " poses, expected " << want.size());
  for (size_t i = 0; i < got.size(); ++i) CHECK(same(got[i], want[i]), "pose " << i << ": " << got[i] << " expected " << want[i]);
}
CASE(brute_force, 1) {
  Range x = range(r), y = range(r), t = range(r);
  NOTE("x " << x.f << ".." << x.t << "/" << x.s << " y " << y.f << ".." << y.t << "/" << y.s << " t " << t.f << ".." << t.t << "/" << t.s);
  BruteForcePoseEnumerator e{x.f, x.t, x.s, y.f, y.t, y.s, t.f, t.t, t.s};
  for (int rep = 0; rep < 2; ++rep) {
    auto b = pose(r); IN(b);
    Poses w;
    for (double c : upto(t.f, t.t, t.s)) for (double d : axis(y.f, y.t, y.s)) for (double a : axis(x.f, x.t, x.s)) w.push_back(RobotPose(b.x + a, b.y + d, b.theta + c));
    if (r.chance(0.2) && rep == 0) { e.next(pose(r)); e.feedback(false); }
    else expect(drain(e, b, r, 100000), w);
    e.reset();
  }
}
CASE(polar, 1) {
  Range d = range(r), l = range(r);
  NOTE("dir " << d.f << ".." << d.t << "/" << d.s << " dst " << l.f << ".." << l.t << "/" << l.s);
  PolarCoordBruteForcePoseEnumerator e{d.f, d.t, d.s, l.f, l.t, l.s};
  for (int rep = 0; rep < 2; ++rep) {
    auto b = pose(r); IN(b);
    Poses w;
    for (double c : upto(l.f, l.t, l.s)) for (double a : axis(d.f, d.t, d.s)) w.push_back(RobotPose(b.x + c * std::cos(a), b.y + c * std::sin(a), b.theta));
    if (r.chance(0.2) && rep == 0) { e.next(pose(r)); e.feedback(false); }
    else expect(drain(e, b, r, 100000), w);
    e.reset();
  }
}
static Poses round_of(const RobotPose &b, double t, double o, double f) {
  Poses w;
  for (int i = 0; i < 6; ++i) {
    double s = i % 2 ? -1 : 1;
    RobotPose p = b;
    if (i % 3 == 0) { p.x += std::cos(f) * s * t; p.y += std::sin(f) * s * t; }
    if (i % 3 == 1) { p.x -= std::sin(f) * s * t; p.y += std::cos(f) * s * t; }
    if (i % 3 == 2) p.theta += s * o;
    w.push_back(p);
  }
  return w;
}
CASE(axis_round, 1) {
  double t = r.d(0.01, 1), o = r.d(0.01, 1), f = r.chance(0.3) ? 0 : r.d(-4, 4);
  IN(t); IN(o); IN(f);
  Distorsion1DPoseEnumerator e{t, o, f};
  for (int rep = 0; rep < 3; ++rep) {
    auto b = pose(r);
    if (r.chance(0.3)) { e.next(pose(r)); e.feedback(true); }
    else expect(drain(e, b, r, 100), round_of(b, t, o, f));
    e.reset();
  }
}
CASE(failed_rounds, 2) {
  unsigned m = r.i(0, 4);
  double t = r.d(0.01, 1), o = r.d(0.01, 1), f = r.chance(0.5) ? 0 : r.d(-4, 4);
  IN(m); IN(t); IN(o); IN(f);
  FailedRoundsLimitedPoseEnumerator<Distorsion1DPoseEnumerator> e{m, t, o, f};
  for (int rep = 0; rep < 3; ++rep) {
    unsigned failed = 0; double ct = t, co = o; bool round_failed = true; Poses w; size_t k = 6; RobotPose best = pose(r);
    int good_rounds = r.i(0, 4); bool stop = false; size_t limit = r.chance(0.2) ? r.i(0, 12) : 100000, n = 0;
    bool first = true;
    while (!stop && n < limit) {
      CHECK(e.has_next() == (failed < m), "has_next " << e.has_next() << " after " << failed << " failed rounds of " << m);
      if (!e.has_next()) break;
      if (k == 6) {
        if (!first && round_failed) { ct *= 0.5; co *= 0.5; ++failed; }
        first = false;
        w = round_of(best, ct, co, f); k = 0; round_failed = true;
        if (good_rounds > 0) --good_rounds;
      }
      auto p = e.next(best);
      CHECK(same(p, w[k]), "candidate " << k << " is " << p << " expected " << w[k] << " after " << failed << " failed rounds");
      ++k; ++n;
      bool ok = good_rounds > 0 && r.chance(0.3);
      e.feedback(ok);
      if (ok) { round_failed = false; best = p; }
      CHECK(n < 5000, "enumeration does not end");
    }
    e.reset();
  }
}
CASE(gaussian, 1) {
  unsigned seed = r.i(0, 1000), mf = r.i(0, 12), mp = r.i(0, 40);
  double t = r.d(0.01, 1), o = r.d(0.01, 1);
  IN(seed); IN(mf); IN(mp); IN(t); IN(o);
  GaussianPoseEnumerator e{seed, t, o, mf, mp};
  std::mt19937 gen{seed};
  for (int rep = 0; rep < 2; ++rep) {
    unsigned failed = 0, n = 0; double ct = t, co = o;
    // a distribution draws in pairs: its state starts afresh whenever the dispersion is set
    RobotPoseDeltaRV<std::mt19937> rv{GaussianRV1D<std::mt19937>{0, ct}, GaussianRV1D<std::mt19937>{0, ct}, GaussianRV1D<std::mt19937>{0, co}};
    auto b = pose(r);
    while (true) {
      CHECK(e.has_next() == (failed < mf && n < mp), "has_next " << e.has_next() << " after " << n << " poses, " << failed << " failures");
      if (!e.has_next()) break;
      auto p = e.next(b);
      auto d = rv.sample(gen);
      CHECK(same(p, b + d), "sampled " << p << " expected " << b + d);
      bool ok = r.chance(0.3); ++n;
      e.feedback(ok);
      if (!ok) ++failed;
      else {
        b = p;
        if (failed > mf / 3) {
          failed = 0; ct *= 0.5; co *= 0.5;
          rv = {GaussianRV1D<std::mt19937>{0, ct}, GaussianRV1D<std::mt19937>{0, ct}, GaussianRV1D<std::mt19937>{0, co}};
        }
      }
    }
    e.reset();
  }
}

// The hill climbing matcher enumerates in the frame of the scan at hand, with its own steps and number of rounds.
struct Flat : ScanProbabilityEstimator {
  mutable Poses log;
  Flat() : ScanProbabilityEstimator(nullptr) {}
  LaserScan2D filter_scan(const LaserScan2D &s, const RobotPose &, const GridMap &) override { return s; }
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override { log.push_back(p); return 0.5; }
};
CASE(hill_climbing, 1) {
  auto spe = std::make_shared<Flat>();
  unsigned rounds = r.i(1, 4); double td = r.d(0.05, 1), rd = r.d(0.05, 1); bool align = r.chance(0.7);
  if (td < 0.05 || rd < 0.05) throw Discard{};
  HillClimbingScanMatcher m(spe, rounds, td, rd, align);
  PlainGridMap map(std::make_shared<AffineQualityMergeCell>(), GridMapParams{4, 4, 1});
  NOTE("rounds=" << rounds << " td=" << td << " rd=" << rd << " align=" << align);
  for (int k = r.i(1, 3); k > 0; --k) {
    TransformedLaserScan raw;
    double base = r.d(-1.5, 1.5);
    for (int i = r.i(2, 8); i > 0; --i) raw.scan.points().push_back(ScanPoint2D{1 + 0.2 * i, base + 0.1 * i, true});
    double rot = 0;
    if (align) { AngleHistogram h{20}; h.reset(raw.scan); rot = h.major_direction(); }
    if (std::isnan(rot)) throw Discard{};
    auto p0 = pose(r); RobotPoseDelta d;
    spe->log.clear();
    m.process_scan(raw, p0, map, d);
    Poses want{p0};
    double c = std::cos(rot), s = std::sin(rot), t = td, o = rd;
    for (unsigned n = 0; n <= rounds && want.size() < 1 + 6 * rounds; ++n, t /= 2, o /= 2)
      for (int a = 0; a < 6; ++a) {
        double g = a % 2 == 0 ? 1 : -1;
        auto p = p0;
        if (a % 3 == 0) { p.x += c * g * t; p.y += s * g * t; } else if (a % 3 == 1) { p.x -= s * g * t; p.y += c * g * t; } else p.theta += g * o;
        want.push_back(p);
      }
    auto got = spe->log;
    CHECK(got.size() >= want.size() && got.size() <= want.size() + 1, got.size() << " poses, expected " << want.size());
    got.resize(want.size());
    expect(got, want);
  }
}
