#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "slams/credibilist/TBM_prob_conversion.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "common.h"
static AreaOccupancyObservation obs(Rng &r, bool invalid_ok = true) {
  AreaOccupancyObservation a{r.chance(0.5), Occupancy{r.d(0, 1), r.d(0, 1)}, Point2D{r.d(-5, 5), r.d(-5, 5)}, r.d(0, 1)};
  if (r.chance(0.1)) a.occupancy.prob_occ = r.chance(0.5) ? 0 : 1;
  if (r.chance(0.2)) a.quality = 1;
  if (r.chance(0.2)) a.occupancy.estimation_quality = 1;
  if (invalid_ok && r.chance(0.1)) { a.occupancy = Occupancy::invalid(); if (r.chance(0.3)) a.occupancy.prob_occ = 0.5; else if (r.chance(0.3)) a.occupancy.estimation_quality = 0.5; }
  NOTE("obs(p=" << a.occupancy.prob_occ << " eq=" << a.occupancy.estimation_quality << " q=" << a.quality << " x=" << a.obstacle.x << " y=" << a.obstacle.y << ")");
  return a;
}
static bool valid(const AreaOccupancyObservation &a) { return !std::isnan(a.occupancy.prob_occ) && !std::isnan(a.occupancy.estimation_quality); }
struct Bel { double u, e, o; };
static Bel upd(Bel b, const AreaOccupancyObservation &a) {
  double k = a.occupancy.estimation_quality * a.quality, o = a.occupancy.prob_occ * k, e = (1 - a.occupancy.prob_occ) * k, u = 1 - o - e;
  Bel n{b.u * u, b.u * e + b.e * u + b.e * e, b.u * o + b.o * u + b.o * o};
  double t = n.u + n.e + n.o;
  if (t == 0) return {1, 0, 0};
  return {n.u / t, n.e / t, n.o / t};
}
template <class C, class F> static void run(Rng &r, F check_after) {
  C cell;
  CHECK(cell.is_unknown(), "a new cell is unknown");
  int n = r.chance(0.03) ? r.i(50, 400) : r.i(1, 12);
  for (int i = 0; i < n; ++i) {
    auto a = obs(r);
    auto before = cell; auto sb = cell.serialize();
    std::unique_ptr<GridCell> cl = cell.clone();
    cell += a;
    CHECK(cl->serialize() == sb, "a clone follows its original");
    if (!valid(a)) {
      CHECK(cell.is_unknown() == before.is_unknown(), "invalid observation");
      CHECK(close(cell.occupancy().prob_occ, before.occupancy().prob_occ) && close(cell.occupancy().estimation_quality, before.occupancy().estimation_quality), "invalid observation changed the cell");
      check_after(before, cell, a, false);
      continue;
    }
    CHECK(!cell.is_unknown(), "observed cell is unknown");
    double p = cell.occupancy().prob_occ;
    CHECK(std::isfinite(p) && -1e-9 <= p && p <= 1 + 1e-9, "occupancy " << p);
    CHECK((double)cell == p, "conversion");
    (*cl) += a;
    CHECK(close(cl->occupancy().prob_occ, p), "a clone behaves differently");
    check_after(before, cell, a, true);
  }
}
CASE(affine, 1) {
  run<AffineQualityMergeCell>(r, [](auto &b, auto &c, auto &a, bool v) {
    if (v) CHECK(close(c.occupancy().prob_occ, (1 - a.quality) * b.occupancy().prob_occ + a.quality * a.occupancy.prob_occ), c.occupancy());
  });
}
CASE(mean, 1) {
  double sum = 0; int n = 0;
  run<MeanProbabilityCell>(r, [&](auto &, auto &c, auto &a, bool v) {
    if (!v) return;
    sum += 0.5 + (a.occupancy.prob_occ - 0.5) * a.quality; ++n;
    CHECK(close(c.occupancy().prob_occ, sum / n), c.occupancy() << " expected mean " << sum / n);
  });
}
CASE(gmapping, 1) {
  double sum = 0, sx = 0, sy = 0; int n = 0, h = 0;
  run<GmappingBaseCell>(r, [&](auto &, auto &c, auto &a, bool v) {
    if (v) {
      bool free = a.occupancy.prob_occ <= 0.5;
      sum += free ? 0 : a.occupancy.prob_occ; ++n;
      if (!free) { ++h; sx += a.obstacle.x; sy += a.obstacle.y; }
      CHECK(close(c.occupancy().prob_occ, sum / n), c.occupancy() << " expected " << sum / n);
    }
    auto probe = a; if (h) probe.obstacle = Point2D{sx / h, sy / h}; else probe.obstacle = Point2D{0, 0};
    CHECK(close(c.discrepancy(probe), 0, 1e-6), "mean obstacle position " << probe.obstacle << " discrepancy " << c.discrepancy(probe));
  });
}
template <class C> static void belief(Rng &r, bool consistent) {
  Bel b{1, 0, 0};
  run<C>(r, [&](auto &, auto &c, auto &a, bool v) {
    if (v) b = upd(b, a);
    auto &t = c.belief();
    CHECK(close(t.unknown(), b.u, 1e-6) && close(t.empty(), b.e, 1e-6) && close(t.occupied(), b.o, 1e-6) && t.conflict() == 0,
          "belief " << t.unknown() << " " << t.empty() << " " << t.occupied() << " expected " << b.u << " " << b.e << " " << b.o);
    if (!v) return;
    double p = c.occupancy().prob_occ, q = c.occupancy().estimation_quality;
    if (consistent) { CHECK(close(q, b.e + b.o, 1e-6), q); if (q > 1e-6) CHECK(close(p * q, b.o, 1e-6), p); }
    else { CHECK(close(p, b.o + b.u / 2, 1e-6), p); CHECK(q == 1, q); }
  });
}
CASE(tbm_consistent, 1) { belief<TbmOccConsistentCell>(r, true); }
CASE(tbm_even, 1) { belief<TbmUnknownEvenOccCell>(r, false); }
CASE(credibilist, 1) { belief<CredibilistCell>(r, false); }
CASE(base, 0.5) {
  Occupancy o(r.d(0, 1), r.d(0, 1)); GridCell c(o);
  CHECK(c.is_unknown() && c.occupancy().prob_occ == o.prob_occ && c.occupancy().estimation_quality == o.estimation_quality, "new cell");
  auto a = obs(r, false); c += a;
  CHECK(!c.is_unknown() && c.occupancy() == a.occupancy && (double)c == a.occupancy.prob_occ, "updated cell");
}
