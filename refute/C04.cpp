#include <map>
#include <memory>
#include <vector>
#include "core/maps/lazy_tiled_grid_map.h"
#include "common.h"

// a cell whose state shows the writes it got
struct LogCell : public GridCell {
  double h;
  explicit LogCell(double h0) : GridCell{Occupancy{h0, 1}}, h{h0} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<LogCell>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override { h = h * 0.5 + a.occupancy.prob_occ; _occupancy = Occupancy{h, 1}; }
  double discrepancy(const AreaOccupancyObservation &) const override { return 0; }
};
using C = DiscretePoint2D;
struct Less { bool operator()(const C &a, const C &b) const { return a.x != b.x ? a.x < b.x : a.y < b.y; } };
using Model = std::map<C, double, Less>;
static AreaOccupancyObservation aoo(double v) { return AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}; }
static double at(const GridMap &m, const C &c) { return static_cast<const LogCell &>(m[c]).h; }

template <typename M> struct Copies {
  std::vector<std::unique_ptr<M>> m;
  std::vector<Model> want;
  double blank;
  double expect(size_t k, const C &c) const { auto it = want[k].find(c); return it == want[k].end() ? blank : it->second; }
  void write(size_t k, const C &c, Rng &r, std::ostream &os) {
    double v = r.u();
    os << " " << k << ":" << c.x << "," << c.y;
    if (r.chance(0.5)) { m[k]->update(c, aoo(v)); want[k][c] = expect(k, c) * 0.5 + v; os << "+"; }
    else if (r.chance(0.1)) { auto &self = (*m[k])[c]; double e = expect(k, c); m[k]->reset(c, self); want[k][c] = e; os << "self"; }
    else { m[k]->reset(c, LogCell{v}); want[k][c] = v; os << "="; }
  }
  void copy(size_t k, std::ostream &os) { os << " copy" << k; m.push_back(std::make_unique<M>(*m[k])); want.push_back(want[k]); }
  // cells written in any copy and their neighbours, one or more tiles around
  void check(const std::function<bool(const M &, const C &)> &in) const {
    for (auto &w : want) for (auto &e : w) for (C d : {C{0, 0}, C{1, 0}, C{0, 1}, C{-1, -1}, C{128, 0}, C{0, 128}, C{-128, 0}, C{0, -128}, C{127, 1}, C{-1, 127}}) {
      C c{e.first.x + d.x, e.first.y + d.y};
      for (size_t k = 0; k < m.size(); ++k) {
        if (!in(*m[k], c)) continue;
        CHECK(at(*m[k], c) == expect(k, c) && m[k]->occupancy(c) == expect(k, c),
              "copy " << k << " cell " << c.x << "," << c.y << " reads " << at(*m[k], c) << ", expected " << expect(k, c));
      }
    }
  }
};
static C near(const C &c, Rng &r) { return C{c.x + r.i(-1, 1), c.y + r.i(-1, 1)}; }

CASE(bounded, 1) {
  int w = r.chance(0.4) ? r.i(1, 20) : 128 * r.i(1, 3) + r.i(-2, 2), h = r.chance(0.4) ? r.i(1, 20) : 128 * r.i(1, 3) + r.i(-2, 2);
  double blank = r.u(), sc = r.d(0.1, 2);
  using M = LazyTiledGridMap;
  Copies<M> s; s.blank = blank;
  s.m.push_back(std::make_unique<M>(std::make_shared<LogCell>(blank), GridMapParams{w, h, sc})); s.want.emplace_back();
  CHECK(s.m[0]->width() == w && s.m[0]->height() == h && s.m[0]->scale() == sc, "size " << s.m[0]->width() << "x" << s.m[0]->height());
  std::ostringstream os; os << w << "x" << h;
  auto in = [](const M &m, const C &c) { return m.has_cell(c); };
  int lx = -(w / 2), ly = -(h / 2);
  std::vector<C> spots;
  for (int k = 0; k < 4; ++k) spots.push_back(C{r.chance(0.3) ? (r.chance(0.5) ? lx : lx + w - 1) : lx + r.i(0, w - 1), r.chance(0.3) ? (r.chance(0.5) ? ly : ly + h - 1) : ly + r.i(0, h - 1)});
  for (auto &c : spots) CHECK(in(*s.m[0], c), "cell " << c.x << "," << c.y << " of " << w << "x" << h << " is reported outside");
  for (int k = 0, n = r.i(1, 14); k < n; ++k) {
    if (s.m.size() < 4 && r.chance(0.25)) s.copy(r.i(0, int(s.m.size()) - 1), os);
    C c = spots[r.i(0, 3)];
    if (r.chance(0.3)) c = near(c, r);
    if (!in(*s.m[0], c)) continue;
    s.write(r.i(0, int(s.m.size()) - 1), c, r, os);
    if (s.m.size() > 1 && r.chance(0.08)) { int d = r.i(0, int(s.m.size()) - 1); os << " drop" << d; s.m.erase(s.m.begin() + d); s.want.erase(s.want.begin() + d); }
    NOTE(os.str());
    s.check(in);
  }
  if (w * h <= 400) for (size_t k = 0; k < s.m.size(); ++k) for (int x = lx; x < lx + w; ++x) for (int y = ly; y < ly + h; ++y)
    CHECK(at(*s.m[k], C(x, y)) == s.expect(k, C{x, y}), "copy " << k << " cell " << x << "," << y);
}
struct Open : public UnboundedLazyTiledGridMap {
  using UnboundedLazyTiledGridMap::UnboundedLazyTiledGridMap;
  bool stored(const C &c) const { return has_internal_cell(external2internal(c)); }
};
CASE(unbounded, 2) {
  int w = r.chance(0.5) ? r.i(1, 40) : 128 * r.i(1, 2) + r.i(-3, 3), h = r.chance(0.5) ? r.i(1, 40) : 128 * r.i(1, 2) + r.i(-3, 3);
  double blank = r.u(), sc = r.d(0.1, 2);
  Copies<Open> s; s.blank = blank;
  s.m.push_back(std::make_unique<Open>(std::make_shared<LogCell>(blank), GridMapParams{w, h, sc})); s.want.emplace_back();
  std::ostringstream os; os << w << "x" << h;
  auto any = [](const Open &m, const C &c) { return m.has_cell(c); };
  int reach = r.chance(0.5) ? 150 : 500;
  std::vector<C> spots;
  for (int k = 0; k < 3; ++k) spots.push_back(C{r.i(-reach, reach), r.i(-reach, reach)});
  for (int k = 0, n = r.i(1, 12); k < n; ++k) {
    if (s.m.size() < 4 && r.chance(0.25)) s.copy(r.i(0, int(s.m.size()) - 1), os);
    int t = r.i(0, int(s.m.size()) - 1);
    auto &m = *s.m[t];
    int pw = m.width(), ph = m.height(); C po = m.origin();
    C c = spots[r.i(0, 2)];
    if (r.chance(0.3)) c = near(c, r);
    else if (r.chance(0.4)) {
      int far = r.chance(0.5) ? r.i(0, 2) : 126 + r.i(0, 4);
      bool left = r.chance(0.5);
      if (r.chance(0.5)) c = C(left ? -po.x - 1 - far : pw - po.x + far, r.i(-3, 3)); else c = C(r.i(-3, 3), left ? -po.y - 1 - far : ph - po.y + far);
    }
    NOTE(os.str() << " then " << t << ":" << c.x << "," << c.y);
    s.write(t, c, r, os);
    CHECK(m.stored(c), "written cell is outside of the map");
    int dx = m.origin().x - po.x, dy = m.origin().y - po.y;
    CHECK(dx >= 0 && dy >= 0 && dx + pw <= m.width() && dy + ph <= m.height(), "growth lost a part of the map");
    CHECK(m.scale() == sc, "scale");
    s.check(any);
  }
  for (size_t k = 0; k < s.m.size(); ++k) {
    auto &m = *s.m[k]; C o = m.origin();
    for (int j = 0; j < 60; ++j) { C c{r.i(-2, m.width() + 1) - o.x, r.i(-2, m.height() + 1) - o.y}; CHECK(at(m, c) == s.expect(k, c), "copy " << k << " cell " << c.x << "," << c.y << " reads " << at(m, c)); }
  }
}
