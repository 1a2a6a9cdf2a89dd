#include <map>
#include "core/maps/plain_grid_map.h"
#include "common.h"

// a cell that records every write it ever got
struct LogCell : public GridCell {
  double h;
  explicit LogCell(double h0) : GridCell{Occupancy{h0, 1}}, h{h0} {}
  std::unique_ptr<GridCell> clone() const override { return std::make_unique<LogCell>(*this); }
  void operator+=(const AreaOccupancyObservation &a) override { h = h * 0.5 + a.occupancy.prob_occ; _occupancy = Occupancy{h, 1}; }
  double discrepancy(const AreaOccupancyObservation &) const override { return 0; }
};
using C = DiscretePoint2D;
struct Less { bool operator()(const C &a, const C &b) const { return a.x != b.x ? a.x < b.x : a.y < b.y; } };
using Model = std::map<C, double, Less>;
static AreaOccupancyObservation aoo(double v) { return AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1}; }
static double at(const GridMap &m, const C &c) { return static_cast<const LogCell &>(m[c]).h; }
static void write(GridMap &m, Model &w, const C &c, double blank, Rng &r) {
  double v = r.u();
  if (r.chance(0.6)) { double o = w.count(c) ? w[c] : blank; m.update(c, aoo(v)); w[c] = o * 0.5 + v; }
  else { m.reset(c, LogCell{v}); w[c] = v; }
}

CASE(bounded, 1) {
  int w = r.i(1, 12), h = r.i(1, 12); double blank = r.u(), sc = r.d(0.1, 2);
  NOTE(w << "x" << h);
  PlainGridMap m{std::make_shared<LogCell>(blank), GridMapParams{w, h, sc}};
  CHECK(m.width() == w && m.height() == h && m.scale() == sc, "size " << m.width() << "x" << m.height());
  Model want;
  for (int k = 0; k < 20; ++k) write(m, want, C(r.i(0, w - 1) - w / 2, r.i(0, h - 1) - h / 2), blank, r);
  for (int x = -w / 2; x < w - w / 2; ++x) for (int y = -h / 2; y < h - h / 2; ++y) {
    C c{x, y};
    CHECK(m.has_cell(c), "cell " << x << "," << y << " of " << w << "x" << h << " is reported outside");
    double e = want.count(c) ? want[c] : blank;
    CHECK(at(m, c) == e && m.occupancy(c) == e, "cell " << x << "," << y << " reads " << at(m, c) << ", last written " << e);
  }
  for (C c : {C(-w / 2 - 1, 0), C(w - w / 2, 0), C(0, -h / 2 - 1), C(0, h - h / 2)}) CHECK(!m.has_cell(c), "outside cell " << c.x << "," << c.y << " is reported inside");
}
struct Open : public UnboundedPlainGridMap {
  using UnboundedPlainGridMap::UnboundedPlainGridMap;
  bool stored(const C &c) const { return has_internal_cell(external2internal(c)); }
};
CASE(unbounded, 1) {
  int w = r.i(1, 12), h = r.i(1, 12); double blank = r.u(), sc = r.d(0.1, 2);
  int reach = r.chance(0.5) ? 6 : 40;
  Open m{std::make_shared<LogCell>(blank), GridMapParams{w, h, sc}};
  Model want;
  std::ostringstream os;
  os << w << "x" << h << " writes";
  C o0 = m.origin();
  CHECK(m.scale() == sc, "scale");
  for (int k = 0, n = r.i(1, 14); k < n; ++k) {
    int pw = m.width(), ph = m.height(); C po = m.origin();
    C c(r.i(-reach, reach), r.i(-reach, reach));
    if (r.chance(0.4)) c = C(r.chance(0.5) ? -po.x - r.i(1, 3) : pw - po.x + r.i(0, 2), r.i(-3, 3));
    else if (r.chance(0.5)) c = C(r.i(-3, 3), r.chance(0.5) ? -po.y - r.i(1, 3) : ph - po.y + r.i(0, 2));
    os << " " << c.x << "," << c.y;
    bool in = m.stored(c);
    write(m, want, c, blank, r);
    int dx = m.origin().x - po.x, dy = m.origin().y - po.y;
    NOTE(os.str());
    CHECK(m.stored(c), "written cell is outside of the map");
    CHECK(m.width() >= pw && m.height() >= ph, "map shrank to " << m.width() << "x" << m.height());
    CHECK(dx >= 0 && dy >= 0 && dx + pw <= m.width() && dy + ph <= m.height(), "growth lost a part of the map");
    if (in) CHECK(m.width() == pw && m.height() == ph && dx == 0 && dy == 0, "grew although the cell was inside");
    for (auto &e : want) CHECK(at(m, e.first) == e.second && m.occupancy(e.first) == e.second, "cell " << e.first.x << "," << e.first.y << " reads " << at(m, e.first) << ", last written " << e.second);
  }
  C o = m.origin();
  for (int y = -o.y - 2; y < m.height() - o.y + 2; ++y) for (int x = -o.x - 2; x < m.width() - o.x + 2; ++x) {
    C c{x, y};
    CHECK(m.has_cell(c), "unbounded map reports a cell outside");
    double e = want.count(c) ? want[c] : blank;
    CHECK(at(m, c) == e, "cell " << x << "," << y << " reads " << at(m, c) << ", expected " << e);
  }
  (void)o0;
}
