#include "core/serialization.h"
#include "core/maps/naive_grid_cells.h"
#include "core/maps/tbm_grid_cells.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "slams/credibilist/TBM_prob_conversion.h"
#include "slams/credibilist/grid_cell.h"
#include "slams/gmapping/gmapping_grid_cell.h"
#include "common.h"
using Bytes = std::vector<char>;
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static double num(Rng &r) {
  switch (r.i(0, 9)) {
  case 0: return std::numeric_limits<double>::infinity();
  case 1: return -std::numeric_limits<double>::infinity();
  case 2: return std::nan("");
  case 3: return std::numeric_limits<double>::denorm_min();
  }
  return r.d(-1e6, 1e6);
}
static Bytes junk(Rng &r, int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back((char)r.i(-128, 127)); return b; }

CASE(stream, 2) {
  Bytes pre = junk(r, r.chance(0.5) ? 0 : r.i(1, 20));
  Serializer s = r.chance(0.5) ? Serializer(pre) : Serializer(size_t(r.i(0, 30)));
  if (s.result().empty()) s.append(pre);
  CHECK(s.result() == pre, "start");
  struct V { int kind; double d; long i; Bytes b; };
  std::vector<V> vs;
  for (int k = 0, n = r.i(0, 12); k < n; ++k) {
    V v{(int)r.i(0, 6), num(r), (long)r.next(), {}};
    NOTE(v.kind);
    size_t before = s.result().size(), grow = 0;
    switch (v.kind) {
    case 0: s << v.d; grow = sizeof(double); break;
    case 1: s << int(v.i); grow = sizeof(int); break;
    case 2: s << bool(v.i & 1); grow = sizeof(bool); break;
    case 3: s << size_t(v.i); grow = sizeof(size_t); break;
    case 4: s << char(v.i); grow = 1; break;
    case 5: v.b = junk(r, r.i(0, 9)); s.append(v.b); grow = v.b.size(); break;
    case 6: v.b = junk(r, r.i(0, 9)); s << v.b; grow = v.b.size(); break;
    }
    CHECK(s.result().size() == before + grow, "value of kind " << v.kind << " took " << s.result().size() - before << " bytes, not " << grow);
    if (r.chance(0.2)) s.reserve(r.i(0, 200));
    vs.push_back(v);
  }
  Bytes all = s.result();
  CHECK(Bytes(all.begin(), all.begin() + pre.size()) == pre, "earlier bytes changed");
  Deserializer d(all, pre.size());
  for (auto &v : vs) {
    switch (v.kind) {
    case 0: { double x; d >> x; CHECK(same(x, v.d), "double " << v.d << " came back as " << x); break; }
    case 1: { int x; d >> x; CHECK(x == int(v.i), "int"); break; }
    case 2: { bool x; d >> x; CHECK(x == bool(v.i & 1), "bool"); break; }
    case 3: { size_t x; d >> x; CHECK(x == size_t(v.i), "size"); break; }
    case 4: { char x; d >> x; CHECK(x == char(v.i), "char"); break; }
    default: CHECK(Bytes(all.begin() + d.pos(), all.begin() + d.pos() + v.b.size()) == v.b, "byte block"); d.inc_pose(v.b.size());
    }
  }
  CHECK(d.pos() == all.size(), "read " << d.pos() << " of " << all.size() << " bytes");
}

static AreaOccupancyObservation obs(Rng &r) {
  AreaOccupancyObservation a{r.chance(0.5), Occupancy{r.d(0, 1), r.d(0, 1)}, Point2D{r.d(-5, 5), r.d(-5, 5)}, r.d(0, 1)};
  if (r.chance(0.1)) a.occupancy = Occupancy::invalid();
  return a;
}
static bool alike(const GridCell &a, const GridCell &b) {
  return same(a.occupancy().prob_occ, b.occupancy().prob_occ) && same(a.occupancy().estimation_quality, b.occupancy().estimation_quality) && a.is_unknown() == b.is_unknown();
}
template <class C> static bool more(const C &, const C &) { return true; }
static bool tbm(const TBM &a, const TBM &b) { return a.unknown() == b.unknown() && a.empty() == b.empty() && a.occupied() == b.occupied() && a.conflict() == b.conflict(); }
static bool more(const TbmOccConsistentCell &a, const TbmOccConsistentCell &b) { return tbm(a.belief(), b.belief()); }
static bool more(const TbmUnknownEvenOccCell &a, const TbmUnknownEvenOccCell &b) { return tbm(a.belief(), b.belief()); }
static bool more(const CredibilistCell &a, const CredibilistCell &b) { return tbm(a.belief(), b.belief()); }
template <class C> static void cell(Rng &r) {
  C from, to;
  int n = r.i(0, 6), m = r.i(0, 4); NOTE("writes " << n << " then " << m);
  for (int k = 0; k < n; ++k) from += obs(r);
  for (int k = 0; k < m; ++k) to += obs(r);
  Bytes own = from.serialize(), pre = junk(r, r.i(0, 9)), post = junk(r, r.i(0, 9)), all = pre;
  all.insert(all.end(), own.begin(), own.end()); all.insert(all.end(), post.begin(), post.end());
  size_t end = to.deserialize(all, pre.size());
  CHECK(end == pre.size() + own.size(), "reading " << own.size() << " bytes moved by " << end - pre.size());
  CHECK(alike(from, to), "saved " << from.occupancy() << (from.is_unknown() ? " unknown" : "") << ", loaded " << to.occupancy() << (to.is_unknown() ? " unknown" : ""));
  CHECK(more(from, to), "belief");
  CHECK(from.serialize() == to.serialize(), "saved again differs");
  CHECK(C{}.serialize().size() == own.size(), "size depends on the history");
  C fresh;
  CHECK(fresh.deserialize(own) == own.size() && alike(from, fresh), "default position");
}
struct Plain : public GridCell { Plain() : GridCell{Occupancy{0.5, 1}} {} };
CASE(cell_plain, 0.5) { cell<Plain>(r); }
CASE(cell_affine, 0.5) { cell<AffineQualityMergeCell>(r); }
CASE(cell_mean, 0.5) { cell<MeanProbabilityCell>(r); }
CASE(cell_tbm, 0.5) { cell<TbmOccConsistentCell>(r); }
CASE(cell_tbm2, 0.5) { cell<TbmUnknownEvenOccCell>(r); }
CASE(cell_credibilist, 0.5) { cell<CredibilistCell>(r); }
CASE(cell_gmapping, 0.5) { cell<GmappingBaseCell>(r); }

static std::shared_ptr<GridCell> proto(Rng &r) {
  switch (r.i(0, 4)) {
  case 0: return std::make_shared<MeanProbabilityCell>();
  case 1: return std::make_shared<TbmUnknownEvenOccCell>();
  case 2: return std::make_shared<CredibilistCell>();
  case 3: return std::make_shared<GmappingBaseCell>();
  }
  return std::make_shared<AffineQualityMergeCell>();
}
static void fill(Rng &r, GridMap &m, int reach) {
  for (int k = 0, n = r.i(0, 12); k < n; ++k) {
    DiscretePoint2D c(r.i(-reach, reach), r.i(-reach, reach));
    NOTE(c.x << "," << c.y);
    m.update(c, obs(r));
  }
}
static void compare(const GridMap &a, const GridMap &b) {
  CHECK(a.width() == b.width() && a.height() == b.height(), "saved " << a.width() << "x" << a.height() << ", loaded " << b.width() << "x" << b.height());
  CHECK(same(a.scale(), b.scale()), "scale " << a.scale() << " became " << b.scale());
  CHECK(a.origin() == b.origin(), "origin " << a.origin() << " became " << b.origin());
  auto o = a.origin();
  for (int x = -o.x - 1; x <= a.width() - o.x; ++x) for (int y = -o.y - 1; y <= a.height() - o.y; ++y) {
    DiscretePoint2D c(x, y);
    CHECK(alike(a[c], b[c]), "cell " << x << "," << y << " was " << a[c].occupancy() << ", loaded " << b[c].occupancy());
    CHECK(a[c].serialize() == b[c].serialize(), "cell " << x << "," << y << " saves differently");
  }
}
CASE(map, 2) {
  auto p = proto(r);
  int reach = r.i(1, 9);
  UnboundedPlainGridMap a{p, GridMapParams{(int)r.i(1, 9), (int)r.i(1, 9), r.d(0.05, 2)}}, b{p, GridMapParams{(int)r.i(1, 9), (int)r.i(1, 9), r.d(0.05, 2)}};
  NOTE(a.width() << "x" << a.height());
  fill(r, a, reach); NOTE("target"); fill(r, b, reach);
  Bytes s = a.save_state();
  CHECK(a.save_state() == s, "saving changes the map");
  b.load_state(s);
  compare(a, b);
  // the loaded map goes on like the saved one
  DiscretePoint2D c(r.i(-reach - 3, reach + 3), r.i(-reach - 3, reach + 3));
  a.reset(c, *p); b.reset(c, *p);
  compare(a, b);
}
template <class M> static void levels(Rng &r) {
  auto p = proto(r);
  int most = r.chance(0.7) ? 4 : 20, reach = r.i(1, most * 2);
  M a{p, GridMapParams{(int)r.i(1, most), (int)r.i(1, most), r.d(0.05, 2)}}, b{p, GridMapParams{(int)r.i(1, most), (int)r.i(1, most), r.d(0.05, 2)}};
  NOTE(a.width() << "x" << a.height());
  fill(r, a, reach); NOTE("target"); fill(r, b, reach);
  if (r.chance(0.5)) a.set_scale_id(r.i(0, a.coarsest_scale_id()));   // otherwise the levels are first asked for by saving
  Bytes s = a.save_state();
  b.load_state(s);
  CHECK(a.scales_nm() == b.scales_nm(), "levels " << a.scales_nm() << " became " << b.scales_nm());
  CHECK(b.scale_id() == 0, "a loaded map starts at the finest level");
  for (unsigned k = 0; k < a.scales_nm(); ++k) { a.set_scale_id(k); b.set_scale_id(k); compare(a, b); }
}
CASE(levels, 1) { levels<RescalableCachingGridMap<UnboundedPlainGridMap>>(r); }
