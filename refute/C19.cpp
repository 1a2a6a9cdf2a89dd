#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "utils/map_dumpers.h"
#include "utils/data_generation/grid_map_patcher.h"
#include "utils/data_generation/map_primitives.h"
#include "common.h"

using C = DiscretePoint2D;
struct Less { bool operator()(const C &a, const C &b) const { return a.x != b.x ? a.x < b.x : a.y < b.y; } };

struct Scratch {
  std::string dir;
  Scratch() { char t[] = "/tmp/verif_c19_XXXXXX"; dir = mkdtemp(t); }
  ~Scratch() {
    for (auto &f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
  std::set<std::string> files;
};
static std::string slurp(const std::string &f) {
  std::ifstream is(f, std::ios::binary);
  CHECK(is.good(), "there is no file " << f);
  return std::string(std::istreambuf_iterator<char>(is), {});
}
// the image of a map, straight from the format's description
struct Image { int w, h; std::string px; };
static Image parse(const std::string &s) {
  std::istringstream is(s);
  std::string magic; int w = -1, h = -1, mx = -1;
  is >> magic >> w >> h >> mx;
  CHECK(magic == "P5" && mx == 255, "header " << magic << " " << w << " " << h << " " << mx);
  is.get();
  return {w, h, std::string(std::istreambuf_iterator<char>(is), {})};
}
static void compare(const Image &im, GridMap &m) {
  CHECK(im.w == m.width() && im.h == m.height(), "image is " << im.w << "x" << im.h << ", map " << m.width() << "x" << m.height());
  CHECK(im.px.size() == (size_t)im.w * im.h, im.px.size() << " pixels for " << im.w << "x" << im.h);
  auto o = m.origin();
  for (int r = 0; r < im.h; ++r) for (int c = 0; c < im.w; ++c) {
    C at{c - o.x, im.h - 1 - r - o.y};
    double v = static_cast<const GridMap &>(m)[at].occupancy().prob_occ;
    v = v == -1 ? 0.5 : std::min(1.0, std::max(0.0, v));
    int want = (int)std::floor(255 * (1 - v)), got = (unsigned char)im.px[(size_t)r * im.w + c];
    CHECK(std::abs(want - got) <= 1, "pixel " << r << "," << c << " of " << im.w << "x" << im.h << " (cell " << at.x << "," << at.y << " occupancy " << v << ") is " << got << ", expected " << want);
  }
}
template <class M> static void dumped(Rng &r, bool grows, int big) {
  int w = r.i(1, big), h = r.i(1, big);
  NOTE(w << "x" << h);
  M m{std::make_shared<GridCell>(Occupancy{r.chance(0.5) ? -1.0 : r.u(), 1}), GridMapParams{w, h, r.d(0.1, 2)}};
  Scratch sc;
  GridMapToPgmDumber d{sc.dir + "/map"};
  for (int k = 0, n = r.i(1, 3); k < n; ++k) {
    for (int j = r.i(0, 30); j > 0; --j) {
      auto o = m.origin();
      C at(r.i(0, m.width() - 1) - o.x, r.i(0, m.height() - 1) - o.y);
      if (grows && r.chance(0.1)) at = C(at.x + r.i(-9, 9), at.y + r.i(-9, 9));
      double v = r.chance(0.1) ? -1 : r.chance(0.2) ? r.d(-2, 2) : r.u();
      m.update(at, AreaOccupancyObservation{true, Occupancy{v, 1}, Point2D{0, 0}, 1});
    }
    auto f = sc.dir + "/map_" + std::to_string(k) + ".pgm";
    sc.files.insert(f);
    d.on_map_update(m);
    compare(parse(slurp(f)), m);
  }
}
CASE(dump_plain, 1) { dumped<PlainGridMap>(r, false, 12); }
CASE(dump_unbounded, 1) { dumped<UnboundedPlainGridMap>(r, true, 12); }
CASE(dump_tiled, 1) { dumped<UnboundedLazyTiledGridMap>(r, true, 140); }
CASE(brightness, 1) {
  PlainGridMap m{std::make_shared<GridCell>(Occupancy{0, 1}), GridMapParams{2, 1, 1}};
  double a = r.u(), b = r.u(); if (a > b) std::swap(a, b);
  IN(a); IN(b);
  m.update({-1, 0}, AreaOccupancyObservation{true, Occupancy{a, 1}, Point2D{0, 0}, 1});
  m.update({0, 0}, AreaOccupancyObservation{true, Occupancy{b, 1}, Point2D{0, 0}, 1});
  Scratch sc;
  auto f = sc.dir + "/x_0.pgm";
  sc.files.insert(f);
  GridMapToPgmDumber{sc.dir + "/x"}.on_map_update(m);
  auto im = parse(slurp(f));
  CHECK(im.px.size() == 2, im.px.size() << " pixels of 2");
  CHECK((unsigned char)im.px[0] >= (unsigned char)im.px[1], "occupancy " << a << " is darker than " << b);
  if (a == 0) CHECK((unsigned char)im.px[0] == 255, "a free cell is not white");
  if (b == 1) CHECK((unsigned char)im.px[1] == 0, "an occupied cell is not black");
}

struct Raster { std::vector<std::string> rows; size_t width() const { size_t w = 0; for (auto &s : rows) w = std::max(w, s.size()); return w; } };
static Raster raster(Rng &r, std::string &text) {
  Raster g; std::ostringstream os;
  int n = r.i(0, 6), w = r.i(1, 7);
  for (int k = 0; k < n; ++k) {
    std::string s;
    for (int j = r.chance(0.5) ? w : (int)r.i(1, 7); j > 0; --j) s += r.chance(0.4) ? ' ' : r.pick(std::vector<char>{'+', '#', 'x', '\t', '0', '\xe9'});
    g.rows.push_back(s);
    os << s;
    if (k + 1 < n || r.chance(0.5)) os << '\n';
  }
  text = os.str();
  if (n == 0 || text.back() == '\n') if (r.chance(0.4)) text += "\n++\n+ +\n";
  return g;
}
// a map that keeps every request it got
struct Told : public PlainGridMap {
  using PlainGridMap::PlainGridMap;
  std::vector<std::pair<C, AreaOccupancyObservation>> log;
  void update(const C &c, const AreaOccupancyObservation &o) override { log.push_back({c, o}); }
};
static void expect_patched(const Told &m, const Raster &g, const C &off, int wz, int hz) {
  std::map<C, double, Less> want, got;
  for (int r = 0; r < (int)g.rows.size(); ++r) for (int c = 0; c < (int)g.rows[r].size(); ++c)
    for (int i = 0; i < hz; ++i) for (int j = 0; j < wz; ++j) want[C(off.x + c * wz + j, off.y - r * hz - i)] = g.rows[r][c] == ' ' ? 0 : 1;
  for (auto &u : m.log) {
    CHECK(u.second.is_occupied && u.second.quality == 1 && u.second.occupancy.estimation_quality == 1, "cell " << u.first.x << "," << u.first.y << " is written with quality " << u.second.quality << ", " << u.second.occupancy.estimation_quality);
    CHECK(!got.count(u.first), "cell " << u.first.x << "," << u.first.y << " is written twice");
    CHECK(want.count(u.first), "cell " << u.first.x << "," << u.first.y << " is written; no character describes it");
    got[u.first] = u.second.occupancy.prob_occ;
    CHECK(got[u.first] == want[u.first], "cell " << u.first.x << "," << u.first.y << " is written as " << got[u.first] << ", its character means " << want[u.first]);
  }
  CHECK(got.size() == want.size(), got.size() << " cells are written, " << want.size() << " are described");
}
CASE(patch, 2) {
  std::string text;
  auto g = raster(r, text);
  int wz = r.chance(0.5) ? 1 : r.i(1, 4), hz = r.chance(0.5) ? 1 : r.i(1, 4);
  NOTE("text '" << text << "' zoom " << wz << "," << hz);
  Told m{std::make_shared<GridCell>(Occupancy{0, 0}), GridMapParams{4, 4, 1}};
  GridMapPatcher p;
  for (int k = 0; k < 2; ++k) {
    std::istringstream is(text);
    m.log.clear();
    if (r.chance(0.5)) {
      C off(r.i(-9, 9), r.i(-9, 9));
      NOTE(" at " << off.x << "," << off.y);
      p.apply_text_raster(m, is, off, wz, hz);
      expect_patched(m, g, off, wz, hz);
    } else {
      NOTE(" centred");
      p.apply_text_raster(m, is, wz, hz);
      expect_patched(m, g, C(-wz * (int)g.width() / 2, hz * (int)g.rows.size() / 2), wz, hz);
    }
    if (r.chance(0.5)) g = raster(r, text);
  }
}
CASE(corridor, 1) {
  using B = CecumTextRasterMapPrimitive::BoundPosition;
  int w = r.i(1, 9), h = r.i(1, 9);
  auto b = r.pick(std::vector<B>{B::Left, B::Right, B::Top, B::Bot});
  NOTE(w << "x" << h << " bound " << (int)b);
  CecumTextRasterMapPrimitive p{w, h, b};
  CHECK(p.width() == w && p.height() == h, "size " << p.width() << "x" << p.height());
  auto free = p.free_space();
  bool hor = b == B::Top || b == B::Bot;
  for (int pass = 0; pass < 2; ++pass) {
    auto &is = p.to_stream();
    std::string s;
    for (int i = 0; i < h; ++i) {
      CHECK(!std::getline(is, s).fail() && (int)s.size() == w, "row " << i << " has " << s.size() << " characters");
      for (int j = 0; j < w; ++j) {
        bool wall = hor ? j == 0 || j == w - 1 || i == (b == B::Top ? 0 : h - 1) : i == 0 || i == h - 1 || w == 1 || j == (b == B::Left ? 0 : w - 1);
        CHECK(s[j] == (wall ? '+' : ' '), "row " << i << " column " << j << " is '" << s[j] << "'");
        for (auto &f : free) {
          bool in = f.bot() <= -i && -i + 1 <= f.top() && f.left() <= j && j + 1 <= f.right();
          CHECK(!(in && wall), "row " << i << " column " << j << " is called free");
          if (free.size() == 1 && w > 2 && h > 2) CHECK(in || wall, "row " << i << " column " << j << " is free and not in the free rectangle");
        }
      }
    }
    bool more = !std::getline(is, s).fail() && !s.empty();
    CHECK(!more, "there is a row '" << s << "' after the last");
  }
}
