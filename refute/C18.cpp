// Settings: each key reaches the parameter it names; files are read as documented.
// The sampling enumerator starts with normal_distribution{0, 0}, which libstdc++ only accepts unchecked.
#undef _GLIBCXX_ASSERTIONS
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#include "common.h"
#include <map>
#include <fstream>
#include <sys/stat.h>

static struct Quiet { Quiet() { std::cout.rdbuf(nullptr); } } quiet;

struct Props : MapPropertiesProvider {
  Rng &r;
  explicit Props(Rng &r) : r(r) {}
  double dbl(const std::string &key, double dflt, double lo, double hi) {
    if (!r.chance(0.7)) return dflt;
    char b[64]; snprintf(b, sizeof b, "%.6g", r.d(lo, hi));
    put(key, b);
    return std::stod(b);
  }
  unsigned uint(const std::string &key, unsigned dflt, unsigned hi) {
    if (!r.chance(0.7)) return dflt;
    auto s = std::to_string(r.i(0, hi)); put(key, s); return std::stoul(s);
  }
  bool flag(const std::string &key, bool dflt) {
    if (!r.chance(0.7)) return dflt;
    static const std::vector<std::string> vs{"true", "false", "0", "1"};
    auto v = r.pick(vs); put(key, v); return v == "true" || v == "1";
  }
  std::string one(const std::string &key, const std::string &dflt, const std::vector<std::string> &vs) {
    if (!dflt.empty() && !r.chance(0.8)) return dflt;
    auto v = r.pick(vs); put(key, v); return v;
  }
  void put(const std::string &k, const std::string &v) { NOTE(k << "=" << v); set_property(k, v); }
};

static bool near(double a, double b) { return close(a, b, 1e-12); }
template <class T, class U> static bool is(const U &p) { return p && typeid(*p) == typeid(T); }

struct Oope { std::string type, oie; };
static Oope set_oope(Props &p) {
  Oope o;
  o.type = p.one("slam/scmtch/oope/type", "obstacle", {"obstacle", "max", "mean", "overlap"});
  o.oie = p.one("slam/scmtch/oie/type", "discrepancy", {"discrepancy", "occupancy"});
  return o;
}
static void check_oope(const std::shared_ptr<OccupancyObservationProbabilityEstimator> &e, const Oope &o) {
  CHECK(is<ObstacleBasedOccupancyObservationPE>(e) == (o.type == "obstacle"), o.type);
  CHECK(is<MaxOccupancyObservationPE>(e) == (o.type == "max"), o.type);
  CHECK(is<MeanOccupancyObservationPE>(e) == (o.type == "mean"), o.type);
  CHECK(is<OverlapWeightedOccupancyObservationPE>(e) == (o.type == "overlap"), o.type);
}

struct Spe { std::string w; unsigned skip; double range; };
static Spe set_spe(Props &p) {
  p.put("slam/scmtch/spe/type", "wmpp");
  Spe s;
  s.w = p.one("slam/scmtch/spe/wmpp/weighting/type", "", {"even", "viny", "ahr"});
  s.skip = p.uint("slam/scmtch/spe/wmpp/sp_skip_rate", 0, 9);
  s.range = p.dbl("slam/scmtch/spe/wmpp/sp_max_usable_range", -1, -5, 30);
  return s;
}
static void check_spe(const std::shared_ptr<ScanProbabilityEstimator> &e, const Spe &s) {
  CHECK(is<WeightedMeanPointProbabilitySPE>(e), "estimator");
  auto &w = dynamic_cast<WeightedMeanPointProbabilitySPE &>(*e);
  CHECK(is<EvenSPW>(w._spw) == (s.w == "even") && is<VinySlamSPW>(w._spw) == (s.w == "viny") && is<AngleHistogramReciprocalSPW>(w._spw) == (s.w == "ahr"), s.w);
  CHECK(w._pts_skip_rate == s.skip, w._pts_skip_rate << " " << s.skip);
  CHECK(near(w._pt_max_usable_range, s.range), w._pt_max_usable_range << " " << s.range);
}

CASE(matcher, 4) {
  Props p{r};
  auto o = set_oope(p); auto s = set_spe(p);
  auto type = p.one("slam/scmtch/type", "", {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED"});
  auto drift = p.flag("slam/scmtch/use_amb_drift_detector", false);
  const std::string N = "slam/scmtch/";
  unsigned attempts = p.uint(N + "MC/attempts_limit", 100, 500), shifts = p.uint(N + "MC/dispersion/failed_attempts_limit", 20, 90);
  int seed = -1; bool seeded = false;
  if (r.chance(0.7)) { seeded = true; seed = (int)r.i(0, 100000); p.put(N + "MC/seed", std::to_string(seed)); }
  double mt = p.dbl(N + "MC/dispersion/translation", 0.2, 0.01, 2), mr = p.dbl(N + "MC/dispersion/rotation", 0.1, 0.01, 2);
  double ht = p.dbl(N + "HC/distortion/translation", 0.1, 0.01, 2), hr = p.dbl(N + "HC/distortion/rotation", 0.1, 0.01, 2);
  unsigned hf = p.uint(N + "HC/distortion/failed_attempts_limit", 6, 40);
  bool al = p.flag(N + "HC/use_frame_alignement", false);
  double bf[3][3];
  for (int d = 0; d < 3; ++d) {
    std::string ax{"xyt"[d]};
    double dg = deg2rad(1);
    bf[d][0] = p.dbl(N + "BF/" + ax + "/from", d < 2 ? -0.5 : -deg2rad(5), -2, -0.01);
    bf[d][1] = p.dbl(N + "BF/" + ax + "/to", d < 2 ? 0.5 : deg2rad(5), 0, 2);
    bf[d][2] = p.dbl(N + "BF/" + ax + "/step", d < 2 ? 0.1 : dg, 0.01, 1);
  }
  double ta = p.dbl(N + "BF_M3RSM/accuracy/translation", 0.05, 0.01, 1), ra = p.dbl(N + "BF_M3RSM/accuracy/rotation", deg2rad(0.1), 0.001, 1);
  double lx = p.dbl(N + "BF_M3RSM/limit/x_translation", 1, 0.01, 4), ly = p.dbl(N + "BF_M3RSM/limit/y_translation", 1, 0.01, 4), lr = p.dbl(N + "BF_M3RSM/limit/rotation", deg2rad(5), 0.01, 1);

  auto m = init_scan_matcher(p);
  CHECK(is<ConnectTheDotsAmbiguousDriftDetector>(m) == drift, "drift detector");
  if (drift) { m = std::static_pointer_cast<ConnectTheDotsAmbiguousDriftDetector>(m)->_sm; }
  CHECK(is<MonteCarloScanMatcher>(m) == (type == "MC") && is<HillClimbingScanMatcher>(m) == (type == "HC") && is<BruteForceScanMatcher>(m) == (type == "BF")
        && is<BruteForceMultiResolutionScanMatcher>(m) == (type == "BF_M3RSM") && is<NoActionScanMatcher>(m) == (type == "idle") && is<HillClimbingSMFixed>(m) == (type == "HC_FIXED"), type);
  auto spe = m->scan_probability_estimator();
  check_spe(spe, s);
  check_oope(std::static_pointer_cast<WeightedMeanPointProbabilitySPE>(spe)->_oope, o);
  if (type == "MC") {
    auto e = std::dynamic_pointer_cast<GaussianPoseEnumerator>(std::static_pointer_cast<MonteCarloScanMatcher>(m)->_pose_enumerator);
    CHECK(e && near(e->_base_translation_dispersion, mt) && near(e->_base_rotation_dispersion, mr), "dispersion");
    CHECK(e->_max_failed_attempts_per_shift == shifts && e->_max_poses_nm == attempts, "attempts " << e->_max_failed_attempts_per_shift << " " << e->_max_poses_nm);
    if (seeded) { CHECK(e->_pr_generator == std::mt19937((unsigned)seed), "seed"); }
  } else if (type == "HC") {
    auto h = std::static_pointer_cast<HillClimbingScanMatcher>(m);
    CHECK(h->_max_lookup_failed_attempts == hf && near(h->_translation_delta, ht) && near(h->_rotation_delta, hr) && h->_use_frame_alignement == al,
          h->_max_lookup_failed_attempts << " " << h->_translation_delta << " " << h->_rotation_delta << " " << h->_use_frame_alignement);
  } else if (type == "BF") {
    auto e = std::dynamic_pointer_cast<BruteForcePoseEnumerator>(std::static_pointer_cast<BruteForceScanMatcher>(m)->_pose_enumerator);
    CHECK(e && near(e->_from_x, bf[0][0]) && near(e->_to_x, bf[0][1]) && near(e->_step_x, bf[0][2]), "x");
    CHECK(near(e->_from_y, bf[1][0]) && near(e->_to_y, bf[1][1]) && near(e->_step_y, bf[1][2]), "y");
    CHECK(near(e->_from_t, bf[2][0]) && near(e->_to_t, bf[2][1]) && near(e->_step_t, bf[2][2]), "t");
  } else if (type == "BF_M3RSM") {
    auto b = std::static_pointer_cast<BruteForceMultiResolutionScanMatcher>(m);
    CHECK(near(b->_transl_step, ta) && near(b->_ang_step, ra), "accuracy");
    CHECK(near(b->_max_x_error, lx) && near(b->_max_y_error, ly) && near(b->_max_th_error, lr), "limits");
  }
}

struct Occ { double p, q; };
static void check_adder(const std::shared_ptr<GridMapScanAdder> &a, const std::string &ot, const std::string &qt, Occ occ, Occ emp, double blur, double range) {
  auto w = std::dynamic_pointer_cast<WallDistanceBlurringScanAdder>(a);
  CHECK(!!w, "adder");
  CHECK(near(w->_props._blur_distance, blur) && near(w->_props._max_usable_range, range), w->_props._blur_distance << " " << w->_props._max_usable_range);
  CHECK(is<ConstOccupancyEstimator>(w->_occ_est) == (ot == "const") && is<AreaOccupancyEstimator>(w->_occ_est) == (ot == "area"), ot);
  CHECK(is<IdleOMQE>(w->_omqe) == (qt == "idle") && is<AngleHistogramResiprocalOMQE>(w->_omqe) == (qt == "ahr"), qt);
  auto &e = *w->_occ_est;
  CHECK(near(e._base_occ.prob_occ, occ.p) && near(e._base_occ.estimation_quality, occ.q), "base occupied");
  CHECK(near(e._base_empty.prob_occ, emp.p) && near(e._base_empty.estimation_quality, emp.q), "base empty");
}

CASE(world, 4) {
  Props p{r};
  set_oope(p); set_spe(p);
  auto sm = p.one("slam/scmtch/type", "", {"MC", "HC", "BF_M3RSM", "idle"});
  double w = p.dbl("slam/map/width_in_meters", 10, 0.5, 12), h = p.dbl("slam/map/height_in_meters", 10, 0.5, 12), sc = p.dbl("slam/map/meters_per_cell", 0.1, 0.1, 2);
  auto mt = p.one("slam/mapping/grid/type", "", {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"});
  auto area = p.one("slam/mapping/grid/area/type", "", {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"});
  const std::string E = "slam/occupancy_estimator/";
  Occ occ{p.dbl(E + "base_occupied/prob", 0.95, 0, 1), p.dbl(E + "base_occupied/qual", 1, 0, 1)}, emp{p.dbl(E + "base_empty/prob", 0.01, 0, 1), p.dbl(E + "base_empty/qual", 1, 0, 1)};
  auto ot = p.one(E + "type", "const", {"const", "area"});
  auto qt = p.one("slam/mapping/observation_quality_estimator/type", "idle", {"idle", "ahr"});
  double blur = p.dbl("slam/mapping/blur", 0, -1, 1), range = p.dbl("slam/mapping/max_range", std::numeric_limits<double>::infinity(), 0.5, 50);
  double cq = p.dbl("slam/mapping/corrected_pose_quality", 1, 0, 1), rq = p.dbl("slam/mapping/raw_pose_quality", 0.5, 0, 1);
  int wc = std::ceil(w / sc), hc = std::ceil(h / sc);
  check_adder(init_scan_adder(p), ot, qt, occ, emp, blur, range);
  bool cred = r.chance(0.3);
  auto look = [&](auto &&slam, double cq, double rq) {
    CHECK(near(slam->_props.localized_scan_quality, cq) && near(slam->_props.raw_scan_quality, rq), slam->_props.localized_scan_quality << " " << slam->_props.raw_scan_quality);
    check_adder(slam->_props.gmsa, ot, qt, occ, emp, blur, range);
    auto &m = slam->map();
    CHECK(m.width() == wc && m.height() == hc, m.width() << "x" << m.height() << " not " << wc << "x" << hc);
    CHECK(near(m.scale(), sc), m.scale());
    bool m3 = sm == "BF_M3RSM";
    auto &ti = typeid(m);
    CHECK((ti == typeid(PlainGridMap)) == (!m3 && mt == "plain") && (ti == typeid(UnboundedPlainGridMap)) == (!m3 && mt == "unbounded_plain")
          && (ti == typeid(LazyTiledGridMap)) == (!m3 && mt == "lazy_tiled") && (ti == typeid(UnboundedLazyTiledGridMap)) == (!m3 && mt == "unbounded_lazy_tiled"), mt << " " << ti.name());
    CHECK((ti == typeid(M3RSMRescalableGridMap<PlainGridMap>)) == (m3 && mt == "plain") && (ti == typeid(M3RSMRescalableGridMap<UnboundedPlainGridMap>)) == (m3 && mt == "unbounded_plain")
          && (ti == typeid(M3RSMRescalableGridMap<LazyTiledGridMap>)) == (m3 && mt == "lazy_tiled") && (ti == typeid(M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>)) == (m3 && mt == "unbounded_lazy_tiled"), mt << " " << ti.name());
    auto c = m.new_cell();
    if (m3) return; // the cells of a rescalable map wrap the model
    auto &tc = typeid(*c);
    if (cred) { CHECK(tc == typeid(CredibilistCell), tc.name()); return; }
    CHECK((tc == typeid(TbmOccConsistentCell)) == (area == "tbm_consistent") && (tc == typeid(TbmUnknownEvenOccCell)) == (area == "tbm_unknown_even_occ")
          && (tc == typeid(AffineQualityMergeCell)) == (area == "affine_quality_merge") && (tc == typeid(MeanProbabilityCell)) == (area == "mean_probability"), area << " " << tc.name());
  };
  if (cred) look(init_credibilist_slam(p), 0.9, 0.6);
  else look(init_1h_slam(p), cq, rq);
}

CASE(gmapping, 1) {
  Props p{r};
  unsigned n = p.uint("slam/particles/number", 30, 300);
  CHECK(init_particles_nm(p) == n, "particles");
  const std::string N = "slam/particles/";
  double v[8]; const char *k[] = {"sample/xy/mean", "sample/xy/sigma", "sample/theta/mean", "sample/theta/sigma", "sm_delta_lim/xy/min", "sm_delta_lim/xy/max", "sm_delta_lim/theta/min", "sm_delta_lim/theta/max"};
  double d[] = {0, 0.1, 0, 0.03, 0.6, 0.8, 0.3, 0.4};
  for (int i = 0; i < 8; ++i) v[i] = p.dbl(N + k[i], d[i], i < 4 ? 0.01 : (i % 2 ? 0.41 : 0.01), i < 4 ? 2 : (i % 2 ? 3 : 0.3));
  if (v[4] >= v[5] || v[6] >= v[7]) throw Discard{};
  auto g = init_gmapping_params(p);
  std::mt19937 rnd{(unsigned)r.next()};
  // draws show the distribution: the spread is bounded for the limits, the mean estimated for the noise
  for (int i = 0; i < 20; ++i) {
    auto s = g.next_sm_delta_rv.sample(rnd);
    CHECK(v[4] <= s.x && s.x <= v[5] && v[4] <= s.y && s.y <= v[5] && v[6] <= s.theta && s.theta <= v[7], s.x << " " << s.y << " " << s.theta);
  }
  double mx = 0, my = 0, mt = 0, sx = 0, sy = 0, stt = 0; const int M = 400;
  for (int i = 0; i < M; ++i) { auto s = g.pose_guess_rv.sample(rnd); mx += s.x; my += s.y; mt += s.theta; sx += pow(s.x - v[0], 2); sy += pow(s.y - v[0], 2); stt += pow(s.theta - v[2], 2); }
  auto ok = [&](double m, double s2, double mean, double sd) { return fabs(m / M - mean) <= 8 * sd / sqrt(M) && fabs(sqrt(s2 / M) - sd) <= 0.3 * sd; };
  CHECK(ok(mx, sx, v[0], v[1]) && ok(my, sy, v[0], v[1]) && ok(mt, stt, v[2], v[3]), "noise");
  auto s = set_spe(p);
  double th = p.dbl("slam/scmtch/oope/custom/fullness_threshold", 0.1, 0, 1); unsigned ws = p.uint("slam/scmtch/oope/custom/window_size", 1, 6);
  auto e = init_gmapping_prob_estimator(p);
  check_spe(e, s);
  auto oo = std::dynamic_pointer_cast<GmappingOccupancyObservationPE>(std::static_pointer_cast<WeightedMeanPointProbabilitySPE>(e)->_oope);
  CHECK(oo && near(oo->Fullness_Th, th) && oo->Window_Sz == (int)ws, "custom estimator");
}

CASE(gmapping_system, 2) {
  Props p{r};
  auto s = set_spe(p);
  double th = p.dbl("slam/scmtch/oope/custom/fullness_threshold", 0.1, 0, 1); unsigned ws = p.uint("slam/scmtch/oope/custom/window_size", 1, 6);
  double w = p.dbl("slam/map/width_in_meters", 10, 0.5, 12), h = p.dbl("slam/map/height_in_meters", 10, 0.5, 12), sc = p.dbl("slam/map/meters_per_cell", 0.1, 0.1, 2);
  const std::string E = "slam/occupancy_estimator/";
  Occ occ{p.dbl(E + "base_occupied/prob", 0.95, 0, 1), p.dbl(E + "base_occupied/qual", 1, 0, 1)}, emp{p.dbl(E + "base_empty/prob", 0.01, 0, 1), p.dbl(E + "base_empty/qual", 1, 0, 1)};
  auto ot = p.one(E + "type", "const", {"const", "area"}), qt = p.one("slam/mapping/observation_quality_estimator/type", "idle", {"idle", "ahr"});
  double blur = p.dbl("slam/mapping/blur", 0, -1, 1), range = p.dbl("slam/mapping/max_range", std::numeric_limits<double>::infinity(), 0.5, 50);
  const std::string N = "slam/particles/";
  unsigned n = p.uint(N + "number", 30, 40);
  double lo = p.dbl(N + "sm_delta_lim/xy/min", 0.6, 0.01, 0.3), hi = p.dbl(N + "sm_delta_lim/xy/max", 0.8, 0.61, 3), tl = p.dbl(N + "sm_delta_lim/theta/min", 0.3, 0.01, 0.25), th2 = p.dbl(N + "sm_delta_lim/theta/max", 0.4, 0.31, 3);
  if (n < 1) throw Discard{};
  auto f = init_gmapping(p);
  CHECK(f->_pf.particles().size() == n, f->_pf.particles().size() << " particles, not " << n);
  for (auto &q : f->_pf.particles()) {
    check_adder(q->_props.gmsa, ot, qt, occ, emp, blur, range);
    auto sm = std::dynamic_pointer_cast<HillClimbingScanMatcher>(q->_props.gsm);
    CHECK(!!sm, "matcher");
    check_spe(sm->_scan_prob_estimator, s);
    auto oo = std::dynamic_pointer_cast<GmappingOccupancyObservationPE>(std::static_pointer_cast<WeightedMeanPointProbabilitySPE>(sm->_scan_prob_estimator)->_oope);
    CHECK(oo && near(oo->Fullness_Th, th) && oo->Window_Sz == (int)ws, "custom estimator");
    auto &m = q->map();
    CHECK(m.width() == (int)std::ceil(w / sc) && m.height() == (int)std::ceil(h / sc) && near(m.scale(), sc), m.width() << "x" << m.height() << " by " << m.scale());
    auto &d = q->_next_sm_delta;
    CHECK(lo <= d.x && d.x <= hi && lo <= d.y && d.y <= hi && tl <= d.theta && d.theta <= th2, d.x << " " << d.y << " " << d.theta);
  }
}

static std::string word(Rng &r, bool empty = false, bool any = false) {
  std::string s; static const std::string cs = "abc/_1.-# <>";
  for (int n = r.i(empty ? 0 : 1, 4); n > 0; --n) s += cs[r.i(0, any ? 11 : 6)];
  return s;
}

CASE(provider, 1) {
  std::map<std::string, std::string> ref[2];
  MapPropertiesProvider m[2];
  static const std::vector<std::string> ks{"a", "b", "c/d", "c", ""};
  static const std::vector<std::string> vs{"0", "1", "false", "true", "-7", "3.25", "12", "", "False", "no"};
  for (int n = r.i(0, 12); n > 0; --n) {
    int w = r.i(0, 1);
    if (r.chance(0.1)) { m[w] += m[1 - w]; for (auto &e : ref[1 - w]) ref[w].insert(e); NOTE("+=" << w); continue; }
    auto k = r.pick(ks), v = r.pick(vs);
    NOTE(w << ":" << k << "=" << v);
    m[w].set_property(k, v); ref[w][k] = v;
  }
  for (auto &k : ks) {
    bool has = ref[0].count(k);
    std::string v = has ? ref[0][k] : "";
    CHECK(m[0].has_property(k) == has, k);
    CHECK(m[0].get_str(k, "dflt") == (has ? v : "dflt"), k);
    bool d = r.chance(0.5);
    CHECK(m[0].get_bool(k, d) == (has ? v != "0" && v != "false" : d), k << " " << v);
    bool num = !v.empty() && (isdigit(v[0]) || v[0] == '-');
    if (!has || num) {
      CHECK(m[0].get_int(k, -3) == (has ? atoi(v.c_str()) : -3), k);
      CHECK(near(m[0].get_dbl(k, 2.5), has ? atof(v.c_str()) : 2.5), k);
      CHECK(m[0].get_uint(k, 9) == (has ? (unsigned)atol(v.c_str()) : 9), k);
    }
  }
  CHECK(m[0].available_properties().size() == ref[0].size(), "number of properties");
}

using Map = std::map<std::string, std::string>;
struct Dir {
  std::string path;
  Dir() { char b[] = "/tmp/c18_XXXXXX"; path = mkdtemp(b); mkdir((path + "/sub").c_str(), 0700); }
  ~Dir() { for (int i = 0; i < 4; ++i) { unlink((path + name(i)).c_str()); } rmdir((path + "/sub").c_str()); rmdir(path.c_str()); }
  static std::string name(int i) { return (i % 2 ? "/sub/f" : "/f") + std::to_string(i); }
};
// what the files say: the files a file includes come first, in its own lines the last one counts; a value set already stays
static void read_ref(const std::vector<std::vector<std::string>> &files, int i, Map &into) {
  Map own;
  for (auto &l : files[i]) {
    if (l.empty() || l[0] == '#') continue;
    if (l[0] == '<') { if (l.back() == '>') { int j = l[l.size() - 2] - '0'; if (j < (int)files.size()) read_ref(files, j, into); } continue; }
    auto p = l.find('=');
    if (p != std::string::npos) own[l.substr(0, p)] = l.substr(p + 1);
  }
  into.insert(own.begin(), own.end());
}
CASE(files, 2) {
  Dir dir;
  std::vector<std::vector<std::string>> fs(4);
  for (int i = 3; i >= 0; --i) {
    std::ofstream f{dir.path + Dir::name(i)};
    int n = r.i(0, 6);
    for (int k = 0; k < n; ++k) {
      std::string l;
      switch (r.i(0, 7)) {
      case 0: l = ""; break;
      case 1: l = "#" + word(r) + "=" + word(r); break;
      case 2: case 3: if (i < 3 || r.chance(0.3)) { int j = r.i(i + 1, 4); l = "<" + std::string(i % 2 ? "../" : "./") + (j % 2 ? "sub/f" : "f") + std::to_string(j) + (r.chance(0.9) ? ">" : ""); } break;
      case 4: l = word(r); break;
      default: l = std::string(1, "abcd"[r.i(0, 3)]) + "=" + word(r, true, r.chance(0.4)) + (r.chance(0.2) ? "=" + word(r) : "");
      }
      NOTE("f" << i << ":" << l << ";");
      fs[i].push_back(l);
      f << l;
      if (k + 1 < n || r.chance(0.8)) f << "\n";
    }
    // a last empty line without its newline is no line
  }
  FilePropertiesProvider p; Map ref;
  for (int n = r.i(1, 2); n > 0; --n) {
    int i = r.i(0, 3);
    NOTE("read f" << i);
    p.append_file_content(dir.path + Dir::name(i)); read_ref(fs, i, ref);
  }
  for (auto &e : ref) CHECK(p.get_str(e.first, "<none>") == e.second, e.first << ": " << p.get_str(e.first, "<none>") << " not " << e.second);
  CHECK(p.available_properties().size() == ref.size(), p.available_properties().size() << " settings, not " << ref.size());
  p.set_property("a", "new");
  CHECK(p.get_str("a", "") == "new", "set_property");
}
