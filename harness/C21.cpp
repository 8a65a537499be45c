// C21: a configuration builds exactly the components it names
// NOTE: The factories are run on all configurations over the stated alphabets; the built object is compared by behaviour with an object constructed directly with the documented parameters.
#include "rng.h"
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include <typeinfo>
#include "common.h"
#include "utils/init_slam.h"
#include "slams/gmapping/init_gmapping.h"
#include "slams/credibilist/init_slam.h"
#include "utils/properties_providers.h"
using Props = MapPropertiesProvider; using Coord = RegularSquaresGrid::Coord;
static const std::string NONE = "<absent>";
// every key the factories document, with a value that differs from its default
static const std::vector<std::pair<std::string, std::string>> All = {
  {"slam/map/height_in_meters", "3"}, {"slam/map/width_in_meters", "4"}, {"slam/map/meters_per_cell", "0.5"},
  {"slam/occupancy_estimator/type", "area"}, {"slam/occupancy_estimator/base_occupied/prob", "0.7"}, {"slam/occupancy_estimator/base_occupied/qual", "0.6"},
  {"slam/occupancy_estimator/base_empty/prob", "0.2"}, {"slam/occupancy_estimator/base_empty/qual", "0.3"},
  {"slam/mapping/blur", "0.4"}, {"slam/mapping/max_range", "2.5"}, {"slam/mapping/observation_quality_estimator/type", "ahr"},
  {"slam/mapping/corrected_pose_quality", "0.8"}, {"slam/mapping/raw_pose_quality", "0.35"},
  {"slam/mapping/grid/type", "plain"}, {"slam/mapping/grid/area/type", "mean_probability"},
  {"slam/scmtch/type", "idle"}, {"slam/scmtch/use_amb_drift_detector", "true"},
  {"slam/scmtch/MC/attempts_limit", "13"}, {"slam/scmtch/MC/seed", "5"}, {"slam/scmtch/MC/dispersion/translation", "0.33"}, {"slam/scmtch/MC/dispersion/rotation", "0.44"}, {"slam/scmtch/MC/dispersion/failed_attempts_limit", "7"},
  {"slam/scmtch/HC/distortion/translation", "0.33"}, {"slam/scmtch/HC/distortion/rotation", "0.44"}, {"slam/scmtch/HC/distortion/failed_attempts_limit", "3"}, {"slam/scmtch/HC/use_frame_alignement", "true"},
  {"slam/scmtch/BF/x/from", "-0.2"}, {"slam/scmtch/BF/x/to", "0.31"}, {"slam/scmtch/BF/x/step", "0.25"}, {"slam/scmtch/BF/y/from", "-0.3"}, {"slam/scmtch/BF/y/to", "0.41"}, {"slam/scmtch/BF/y/step", "0.35"},
  {"slam/scmtch/BF/t/from", "-0.02"}, {"slam/scmtch/BF/t/to", "0.05"}, {"slam/scmtch/BF/t/step", "0.03"},
  {"slam/scmtch/BF_M3RSM/accuracy/rotation", "0.03"}, {"slam/scmtch/BF_M3RSM/accuracy/translation", "0.3"}, {"slam/scmtch/BF_M3RSM/limits/x_translation", "0.7"}, {"slam/scmtch/BF_M3RSM/limits/y_translation", "0.9"}, {"slam/scmtch/BF_M3RSM/limits/rotation", "0.06"},
  {"slam/scmtch/spe/type", "wmpp"}, {"slam/scmtch/spe/wmpp/weighting/type", "viny"}, {"slam/scmtch/spe/wmpp/sp_skip_rate", "2"}, {"slam/scmtch/spe/wmpp/sp_max_usable_range", "2.2"},
  {"slam/scmtch/oope/type", "mean"}, {"slam/scmtch/oie/type", "occupancy"}, {"slam/scmtch/oope/custom/fullness_threshold", "0.45"}, {"slam/scmtch/oope/custom/window_size", "2"},
  {"slam/particles/number", "4"}, {"slam/particles/sample/xy/mean", "0.5"}, {"slam/particles/sample/xy/sigma", "0.2"}, {"slam/particles/sample/theta/mean", "0.25"}, {"slam/particles/sample/theta/sigma", "0.07"},
  {"slam/particles/sm_delta_lim/xy/min", "0.1"}, {"slam/particles/sm_delta_lim/xy/max", "0.15"}, {"slam/particles/sm_delta_lim/theta/min", "0.05"}, {"slam/particles/sm_delta_lim/theta/max", "0.07"}};
static bool begins(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
// everything is built from a configuration that differs from the defaults and from the values the scenarios configure
static void decoys() {
  Props p; for (auto &kv : All) p.set_property(kv.first, kv.second);
  for (auto t : {"MC", "HC", "BF", "BF_M3RSM", "idle"}) { p.set_property("slam/scmtch/type", t); p.set_property("slam/scmtch/use_amb_drift_detector", t[0] == 'i' ? "true" : "false"); init_scan_matcher(p); if (std::string(t) == "BF_M3RSM") init_grid_map(p); }
  init_grid_map(p); init_scan_adder(p); init_occ_estimator(p); init_omqe(p); init_pose_quality_estimators(p); init_1h_slam(p); init_credibilist_slam(p);
  p.set_property("slam/scmtch/oope/type", "custom"); init_gmapping_params(p); init_particles_nm(p); init_gmapping_prob_estimator(p); init_gmapping(p);
}
// a configuration: the keys of other components are all absent or all set to values that differ from the defaults
struct Config {
  mc::Ctx &cx; Props p; std::ostringstream text;
  Config(mc::Ctx &c, std::vector<std::string> own, std::vector<std::string> foreign_in_own = {}) : cx(c) {
    if (cx.flag("another configuration used before")) { decoys(); text << "(after another configuration was used) "; }
    bool noise = cx.flag("other keys set"); text << (noise ? "all other keys set" : "no other keys");
    if (noise) for (auto &kv : All) { bool mine = false; for (auto &o : own) mine |= begins(kv.first, o); for (auto &o : foreign_in_own) if (begins(kv.first, o)) mine = false; if (!mine) p.set_property(kv.first, kv.second); }
  }
  void set(const std::string &k, const std::string &v) { p.set_property(k, v); text << ", " << k << "=" << v; }
  std::string str(const std::string &k, const std::vector<std::string> &vals, const std::string &dflt) { auto v = cx.pick(vals, k.c_str()); if (v == NONE) return dflt; set(k, v); return v; }
  double num(const std::string &k, const std::string &v, double dflt) { if (!cx.flag(k.c_str())) return dflt; set(k, v); return std::stod(v); }
};
static TransformedLaserScan scan(int kind) {
  TransformedLaserScan s; s.quality = 1; s.pose_delta = RobotPoseDelta{0, 0, 0}; auto &P = s.scan.points();
  if (kind == 0) for (int i = 0; i < 7; ++i) P.push_back(ScanPoint2D::make_polar(1.23 + 0.21 * i, -0.9 + 0.31 * i, i != 4));
  else for (int i = 0; i < 7; ++i) P.push_back(ScanPoint2D::make_polar(2.9 - 0.17 * i * i * 0.4, 1.2 - 0.37 * i, true));
  return s;
}
static void same_map(mc::Ctx &cx, const GridMap &a, const GridMap &b, const std::string &what, const std::string &ctx) {
  MC_CHECK(cx, a.width() == b.width() && a.height() == b.height() && mc::near(a.scale(), b.scale()), what + "-size", what << " differs in size: " << a.width() << "x" << a.height() << "x" << a.scale() << " expected " << b.width() << "x" << b.height() << "x" << b.scale() << "; " << ctx);
  for (int x = -40; x < 40; ++x) for (int y = -40; y < 40; ++y) {
    Coord c{x, y}; MC_CHECK(cx, a.has_cell(c) == b.has_cell(c), what + "-cells", what << " differs in having cell " << x << "," << y << "; " << ctx);
    if (!a.has_cell(c)) continue; auto &p = a[c]; auto &q = b[c];
    MC_CHECK(cx, mc::near(p.occupancy().prob_occ, q.occupancy().prob_occ) && mc::near(p.occupancy().estimation_quality, q.occupancy().estimation_quality), what + "-content", what << " holds " << p.occupancy() << " in cell " << x << "," << y << ", expected " << q.occupancy() << "; " << ctx);
  }
}
static std::shared_ptr<GridCell> cell(const std::string &t) {
  if (t == "tbm_consistent") return std::make_shared<TbmOccConsistentCell>(); if (t == "tbm_unknown_even_occ") return std::make_shared<TbmUnknownEvenOccCell>();
  if (t == "affine_quality_merge") return std::make_shared<AffineQualityMergeCell>(); return std::make_shared<MeanProbabilityCell>();
}
static std::shared_ptr<ObservationImpactEstimator> oie(const std::string &t) { if (t == "occupancy") return std::make_shared<OccupancyOIE>(); return std::make_shared<DiscrepancyOIE>(); }
static std::shared_ptr<OccupancyObservationProbabilityEstimator> oope(const std::string &t, std::shared_ptr<ObservationImpactEstimator> o) {
  if (t == "max") return std::make_shared<MaxOccupancyObservationPE>(o); if (t == "mean") return std::make_shared<MeanOccupancyObservationPE>(o);
  if (t == "overlap") return std::make_shared<OverlapWeightedOccupancyObservationPE>(o); return std::make_shared<ObstacleBasedOccupancyObservationPE>(o);
}
static std::shared_ptr<ScanPointWeighting> spw(const std::string &t) { if (t == "viny") return std::make_shared<VinySlamSPW>(); if (t == "ahr") return std::make_shared<AngleHistogramReciprocalSPW>(); return std::make_shared<EvenSPW>(); }
template <typename M> static std::shared_ptr<GridMap> direct(bool m3, std::shared_ptr<ObservationImpactEstimator> o, std::shared_ptr<GridCell> c, GridMapParams g) {
  if (m3) return std::make_shared<M3RSMRescalableGridMap<M>>(o, c, g); return std::make_shared<M>(c, g);
}
static std::shared_ptr<GridMap> any_map(const std::string &t, bool m3, std::shared_ptr<ObservationImpactEstimator> o, std::shared_ptr<GridCell> c, GridMapParams g) {
  if (t == "plain") return direct<PlainGridMap>(m3, o, c, g); if (t == "unbounded_plain") return direct<UnboundedPlainGridMap>(m3, o, c, g);
  if (t == "lazy_tiled") return direct<LazyTiledGridMap>(m3, o, c, g); return direct<UnboundedLazyTiledGridMap>(m3, o, c, g);
}
static const std::vector<std::string> MapT = {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"}, CellT = {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"};
static GridMapParams params(Config &c) {
  double h = c.num("slam/map/height_in_meters", "7.3", 10), w = c.num("slam/map/width_in_meters", "12.1", 10), s = c.num("slam/map/meters_per_cell", "0.37", 0.1);
  return GridMapParams{int(std::ceil(w / s - 1e-9)), int(std::ceil(h / s - 1e-9)), s};
}
static void write_some(GridMap &m) { for (int k = 0; k < 12; ++k) { Coord c{-3 + (k * 5) % 7, -2 + (k * 3) % 5}; m.update(c, AreaOccupancyObservation{k % 3 == 0, Occupancy{k % 3 ? 0.2 : 0.9, 0.3 + 0.05 * k}, {c.x * 0.5, c.y * 0.5}, 0.4 + 0.02 * k}); for (int k = 0; k < 48; ++k) { Coord c{-6 + (k * 5) % 13, -5 + (k * 7) % 11}; m.update(c, AreaOccupancyObservation{k % 2 == 0, Occupancy{((k * 11) % 16 + 1) / 17.0, ((k * 5) % 9 + 1) / 10.0}, {c.x * 0.5, c.y * 0.5}, ((k * 7) % 10 + 1) / 10.0}); } } }
MC_SCENARIO(map, 3) {
  Config c{cx, {"slam/map/", "slam/mapping/grid/", "slam/scmtch/type", "slam/scmtch/oie"}};
  auto t = cx.pick(MapT, "map"), a = cx.pick(CellT, "cell"); c.set("slam/mapping/grid/type", t); c.set("slam/mapping/grid/area/type", a);
  auto sm = c.str("slam/scmtch/type", {NONE, "HC", "BF_M3RSM"}, ""); bool m3 = sm == "BF_M3RSM"; auto o = c.str("slam/scmtch/oie/type", {NONE, "discrepancy", "occupancy"}, "discrepancy");
  auto g = params(c); std::string ctx = c.text.str(); MC_LOG(cx, ctx);
  auto made = init_grid_map(c.p), want = any_map(t, m3, oie(o), cell(a), g); cx.step();
  MC_CHECK(cx, typeid(*made) == typeid(*want), "map-kind", "a " << typeid(*made).name() << " was built; " << ctx); 
  auto nc = made->new_cell(), wc = want->new_cell(); MC_CHECK(cx, typeid(*nc) == typeid(*wc), "cell-kind", "the map is made of " << typeid(*nc).name() << "; " << ctx);
  same_map(cx, *made, *want, "map", ctx); write_some(*made); write_some(*want); same_map(cx, *made, *want, "map", ctx);
  if (m3) { auto &x = dynamic_cast<RegularSquaresGrid &>(*made); auto &y = dynamic_cast<RegularSquaresGrid &>(*want);
    double fine = want->scale(); for (unsigned l = 0; l < 5; ++l) { x.rescale(fine * (1 << l)); y.rescale(fine * (1 << l)); for (int i = -6; i < 6; ++i) for (int j = -6; j < 6; ++j) { Coord k{i, j}; if (!want->has_cell(k)) continue; MC_CHECK(cx, made->has_cell(k) && mc::near(made->occupancy(k), want->occupancy(k)), "coarse", "level " << l << " holds " << made->occupancy(k) << " in " << i << "," << j << ", expected " << want->occupancy(k) << "; " << ctx); } } }
  cx.state(mc::Hash() << t << a << sm << o << g.width_cells << g.height_cells << g.meters_per_cell); cx.outcome(mc::Hash() << made->width() << made->height() << t << a);
}
static const std::vector<std::string> EstT = {NONE, "const", "area"};
static std::shared_ptr<CellOccupancyEstimator> estimator(Config &c, bool full) {
  auto t = c.str("slam/occupancy_estimator/type", EstT, "const"); std::string k = "slam/occupancy_estimator/";
  double v[4] = {0.95, 1, 0.01, 1}; const char *n[4] = {"base_occupied/prob", "base_occupied/qual", "base_empty/prob", "base_empty/qual"}, *x[4] = {"0.8", "0.61", "0.15", "0.27"};
  bool all = !full && c.cx.flag("all four");
  for (int i = 0; i < 4; ++i) if (full) v[i] = c.num(k + n[i], x[i], v[i]); else if (all) { c.set(k + n[i], x[i]); v[i] = std::stod(x[i]); }
  Occupancy oc{v[0], v[1]}, em{v[2], v[3]}; if (t == "area") return std::make_shared<AreaOccupancyEstimator>(oc, em); return std::make_shared<ConstOccupancyEstimator>(oc, em);
}
static bool same(const Occupancy &a, const Occupancy &b) { return mc::near(a.prob_occ, b.prob_occ) && mc::near(a.estimation_quality, b.estimation_quality); }
MC_SCENARIO(occupancy_estimator, 3) {
  Config c{cx, {"slam/occupancy_estimator/"}}; auto want = estimator(c, true); std::string ctx = c.text.str(); auto made = init_occ_estimator(c.p); cx.step();
  mc::Hash h; for (double x : {0.31, 0.52, 1.7, -0.4}) for (double y : {0.27, 0.58, 2.1}) for (bool occ : {true, false}) { Segment2D b{{-1.1, -0.83}, {x, y}}; Rectangle r{0, 1, 0, 1}; auto p = made->estimate_occupancy(b, r, occ), q = want->estimate_occupancy(b, r, occ); h << p.prob_occ << p.estimation_quality;
    MC_CHECK(cx, same(p, q), "estimate", "a beam to (" << x << "," << y << ") " << (occ ? "occupied" : "empty") << " is estimated " << p << ", expected " << q << "; " << ctx); }
  cx.state(h); cx.outcome(h);
}
static std::shared_ptr<GridMapScanAdder> adder(Config &c, bool full) {
  auto e = estimator(c, full); auto q = c.str("slam/mapping/observation_quality_estimator/type", {NONE, "idle", "ahr"}, "idle");
  double blur = c.num("slam/mapping/blur", "0.55", 0), range = c.num("slam/mapping/max_range", "2.1", std::numeric_limits<double>::infinity());
  std::shared_ptr<ObservationMappingQualityEstimator> oq; if (q == "ahr") oq = std::make_shared<AngleHistogramResiprocalOMQE>(); else oq = std::make_shared<IdleOMQE>();
  return WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(e).set_observation_quality_estimator(oq).set_blur_distance(blur).set_max_usable_range(range).build();
}
MC_SCENARIO(scan_adder, 3) {
  Config c{cx, {"slam/occupancy_estimator/", "slam/mapping/blur", "slam/mapping/max_range", "slam/mapping/observation_quality_estimator/"}}; auto want = adder(c, cx.thorough); std::string ctx = c.text.str(); auto made = init_scan_adder(c.p); cx.step();
  UnboundedPlainGridMap a{std::make_shared<HCell>(), GridMapParams{9, 9, 0.2}}, b{std::make_shared<HCell>(), GridMapParams{9, 9, 0.2}};
  for (int k = 0; k < 2; ++k) { auto s = scan(k); made->append_scan(a, RobotPose{0.13, -0.21, 0.4 * k}, s.scan, 0.7); want->append_scan(b, RobotPose{0.13, -0.21, 0.4 * k}, s.scan, 0.7); }
  same_map(cx, a, b, "mapped scan", ctx); mc::Hash h; for (int i = -10; i < 20; ++i) for (int j = -10; j < 20; ++j) if (a.has_cell({i, j})) h << a.occupancy({i, j}); cx.state(h); cx.outcome(h);
}
static void fill(GridMap &m) { for (int x = -30; x < 30; ++x) for (int y = -30; y < 30; ++y) if ((x * 7 + y * 3) % 4) { double v = ((x * 13 + y * 29) % 17 + 17) % 17 / 17.0; m.update({x, y}, AreaOccupancyObservation{v > 0.5, Occupancy{v, 0.6}, m.cell_to_world({x, y}), 0.9}); } }
static std::shared_ptr<OccupancyObservationProbabilityEstimator> score(Config &c) { auto i = c.str("slam/scmtch/oie/type", {NONE, "discrepancy", "occupancy"}, "discrepancy"), t = c.str("slam/scmtch/oope/type", {NONE, "obstacle", "max", "mean", "overlap"}, "obstacle"); return oope(t, oie(i)); }
MC_SCENARIO(observation_estimator, 2) {
  Config c{cx, {"slam/scmtch/oope/type", "slam/scmtch/oie/type"}}; auto want = score(c); std::string ctx = c.text.str(); auto made = init_oope(c.p); cx.step();
  UnboundedPlainGridMap m{cell(cx.pick(CellT, "cell")), GridMapParams{9, 9, 0.2}}; fill(m); mc::Hash h;
  for (int k = 0; k < 12; ++k) { Point2D p{-1.03 + 0.37 * k, 0.71 - 0.23 * k}; AreaOccupancyObservation o{true, {1, 1}, p, 1}; LightWeightRectangle r{p.y - 0.31, p.y + 0.27, p.x - 0.22, p.x + 0.43};
    double a = made->probability(o, r, m), b = want->probability(o, r, m); h << a; MC_CHECK(cx, mc::near(a, b), "probability", "the probability is " << a << ", expected " << b << "; " << ctx); }
  cx.state(h); cx.outcome(h);
}
static bool same_scan(const LaserScan2D &a, const LaserScan2D &b) { auto &p = a.points(), &q = b.points(); if (p.size() != q.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (!mc::near(p[i].range(), q[i].range()) || !mc::near(p[i].angle(), q[i].angle())) return false; return true; }
static std::shared_ptr<ScanProbabilityEstimator> spe(Config &c, std::shared_ptr<OccupancyObservationProbabilityEstimator> o) {
  c.set("slam/scmtch/spe/type", "wmpp"); std::string k = "slam/scmtch/spe/wmpp/", w = c.cx.pick(std::vector<std::string>{"even", "viny", "ahr"}, "weighting"); c.set(k + "weighting/type", w);
  unsigned skip = std::stoul(c.str(k + "sp_skip_rate", {NONE, "0", "1", "2", "3"}, "0")); double range = c.num(k + "sp_max_usable_range", "1.9", -1);
  return std::make_shared<WeightedMeanPointProbabilitySPE>(o, spw(w), skip, range);
}
static void same_spe(mc::Ctx &cx, ScanProbabilityEstimator &made, ScanProbabilityEstimator &want, const GridMap &m, const std::string &ctx) {
  mc::Hash h; for (int k = 0; k < 2; ++k) for (int z = 0; z < 2; ++z) {
    RobotPose p{0.17 + 0.31 * k, -0.23, 0.3 * k}; auto r = scan(k).scan; auto a = made.filter_scan(r, p, m), b = want.filter_scan(r, p, m); MC_CHECK(cx, same_scan(a, b), "filtered-scan", "filtering leaves " << a.points().size() << " points, expected " << b.points().size() << "; " << ctx);
    ScanProbabilityEstimator::SPEParams sp; if (z) sp.sp_analysis_area = LightWeightRectangle{-0.31, 0.27, -0.42, 0.33};
    double x = made.estimate_scan_probability(a, p, m, sp), y = want.estimate_scan_probability(b, p, m, sp); h << x; MC_CHECK(cx, mc::near(x, y), "scan-probability", "the scan probability is " << x << ", expected " << y << "; " << ctx); }
  cx.state(h); cx.outcome(h);
}
MC_SCENARIO(scan_probability, 3) {
  Config c{cx, {"slam/scmtch/oope/type", "slam/scmtch/oie/type", "slam/scmtch/spe/"}}; auto want = spe(c, score(c)); std::string ctx = c.text.str(); auto made = init_spe(c.p); cx.step();
  UnboundedPlainGridMap m{std::make_shared<AffineQualityMergeCell>(), GridMapParams{9, 9, 0.2}}; fill(m); same_spe(cx, *made, *want, m, ctx);
}
// ---- matchers: which poses they test, and what they return, on a smooth score
struct FieldSPE : ScanProbabilityEstimator {
  mutable std::vector<RobotPose> poses; RobotPose t; FieldSPE(RobotPose g) : ScanProbabilityEstimator{nullptr}, t(g) {}
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override { poses.push_back(p); return 1 / (1 + std::hypot(p.x - t.x, p.y - t.y) + std::fabs(p.theta - t.theta)); }
};
static const std::vector<RobotPose> Goals = {{0.3, -0.2, 0.05}, {5.61, -3.07, -0.04}};
static void same_sm(mc::Ctx &cx, GridScanMatcher &made, GridScanMatcher &want, const std::string &ctx) {
  UnboundedPlainGridMap m{std::make_shared<HCell>(), GridMapParams{3, 3, 1}}; mc::Hash h;
  for (int k = 0; k < 2; ++k) {
    auto x = std::make_shared<FieldSPE>(Goals[k]), y = std::make_shared<FieldSPE>(Goals[k]); made.set_scan_probability_estimator(x); want.set_scan_probability_estimator(y);
    RobotPose at = k ? RobotPose{5.4, -3, 0} : RobotPose{0, 0, 0}; RobotPoseDelta p, q; made.reset_state(); want.reset_state(); double a = made.process_scan(scan(k), at, m, p), b = want.process_scan(scan(k), at, m, q);
    MC_CHECK(cx, x->poses.size() == y->poses.size(), "tested", x->poses.size() << " poses were tested, expected " << y->poses.size() << "; " << ctx);
    for (size_t i = 0; i < x->poses.size(); ++i) { auto &u = x->poses[i], &v = y->poses[i]; h << u.x << u.y << u.theta; MC_CHECK(cx, mc::near(u.x, v.x) && mc::near(u.y, v.y) && mc::near(u.theta, v.theta), "tested", "pose " << i << " tested is " << u << ", expected " << v << "; " << ctx); }
    MC_CHECK(cx, mc::near(a, b) && mc::near(p.x, q.x) && mc::near(p.y, q.y) && mc::near(p.theta, q.theta), "matched", "matched " << p << " (" << a << "), expected " << q << " (" << b << "); " << ctx);
  }
  cx.state(h); cx.outcome(h);
}
static void base_spe(Config &c) { c.set("slam/scmtch/spe/type", "wmpp"); c.set("slam/scmtch/spe/wmpp/weighting/type", "even"); }
static std::shared_ptr<ScanProbabilityEstimator> none() { return std::make_shared<FieldSPE>(Goals[0]); }
MC_SCENARIO(monte_carlo, 3) {
  Config c{cx, {"slam/scmtch/MC/", "slam/scmtch/type", "slam/scmtch/use_amb"}}; base_spe(c); std::string k = "slam/scmtch/MC/"; c.set("slam/scmtch/type", "MC");
  int seed = cx.pick(std::vector<int>{0, 7, 666666, -7, -2147483647}, "seed"); c.set(k + "seed", std::to_string(seed)); double t = c.num(k + "dispersion/translation", "0.31", 0.2), r = c.num(k + "dispersion/rotation", "0.23", 0.1); unsigned f = c.num(k + "dispersion/failed_attempts_limit", "9", 20), n = c.num(k + "attempts_limit", "41", 100);
  auto made = init_scan_matcher(c.p); cx.step(); MonteCarloScanMatcher want{none(), unsigned(seed), t, r, f, n}; same_sm(cx, *made, want, c.text.str());
}
// no seed given: two matchers differ, and a matcher of the seed that was reported (if any was) repeats the search
MC_SCENARIO(monte_carlo_random_seed, 2) {
  Config c{cx, {"slam/scmtch/MC/", "slam/scmtch/type", "slam/scmtch/use_amb"}}; base_spe(c); c.set("slam/scmtch/type", "MC"); mc::rng().restart(); mc::rng().seeds = 1 + cx.choose(24, "draw of the random device"); std::ostringstream log; auto old = std::cout.rdbuf(log.rdbuf()); std::shared_ptr<GridScanMatcher> made, other;
  try { made = init_scan_matcher(c.p); log << std::endl; std::ostringstream more; std::cout.rdbuf(more.rdbuf()); other = init_scan_matcher(c.p); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); cx.step();
  auto tested = [&](GridScanMatcher &g) { auto f = std::make_shared<FieldSPE>(Goals[0]); UnboundedPlainGridMap m{std::make_shared<HCell>(), GridMapParams{3, 3, 1}}; g.set_scan_probability_estimator(f); g.reset_state(); RobotPoseDelta d; g.process_scan(scan(0), RobotPose{0, 0, 0}, m, d); return f->poses; };
  auto a = tested(*made), b = tested(*other); bool differ = a.size() != b.size(); for (size_t i = 0; !differ && i < a.size(); ++i) differ = a[i].x != b[i].x; MC_CHECK(cx, differ, "random-seed", "two matchers without a seed test the same poses");
  std::string t = log.str(); size_t at = t.find("eed"); if (at != std::string::npos) { at = t.find_first_of("-0123456789", at); if (at != std::string::npos) { std::string s = t.substr(at, t.find_first_not_of("-0123456789", at) - at); c.set("slam/scmtch/MC/seed", s); auto again = init_scan_matcher(c.p); auto p = tested(*again); cx.nontrivial(); cx.counters["reported seeds tried"]++; MC_CHECK(cx, p.size() == a.size(), "reported-seed", "a matcher of the reported seed " << s << " tests " << p.size() << " poses instead of " << a.size()); for (size_t i = 0; i < a.size(); ++i) MC_CHECK(cx, mc::near(p[i].x, a[i].x) && mc::near(p[i].y, a[i].y) && mc::near(p[i].theta, a[i].theta), "reported-seed", "a matcher of the reported seed " << s << " tests another pose " << i); } }
  mc::Hash h; for (auto &p : a) h << p.x; cx.state(h); cx.outcome(h);
}
MC_SCENARIO(hill_climbing, 3) {
  Config c{cx, {"slam/scmtch/HC/", "slam/scmtch/type", "slam/scmtch/use_amb"}}; base_spe(c); std::string k = "slam/scmtch/HC/"; c.set("slam/scmtch/type", "HC");
  double t = c.num(k + "distortion/translation", "0.31", 0.1), r = c.num(k + "distortion/rotation", "0.23", 0.1); unsigned f = c.num(k + "distortion/failed_attempts_limit", "4", 6); bool fr = c.str(k + "use_frame_alignement", {NONE, "true", "false", "1", "0"}, "false")[0] == 't' || c.p.get_str(k + "use_frame_alignement", "") == "1";
  auto made = init_scan_matcher(c.p); cx.step(); HillClimbingScanMatcher want{none(), f, t, r, double(fr)}; same_sm(cx, *made, want, c.text.str());
}
MC_SCENARIO(brute_force, 5) {
  Config c{cx, {"slam/scmtch/BF/", "slam/scmtch/type", "slam/scmtch/use_amb"}}; base_spe(c); std::string k = "slam/scmtch/BF/"; c.set("slam/scmtch/type", "BF"); double d = M_PI / 180;
  double v[9] = {-0.5, 0.5, 0.1, -0.5, 0.5, 0.1, -5 * d, 5 * d, d}; const char *n[9] = {"x/from", "x/to", "x/step", "y/from", "y/to", "y/step", "t/from", "t/to", "t/step"}, *s[9] = {"-0.21", "0.33", "0.23", "-0.28", "0.42", "0.27", "-0.03", "0.07", "0.05"};
  for (int i = 0; i < 9; ++i) v[i] = c.num(k + n[i], s[i], v[i]);
  auto made = init_scan_matcher(c.p); cx.step(); BruteForceScanMatcher want{none(), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]}; same_sm(cx, *made, want, c.text.str());
}
struct CountSPE : ScanProbabilityEstimator {
  std::shared_ptr<ScanProbabilityEstimator> s; mutable std::vector<std::array<double, 6>> asked; CountSPE(std::shared_ptr<ScanProbabilityEstimator> e) : ScanProbabilityEstimator{e->occupancy_observation_probability_estimator()}, s(e) {}
  LaserScan2D filter_scan(const LaserScan2D &l, const RobotPose &p, const GridMap &m) override { return s->filter_scan(l, p, m); }
  double estimate_scan_probability(const LaserScan2D &l, const RobotPose &p, const GridMap &m, const SPEParams &a) const override { asked.push_back({p.x, p.y, p.theta, a.sp_analysis_area.hside_len(), a.sp_analysis_area.vside_len(), l.points().empty() ? 0 : l.points()[0].x()}); return s->estimate_scan_probability(l, p, m, a); }
};
MC_SCENARIO(branch_and_bound, 3) {
  Config c{cx, {"slam/scmtch/BF_M3RSM/", "slam/scmtch/type", "slam/scmtch/use_amb", "slam/scmtch/oope", "slam/scmtch/oie", "slam/scmtch/spe"}}; base_spe(c); std::string k = "slam/scmtch/BF_M3RSM/"; c.set("slam/scmtch/type", "BF_M3RSM"); c.set("slam/scmtch/oope/type", "max"); double d = M_PI / 180;
  double aa = c.num(k + "accuracy/rotation", "0.013", 0.1 * d), ta = c.num(k + "accuracy/translation", "0.11", 0.05), lx = c.num(k + "limits/x_translation", "0.7", 1), ly = c.num(k + "limits/y_translation", "0.8", 1), lr = c.num(k + "limits/rotation", "0.04", 5 * d);
  auto made = init_scan_matcher(c.p); cx.step(); BruteForceMultiResolutionScanMatcher want{none(), lx, ly, lr, aa, ta};
  auto mk = [] { return std::make_shared<WeightedMeanPointProbabilitySPE>(oope("max", oie("discrepancy")), spw("even")); };
  auto m = any_map("unbounded_plain", true, oie("discrepancy"), cell("affine_quality_merge"), GridMapParams{100, 100, 0.1}); for (int x = -50; x < 50; ++x) for (int y = -50; y < 50; ++y) { bool wall = x == 14 || (y == 9 && x > -5) || (x == -12 && y < 3); m->update({x, y}, AreaOccupancyObservation{wall, {wall ? 0.95 : 0.05, 1}, {0, 0}, 1}); }
  TransformedLaserScan s; s.quality = 1; for (auto q : std::vector<Point2D>{{1.2, 0.1}, {1.22, -0.6}, {0.5, 1.1}, {-0.1, 1.12}, {-1.3, -0.3}}) s.scan.points().push_back(ScanPoint2D::make_cartesian({q.x, q.y}, true));
  auto x = std::make_shared<CountSPE>(mk()), y = std::make_shared<CountSPE>(mk()); made->set_scan_probability_estimator(x); want.set_scan_probability_estimator(y); std::string ctx = c.text.str();
  RobotPoseDelta p, q; RobotPose at{0.03, -0.02, 0.01}; double a = made->process_scan(s, at, *m, p), b = want.process_scan(s, at, *m, q);
  MC_CHECK(cx, x->asked.size() == y->asked.size(), "tested", x->asked.size() << " candidate areas were examined, expected " << y->asked.size() << "; " << ctx);
  mc::Hash h; for (size_t i = 0; i < x->asked.size(); ++i) for (int j = 0; j < 6; ++j) { h << x->asked[i][j]; MC_CHECK(cx, mc::near(x->asked[i][j], y->asked[i][j]), "tested", "candidate area " << i << " differs; " << ctx); }
  MC_CHECK(cx, mc::near(a, b) && mc::near(p.x, q.x) && mc::near(p.y, q.y) && mc::near(p.theta, q.theta), "matched", "matched " << p << " (" << a << "), expected " << q << " (" << b << "); " << ctx);
  cx.state(h); cx.outcome(h);
}
MC_SCENARIO(other_matchers, 2) {
  Config c{cx, {"slam/scmtch/type", "slam/scmtch/use_amb"}}; base_spe(c); auto t = cx.pick(std::vector<std::string>{"idle", "HC_FIXED", "HC", "MC", "BF", "BF_M3RSM"}, "type"); c.set("slam/scmtch/type", t); 
  for (auto k : {"translation", "rotation", "failed_attempts_limit"}) c.set(std::string("slam/scmtch/HC/distortion/") + k, k[0] == 'f' ? "6" : "0.1"); c.set("slam/scmtch/HC/use_frame_alignement", "0");
  auto dd = c.str("slam/scmtch/use_amb_drift_detector", {NONE, "true", "false", "0", "1"}, "false"); bool d = dd == "true" || dd == "1";
  auto made = init_scan_matcher(c.p); cx.step(); MC_CHECK(cx, bool(dynamic_cast<ConnectTheDotsAmbiguousDriftDetector *>(made.get())) == d, "drift-detector", "drift detection is " << (d ? "not " : "") << "used; " << c.text.str());
  std::shared_ptr<GridScanMatcher> want; if (t == "idle") want = std::make_shared<NoActionScanMatcher>(none()); else if (t == "HC") want = std::make_shared<HillClimbingScanMatcher>(none(), 6, 0.1, 0.1, false); else want = std::make_shared<HillClimbingSMFixed>(none());
  if (!d && t != "MC" && t[0] != 'B') same_sm(cx, *made, *want, c.text.str()); else cx.outcome(mc::Hash() << t);
}
// a whole SLAM: every component reaches its place
static std::vector<RobotPose> drive(LaserScanGridWorld &w, const std::vector<RobotPoseDelta> &ds) { std::vector<RobotPose> r; int k = 0; for (auto &d : ds) { auto s = scan(k++ % 2); s.pose_delta = d; w.handle_sensor_data(s); r.push_back(w.pose()); } return r; }
static const std::vector<RobotPoseDelta> Drive = {{0, 0, 0}, {0.21, 0.05, 0.1}, {0.9, -0.11, 0.52}, {0.05, 0.02, -0.3}};
static void same_world(mc::Ctx &cx, LaserScanGridWorld &made, LaserScanGridWorld &want, const std::string &ctx) {
  auto a = drive(made, Drive), b = drive(want, Drive); mc::Hash h; for (size_t i = 0; i < a.size(); ++i) { h << a[i].x << a[i].y << a[i].theta; MC_CHECK(cx, mc::near(a[i].x, b[i].x) && mc::near(a[i].y, b[i].y) && mc::near(a[i].theta, b[i].theta), "slam-pose", "after scan " << i << " the pose is " << a[i] << ", expected " << b[i] << "; " << ctx); }
  const LaserScanGridWorld &ca = made, &cb = want; same_map(cx, ca.map(), cb.map(), "slam map", ctx); cx.state(h); cx.outcome(h);
}
MC_SCENARIO(single_hypothesis_slam, 3) {
  int kind = cx.choose(2, "credibilist"); Config c{cx, {"slam/map", "slam/mapping", "slam/scmtch/", "slam/occupancy_estimator"}, {"slam/scmtch/MC", "slam/scmtch/HC", "slam/scmtch/BF", "slam/scmtch/oope/custom"}};
  SingleStateHypothesisLSGWProperties w; std::string t = cx.pick(MapT, "map"), a = cx.pick(CellT, "cell"); c.set("slam/mapping/grid/type", t); c.set("slam/mapping/grid/area/type", a);
  double cq = c.num("slam/mapping/corrected_pose_quality", "0.77", 1), rq = c.num("slam/mapping/raw_pose_quality", "0.31", 0.5); auto g = params(c);
  auto m = cx.pick(std::vector<std::string>{"HC", "idle"}, "matcher"); c.set("slam/scmtch/type", m); c.set("slam/scmtch/spe/type", "wmpp"); c.set("slam/scmtch/spe/wmpp/weighting/type", "viny"); c.set("slam/mapping/blur", "0.3");
  for (auto k : {"translation", "rotation", "failed_attempts_limit"}) c.set(std::string("slam/scmtch/HC/distortion/") + k, k[0] == 'f' ? "4" : "0.2"); c.set("slam/scmtch/HC/use_frame_alignement", "0");
  auto s = std::make_shared<WeightedMeanPointProbabilitySPE>(oope("obstacle", oie("discrepancy")), spw("viny"), 0, -1);
  w.localized_scan_quality = kind ? 0.9 : cq; w.raw_scan_quality = kind ? 0.6 : rq; w.grid_map = any_map(t, false, nullptr, kind ? std::make_shared<CredibilistCell>() : cell(a), g);
  if (m == "HC") w.gsm = std::make_shared<HillClimbingScanMatcher>(s, 4, 0.2, 0.2); else w.gsm = std::make_shared<NoActionScanMatcher>(s);
  w.gmsa = WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1}, Occupancy{0.01, 1})).set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(0.3).build();
  SingleStateHypothesisLaserScanGridWorld want{w}; auto made = kind ? init_credibilist_slam(c.p) : init_1h_slam(c.p); cx.step(); same_world(cx, *made, want, c.text.str());
}
// ---- GMapping
static std::string pdelta(const RobotPoseDelta &d) { std::ostringstream o; o << d; return o.str(); }
MC_SCENARIO(particle_parameters, 3) {
  Config c{cx, {"slam/particles/"}}; std::string k = "slam/particles/"; double v[8] = {0, 0.1, 0, 0.03, 0.6, 0.8, 0.3, 0.4}; const char *n[8] = {"sample/xy/mean", "sample/xy/sigma", "sample/theta/mean", "sample/theta/sigma", "sm_delta_lim/xy/min", "sm_delta_lim/xy/max", "sm_delta_lim/theta/min", "sm_delta_lim/theta/max"}, *s[8] = {"0.4", "0.22", "0.17", "0.09", "0.51", "0.93", "0.11", "0.47"};
  for (int i = 0; i < 8; ++i) v[i] = c.num(k + n[i], s[i], v[i]); unsigned num = std::stoul(c.str(k + "number", {NONE, "1", "17", "1300"}, "30")); std::string ctx = c.text.str();
  MC_CHECK(cx, init_particles_nm(c.p) == num, "particle-number", init_particles_nm(c.p) << " particles, expected " << num << "; " << ctx); cx.step();
  auto made = init_gmapping_params(c.p); mc::Hash h; std::mt19937 e1{11}, e2{11}, e3{12}, e4{12};
  GaussianRV1D<std::mt19937> gx{v[0], v[1]}, gt{v[2], v[3]}; UniformRV1D<std::mt19937> ux{v[4], v[5]}, ut{v[6], v[7]}; RobotPoseDeltaRV<std::mt19937> g{gx, gx, gt}, u{ux, ux, ut};
  for (int i = 0; i < 5; ++i) { auto a = made.pose_guess_rv.sample(e1), b = g.sample(e2), p = made.next_sm_delta_rv.sample(e3), q = u.sample(e4); h << a.x << a.theta << p.x << p.theta;
    MC_CHECK(cx, mc::near(a.x, b.x) && mc::near(a.y, b.y) && mc::near(a.theta, b.theta), "pose-guess", "a pose guess is " << a << ", expected " << b << "; " << ctx); MC_CHECK(cx, mc::near(p.x, q.x) && mc::near(p.y, q.y) && mc::near(p.theta, q.theta), "matching-step", "a matching step is " << p << ", expected " << q << "; " << ctx); }
  cx.state(h); cx.outcome(h);
}
MC_SCENARIO(gmapping_score, 2) {
  Config c{cx, {"slam/scmtch/oope/", "slam/scmtch/spe/"}}; std::string k = "slam/scmtch/oope/"; c.str(k + "type", {NONE, "custom"}, ""); double th = c.num(k + "custom/fullness_threshold", "0.45", 0.1); unsigned ws = std::stoul(c.str(k + "custom/window_size", {NONE, "0", "1", "3"}, "1"));
  auto want = spe(c, std::make_shared<GmappingOccupancyObservationPE>(th, ws)); auto made = init_gmapping_prob_estimator(c.p); cx.step();
  UnboundedLazyTiledGridMap m{std::make_shared<GmappingBaseCell>(), GridMapParams{9, 9, 0.2}}; for (int x = -12; x < 20; ++x) for (int y = -12; y < 20; ++y) if ((x * 5 + y * 3) % 11 == 0) { for (int i = 0; i < 1 + (x * x + y) % 4; ++i) m.update({x, y}, AreaOccupancyObservation{i == 0, Occupancy{i ? 0.1 : 0.9, 1}, {x * 0.2 + 0.07, y * 0.2 + 0.11}, 1}); }
  same_spe(cx, *made, *want, m, c.text.str());
}
MC_SCENARIO(gmapping_slam, 2) {
  Config c{cx, {"slam/map/", "slam/scmtch/oope/", "slam/scmtch/spe/", "slam/particles/", "slam/occupancy_estimator/", "slam/mapping/blur", "slam/mapping/max_range", "slam/mapping/obs"}}; auto g = params(c); std::string k = "slam/particles/";
  for (auto s : {"sample/xy/mean", "sample/xy/sigma", "sample/theta/mean", "sample/theta/sigma"}) c.set(k + s, "0"); // no randomness is left
  double xy = cx.flag("far") ? 0.5 : 0.1, th = cx.flag("turned") ? 0.4 : 0.1; c.set(k + "sm_delta_lim/xy/min", std::to_string(xy)); c.set(k + "sm_delta_lim/xy/max", std::to_string(xy)); c.set(k + "sm_delta_lim/theta/min", std::to_string(th)); c.set(k + "sm_delta_lim/theta/max", std::to_string(th));
  unsigned n = cx.pick(std::vector<unsigned>{1, 2}, "particles"); c.set(k + "number", std::to_string(n)); c.set("slam/scmtch/spe/type", "wmpp"); c.set("slam/scmtch/spe/wmpp/weighting/type", "even"); double blur = c.num("slam/mapping/blur", "0.4", 0);
  SingleStateHypothesisLSGWProperties w; w.localized_scan_quality = w.raw_scan_quality = 1; w.scan_margin = 0; w.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmappingBaseCell>(), g);
  w.gsm = std::make_shared<HillClimbingScanMatcher>(std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<GmappingOccupancyObservationPE>(0.1, 1), spw("even"), 0, -1), 6, 0.1, 0.1);
  w.gmsa = WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.95, 1}, Occupancy{0.01, 1})).set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(blur).build();
  GmappingParticleFilter want{w, GMappingParams{0, 0, 0, 0, xy, xy, th, th}, n}; auto made = init_gmapping(c.p); cx.step(); same_world(cx, *made, want, c.text.str());
}
// ---- values outside of the documentation are rejected
MC_SCENARIO(rejections, 1) {
  struct R { const char *key; std::function<void(Props &)> build; bool required; const char *good; };
  static const std::vector<R> rs = {
    {"slam/occupancy_estimator/type", [](Props &p) { init_occ_estimator(p); }, false, "area"}, {"slam/mapping/observation_quality_estimator/type", [](Props &p) { init_omqe(p); }, false, "ahr"},
    {"slam/mapping/grid/area/type", [](Props &p) { init_grid_map(p); }, true, "mean_probability"}, {"slam/mapping/grid/type", [](Props &p) { init_grid_map(p); }, true, "plain"},
    {"slam/scmtch/oie/type", [](Props &p) { init_oope(p); }, false, "occupancy"}, {"slam/scmtch/oope/type", [](Props &p) { init_oope(p); }, false, "max"}, {"slam/scmtch/spe/wmpp/weighting/type", [](Props &p) { init_spe(p); }, true, "ahr"},
    {"slam/scmtch/spe/type", [](Props &p) { init_spe(p); }, true, "wmpp"}, {"slam/scmtch/type", [](Props &p) { init_scan_matcher(p); }, true, "BF"}, {"slam/scmtch/oope/type", [](Props &p) { init_gmapping_prob_estimator(p); }, false, "custom"}};
  auto &r = cx.pick(rs, "factory"); auto v = cx.pick(std::vector<std::string>{NONE, "good", "", "undefined", "Const", "<undefined>", "obstacles", "ma", "const ", "default"}, "value"); if (v == "good") v = r.good;
  Props p; p.set_property("slam/mapping/grid/type", "plain"); p.set_property("slam/mapping/grid/area/type", "mean_probability"); p.set_property("slam/scmtch/spe/type", "wmpp"); p.set_property("slam/scmtch/spe/wmpp/weighting/type", "even"); p.set_property("slam/scmtch/type", "idle");
  Props q; for (auto &n : p.available_properties()) if (n != r.key) q.set_property(n, p.get_str(n, "")); if (v != NONE) q.set_property(r.key, v);
  bool ok = v == NONE ? !r.required : v == r.good; auto d = mc::died([&] { r.build(q); }); cx.step();
  MC_CHECK(cx, ok == d.empty(), ok ? "accepted-value-rejected" : "unknown-value-accepted", r.key << "=" << v << (ok ? " is rejected: " : " is accepted") << d);
  cx.state(mc::Hash() << std::string(r.key) << v << ok); cx.outcome(mc::Hash() << std::string(r.key) << ok);
}
// ---- the configurations shipped with the project name complete, known SLAMs
MC_SCENARIO(shipped_configurations, 1) {
  std::string root = std::getenv("VERIF_REPO") ? std::getenv("VERIF_REPO") : "/repo"; root += "/config/";
  static const std::vector<std::pair<std::string, int>> fs = {{"bag_runner/tiny_mit", 0}, {"bag_runner/viny_mit", 0}, {"bag_runner/viny_pr2", 0}, {"bag_runner/gmapping_mit", 1}, {"slams/viny_slam_experimental", 0}, {"slams/viny_slam_base", 0}, {"slams/tiny_slam_base", 0}, {"slams/gmapping_base", 1},
    {"common/bf_m3rsm", 2}, {"common/hill_climbing_scan_matching", 2}, {"common/monte_carlo_scan_matching", 2}};
  auto &f = cx.pick(fs, "file"); std::string path = root + f.first + ".properties"; if (!std::ifstream(path)) return; // a tree without this file
  auto d = mc::died([&] { FilePropertiesProvider p; p.append_file_content(path); if (f.second == 0) init_1h_slam(p); else if (f.second == 1) init_gmapping(p); else { p.set_property("slam/scmtch/spe/type", "wmpp"); p.set_property("slam/scmtch/spe/wmpp/weighting/type", "even"); init_scan_matcher(p); } }); cx.step();
  MC_CHECK(cx, d.empty(), "shipped-configuration", "nothing can be built from " << f.first << ".properties: " << d); cx.outcome(mc::Hash() << f.first); cx.state(mc::Hash() << f.first);
}
