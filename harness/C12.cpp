// C12: branch-and-bound matching finds the best pose of its search lattice
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/maps/naive_grid_cells.h"
#include "core/scan_matchers/m3rsm_engine.h"
#include "core/scan_matchers/bf_multi_res_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
using Coord = RegularSquaresGrid::Coord;
struct ValCell : GridCell {
  ValCell() : GridCell{Occupancy{0.5, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new ValCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { if (!a.occupancy.is_valid()) return; _occupancy = a.occupancy; on_update(); }
};
struct Win { double x, y, th, tstep, astep; };
struct Pt { double x, y; bool occ; };
using Vals = std::map<std::pair<int, int>, double>;
// score of a pose: mean over the obstacle points of the value of the cell under the point; lo/hi: over the cells within rounding of the point
struct Score { double lo, hi; };
static Score score(const Vals &v, double scale, const std::vector<Pt> &ps, double x, double y, double th, double unknown) {
  double lo = 0, hi = 0; int n = 0; const double e = 1e-6 * scale;
  for (auto &p : ps) {
    if (!p.occ) continue; ++n;
    double wx = x + p.x * std::cos(th) - p.y * std::sin(th), wy = y + p.x * std::sin(th) + p.y * std::cos(th), l = 2, h = -1;
    for (double dx : {-e, e}) for (double dy : {-e, e}) {
      auto it = v.find({int(std::floor((wx + dx) / scale)), int(std::floor((wy + dy) / scale))}); double k = it == v.end() ? unknown : it->second;
      l = std::min(l, k); h = std::max(h, k);
    }
    lo += l; hi += h;
  }
  return {lo / n, hi / n};
}
static void add_leaf_points(std::set<std::pair<double, double>> &out, double l, double r, double b, double t, double step) {
  bool h = step < (r - l) - 1e-9, v = step < (t - b) - 1e-9; double cx = (l + r) / 2, cy = (b + t) / 2;
  if (!h && !v) { for (double x : {l, r}) for (double y : {b, t}) out.insert({x, y}); out.insert({cx, cy}); return; }
  if (h && v) { add_leaf_points(out, l, cx, b, cy, step); add_leaf_points(out, cx, r, b, cy, step); add_leaf_points(out, l, cx, cy, t, step); add_leaf_points(out, cx, r, cy, t, step); }
  else if (h) { add_leaf_points(out, l, cx, b, t, step); add_leaf_points(out, cx, r, b, t, step); }
  else { add_leaf_points(out, l, r, b, cy, step); add_leaf_points(out, l, r, cy, t, step); }
}
struct Obs : GridScanMatcherObserver {
  int starts = 0, ends = 0; RobotPose d; double p = -1; RobotPose at{0, 0, 0};
  void on_matching_start(const RobotPose &q, const TransformedLaserScan &, const GridMap &) override { ++starts; at = q; }
  void on_matching_end(const RobotPose &q, const LaserScan2D &, double s) override { ++ends; d = q; p = s; }
};
static void match(mc::Ctx &cx, GridMap &m, Vals &vals, double scale, std::vector<Pt> ps, RobotPose pose, Win w, BruteForceMultiResolutionScanMatcher &sm, bool polar, bool mixed) {
  TransformedLaserScan scan; scan.quality = 1; scan.pose_delta = RobotPoseDelta{0, 0, 0};
  for (auto &p : ps) scan.scan.points().push_back(polar ? ScanPoint2D::make_polar(std::hypot(p.x, p.y), std::atan2(p.y, p.x), p.occ) : ScanPoint2D::make_cartesian({p.x, p.y}, p.occ));
  auto obs = std::make_shared<Obs>(); sm.subscribe(obs);
  RobotPoseDelta d{77, 77, 77}; double s = sm.process_scan(scan, pose, m, d); cx.step(); sm.unsubscribe(obs);
  std::ostringstream os; os << "window (" << w.x << "," << w.y << "," << w.th << ") step (" << w.tstep << "," << w.astep << ") pose " << pose << " points"; for (auto &p : ps) os << " (" << p.x << "," << p.y << (p.occ ? ")" : ",free)");
  os << ": returned (" << d.x << "," << d.y << "," << d.theta << ") score " << s; std::string ctx = os.str(); MC_LOG(cx, ctx);
  MC_CHECK(cx, m.scale() == scale, "scale", "the map is left at scale " << m.scale() << "; " << ctx);
  MC_CHECK(cx, std::fabs(d.x) <= w.x + 1e-9 && std::fabs(d.y) <= w.y + 1e-9 && std::fabs(d.theta) <= w.th + 1e-9, "window", "the correction is outside of the window: " << ctx);
  MC_CHECK(cx, obs->starts == 1 && obs->ends == 1 && obs->p == s && obs->d.x == d.x && obs->d.y == d.y && obs->d.theta == d.theta && obs->at.x == pose.x && obs->at.y == pose.y && obs->at.theta == pose.theta, "observer", "the observer saw another result: " << ctx);
  // exhaustive search over the lattice
  std::vector<double> rots{0}; for (int i = 1; i * w.astep <= w.th + 1e-9 && w.astep > 0; ++i) { rots.push_back(i * w.astep); rots.push_back(-i * w.astep); }
  std::set<std::pair<double, double>> tr; tr.insert({0, 0}); add_leaf_points(tr, -w.x, w.x, -w.y, w.y, w.tstep);
  // (poses that put a point on an unknown cell are judged apart)
  double best = -1, best_unk = -1; RobotPoseDelta arg, arg_unk;
  for (double r : rots) for (auto &t : tr) {
    auto k = score(vals, scale, ps, pose.x + t.first, pose.y + t.second, pose.theta + r, 0.5); if (k.lo > best_unk) { best_unk = k.lo; arg_unk = {t.first, t.second, r}; }
    k = score(vals, scale, ps, pose.x + t.first, pose.y + t.second, pose.theta + r, -100); if (k.lo > best) { best = k.lo; arg = {t.first, t.second, r}; }
  }
  auto own = score(vals, scale, ps, pose.x + d.x, pose.y + d.y, pose.theta + d.theta, 0.5);
  MC_CHECK(cx, own.lo - 1e-6 <= s && s <= own.hi + 1e-6, "score", "the correction really scores " << own.lo << ".." << own.hi << ": " << ctx);
  MC_CHECK(cx, s >= best - 1e-5, "optimum", "(" << arg.x << "," << arg.y << "," << arg.theta << ") scores " << best << ": " << ctx);
  MC_CHECK(cx, s >= best_unk - 1e-5, mixed ? "optimum-over-unknown-cells" : "optimum", "(" << arg_unk.x << "," << arg_unk.y << "," << arg_unk.theta << "), which puts points on unknown cells, scores " << best_unk << ": " << ctx);
  // the given pose itself is a candidate: nothing turns the robot unless it pays
  auto stay = score(vals, scale, ps, pose.x, pose.y, pose.theta, 0.5);
  MC_CHECK(cx, !(stay.lo == stay.hi && std::fabs(s - stay.lo) < 1e-9) || d.theta == 0, "needless-turn", "the given pose scores " << stay.lo << " as well, but is turned: " << ctx);
  bool member = false; for (double r : rots) for (auto &t : tr) if (mc::near(r, d.theta) && mc::near(t.first, d.x) && mc::near(t.second, d.y)) member = true;
  MC_CHECK(cx, member, "member", "the correction is no node of the search lattice: " << ctx);
  for (auto &kv : vals) MC_CHECK(cx, m[Coord(kv.first.first, kv.first.second)].occupancy().prob_occ == kv.second, "content", "cell changed: " << ctx);
  RobotPoseDelta d2{5, 5, 5}; double s2 = sm.process_scan(scan, pose, m, d2); cx.step();
  MC_CHECK(cx, s2 == s && d2.x == d.x && d2.y == d.y && d2.theta == d.theta, "again", "the second matching returns (" << d2.x << "," << d2.y << "," << d2.theta << ") " << s2 << ": " << ctx);
  BruteForceMultiResolutionScanMatcher fresh{sm.scan_probability_estimator(), w.x, w.y, w.th, w.astep, w.tstep}; RobotPoseDelta d3; double s3 = fresh.process_scan(scan, pose, m, d3); cx.step();
  MC_CHECK(cx, s3 == s && d3.x == d.x && d3.y == d.y && d3.theta == d.theta, "history", "a fresh matcher returns (" << d3.x << "," << d3.y << "," << d3.theta << ") " << s3 << ": " << ctx);
  if (d.x || d.y || d.theta) cx.nontrivial();
  cx.outcome(mc::Hash() << d.x << d.y << d.theta << s); cx.state(mc::Hash() << d.x << d.y << d.theta << s << w.x << pose.x << best);
}
static std::shared_ptr<ScanProbabilityEstimator> spe_of(std::shared_ptr<ObservationImpactEstimator> oie) {
  return std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(oie), std::make_shared<EvenSPW>());
}
template <class Map, class... A> static void scene(mc::Ctx &cx, int bgs, A... pre) {
  auto oie = std::make_shared<DiscrepancyOIE>();
  double scale = cx.pick(std::vector<double>{1, 0.1}, "scale");
  static const std::vector<Win> ws{{1, 1, 0, 0.6, 0.1}, {2, 1, 0, 0.6, 0.1}, {1.5, 2.5, 0.2, 1.1, 0.1}, {0, 2, 0.3, 0.3, 0.3}, {3, 3, 0, 0.4, 1}}; Win w = cx.pick(ws, "window");
  for (double *p : {&w.x, &w.y, &w.tstep}) *p *= scale;
  Map m{pre..., std::make_shared<ValCell>(), GridMapParams{8, 8, scale}}; Vals vals;
  int bg = bgs == 3 ? cx.choose(3, "background") : bgs == 1 ? 2 : cx.choose(2, "background"); // unknown, empty, half empty
  auto put = [&](int x, int y, double v) { m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); vals[{x, y}] = v; };
  int N = bg == 2 ? 6 : 8; if (bg) for (int x = -N; x < (bg == 2 ? 1 : N + 1); ++x) for (int y = -N; y <= N; ++y) put(x, y, 0.1);
  static const std::vector<std::pair<int, int>> cells{{2, 1}, {1, 2}, {3, 1}, {2, 3}, {0, 1}, {-1, -2}};
  int n = 1 + cx.choose(cx.thorough ? 3 : 2, "walls"); for (int i = 0; i < n; ++i) { auto c = cx.pick(cells, "wall"); put(c.first, c.second, i == 1 ? 0.7 : 0.95); }
  static const std::vector<std::vector<Pt>> scans{{{1.61, 0.93, true}}, {{1.61, 0.93, true}, {0.87, 1.93, true}}, {{1.61, 0.93, true}, {2.63, 0.71, true}, {0.4, 0.4, false}}, {{-1.37, -2.21, true}, {1.81, 2.71, true}, {1.61, 0.93, true}}};
  auto ps = cx.pick(scans, "scan"); for (auto &p : ps) { p.x *= scale; p.y *= scale; }
  RobotPose pose = cx.pick(std::vector<RobotPose>{{0.27, 0.31, 0}, {-0.33, 0.57, 6.7}, {0.42, -0.37, -2.4}}, "pose"); pose.x *= scale; pose.y *= scale;
  BruteForceMultiResolutionScanMatcher sm{spe_of(oie), w.x, w.y, w.th, w.astep, w.tstep};
  if (bg == 2 && bgs == 1) {
    auto msg = mc::died([&] { TransformedLaserScan t; for (auto &p : ps) t.scan.points().push_back(ScanPoint2D::make_cartesian({p.x, p.y}, p.occ)); RobotPoseDelta d; BruteForceMultiResolutionScanMatcher b{spe_of(oie), w.x, w.y, w.th, w.astep, w.tstep}; b.process_scan(t, pose, m, d); });
    if (msg.find("Bounding assumption is violated") != std::string::npos) { cx.step(); cx.fail("unknown-cells-break-bounding", "matching next to unknown cells aborts: " + msg); }
  }
  match(cx, m, vals, scale, ps, pose, w, sm, n & 1, bgs == 1);
}
static auto oie0() { return std::static_pointer_cast<ObservationImpactEstimator>(std::make_shared<DiscrepancyOIE>()); }
MC_SCENARIO(plain_map, 4) { scene<UnboundedPlainGridMap>(cx, 3); }
MC_SCENARIO(multi_resolution_plain, 4) { scene<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, 2, oie0()); }
MC_SCENARIO(multi_resolution_tiled, 4) { scene<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(cx, 2, oie0()); }
// known-empty cells next to unknown ones
MC_SCENARIO(partly_known, 4) { scene<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, 1, oie0()); }
// scans that say nothing about the pose (no points, free ones only, all of them out of the usable range): the pose stays, its score is unknown, and the next match is not affected
template <class Map, class... A> static void mute(mc::Ctx &cx, A... pre) {
  double scale = cx.pick(std::vector<double>{1, 0.1}, "scale"); Map m{pre..., std::make_shared<ValCell>(), GridMapParams{8, 8, scale}}; Vals vals; auto put = [&](int x, int y, double v) { m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); vals[{x, y}] = v; };
  if (cx.flag("background")) for (int x = -6; x < 7; ++x) for (int y = -6; y < 7; ++y) put(x, y, 0.1); put(2, 1, 0.95); put(1, 2, 0.7);
  static const std::vector<Win> ws{{1, 1, 0, 0.6, 0.1}, {1.5, 2.5, 0.2, 1.1, 0.1}, {0, 0, 0, 0.4, 1}, {0, 0, 0.2, 0.5, 0.1}}; Win w = cx.pick(ws, "window"); for (double *p : {&w.x, &w.y, &w.tstep}) *p *= scale;
  RobotPose pose = cx.pick(std::vector<RobotPose>{{0.27, 0.31, 0}, {-0.33, 0.57, 0.4}}, "pose"); pose.x *= scale; pose.y *= scale;
  auto spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<MaxOccupancyObservationPE>(std::make_shared<DiscrepancyOIE>()), std::make_shared<EvenSPW>(), 0, 5 * scale); BruteForceMultiResolutionScanMatcher sm{spe, w.x, w.y, w.th, w.astep, w.tstep}; mc::Hash h;
  for (int i = 0, n = cx.thorough ? 4 : 3; i < n; ++i) {
    int k = cx.choose(5, "scan"); h << k; std::vector<Pt> ps; if (k == 0) ps = {{1.61 * scale, 0.93 * scale, true}, {0.4 * scale, 0.4 * scale, false}}; if (k == 2) ps = {{1.61 * scale, 0.93 * scale, false}}; if (k == 3) ps = {{16 * scale, 9 * scale, true}, {-8 * scale, 3 * scale, true}}; if (k == 4) ps = {{16 * scale, 9 * scale, true}, {0.87 * scale, 1.93 * scale, false}};
    if (k == 0) { match(cx, m, vals, scale, ps, pose, w, sm, i & 1, false); continue; }
    auto msg = mc::died([&] { TransformedLaserScan t; for (auto &p : ps) t.scan.points().push_back(ScanPoint2D::make_cartesian({p.x, p.y}, p.occ)); RobotPoseDelta d; sm.process_scan(t, pose, m, d); }); MC_CHECK(cx, msg.empty(), "mute-scan", "matching a scan without usable obstacle points " << msg);
    TransformedLaserScan t; t.quality = 1; for (auto &p : ps) t.scan.points().push_back(ScanPoint2D::make_cartesian({p.x, p.y}, p.occ)); auto obs = std::make_shared<Obs>(); sm.subscribe(obs); RobotPoseDelta d{7, 7, 7}; double s = sm.process_scan(t, pose, m, d); cx.step(); sm.unsubscribe(obs);
    MC_CHECK(cx, std::isnan(s) && d.x == 0 && d.y == 0 && d.theta == 0, "mute-scan", "a scan without usable obstacle points is matched at (" << d.x << "," << d.y << "," << d.theta << ") with score " << s); MC_CHECK(cx, m.scale() == scale, "scale", "the map is left at scale " << m.scale()); MC_CHECK(cx, obs->starts == 1 && obs->ends == 1 && std::isnan(obs->p) && obs->d.x == 0 && obs->d.y == 0 && obs->d.theta == 0, "observer", "the observer saw another result");
  }
  cx.outcome(h); cx.state(h);
}
MC_SCENARIO(mute_scans, 4) { switch (cx.choose(3, "map")) { case 0: mute<UnboundedPlainGridMap>(cx); break; case 1: mute<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, oie0()); break; default: mute<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(cx, oie0()); } }
// a room seen by a real scan: a window of metres searched in fine steps, turned by every step
template <class Map, class... A> static void room(mc::Ctx &cx, A... pre) {
  double scale = cx.pick(std::vector<double>{0.1, 0.25}, "scale"); Map m{pre..., std::make_shared<ValCell>(), GridMapParams{8, 8, scale}}; Vals vals;
  static const std::vector<Win> ws{{3, 3, 0, 0.8, 1}, {5, 2.5, 0.1, 1.4, 0.05}, {0.4, 0.4, 0.5, 0.3, 0.1}, {9, 7, 0, 2.9, 1}}; Win w = cx.pick(ws, "window"); for (double *p : {&w.x, &w.y, &w.tstep}) *p *= scale;
  int noise = cx.choose(3, "noise"), where = cx.choose(4, "where"), npts = cx.pick(std::vector<int>{12, 60}, "points"); const int N = 24;
  auto put = [&](int x, int y, double v) { m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); vals[{x, y}] = v; };
  auto wall = [&](int x, int y) { return x == -15 || x == 13 || y == -11 || y == 16 || (x == 4 && y > 3) || (y == 1 && x > 4 && x < 9); };
  for (int x = -N; x <= N; ++x) for (int y = -N; y <= N; ++y) { double h = noise == 0 ? 0 : noise == 1 ? ((x * 31 + y * 17 + 2300) % 23) / 60.0 : ((x / 3 * 7 + y / 2 * 5 + 300) % 10) / 12.0; put(x, y, wall(x, y) ? 0.9 - h * 0.3 : 0.05 + h); }
  RobotPose truth{-2.37 * scale, 0.61 * scale, cx.pick(std::vector<double>{0.31, 2.7, -1.9}, "heading")}, pose{truth.x + (where & 1 ? 1.7 : -0.4) * scale, truth.y - (where & 2 ? 2.1 : 0.3) * scale, truth.theta + (w.th > 0 ? w.astep * (where - 1.3) * 0.7 : 0)};
  std::vector<Pt> ps; for (int i = 0; i < npts; ++i) { double a = -2.9 + 5.8 * i / npts, r = 0; while (r < 40) { r += 0.05; int x = std::floor((truth.x + r * scale * std::cos(a + truth.theta)) / scale), y = std::floor((truth.y + r * scale * std::sin(a + truth.theta)) / scale); if (wall(x, y) || r > 20) break; } ps.push_back({r * scale * std::cos(a), r * scale * std::sin(a), i % 11 != 5}); }
  BruteForceMultiResolutionScanMatcher sm{spe_of(std::make_shared<DiscrepancyOIE>()), w.x, w.y, w.th, w.astep, w.tstep}; match(cx, m, vals, scale, ps, pose, w, sm, npts == 12, false);
}
// one matcher whose limits and target accuracy are changed between the matchings
template <class Map, class... A> static void reconfigured(mc::Ctx &cx, A... pre) {
  double scale = 0.25; Map m{pre..., std::make_shared<ValCell>(), GridMapParams{8, 8, scale}}; Vals vals;
  for (int x = -13; x <= 13; ++x) for (int y = -13; y <= 13; ++y) { double v = (x == 5 || y == -4) ? 0.9 : 0.05 + ((x * 31 + y * 17 + 2300) % 23) / 60.0; m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); vals[{x, y}] = v; }
  static const std::vector<Win> ws{{0.5, 0.5, 0.2, 0.2, 0.1}, {0.75, 0, 0, 0.3, 0.1}, {0, 0.7, 0.3, 0.16, 0.15}, {0, 0, 0.3, 0.3, 0.1}, {0, 0, 0, 0.3, 0.1}}; Win a = cx.pick(ws, "first window");
  std::vector<Pt> ps{{1.17, 0.13, true}, {1.13, -0.61, true}, {0.31, -1.17, true}, {-0.57, -1.21, true}, {0.3, 0.3, false}};
  BruteForceMultiResolutionScanMatcher sm{spe_of(std::make_shared<DiscrepancyOIE>()), a.x, a.y, a.th, a.astep, a.tstep}; RobotPose pose{0.07, 0.11, cx.pick(std::vector<double>{0.13, 2.9}, "heading")};
  for (int k = 0; k < 3; ++k) {
    match(cx, m, vals, scale, ps, pose, a, sm, k == 1, false); if (k == 2) break;
    int what = cx.choose(3, "change"); Win b = cx.pick(ws, "window"); // limits, accuracy, both; trailing limits of zero may be left out
    if (what != 1) { a.x = b.x; a.y = b.y; a.th = b.th; if (b.th == 0 && b.y == 0) sm.set_lookup_ranges(b.x); else if (b.th == 0) sm.set_lookup_ranges(b.x, b.y); else sm.set_lookup_ranges(b.x, b.y, b.th); }
    if (what) { a.tstep = b.tstep; a.astep = b.astep; sm.set_target_accuracy(b.astep, b.tstep); }
  }
}
MC_SCENARIO(reconfigured_plain, 3) { reconfigured<UnboundedPlainGridMap>(cx); }
MC_SCENARIO(reconfigured_multi_resolution, 3) { reconfigured<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, oie0()); }
MC_SCENARIO(room_plain, 3) { room<UnboundedPlainGridMap>(cx); }
MC_SCENARIO(room_multi_resolution, 3) { room<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, oie0()); }
MC_SCENARIO(room_multi_resolution_tiled, 3) { room<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(cx, oie0()); }

// whatever level the user has selected before a matching is the selected one after it, and the level does not affect the result
template <class Map> static void selected_level(mc::Ctx &cx) {
  double scale = cx.pick(std::vector<double>{1, 0.1}, "scale"); Map m{oie0(), std::make_shared<ValCell>(), GridMapParams{12, 12, scale}};
  auto put = [&](int x, int y, double v) { m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); };
  for (int x = -6; x < 7; ++x) for (int y = -6; y < 7; ++y) put(x, y, 0.1); put(2, 1, 0.95); put(1, 2, 0.7); put(3, 3, 0.9);
  static const std::vector<Win> ws{{1, 1, 0, 0.6, 0.1}, {1.5, 2.5, 0.2, 1.1, 0.1}, {3, 3, 0, 0.4, 1}}; Win w = cx.pick(ws, "window"); for (double *p : {&w.x, &w.y, &w.tstep}) *p *= scale;
  RobotPose pose = cx.pick(std::vector<RobotPose>{{0.27, 0.31, 0}, {-0.33, 0.57, 0.4}}, "pose"); pose.x *= scale; pose.y *= scale;
  TransformedLaserScan t; t.quality = 1; int kind = cx.choose(3, "scan");
  if (kind) t.scan.points().push_back(ScanPoint2D::make_cartesian({1.61 * scale, 0.93 * scale}, true)); if (kind == 2) t.scan.points().push_back(ScanPoint2D::make_cartesian({0.87 * scale, 1.93 * scale}, true));
  BruteForceMultiResolutionScanMatcher sm{spe_of(std::make_shared<DiscrepancyOIE>()), w.x, w.y, w.th, w.astep, w.tstep};
  RobotPoseDelta d0; double s0 = sm.process_scan(t, pose, m, d0); unsigned n = m.scales_nm();
  for (int i = 0; i < (cx.thorough ? 3 : 2); ++i) {
    unsigned id = cx.choose(n, "level"); if (cx.flag("by scale")) m.rescale(id + 1 == n ? 1e9 : scale * (1 << id)); else m.set_scale_id(id);
    MC_CHECK(cx, m.scale_id() == id, "level", "level " << id << " asked for, " << m.scale_id() << " selected"); double at = m.scale(); int W = m.width(), H = m.height();
    RobotPoseDelta d; double s = sm.process_scan(t, pose, m, d); cx.step();
    MC_CHECK(cx, m.scale() == at && m.scale_id() == id && m.width() == W && m.height() == H, "scale", "level " << id << " of scale " << at << " was selected before a matching, level " << m.scale_id() << " of scale " << m.scale() << " is after it");
    MC_CHECK(cx, (s == s0 || (std::isnan(s) && std::isnan(s0))) && d.x == d0.x && d.y == d0.y && d.theta == d0.theta, "level-result", "matching with level " << id << " selected returns (" << d.x << "," << d.y << "," << d.theta << ") " << s << " instead of (" << d0.x << "," << d0.y << "," << d0.theta << ") " << s0);
    if (id) cx.nontrivial(); cx.state(mc::Hash() << id << s << w.x << pose.x << scale); cx.outcome(mc::Hash() << s << d.x << d.y << d.theta << id);
  }
}
MC_SCENARIO(selected_level_plain, 3) { selected_level<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx); }
MC_SCENARIO(selected_level_tiled, 3) { selected_level<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(cx); }

// nothing to choose from: everything scores the same, so that the pose stays as it is
template <class Map, class... A> static void blind(mc::Ctx &cx, A... pre) {
  double scale = cx.pick(std::vector<double>{1, 0.1}, "scale"), value = cx.pick(std::vector<double>{0.1, 0.5, 0.9}, "value"); Map m{pre..., std::make_shared<ValCell>(), GridMapParams{8, 8, scale}};
  for (int x = -16; x < 17; ++x) for (int y = -16; y < 17; ++y) m.update({x, y}, {true, Occupancy{value, 1}, {0, 0}, 1});
  static const std::vector<Win> ws{{1, 1, 0, 0.6, 0.1}, {1.5, 2.5, 0.2, 1.1, 0.1}, {0, 0, 0.3, 0.4, 0.1}, {3, 0, 0.4, 0.4, 0.2}}; Win w = cx.pick(ws, "window"); for (double *p : {&w.x, &w.y, &w.tstep}) *p *= scale;
  RobotPose pose = cx.pick(std::vector<RobotPose>{{0.27, 0.31, 0}, {-0.33, 0.57, 0.4}}, "pose"); pose.x *= scale; pose.y *= scale; TransformedLaserScan t; t.quality = 1; int n = cx.pick(std::vector<int>{1, 3, 8}, "points");
  for (int i = 0; i < n; ++i) t.scan.points().push_back(ScanPoint2D::make_polar((1.2 + i * 0.7) * scale, -1 + i * 0.6, true));
  BruteForceMultiResolutionScanMatcher sm{spe_of(std::make_shared<DiscrepancyOIE>()), w.x, w.y, w.th, w.astep, w.tstep}; RobotPoseDelta d{7, 7, 7}; double s = sm.process_scan(t, pose, m, d); cx.step(); cx.nontrivial();
  MC_CHECK(cx, mc::near(s, value) && d.x == 0 && d.y == 0 && d.theta == 0, "needless-move", "every pose scores " << value << ", the correction is (" << d.x << "," << d.y << "," << d.theta << ") with score " << s); cx.outcome(mc::Hash() << s << n << w.x << w.th); cx.state(mc::Hash() << s << n << w.x << w.th << pose.x << scale);
}
MC_SCENARIO(blind, 3) { switch (cx.choose(3, "map")) { case 0: blind<UnboundedPlainGridMap>(cx); break; case 1: blind<M3RSMRescalableGridMap<UnboundedPlainGridMap>>(cx, oie0()); break; default: blind<M3RSMRescalableGridMap<UnboundedLazyTiledGridMap>>(cx, oie0()); } }
// the engine itself, which may be asked for all the poses whose scores differ from the best one by no more than a tolerance: the best one comes first, the others in the order of their scores
MC_SCENARIO(tolerance, 3) {
  auto oie = std::make_shared<DiscrepancyOIE>(); M3RSMRescalableGridMap<UnboundedPlainGridMap> m{oie, std::make_shared<ValCell>(), GridMapParams{8, 8, 1}}; Vals vals; auto put = [&](int x, int y, double v) { m.update({x, y}, {true, Occupancy{v, 1}, {0, 0}, 1}); vals[{x, y}] = v; };
  for (int x = -8; x < 9; ++x) for (int y = -8; y < 9; ++y) put(x, y, 0.1); static const std::vector<std::pair<int, int>> cells{{2, 1}, {1, 2}, {3, 1}, {2, 3}, {0, 1}, {-1, -2}}; int n = 1 + cx.choose(2, "walls"); for (int i = 0; i < n; ++i) { auto c = cx.pick(cells, "wall"); put(c.first, c.second, i == 1 ? 0.7 : 0.95); }
  double tol = cx.pick(std::vector<double>{0, 0.05, 0.3, 2}, "tolerance"); static const std::vector<Win> ws{{1, 1, 0, 0.6, 0.1}, {1.5, 2.5, 0.2, 1.1, 0.1}, {0, 0, 0.3, 0.4, 0.1}}; Win w = cx.pick(ws, "window"); bool pre = cx.flag("turn the scan beforehand"); int used = cx.choose(2, "engine used before");
  static const std::vector<std::vector<Pt>> scans{{{1.61, 0.93, true}}, {{1.61, 0.93, true}, {0.87, 1.93, true}}, {{-1.37, -2.21, true}, {1.81, 2.71, true}, {1.61, 0.93, true}}}; auto ps = cx.pick(scans, "scan"); RobotPose pose{0.27, 0.31, cx.pick(std::vector<double>{0.1, 3.3}, "heading")};
  LaserScan2D scan; for (auto &p : ps) scan.points().push_back(ScanPoint2D::make_polar(std::hypot(p.x, p.y), std::atan2(p.y, p.x), true));
  M3RSMEngine e{tol}; for (int i = 0; i <= used; ++i) { e.reset_engine_state(); e.set_translation_lookup_range(w.x, w.y); e.set_rotation_lookup_range(2 * w.th, w.astep); e.add_scan_matching_request(spe_of(oie), pose, scan, m, pre); if (i < used) e.next_best_match(w.tstep); }
  std::vector<double> rots{0}; for (int i = 1; i * w.astep <= w.th + 1e-9; ++i) { rots.push_back(i * w.astep); rots.push_back(-i * w.astep); } std::set<std::pair<double, double>> tr; tr.insert({0, 0}); add_leaf_points(tr, -w.x, w.x, -w.y, w.y, w.tstep); double best = -1; for (double r : rots) for (auto &t : tr) best = std::max(best, score(vals, 1, ps, pose.x + t.first, pose.y + t.second, pose.theta + r, 0.5).lo);
  double last = 2; int got = 0;
  for (int i = 0; i < 4000 && got < 40; ++i) {
    auto b = e.next_best_match(w.tstep); if (!b.is_valid()) break; MC_CHECK(cx, b.prob_upper_bound <= last + 1e-6, "order", "a match of bound " << b.prob_upper_bound << " comes after that of bound " << last << " (tolerance " << tol << ")"); last = b.prob_upper_bound;
    if (!b.is_finest()) { auto cps = b.translation_drift.corners(); cps.push_back(b.translation_drift.center()); for (auto &c : cps) e.add_match(Match{M3RSMEngine::Rect{c}, b}); continue; }
    auto c = b.translation_drift.center(); auto own = score(vals, 1, ps, pose.x + c.x, pose.y + c.y, pose.theta + b.rotation, 0.5); MC_CHECK(cx, own.lo - 1e-6 <= b.prob_upper_bound && b.prob_upper_bound <= own.hi + 1e-6, "score", "match " << got << " has score " << b.prob_upper_bound << ", its pose really scores " << own.lo << ".." << own.hi);
    if (!got) MC_CHECK(cx, b.prob_upper_bound >= best - 1e-5, "optimum", "the first match of an engine of tolerance " << tol << " scores " << b.prob_upper_bound << ", the best pose " << best);
    ++got; cx.step();
  }
  m.rescale(1); MC_CHECK(cx, got, "optimum", "no match at all (tolerance " << tol << ")"); if (got > 1) cx.nontrivial(); cx.state(mc::Hash() << got << last << best << tol << w.x); cx.outcome(mc::Hash() << got << best << tol);
}
