// C15: scan score is the weighted mean of its points' matches, in [0,1]
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
using SPE = ScanProbabilityEstimator;
struct ValCell : GridCell {
  ValCell() : GridCell{Occupancy{0.5, 1}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new ValCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { _occupancy = a.occupancy; on_update(); }
};
struct P { double r, a; bool occ; };
enum { EVEN, VINY, AHR };
static std::shared_ptr<ScanPointWeighting> spw(int k) {
  if (k == EVEN) return std::make_shared<EvenSPW>(); if (k == VINY) return std::make_shared<VinySlamSPW>(); return std::make_shared<AngleHistogramReciprocalSPW>();
}
// weights of a set of points by the definitions of the three schemes
static std::vector<double> weights(int k, const std::vector<P> &p) {
  std::vector<double> w(p.size(), 1);
  if (k == VINY) for (size_t i = 0; i < p.size(); ++i) { double c = std::fabs(std::cos(p[i].a)); w[i] = (c > 0.9 ? 3 : c > 0.8 ? 2 : std::fabs(std::sin(p[i].a)) + c) * std::sqrt(p[i].r); }
  if (k == AHR) {
    std::vector<int> bin(p.size(), -1); const double st = M_PI / 20;
    for (size_t i = 1; i < p.size(); ++i) {
      double d = std::atan2(p[i].r * std::sin(p[i].a) - p[i - 1].r * std::sin(p[i - 1].a), p[i].r * std::cos(p[i].a) - p[i - 1].r * std::cos(p[i - 1].a));
      d = std::fmod(d + 2 * M_PI, M_PI); bin[i] = int(std::floor(d / st)) % 20;
    }
    for (size_t i = 0; i < p.size(); ++i) w[i] = i == 0 ? 1.0 / p.size() : 1.0 / std::count(bin.begin() + 1, bin.end(), bin[i]);
  }
  return w;
}
static LaserScan2D mk(const std::vector<P> &p, bool cart) {
  LaserScan2D s; for (auto &q : p) s.points().push_back(cart ? ScanPoint2D::make_cartesian({q.r * std::cos(q.a), q.r * std::sin(q.a)}, q.occ) : ScanPoint2D::make_polar(q.r, q.a, q.occ)); return s;
}
// per-point matches come from the explorer; what the estimator is asked for is recorded
// (the points may be looked up in any order, each of them once: a lookup is told by where it is)
struct Oope : OccupancyObservationProbabilityEstimator {
  std::vector<double> v; mutable size_t i = 0; mutable std::vector<AreaOccupancyObservation> asked; mutable std::vector<LightWeightRectangle> areas; mutable const GridMap *map = nullptr; std::vector<Point2D> at; mutable std::vector<char> used;
  Oope() : OccupancyObservationProbabilityEstimator(std::make_shared<OccupancyOIE>()) {}
  void expect(const std::vector<P> &p, const std::vector<double> &vals, const RobotPose &pose, bool pre = false) { v = vals; i = 0; asked.assign(p.size(), AreaOccupancyObservation{false, {NAN, 0}, {NAN, NAN}, 0}); areas.assign(p.size(), LightWeightRectangle{}); used.assign(p.size(), 0); at.clear(); for (auto &q : p) { double a = q.a + (pre ? 0 : pose.theta); at.push_back({pose.x + q.r * std::cos(a), pose.y + q.r * std::sin(a)}); } }
  double probability(const AreaOccupancyObservation &a, const LightWeightRectangle &r, const GridMap &m) const override {
    map = &m; for (size_t k = 0; k < at.size(); ++k) if (!used[k] && mc::near(a.obstacle.x, at[k].x) && mc::near(a.obstacle.y, at[k].y)) { used[k] = 1; asked[k] = a; areas[k] = r; return v[k]; }
    for (size_t k = 0; k < at.size(); ++k) if (!used[k]) { used[k] = 1; asked[k] = a; areas[k] = r; return v[k]; } // not where any point is
    asked.push_back(a); areas.push_back(r); return v[i++ % v.size()]; }
};
// angles off the axes and off the borders of histogram bins and of the viny scheme
static const std::vector<P> Alphabet = {{1.2, 0.3, true}, {2.4, 1.1, true}, {0.7, 2.55, true}, {3.1, -1.9, true}, {1.9, -0.62, true}, {6.2, 0.8, true}};
static const std::vector<RobotPose> Poses = {{0.1, 0.2, 0}, {-0.6, 1.3, 4.1}, {2.3, -1.1, -8.5}};
static const std::vector<double> Vals = {0.2, 1, 0, 0.55};
// the mean of what every point matched to
MC_SCENARIO(weighted_mean, 4) {
  int kind = cx.choose(3, "weighting"); auto oope = std::make_shared<Oope>(); WeightedMeanPointProbabilitySPE spe_(oope, spw(kind)); SPE &spe = spe_;
  UnboundedPlainGridMap map{std::make_shared<ValCell>(), GridMapParams{3, 3, 1}}; bool cart = cx.flag("cartesian"), pre = cx.flag("prerotated"); if (pre && kind != EVEN) cx.prune();
  int rounds = cx.thorough ? 2 : 1; bool before = cx.flag("scored another scan before");
  if (before) { std::vector<P> o = {{1, 0.2, true}, {2, 0.25, true}, {2.2, 1.9, true}, {0.3, 2, true}}; auto f = spe.filter_scan(mk(o, false), Poses[2], map); oope->v = {0.3}; oope->at.clear(); spe.estimate_scan_probability(f, Poses[1], map); }
  for (int k = 0; k < rounds; ++k) {
    int n = cx.choose(k ? 2 : 4, "points"); std::vector<P> p; std::vector<double> v;
    for (int i = 0; i < n; ++i) { p.push_back(Alphabet[cx.choose(5, "point")]); v.push_back(Vals[cx.choose(cx.thorough ? 4 : 3, "match")]); }
    for (size_t i = 1; i < p.size(); ++i) if (p[i].a == p[i - 1].a) cx.prune(); // a pair without a direction
    for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) if (kind == AHR && p[i].a == p[j].a && v[i] != v[j]) cx.prune(); // lookups that cannot be told from each other
    int pi = cx.choose(3, "pose"); auto pose = Poses[pi]; auto scan = mk(p, cart);
    double hx = cx.flag("area") ? 0.5 : 0; SPE::SPEParams prm; prm.sp_analysis_area = LightWeightRectangle{-hx / 2, hx / 2, -hx, hx}; prm.scan_is_prerotated = pre;
    auto f = spe.filter_scan(scan, Poses[(pi + 1) % 3], map); oope->expect(p, v, pose, pre); if (v.empty()) oope->v = {0.5};
    double r = hx == 0 && !pre ? spe.estimate_scan_probability(f, pose, map) : spe.estimate_scan_probability(f, pose, map, prm); cx.step();
    std::ostringstream os; os << "weighting " << kind << " pose " << pose << " points"; for (int i = 0; i < n; ++i) os << " (" << p[i].r << "," << p[i].a << ")=" << v[i]; os << ": score " << r; auto ctx = os.str(); MC_LOG(cx, ctx);
    MC_CHECK(cx, SPE::is_prob_unknown(r) == (n == 0), "unknown", "unknown is reported as " << SPE::is_prob_unknown(r) << "; " << ctx);
    if (n == 0) { cx.outcome(99); continue; }
    MC_CHECK(cx, (int)oope->asked.size() == n, "points", oope->asked.size() << " points were matched: " << ctx);
    auto w = weights(kind, p); double s = 0, t = 0; for (int i = 0; i < n; ++i) { s += w[i] * v[i]; t += w[i]; }
    MC_CHECK(cx, mc::near(r, s / t), "mean", "the weighted mean is " << s / t << ": " << ctx);
    MC_CHECK(cx, r >= -1e-12 && r <= 1 + 1e-12, "range", ctx);
    for (int i = 0; i < n; ++i) {
      double a = p[i].a + (pre ? 0 : pose.theta), x = pose.x + p[i].r * std::cos(a), y = pose.y + p[i].r * std::sin(a); auto &o = oope->asked[i]; auto &q = oope->areas[i];
      MC_CHECK(cx, mc::near(o.obstacle.x, x) && mc::near(o.obstacle.y, y), "world-point", "point " << i << " was looked up at (" << o.obstacle.x << "," << o.obstacle.y << "), it is at (" << x << "," << y << "): " << ctx);
      MC_CHECK(cx, o.is_occupied && o.occupancy.prob_occ == 1, "observation", "the point is not observed as an obstacle: " << ctx);
      MC_CHECK(cx, mc::near(q.left(), x - hx) && mc::near(q.right(), x + hx) && mc::near(q.bot(), y - hx / 2) && mc::near(q.top(), y + hx / 2), "area", "the analysed area is [" << q.left() << "," << q.right() << "]x[" << q.bot() << "," << q.top() << "]: " << ctx);
    }
    MC_CHECK(cx, oope->map == &map, "map", "another map");
    if (kind != AHR) { // the order does not matter
      auto p2 = p; auto v2 = v; std::reverse(p2.begin(), p2.end()); std::reverse(v2.begin(), v2.end()); oope->expect(p2, v2, pose, pre);
      auto f2 = spe.filter_scan(mk(p2, cart), pose, map); double r2 = spe.estimate_scan_probability(f2, pose, map, prm); MC_CHECK(cx, mc::near(r, r2), "order", "scored " << r2 << " with its points reversed: " << ctx);
    }
    cx.state(mc::Hash() << r << pi << n); cx.outcome(mc::Hash() << r);
  }
}
// custom weights: scaling them all changes nothing, the scan given to the weighting is the filtered one
MC_SCENARIO(custom_weights, 3) {
  struct W : ScanPointWeighting { std::vector<double> w; size_t seen = 99; void reset(const LaserScan2D &s) override { seen = s.points().size(); } double weight(const LaserScan2D::Points &, PointId i) const override { return w[i]; } };
  std::vector<double> al = {0, 1, 0.25, 3}; int n = 1 + cx.choose(3, "points"); auto w = std::make_shared<W>(); auto oope = std::make_shared<Oope>(); std::vector<P> p; double s = 0, t = 0;
  for (int i = 0; i < n; ++i) { w->w.push_back(cx.pick(al, "weight")); oope->v.push_back(Vals[cx.choose(4, "match")]); p.push_back(Alphabet[i]); s += w->w[i] * oope->v[i]; t += w->w[i]; }
  double k = std::vector<double>{1, 0.5, 128, 1e-7, 1e9}[cx.choose(5, "scale")]; for (auto &x : w->w) x *= k;
  WeightedMeanPointProbabilitySPE spe_(oope, w); SPE &spe = spe_; UnboundedPlainGridMap map{std::make_shared<ValCell>(), GridMapParams{3, 3, 1}};
  auto f = spe.filter_scan(mk(p, false), Poses[0], map); MC_CHECK(cx, (int)w->seen == n, "reset", "the weighting was prepared for " << w->seen << " points of " << n);
  { auto v = oope->v; oope->expect(p, v, Poses[0]); } double r = spe.estimate_scan_probability(f, Poses[0], map); cx.step(); MC_LOG(cx, "score " << r << " of " << s / t);
  if (t == 0) MC_CHECK(cx, SPE::is_prob_unknown(r), "unknown", "points without weight scored " << r);
  else MC_CHECK(cx, mc::near(r, s / t), "mean", "scored " << r << ", the weighted mean is " << s / t << " (weights scaled by " << k << ")");
  cx.outcome(mc::Hash() << r);
}
// which points are kept
MC_SCENARIO(filter, 4) {
  unsigned skip = cx.choose(4, "skip rate"); double lim = std::vector<double>{-1, 2, 5}[cx.choose(3, "range limit")]; int kind = cx.choose(3, "map"), n = cx.choose(cx.thorough ? 6 : 5, "points"); int w = cx.choose(2, "weighting") ? AHR : EVEN;
  std::shared_ptr<GridMap> map; GridMapParams gp{6, 4, 1}; auto cell = std::make_shared<ValCell>();
  if (kind == 0) map = std::make_shared<PlainGridMap>(cell, gp); if (kind == 1) map = std::make_shared<UnboundedPlainGridMap>(cell, gp); if (kind == 2) map = std::make_shared<UnboundedLazyTiledGridMap>(cell, gp);
  auto oope = std::make_shared<Oope>(); oope->v = {0.5}; WeightedMeanPointProbabilitySPE spe_(oope, spw(w), skip, lim); SPE &spe = spe_;
  std::vector<P> p; for (int i = 0; i < n; ++i) { P q = Alphabet[cx.thorough ? cx.choose(6, "point") : std::vector<int>{0, 1, 3, 5}[cx.choose(4, "point")]]; if (i < 2) q.occ = !cx.flag("free"); p.push_back(q); }
  auto pose = Poses[cx.choose(3, "pose")]; auto scan = mk(p, false);
  std::vector<int> want; for (int i = 0; i < n; ++i) {
    if (skip && i % skip) continue; if (!p[i].occ) continue; if (lim > 0 && p[i].r > lim) continue;
    double x = pose.x + p[i].r * std::cos(p[i].a + pose.theta), y = pose.y + p[i].r * std::sin(p[i].a + pose.theta);
    int cx_ = std::floor(x), cy = std::floor(y); if (kind == 0 && (cx_ < -3 || cx_ >= 3 || cy < -2 || cy >= 2)) continue;
    want.push_back(i);
  }
  auto f = spe.filter_scan(scan, pose, *map); cx.step(); auto &g = f.points();
  std::ostringstream os; os << "skip rate " << skip << " limit " << lim << " map " << kind << " pose " << pose << " points"; for (auto &q : p) os << " (" << q.r << "," << q.a << (q.occ ? ")" : ",free)"); os << ": kept"; for (auto &q : g) os << " " << q.range(); auto ctx = os.str(); MC_LOG(cx, ctx);
  MC_CHECK(cx, g.size() == want.size(), "filtered", "kept " << g.size() << " points, expected " << want.size() << ": " << ctx);
  for (size_t i = 0; i < g.size(); ++i) MC_CHECK(cx, g[i].range() == p[want[i]].r && g[i].angle() == p[want[i]].a && g[i].is_occupied() && g[i].factor() == 1, "altered", "kept point " << i << " is altered: " << ctx);
  std::vector<P> kept; for (int i : want) kept.push_back(p[i]); auto ww = weights(w, kept); double sum = 0, tot = 0; oope->v.clear(); bool directed = true; for (size_t i = 1; i < kept.size(); ++i) if (kept[i].a == kept[i - 1].a && kept[i].r == kept[i - 1].r) directed = false;
  for (size_t i = 0; i < kept.size(); ++i) { double v = std::vector<double>{0.1, 0.9, 0.35, 1, 0.6, 0}[i]; for (size_t j = i; j-- > 0; ) if (kept[i].a == kept[j].a && kept[i].r == kept[j].r) v = oope->v[j]; oope->v.push_back(v); sum += ww[i] * v; tot += ww[i]; } { auto v = oope->v; oope->expect(kept, v, pose); } if (kept.empty()) oope->v = {0.5};
  MC_CHECK(cx, scan.points().size() == p.size(), "input", "the given scan was altered");
  double r = spe.estimate_scan_probability(f, pose, *map); if (directed) MC_CHECK(cx, want.empty() ? SPE::is_prob_unknown(r) : mc::near(r, sum / tot), "score", "scored " << r << ", the weighted mean over the kept points is " << sum / tot << ": " << ctx);
  cx.state(mc::Hash() << skip << lim << kind << (uint64_t)want.size()); cx.outcome(mc::Hash() << (uint64_t)want.size());
}
// the whole chain on a real map: score of a pose = mean of the cells under the points, again and again while the map changes
MC_SCENARIO(map_histories, 4) {
  bool disc = cx.flag("discrepancy"); std::shared_ptr<ObservationImpactEstimator> oie; if (disc) oie = std::make_shared<DiscrepancyOIE>(); else oie = std::make_shared<OccupancyOIE>();
  std::shared_ptr<SPE> spe = std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<ObstacleBasedOccupancyObservationPE>(oie), spw(EVEN));
  std::shared_ptr<GridMap> map; if (cx.flag("tiled")) map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<ValCell>(), GridMapParams{4, 4, 1}); else map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<ValCell>(), GridMapParams{4, 4, 1});
  std::vector<P> pts; int n = 1 + cx.choose(cx.thorough ? 3 : 2, "points"); for (int i = 0; i < n; ++i) pts.push_back(Alphabet[cx.choose(5, "point")]);
  std::map<std::pair<int, int>, double> ref; auto scan = mk(pts, false);
  for (int k = 0; k < (cx.thorough ? 4 : 3); ++k) {
    auto pose = Poses[cx.choose(cx.thorough ? 3 : 2, "pose")]; int target = cx.choose(n + 1, "write under point");
    auto at = [&](int i) { return std::make_pair(int(std::floor(pose.x + pts[i].r * std::cos(pts[i].a + pose.theta))), int(std::floor(pose.y + pts[i].r * std::sin(pts[i].a + pose.theta)))); };
    if (target) { auto c = at(target - 1); double v = std::vector<double>{1, 0.1, 0.7, 0}[k]; map->update(RegularSquaresGrid::Coord{c.first, c.second}, AreaOccupancyObservation{true, {v, 1}, {0, 0}, 1}); ref[c] = v; }
    auto f = spe->filter_scan(scan, pose, *map); double r = spe->estimate_scan_probability(f, pose, *map), w = 0; cx.step();
    for (int i = 0; i < n; ++i) { auto it = ref.find(at(i)); w += it == ref.end() ? 0.5 : it->second; } w /= n;
    MC_LOG(cx, "step " << k << " scored " << r); MC_CHECK(cx, mc::near(r, w), "map-score", "step " << k << " at " << pose << " scored " << r << ", the cells under the points are " << w << " on average");
    cx.state(mc::Hash() << r << k); cx.outcome(mc::Hash() << r);
  }
}
// scans of hundreds of points: all weightings, skip rates, range limits, on a real map
MC_SCENARIO(large_scans, 3) {
  int kind = cx.choose(3, "weighting"), n = cx.pick(std::vector<int>{30, 181, 720}, "points"); unsigned skip = cx.pick(std::vector<unsigned>{0, 1, 2, 7}, "skip rate"); double lim = cx.pick(std::vector<double>{-1, 6.5}, "range limit"), sc = cx.pick(std::vector<double>{0.1, 0.5}, "scale"); int mk_ = cx.choose(3, "map");
  std::shared_ptr<ObservationImpactEstimator> oie = std::make_shared<DiscrepancyOIE>(); WeightedMeanPointProbabilitySPE spe_(std::make_shared<ObstacleBasedOccupancyObservationPE>(oie), spw(kind), skip, lim); SPE &spe = spe_;
  auto cell = std::make_shared<ValCell>(); std::shared_ptr<GridMap> map; int half = 40; GridMapParams gp{2 * half, 2 * half, sc}; if (mk_ == 0) map = std::make_shared<PlainGridMap>(cell, gp); if (mk_ == 1) map = std::make_shared<UnboundedPlainGridMap>(cell, gp); if (mk_ == 2) map = std::make_shared<UnboundedLazyTiledGridMap>(cell, gp);
  std::map<std::pair<int, int>, double> ref; for (int i = 0; i < 3000; ++i) { int x = (i * 37) % (2 * half) - half, y = (i * 53 + i / 80) % (2 * half) - half; double v = (i * 29 % 101) / 100.0; map->update(RegularSquaresGrid::Coord{x, y}, AreaOccupancyObservation{true, {v, 1}, {0, 0}, 1}); ref[{x, y}] = v; }
  std::vector<P> p; for (int i = 0; i < n; ++i) { double h = 0.618034 * i; h -= std::floor(h); p.push_back({(0.4 + 9 * h + 0.0001 * i) * (i % 3 ? 1 : 0.5), -3.02 + 6 * (i + 0.3) / n, i % 13 != 4}); }
  auto scan = mk(p, false);
  for (int k = 0; k < 3; ++k) {
    auto pose = Poses[k]; std::vector<P> kept; for (int i = 0; i < n; ++i) { if (skip && i % skip) continue; if (!p[i].occ || (lim > 0 && p[i].r > lim)) continue; double x = pose.x + p[i].r * std::cos(p[i].a + pose.theta), y = pose.y + p[i].r * std::sin(p[i].a + pose.theta); int X = std::floor(x / sc), Y = std::floor(y / sc); if (mk_ == 0 && (X < -half || X >= half || Y < -half || Y >= half)) continue; kept.push_back(p[i]); }
    auto f = spe.filter_scan(scan, pose, *map); cx.step(n); MC_CHECK(cx, f.points().size() == kept.size(), "filtered", "kept " << f.points().size() << " points of " << n << ", expected " << kept.size());
    auto w = weights(kind, kept); double s = 0, t = 0; for (size_t i = 0; i < kept.size(); ++i) { double x = pose.x + kept[i].r * std::cos(kept[i].a + pose.theta), y = pose.y + kept[i].r * std::sin(kept[i].a + pose.theta); auto it = ref.find({int(std::floor(x / sc)), int(std::floor(y / sc))}); s += w[i] * (it == ref.end() ? 0.5 : it->second); t += w[i]; MC_CHECK(cx, f.points()[i].range() == kept[i].r && f.points()[i].angle() == kept[i].a, "altered", "kept point " << i << " of " << n << " is another one"); }
    double r = spe.estimate_scan_probability(f, pose, *map); MC_LOG(cx, "scored " << r); MC_CHECK(cx, mc::near(r, s / t), "mean", "a scan of " << kept.size() << " kept points scored " << r << ", the weighted mean is " << s / t << " (weighting " << kind << ")"); MC_CHECK(cx, r >= 0 && r <= 1, "range", "scored " << r); cx.state(mc::Hash() << r); cx.outcome(mc::Hash() << r << (uint64_t)kept.size());
  }
}

// scans of one fan of directions that differ in their ranges only, near and far, one after another
MC_SCENARIO(same_fan, 4) {
  int kind = cx.choose(3, "weighting"), n = cx.thorough ? 4 : 3; auto oope = std::make_shared<Oope>(); WeightedMeanPointProbabilitySPE spe_(oope, spw(kind)); SPE &spe = spe_; UnboundedPlainGridMap map{std::make_shared<ValCell>(), GridMapParams{3, 3, 1}};
  const std::vector<double> A = {0.31, 1.13, 2.55, -1.9}, R = {0.043, 0.7, 27.3, 131}, V = {0.2, 1, 0.55, 0}; LaserScan2D f; bool same = cx.flag("one scan object"), again = cx.flag("the same twice");
  for (int k = 0; k < 2; ++k) {
    std::vector<P> p; for (int i = 0; i < n; ++i) p.push_back({R[cx.choose(4, "range")], A[i], true}); double s = 0, t = 0; auto w = weights(kind, p); oope->v.clear();
    for (int i = 0; i < n; ++i) { oope->v.push_back(V[(i + k) % 4]); s += w[i] * oope->v[i]; t += w[i]; if (i) { double d = std::atan2(p[i].r * std::sin(p[i].a) - p[i - 1].r * std::sin(p[i - 1].a), p[i].r * std::cos(p[i].a) - p[i - 1].r * std::cos(p[i - 1].a)), x = std::fmod(d + 2 * M_PI, M_PI) / (M_PI / 20); if (std::fabs(x - std::round(x)) < 1e-6) cx.prune(); } }
    auto g = spe.filter_scan(mk(p, false), Poses[k], map); if (same && k) f.points() = g.points(); else f = g; 
    for (int j = 0; j <= (again ? 1 : 0); ++j) { { auto v = oope->v; oope->expect(p, v, Poses[k + j]); } double r = spe.estimate_scan_probability(f, Poses[k + j], map); cx.step(); MC_LOG(cx, "scored " << r); MC_CHECK(cx, mc::near(r, s / t), "mean", "scan " << k << " with ranges " << p[0].r << "," << p[1].r << "," << p[2].r << " scored " << r << ", the weighted mean is " << s / t << " (weighting " << kind << ")"); cx.state(mc::Hash() << r << k); }
    cx.outcome(mc::Hash() << s / t);
  }
}
