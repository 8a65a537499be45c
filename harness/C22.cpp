// C22: a SLAM step moves the pose by odometry plus the matcher's correction
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/naive_grid_cells.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/observation_impact_estimators.h"
#include "core/scan_matchers/occupancy_observation_probability.h"
#include "core/scan_matchers/weighted_mean_point_probability_spe.h"
#include "core/states/single_state_hypothesis_laser_scan_grid_world.h"
using World1 = SingleStateHypothesisLaserScanGridWorld;
static bool near(const RobotPose &a, const RobotPose &b) { return mc::near(a.x, b.x) && mc::near(a.y, b.y) && mc::near(a.theta, b.theta); }
// a matcher whose answer is decided by the explorer
struct ScriptSM : GridScanMatcher {
  struct Call { RobotPose at; const GridMap *map; size_t points; double first; int resets; }; std::vector<Call> calls; int resets = 0; RobotPoseDelta answer{0, 0, 0}; bool touch = true;
  ScriptSM() : GridScanMatcher{nullptr} {}
  void reset_state() override { ++resets; }
  double process_scan(const TransformedLaserScan &s, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override {
    calls.push_back({p, &m, s.scan.points().size(), s.scan.points().empty() ? 0 : s.scan.points()[0].range(), resets}); RobotPose at = p;
    do_for_each_observer([&](ObsPtr o) { o->on_matching_start(at, s, m); }); if (touch) d = answer;
    do_for_each_observer([&](ObsPtr o) { o->on_matching_end(d, s.scan, 0.5); }); return 0.5;
  }
};
struct Write { const GridMap *m; bool occ; double q; Segment2D b; };
struct RecAdder : GridMapScanAdder {
  mutable std::vector<Write> w; RecAdder() : GridMapScanAdder{std::make_shared<ConstOccupancyEstimator>(Occupancy{1, 1}, Occupancy{0, 1}), std::make_shared<IdleOMQE>()} {}
  void handle_scan_point(GridMap &m, bool o, double q, const Segment2D &b) const override { w.push_back({&m, o, q, b}); m.update(m.world_to_cell(b.end()), obs(o)); }
};
static TransformedLaserScan scan(int k) {
  TransformedLaserScan s; s.quality = 0.123; auto &p = s.scan.points();
  if (k == 0) { p.push_back(ScanPoint2D::make_polar(1.5, 0.3, true)); p.push_back(ScanPoint2D::make_cartesian({0.7, -1.2}, false)); p.push_back(ScanPoint2D::make_polar(0.9, -2, true)); }
  else if (k == 1) p.push_back(ScanPoint2D::make_polar(2.25, 1, true));
  else if (k == 3) for (int i = 0; i < 300; ++i) p.push_back(ScanPoint2D::make_polar(0.5 + 0.01 * i, -3 + 0.02 * i, i % 3 != 1));
  return s;
}
static const std::vector<RobotPoseDelta> Odom = {{0, 0, 0}, {1, 0.5, 0}, {-0.5, 0.25, 0.75}}, Fix = {{0, 0, 0}, {0.125, 0, 0}, {0, -0.25, 0}, {0, 0, 0.5}, {-1, 0.5, -0.25}};
struct Seen : WorldPoseObserver, WorldMapObserver<GridMap> {
  std::vector<RobotPose> poses; std::vector<const GridMap *> maps; std::vector<double> marks; std::vector<std::pair<char, int>> *log = nullptr; int id = 0;
  void on_pose_update(const RobotPose &p) override { poses.push_back(p); if (log) log->push_back({'p', id}); }
  void on_map_update(const GridMap &m) override { maps.push_back(&m); if (log) log->push_back({'m', id}); double h = 0; for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) if (m.has_cell({x, y})) h += m.occupancy({x, y}) * (x * 17 + y * 3 + 100); marks.push_back(h); }
};
static void steps_body(mc::Ctx &cx, int depth, const std::vector<RobotPoseDelta> &Odom = ::Odom, const std::vector<RobotPoseDelta> &Fix = ::Fix) {
  double good = 0.9, raw = 0.6; auto margin = cx.choose(2, "margin"); World1::Properties p; p.localized_scan_quality = good; p.raw_scan_quality = raw; p.scan_margin = margin;
  std::shared_ptr<GridMap> map; if (cx.flag("lazy")) map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<HCell>(), GridMapParams{4, 4, 0.5}); else map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<HCell>(), GridMapParams{4, 4, 0.5});
  auto sm = std::make_shared<ScriptSM>(); auto ad = std::make_shared<RecAdder>(); p.grid_map = map; p.gsm = sm; p.gmsa = ad; World1 w{p}; const World1 &cw = w; auto o = std::make_shared<Seen>(); w.subscribe_pose(o); w.subscribe_map(o);
  RobotPose want{0, 0, 0}; std::ostringstream os; os << "margin " << margin;
  MC_CHECK(cx, near(w.pose(), want), "start", "the world starts at " << w.pose());
  for (int i = 0; i < depth; ++i) {
    auto d = cx.pick(Odom, "odometry"); int a = cx.choose(Fix.size() + 1, "correction"), k = cx.repeating() ? cx.choose(4, "scan") : i < 2 || cx.thorough ? cx.choose(3, "scan") : 0; sm->touch = a < int(Fix.size()); auto f = sm->touch ? Fix[a] : RobotPoseDelta{0, 0, 0}; sm->answer = f;
    os << " | odometry (" << d.x << "," << d.y << "," << d.theta << ") correction (" << f.x << "," << f.y << "," << f.theta << ") scan " << k; std::string ctx = os.str(); MC_LOG(cx, os.str());
    auto s = scan(k); s.pose_delta = d; size_t wrote = ad->w.size(); int resets = sm->resets; w.handle_sensor_data(s); cx.step();
    want.x += d.x; want.y += d.y; want.theta += d.theta;
    MC_CHECK(cx, int(sm->calls.size()) == i + 1, "matched-once", "the matcher was asked " << sm->calls.size() - i << " times; " << ctx); auto &c = sm->calls.back();
    MC_CHECK(cx, near(c.at, want), "match-from", "matching started from " << c.at << ", expected " << want << "; " << ctx);
    MC_CHECK(cx, c.map == map.get() && c.points == s.scan.points().size(), "match-what", "the matcher got another map or scan; " << ctx);
    MC_CHECK(cx, c.resets == resets + 1, "matcher-reset", "the matcher was reset " << c.resets - resets << " times before the scan; " << ctx);
    want.x += f.x; want.y += f.y; want.theta += f.theta; MC_CHECK(cx, near(w.pose(), want) && near(cw.world().pose(), want), "pose", "the pose is " << w.pose() << ", expected " << want << "; " << ctx);
    bool corrected = f.x || f.y || f.theta; double q = corrected ? good : raw; MC_CHECK(cx, mc::near(s.quality, q), "quality", "the scan has quality " << s.quality << ", expected " << q << "; " << ctx);
    auto &pts = s.scan.points(); size_t n = pts.size() > 2u * margin ? pts.size() - 2 * margin : 0; MC_CHECK(cx, ad->w.size() == wrote + n, "mapped-points", ad->w.size() - wrote << " points were mapped, expected " << n << "; " << ctx);
    for (size_t j = 0; j < n; ++j) { auto &x = ad->w[wrote + j]; auto &sp = pts[j + margin]; double e[2] = {want.x + sp.x() * std::cos(want.theta) - sp.y() * std::sin(want.theta), want.y + sp.x() * std::sin(want.theta) + sp.y() * std::cos(want.theta)};
      MC_CHECK(cx, x.m == map.get() && x.occ == sp.is_occupied() && mc::near(x.q, q) && mc::near(x.b.beg().x, want.x) && mc::near(x.b.beg().y, want.y) && mc::near(x.b.end().x, e[0]) && mc::near(x.b.end().y, e[1]), "mapped", "point " << j << " was mapped by a beam " << x.b.beg().x << "," << x.b.beg().y << " -> " << x.b.end().x << "," << x.b.end().y << " of quality " << x.q << ", expected " << want.x << "," << want.y << " -> " << e[0] << "," << e[1] << " of " << q << "; " << ctx); }
    MC_CHECK(cx, int(o->poses.size()) == i + 1 && int(o->maps.size()) == i + 1, "notified-once", "notified of " << o->poses.size() << " poses and " << o->maps.size() << " maps; " << ctx);
    MC_CHECK(cx, near(o->poses.back(), want) && o->maps.back() == map.get() && o->maps.back() == &cw.map() && &w.map() == map.get(), "notified-what", "notified of pose " << o->poses.back() << ", expected " << want << " (or of another map); " << ctx);
    Seen now; now.on_map_update(*map); MC_CHECK(cx, mc::near(now.marks[0], o->marks.back()), "notified-early", "the map changed after it was published; " << ctx);
    cx.state(mc::Hash() << want.x << want.y << want.theta << now.marks[0] << i);
  }
  cx.outcome(mc::Hash() << want.x << want.y << want.theta << (uint64_t)ad->w.size());
}
MC_SCENARIO(steps, 3) { steps_body(cx, cx.thorough ? 4 : 3); }
// motions and corrections of all magnitudes: crawling, whole turns, far jumps
static const std::vector<RobotPoseDelta> Odoms = {{0, 0, 0}, {2e-4, -1e-5, 0}, {0, 0, 3e-5}, {3e-5, 0, 1e-4}, {5e-8, 0, -6e-8}, {0.02, 0.01, -0.003}, {150, -90, 9.5}}, Fixes = {{0, 0, 0}, {1e-4, 0, 0}, {0, 0, -2e-5}, {-0.01, 0.004, 0.002}, {40, 7, -7.5}};
MC_SCENARIO(magnitudes, 3) { steps_body(cx, cx.thorough ? 3 : 2, Odoms, Fixes); }
MC_SCENARIO(long_magnitudes, 4) { cx.periodic(3, cx.thorough ? 6 : 4, 2); steps_body(cx, cx.thorough ? 300 : 60, Odoms, Fixes); }
// long histories, each a repeated word of decisions
MC_SCENARIO(long_steps, 4) { cx.periodic(4, cx.thorough ? 6 : 4, 3); steps_body(cx, cx.thorough ? 400 : 120); }
// ---- who is notified: all sequences of subscriptions, removals, destructions and scans
struct SmObs : GridScanMatcherObserver { int id; std::vector<std::pair<char, int>> *log; void on_matching_start(const RobotPose &, const TransformedLaserScan &, const GridMap &) override { log->push_back({'s', id}); } void on_matching_end(const RobotPose &, const LaserScan2D &, double) override { log->push_back({'e', id}); } };
static void observers_body(mc::Ctx &cx, int depth) {
  World1::Properties p; auto sm = std::make_shared<ScriptSM>(); p.gsm = sm; p.gmsa = std::make_shared<RecAdder>(); p.grid_map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<HCell>(), GridMapParams{2, 2, 1}); World1 w{p};
  std::vector<std::pair<char, int>> log; std::vector<int> P, M, S; std::shared_ptr<Seen> o[3]; std::shared_ptr<SmObs> s[2]; std::ostringstream os; bool ambiguous = false;
  for (int i = 0; i < 3; ++i) { o[i] = std::make_shared<Seen>(); o[i]->id = i; o[i]->log = &log; } for (int i = 0; i < 2; ++i) { s[i] = std::make_shared<SmObs>(); s[i]->id = i; s[i]->log = &log; }
  auto has = [](std::vector<int> &v, int i) { return std::find(v.begin(), v.end(), i) != v.end(); }; auto del = [](std::vector<int> &v, int i) { v.erase(std::remove(v.begin(), v.end(), i), v.end()); };
  bool used[3] = {}, sused[2] = {};
  for (int step = 0; step <= depth; ++step) {
    struct Op { char k; int i; }; std::vector<Op> ops = {{'g', 0}};
    if (step < depth) { bool fresh = false; for (int i = 0; i < 3; ++i) { if (!o[i]) continue; if (!used[i]) { if (fresh) continue; fresh = true; } // untouched observers are alike
        if (!has(P, i)) ops.push_back({'p', i}); if (!has(M, i) && i < 2) ops.push_back({'m', i}); if (used[i]) ops.push_back({'x', i}); }
      for (int i = 0; i < 2; ++i) if (s[i]) { if (!has(S, i)) ops.push_back({'s', i}); if (sused[i]) { ops.push_back({'r', i}); ops.push_back({'d', i}); } if (!sused[i]) break; } }
    auto op = ops[cx.choose(ops.size(), "op")]; int i = op.i; os << " " << op.k << i; cx.step();
    if (op.k == 'p') { w.subscribe_pose(o[i]); P.push_back(i); used[i] = true; } else if (op.k == 'm') { w.subscribe_map(o[i]); M.push_back(i); used[i] = true; } else if (op.k == 'x') { o[i].reset(); del(P, i); del(M, i); }
    else if (op.k == 's') { w.add_sm_observer(s[i]); S.push_back(i); sused[i] = true; } else if (op.k == 'r') { w.remove_sm_observer(s[i]); del(S, i); } else if (op.k == 'd') { s[i].reset(); del(S, i); }
    else {
      log.clear(); auto sc = scan(1); sc.pose_delta = RobotPoseDelta{1, 0, 0}; w.handle_sensor_data(sc); std::vector<std::pair<char, int>> want[4], got[4]; for (int i : S) want[0].push_back({'s', i}), want[1].push_back({'e', i}); for (int i : P) want[2].push_back({'p', i}); for (int i : M) want[3].push_back({'m', i});
      for (auto &e : log) got[e.first == 's' ? 0 : e.first == 'e' ? 1 : e.first == 'p' ? 2 : 3].push_back(e); std::ostringstream l; for (auto &e : log) l << " " << e.first << e.second;
      for (int k = 0; k < 4; ++k) MC_CHECK(cx, want[k] == got[k], "who-is-notified", "after" << os.str() << " the notifications were" << l.str());
      size_t lasts = 0; for (size_t j = 0; j < log.size(); ++j) if (log[j].first == 's' || log[j].first == 'e') MC_CHECK(cx, j < S.size() * 2, "notified-early", "after" << os.str() << " the world's observers were notified during the matching:" << l.str()); 
      mc::Hash h; for (auto &e : log) h << e.first << e.second; cx.outcome(h);
    }
    mc::Hash h; for (int i : P) h << i; h << 'm'; for (int i : M) h << i; h << 's'; for (int i : S) h << i; for (int i = 0; i < 3; ++i) h << bool(o[i]) << used[i]; cx.state(h << step);
  }
}
MC_SCENARIO(observers, 3) { observers_body(cx, cx.thorough ? 7 : 6); }
// ---- the same with a real matcher and a real adder: a step equals doing its parts by hand
static std::shared_ptr<GridScanMatcher> hc() { return std::make_shared<HillClimbingScanMatcher>(std::make_shared<WeightedMeanPointProbabilitySPE>(std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<OccupancyOIE>()), std::make_shared<EvenSPW>()), 3, 0.25, 0.2); }
static std::shared_ptr<GridMapScanAdder> adder(double blur) { return WallDistanceBlurringScanAdder::builder().set_occupancy_estimator(std::make_shared<ConstOccupancyEstimator>(Occupancy{0.9, 1}, Occupancy{0.1, 1})).set_observation_quality_estimator(std::make_shared<IdleOMQE>()).set_blur_distance(blur).build(); }
static void composition_body(mc::Ctx &cx, int depth) {
  bool mean = cx.flag("mean"); double blur = cx.flag("blur") ? 0.3 : 0; auto c = [&]() -> std::shared_ptr<GridCell> { if (mean) return std::make_shared<MeanProbabilityCell>(); return std::make_shared<AffineQualityMergeCell>(); };
  World1::Properties p; p.localized_scan_quality = 0.8; p.raw_scan_quality = 0.4; p.gsm = hc(); p.gmsa = adder(blur); p.grid_map = std::make_shared<UnboundedPlainGridMap>(c(), GridMapParams{20, 20, 0.2}); World1 w{p};
  UnboundedPlainGridMap m{c(), GridMapParams{20, 20, 0.2}}; auto sm = hc(); auto ad = adder(blur); RobotPose at{0, 0, 0}; std::ostringstream os; mc::Hash h;
  for (int i = 0; i < depth; ++i) {
    static const std::vector<RobotPoseDelta> ds = {{0, 0, 0}, {0.21, 0.03, 0.05}, {-0.07, 0.33, -0.11}}; auto d = cx.pick(ds, "odometry"); int k = cx.choose(2, "scan"); os << " (" << d.x << "," << d.y << "," << d.theta << ")/" << k; auto mk = [&] { auto s = scan(0); s.pose_delta = d; if (k) for (int j = 0; j < 6; ++j) s.scan.points().push_back(ScanPoint2D::make_cartesian({2.13, -0.97 + 0.3 * j}, true)); return s; };
    auto s = mk(), t = mk(); w.handle_sensor_data(s); cx.step(); at += d; RobotPoseDelta f; sm->reset_state(); sm->process_scan(t, at, m, f); at += f; double q = f ? 0.8 : 0.4; ad->append_scan(m, at, t.scan, q, 0);
    MC_CHECK(cx, near(w.pose(), at), "composed-pose", "after" << os.str() << " the pose is " << w.pose() << ", expected " << at); MC_CHECK(cx, mc::near(s.quality, q), "quality", "after" << os.str() << " the quality is " << s.quality); h << at.x << at.y << at.theta;
  }
  const World1 &cw = w; for (int x = -30; x < 30; ++x) for (int y = -30; y < 30; ++y) { bool a = cw.map().has_cell({x, y}); double u = a ? cw.map().occupancy({x, y}) : -1, v = m.has_cell({x, y}) ? m.occupancy({x, y}) : -1; MC_CHECK(cx, mc::near(u, v), "composed-map", "after" << os.str() << " cell " << x << "," << y << " holds " << u << ", expected " << v); }
  cx.state(h); cx.outcome(h);
}
MC_SCENARIO(composition, 2) { composition_body(cx, cx.thorough ? 5 : 4); }
MC_SCENARIO(long_composition, 2) { cx.periodic(3, cx.thorough ? 4 : 3, 3); composition_body(cx, cx.thorough ? 40 : 20); }
// many observers: which of them are destroyed between the scans follows a repeated word
MC_SCENARIO(many_observers, 3) {
  int n = cx.pick(std::vector<int>{10, 25, 60}, "observers"); cx.periodic(4, 3, 2); World1::Properties p; p.gsm = std::make_shared<ScriptSM>(); p.gmsa = std::make_shared<RecAdder>(); p.grid_map = std::make_shared<UnboundedPlainGridMap>(std::make_shared<HCell>(), GridMapParams{2, 2, 1}); World1 w{p};
  std::vector<std::pair<char, int>> log; std::vector<std::shared_ptr<Seen>> o; std::vector<int> P, M; int born = 0;
  auto del = [](std::vector<int> &v, int i) { v.erase(std::remove(v.begin(), v.end(), i), v.end()); };
  for (int r = 0; r < 8; ++r) {
    for (int i = 0; i < n / 4; ++i) { auto s = std::make_shared<Seen>(); s->id = born++; s->log = &log; o.push_back(s); int how = cx.choose(3, "kind"); if (how != 1) { w.subscribe_pose(s); P.push_back(s->id); } if (how != 0) { w.subscribe_map(s); M.push_back(s->id); } }
    for (size_t i = 0; i < o.size(); ++i) if (o[i] && cx.choose(3, "fate") == 2) { del(P, o[i]->id); del(M, o[i]->id); o[i].reset(); } o.erase(std::remove(o.begin(), o.end(), nullptr), o.end());
    log.clear(); auto sc = scan(1); sc.pose_delta = RobotPoseDelta{1, 0, 0}; w.handle_sensor_data(sc); cx.step(); std::vector<int> gp, gm; for (auto &e : log) (e.first == 'p' ? gp : gm).push_back(e.second);
    MC_CHECK(cx, gp == P && gm == M, "who-is-notified", "after " << r + 1 << " rounds of subscriptions and destructions of " << born << " observers " << gp.size() << " were notified of the pose and " << gm.size() << " of the map, expected " << P.size() << " and " << M.size() << " (or others)");
    mc::Hash h; for (int i : P) h << i; h << 'm'; for (int i : M) h << i; cx.state(h); cx.outcome(h);
  }
}
