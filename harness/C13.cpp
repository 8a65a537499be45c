// C13: search matchers return the best pose they tried, never worse than the start
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/scan_matchers/brute_force_scan_matcher.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/hcsm_fixed.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
#include "core/scan_matchers/no_action_scan_matcher.h"
#include "core/scan_matchers/connect_the_dots_ambiguous_drift_detector.h"
static const double Q = std::numeric_limits<double>::quiet_NaN();
struct Call { RobotPose p; double s; size_t n; };
// the explorer is the scoring function: it chooses the score of every pose it is asked about
struct ScriptSPE : ScanProbabilityEstimator {
  mc::Ctx &cx; std::vector<double> alphabet; int depth; bool drop; std::vector<double> tail;
  mutable std::vector<Call> calls; std::vector<RobotPose> filters;
  ScriptSPE(mc::Ctx &c, std::vector<double> a, int d, bool dr = true) : ScanProbabilityEstimator{nullptr}, cx(c), alphabet(a), depth(d), drop(dr) {}
  LaserScan2D filter_scan(const LaserScan2D &scan, const RobotPose &p, const GridMap &) override {
    filters.push_back(p); LaserScan2D r; r.trig_provider = scan.trig_provider;
    for (size_t i = drop ? 1 : 0; i < scan.points().size(); ++i) r.points().push_back(scan.points()[i]);
    return r;
  }
  double estimate_scan_probability(const LaserScan2D &scan, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    for (auto &c : calls) if (c.p.x == p.x && c.p.y == p.y && c.p.theta == p.theta && c.n == scan.points().size()) { calls.push_back(c); return c.s; }
    double s = int(calls.size()) < depth ? alphabet[cx.choose(alphabet.size(), "score")] : alphabet[0];
    calls.push_back({p, s, scan.points().size()}); cx.step(); return s;
  }
};
struct Ev { char k; RobotPose p; double s; size_t n; };
struct Obs : GridScanMatcherObserver {
  std::vector<Ev> e;
  void on_matching_start(const RobotPose &p, const TransformedLaserScan &s, const GridMap &) override { e.push_back({'S', p, 0, s.scan.points().size()}); }
  void on_scan_test(const RobotPose &p, const LaserScan2D &s, double q) override { e.push_back({'t', p, q, s.points().size()}); }
  void on_pose_update(const RobotPose &p, const LaserScan2D &s, double q) override { e.push_back({'u', p, q, s.points().size()}); }
  void on_matching_end(const RobotPose &d, const LaserScan2D &s, double q) override { e.push_back({'E', d, q, s.points().size()}); }
};
static bool same(const RobotPose &a, const RobotPose &b, double t = 1e-9) { return mc::near(a.x, b.x, t) && mc::near(a.y, b.y, t) && mc::near(a.theta, b.theta, t); }
static TransformedLaserScan mk(int n) {
  TransformedLaserScan s; s.quality = 1; s.pose_delta = RobotPoseDelta{0, 0, 0};
  for (int i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_cartesian({1.0 + i, 0.5 * i}, true));
  return s;
}
static const std::vector<RobotPose> Poses = {{0, 0, 0}, {1.5, -2.25, 0.75}, {-100.5, 60.25, -9}};
static std::string show(const std::vector<Call> &c) { std::ostringstream os; for (auto &k : c) os << " (" << k.p.x << "," << k.p.y << "," << k.p.theta << ")=" << k.s; return os.str(); }
// runs a matcher once and judges the result by the poses it asked about
static void run(mc::Ctx &cx, GridScanMatcher &sm, ScriptSPE &spe, const RobotPose &init, int npts, bool observed, int ends = 1) {
  UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  auto scan = mk(npts); auto o1 = std::make_shared<Obs>(), o2 = std::make_shared<Obs>(), gone = std::make_shared<Obs>(), off = std::make_shared<Obs>();
  sm.subscribe(off); sm.subscribe(o1); sm.subscribe(gone); gone.reset(); sm.subscribe(o2); sm.unsubscribe(off);
  spe.calls.clear(); spe.filters.clear();
  RobotPoseDelta d{77, 88, 99}; double r = sm.process_scan(scan, init, map, d); cx.step();
  sm.unsubscribe(o1); sm.unsubscribe(o2);
  auto c = spe.calls; std::ostringstream os; os << "start " << init << ", evaluated" << show(c) << "; returned " << r << " with " << d; auto ctx = os.str(); MC_LOG(cx, ctx);
  MC_CHECK(cx, !c.empty() && same(c[0].p, init, 0), "start", "the start pose was not evaluated first: " << ctx);
  for (auto &f : spe.filters) MC_CHECK(cx, same(f, init, 0), "filter", "the scan was filtered at another pose " << f << ": " << ctx);
  size_t n = npts - 1; double best = c[0].s; RobotPose bp = c[0].p;
  for (auto &k : c) { MC_CHECK(cx, k.n == n, "unfiltered", "a scan of " << k.n << " points was scored, the filtered one has " << n); if (best < k.s) { best = k.s; bp = k.p; } }
  MC_CHECK(cx, mc::near(r, best, 0), "not-best", "the best evaluated score is " << best << ": " << ctx);
  bool found = false; for (auto &k : c) if (mc::near(k.s, r, 0) && same(k.p, init + d)) found = true;
  MC_CHECK(cx, found, "pose-score", "no pose evaluated to the returned score is at the returned correction: " << ctx);
  if (mc::near(best, c[0].s, 0)) MC_CHECK(cx, d.x == 0 && d.y == 0 && d.theta == 0, "no-improvement", "a correction without an improvement: " << ctx);
  if (observed) for (auto &o : {o1, o2}) {
    std::vector<Ev> w{{'S', init, 0, size_t(npts)}}; double b = 0; bool first = true;
    for (auto &k : c) { w.push_back({'t', k.p, k.s, n}); if (first || b < k.s) { w.push_back({'u', k.p, k.s, n}); b = k.s; } first = false; }
    w.push_back({'E', RobotPose{d.x, d.y, d.theta}, r, n});
    std::string got, want; for (auto &e : o->e) got += e.k; for (auto &e : w) want += e.k;
    MC_CHECK(cx, got == want, "observer-order", "the observer saw '" << got << "', expected '" << want << "': " << ctx);
    for (size_t i = 0; i < w.size(); ++i)
      MC_CHECK(cx, same(o->e[i].p, w[i].p, 1e-12) && mc::near(o->e[i].s, w[i].s, 0) && o->e[i].n == w[i].n, "observer-args",
               "event " << i << " '" << w[i].k << "' had pose " << o->e[i].p << " score " << o->e[i].s << " points " << o->e[i].n << ", expected " << w[i].p << " " << w[i].s << " " << w[i].n << ": " << ctx);
  }
  MC_CHECK(cx, off->e.empty(), "unsubscribed", "an unsubscribed observer was notified");
  mc::Hash h; for (auto &k : c) h << k.p.x << k.p.y << k.p.theta << k.s; cx.state(h); cx.outcome(mc::Hash() << r << d.x << d.y << d.theta << (uint64_t)c.size());
}
struct Range { double from, to, step; };
static std::vector<double> values(Range r) { std::vector<double> v; if (r.step == 0) return {r.from}; for (int i = 0;; ++i) { double x = r.from + i * r.step; if (x > r.to + 1e-6 * r.step) break; v.push_back(x); } return v; }
// the poses evaluated must be the window's grid around the start pose of this very call
static void window(mc::Ctx &cx, ScriptSPE &spe, const RobotPose &init, std::vector<Range> w) {
  std::vector<RobotPose> want; for (double t : values(w[2])) for (double y : values(w[1])) for (double x : values(w[0])) want.push_back({init.x + x, init.y + y, init.theta + t});
  auto &c = spe.calls; std::vector<bool> used(c.size());
  for (auto &p : want) {
    bool f = false; for (size_t i = 1; i < c.size() && !f; ++i) if (!used[i] && same(c[i].p, p, 1e-9)) used[i] = f = true;
    MC_CHECK(cx, f, "window-missed", "pose " << p << " of the window around " << init << " was not evaluated (" << c.size() - 1 << " of " << want.size() << " poses were)");
  }
  for (size_t i = 1; i < c.size(); ++i) MC_CHECK(cx, used[i], "window-exceeded", "pose " << c[i].p << " is outside of the window around " << init << " (or evaluated twice)");
}
MC_SCENARIO(brute_force_scores, 3) {
  std::vector<std::vector<Range>> ws = {{{0, 0, 1}, {0, 0, 1}, {0, 0, 1}}, {{-0.1, 0.1, 0.1}, {0, 0, 1}, {0, 0, 1}}, {{-0.5, 0.5, 0.5}, {0, 0.25, 0.25}, {0, 0, 0.1}}, {{0, 0, 1}, {-0.3, 0.3, 0.3}, {-0.1, 0.1, 0.2}}};
  auto w = cx.pick(ws, "window"); int first = cx.choose(2, "first start"), second = cx.choose(3, "second start");
  auto spe = std::make_shared<ScriptSPE>(cx, cx.thorough ? std::vector<double>{0.5, 0.25, 0.75, 1} : std::vector<double>{0.5, 0.25, 0.75}, 99);
  BruteForceScanMatcher sm(spe, w[0].from, w[0].to, w[0].step, w[1].from, w[1].to, w[1].step, w[2].from, w[2].to, w[2].step);
  run(cx, sm, *spe, Poses[first], 3, true); window(cx, *spe, Poses[first], w);
  bool rs = cx.flag("reset in between"); if (rs) sm.reset_state();
  spe->depth = cx.thorough ? 3 : 2; // the second call: all scores of its first poses
  run(cx, sm, *spe, Poses[second], 3, true); window(cx, *spe, Poses[second], w);
}
// every window of a set of ranges and steps in each dimension, three calls
MC_SCENARIO(brute_force_windows, 2) {
  std::vector<Range> r = {{0, 0, 0.1}, {-0.5, 0.5, 0.1}, {-0.3, 0.2, 0.1}, {0, 1, 0.3}, {-1, 1, 0.7}, {0.1, 0.1, 1}, {-0.087266462599716, 0.087266462599716, 0.017453292519943}};
  if (cx.thorough) for (Range q : std::vector<Range>{{-2, -1, 0.25}, {-0.9, 0.9, 0.3}, {0, 0.05, 0.1}, {-0.7, 0.7, 0.2}, {1, 2, 0.125}}) r.push_back(q);
  std::vector<Range> flat = r; flat.push_back({0.25, 0.25, 0}); flat.push_back({0, 0, 0}); // (switched off; the step of the rotation has to be positive)
  std::vector<Range> w; for (int i = 0; i < 3; ++i) w.push_back(cx.pick(i < 2 ? flat : r, "range"));
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5}, 0);
  BruteForceScanMatcher sm(spe, w[0].from, w[0].to, w[0].step, w[1].from, w[1].to, w[1].step, w[2].from, w[2].to, w[2].step);
  for (int i = 0; i < (cx.thorough ? 3 : 2); ++i) { int s = (i + 1) % 3; run(cx, sm, *spe, Poses[s], 2, false); window(cx, *spe, Poses[s], w); }
}
MC_SCENARIO(polar_brute_force, 2) {
  std::vector<Range> dirs = {{0, 0, 0.1}, {-0.5, 0.5, 0.25}, {0, M_PI, M_PI / 4}, {0.2, 0.3, 0.3}}, dsts = {{0, 0, 0.5}, {-0.25, 0.25, 0.1}, {0.1, 0.5, 0.1}, {1, 2, 0.7}};
  Range a = cx.pick(dirs, "directions"), d = cx.pick(dsts, "distances");
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.75}, 3);
  PoseEnumerationScanMatcher sm(spe, std::make_shared<PolarCoordBruteForcePoseEnumerator>(a.from, a.to, a.step, d.from, d.to, d.step));
  for (int k = 0; k < 2; ++k) {
    RobotPose init = Poses[cx.choose(3, "start")]; run(cx, sm, *spe, init, 3, true);
    auto &c = spe->calls; std::vector<bool> used(c.size()); size_t n = 0;
    for (double di : values(d)) for (double an : values(a)) {
      RobotPose p{init.x + std::cos(an) * di, init.y + std::sin(an) * di, init.theta}; bool f = false; ++n;
      for (size_t i = 1; i < c.size() && !f; ++i) if (!used[i] && same(c[i].p, p)) used[i] = f = true;
      MC_CHECK(cx, f, "window-missed", "pose " << p << " of the polar window around " << init << " was not evaluated: " << show(c));
    }
    MC_CHECK(cx, c.size() == n + 1, "window-exceeded", c.size() - 1 << " poses evaluated, the polar window has " << n);
  }
}
// an enumerator that was left in the middle of another enumeration starts over
MC_SCENARIO(abandoned_enumeration, 3) {
  int kind = cx.choose(2, "enumerator"), other = cx.choose(3, "meanwhile"); Range a{-0.5, 0.5, 0.5}, b{0, 0.25, 0.25}, t{-0.1, 0.1, 0.1};
  std::shared_ptr<PoseEnumerator> pe; if (kind) pe = std::make_shared<PolarCoordBruteForcePoseEnumerator>(a.from, a.to, a.step, b.from + 1, b.to + 1, b.step); else pe = std::make_shared<BruteForcePoseEnumerator>(a.from, a.to, a.step, b.from, b.to, b.step, t.from, t.to, t.step);
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.75}, 2); PoseEnumerationScanMatcher sm(spe, pe);
  for (int k = 0; k < (cx.thorough ? 3 : 2); ++k) {
    int n = cx.choose(6, "steps made"); RobotPose at = Poses[cx.choose(3, "around")], init = Poses[cx.choose(3, "start")]; bool asked = cx.flag("pose without a feedback");
    for (int i = 0; i < n && pe->has_next(); ++i) { at = pe->next(at); pe->feedback(i & 1); }
    if (asked && pe->has_next()) pe->next(at);
    if (other == 1) { sm.set_pose_enumerator(std::make_shared<BruteForcePoseEnumerator>(0, 0, 1, 0, 0, 1, 0, 0, 1)); run(cx, sm, *spe, Poses[1], 2, false); sm.set_pose_enumerator(pe); MC_CHECK(cx, sm.pose_enumerator() == pe, "enumerator", "another enumerator is set"); }
    if (other == 2) sm.reset_state();
    run(cx, sm, *spe, init, 3, true); if (n) cx.nontrivial();
    if (!kind) window(cx, *spe, init, {a, b, t});
    else {
      auto &c = spe->calls; size_t m = 0; for (double di : values({b.from + 1, b.to + 1, b.step})) for (double an : values(a)) { RobotPose p{init.x + std::cos(an) * di, init.y + std::sin(an) * di, init.theta}; ++m; bool f = false; for (size_t i = 1; i < c.size(); ++i) f |= same(c[i].p, p); MC_CHECK(cx, f, "window-missed", "pose " << p << " of the polar window around " << init << " was not evaluated: " << show(c)); }
      MC_CHECK(cx, c.size() == m + 1, "window-exceeded", c.size() - 1 << " poses evaluated, the polar window has " << m);
    }
  }
}
MC_SCENARIO(hill_climbing, 4) {
  unsigned rounds = cx.choose(cx.thorough ? 4 : 3, "rounds"); bool frame = cx.flag("frame alignment");
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.25, 0.75, 1}, cx.thorough ? 8 : 7);
  HillClimbingScanMatcher sm(spe, rounds, 0.2, 0.1, frame);
  run(cx, sm, *spe, Poses[0], 3, true);
  spe->depth = 2; run(cx, sm, *spe, Poses[1], 3, true);
}
MC_SCENARIO(monte_carlo, 3) {
  unsigned fails = 1 + cx.choose(4, "failures"), total = std::vector<unsigned>{1, 3, 6}[cx.choose(3, "attempts")];
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.25, 0.75}, 7);
  MonteCarloScanMatcher sm(spe, 42, 0.2, 0.1, fails, total);
  run(cx, sm, *spe, Poses[0], 3, true);
  spe->depth = 2; run(cx, sm, *spe, Poses[1], 3, true);
}
// unknown scores everywhere: nothing is better than the start
MC_SCENARIO(unknown_scores, 2) {
  int kind = cx.choose(3, "matcher"); auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{Q}, 0);
  std::unique_ptr<GridScanMatcher> sm;
  if (kind == 0) sm.reset(new BruteForceScanMatcher(spe, -1, 1, 1, -1, 1, 1, 0, 0, 1));
  if (kind == 1) sm.reset(new HillClimbingScanMatcher(spe, 2, 0.1, 0.1));
  if (kind == 2) sm.reset(new MonteCarloScanMatcher(spe, 1, 0.1, 0.1, 3, 5));
  for (int k = 0; k < 2; ++k) run(cx, *sm, *spe, Poses[cx.choose(3, "start")], 1 + cx.choose(2, "points"), true);
}
// matchers that are not pose enumerations
MC_SCENARIO(fixed_hill_climbing, 3) {
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.25, 0.75, 1}, cx.thorough ? 10 : 8); spe->tail = {};
  HillClimbingSMFixed sm(spe); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 2; ++k) {
    RobotPose init = Poses[k]; spe->calls.clear(); spe->filters.clear(); if (k) spe->depth = 2;
    RobotPoseDelta d{7, 7, 7}; double r = sm.process_scan(mk(3), init, map, d); auto c = spe->calls;
    std::ostringstream os; os << "start " << init << ", evaluated" << show(c) << "; returned " << r << " with " << d; MC_LOG(cx, os.str());
    MC_CHECK(cx, c[0].s <= r + 1e-9, "worse", "worse than the start: " << os.str());
    bool f = false; for (auto &q : c) if (mc::near(q.s, r) && same(q.p, init + d)) f = true;
    MC_CHECK(cx, f, "pose-score", "the returned score is not of the returned pose: " << os.str());
    cx.outcome(mc::Hash() << r << d.x << d.y << d.theta << (uint64_t)c.size());
  }
}
MC_SCENARIO(no_action, 1) {
  auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0, 1}, 1, false); NoActionScanMatcher sm{spe};
  UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}}; RobotPose init = Poses[cx.choose(3, "start")];
  RobotPoseDelta d{7, 7, 7}; sm.process_scan(mk(3), init, map, d); cx.outcome(1);
  MC_CHECK(cx, d.x == 0 && d.y == 0 && d.theta == 0, "no-action", "the matcher that does nothing moved the pose by " << d);
}
MC_SCENARIO(connect_the_dots, 4) {
  // 0: the points form a wall in one direction (second pass runs); 1: they do not
  int shape = cx.choose(3, "points"); auto spe = std::make_shared<ScriptSPE>(cx, std::vector<double>{0.5, 0.25, 0.75, 1}, cx.thorough ? 9 : 7);
  auto in = std::make_shared<BruteForceScanMatcher>(spe, -0.1, 0.1, 0.2, 0, 0, 1, 0, 0, 1);
  ConnectTheDotsAmbiguousDriftDetector sm(in); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 2; ++k) {
    TransformedLaserScan s; s.quality = 1; s.pose_delta = RobotPoseDelta{0, 0, 0};
    if (shape == 0) for (int i = 0; i < 5; ++i) s.scan.points().push_back(ScanPoint2D::make_cartesian({1.0 + i, i == 4 ? 4.5 : 0.5 + 0.25 * i}, true));
    else if (shape == 2) for (int i = 0; i < 40; ++i) s.scan.points().push_back(ScanPoint2D::make_cartesian({1.0 + 0.1 * i, i < 18 ? 0.5 + 0.03 * i : 1 + 0.3 * (i * i % 17)}, true)); // a wall and clutter
    else for (auto p : std::vector<Point2D>{{0, 0}, {1, 0.1}, {1.2, 2}, {0.3, 2.2}, {-1.1, 0.7}, {-1.5, -1}, {0.2, -2.8}}) s.scan.points().push_back(ScanPoint2D::make_cartesian(p, true));
    RobotPose init = Poses[k]; spe->calls.clear(); if (k) spe->depth = 2;
    RobotPoseDelta d{7, 7, 7}; double r = sm.process_scan(s, init, map, d); auto c = spe->calls; size_t n = s.scan.points().size() - 1;
    std::ostringstream os; os << "start " << init << ", evaluated" << show(c) << "; returned " << r << " with " << d; MC_LOG(cx, os.str());
    bool f = false; for (auto &q : c) if (q.n == n && mc::near(q.s, r, 0) && same(q.p, init + d)) f = true;
    MC_CHECK(cx, f, "pose-score", "the returned score is not of the returned pose: " << os.str());
    cx.outcome(mc::Hash() << r << d.x << d.y << d.theta << (uint64_t)c.size());
  }
}
// searches of thousands of poses: the score is a landscape with its peak at a chosen place of the window
struct LandSPE : ScanProbabilityEstimator {
  RobotPose peak; int shape; mutable std::vector<Call> calls; LandSPE() : ScanProbabilityEstimator{nullptr} {}
  double estimate_scan_probability(const LaserScan2D &scan, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    double dx = p.x - peak.x, dy = p.y - peak.y, dt = p.theta - peak.theta, d = dx * dx + dy * dy + 4 * dt * dt, s = shape == 0 ? std::exp(-d) : shape == 1 ? 1 / (1 + 100 * d) : 0.5 * std::exp(-10 * d) + 0.5 * (0.5 + 0.5 * std::cos(37 * dx) * std::cos(29 * dy) * std::cos(17 * dt));
    calls.push_back({p, s, scan.points().size()}); return s;
  }
};
static void big(mc::Ctx &cx, GridScanMatcher &sm, LandSPE &spe, const RobotPose &init, size_t expected, const std::vector<Range> *w) {
  UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}}; spe.calls.clear(); RobotPoseDelta d{7, 7, 7}; auto o = std::make_shared<Obs>(); sm.subscribe(o); double r = sm.process_scan(mk(30), init, map, d); sm.unsubscribe(o); auto &c = spe.calls; cx.step(c.size());
  std::ostringstream os; os << c.size() << " poses from " << init << ", returned " << r << " with " << d; auto ctx = os.str(); MC_LOG(cx, ctx);
  double best = -1; RobotPose at; for (auto &k : c) { if (k.s > best) { best = k.s; at = k.p; } MC_CHECK(cx, k.n == 30, "unfiltered", ctx); }
  MC_CHECK(cx, !c.empty() && same(c[0].p, init, 0), "start", "the start pose was not evaluated first: " << ctx); MC_CHECK(cx, mc::near(r, best, 0), "not-best", "the best evaluated score is " << best << " at " << at << ": " << ctx);
  bool found = false; for (auto &k : c) if (k.s == r && same(k.p, init + d)) found = true; MC_CHECK(cx, found, "pose-score", "no pose evaluated to the returned score is at the returned correction: " << ctx);
  if (expected) MC_CHECK(cx, c.size() == expected, "window-exceeded", "expected " << expected << " evaluations: " << ctx);
  size_t t = 0, u = 0, ru = 0; double b = -1; for (auto &k : c) if (k.s > b) { b = k.s; ++ru; } for (auto &e : o->e) { t += e.k == 't'; u += e.k == 'u'; } MC_CHECK(cx, t == c.size() && u == ru && o->e.size() == t + u + 2, "observer-order", "the observer saw " << t << " tests and " << u << " updates, expected " << c.size() << " and " << ru << ": " << ctx);
  if (w) { // every grid value of every dimension is used equally often: the whole product is visited
    std::vector<std::map<long, size_t>> cnt(3); for (size_t i = 1; i < c.size(); ++i) { double q[3] = {c[i].p.x - init.x, c[i].p.y - init.y, c[i].p.theta - init.theta}; for (int k = 0; k < 3; ++k) { double j = (q[k] - (*w)[k].from) / (*w)[k].step; MC_CHECK(cx, std::fabs(j - std::round(j)) < 1e-5, "window-exceeded", "pose " << c[i].p << " is off the grid: " << ctx); ++cnt[k][std::lround(j)]; } }
    for (int k = 0; k < 3; ++k) { size_t n = values((*w)[k]).size(); MC_CHECK(cx, cnt[k].size() == n && cnt[k].begin()->first == 0 && cnt[k].rbegin()->first == long(n) - 1, "window-missed", cnt[k].size() << " values of dimension " << k << " were visited, the window has " << n << ": " << ctx); for (auto &e : cnt[k]) MC_CHECK(cx, e.second == (c.size() - 1) / n, "window-missed", "a value of dimension " << k << " was visited " << e.second << " times: " << ctx); }
  }
  cx.state(mc::Hash() << r << d.x << d.y << d.theta); cx.outcome(mc::Hash() << r << d.x << d.y << d.theta << c.size());
}
MC_SCENARIO(big_windows, 2) {
  std::vector<std::vector<Range>> ws = {{{-1, 1, 0.05}, {-0.5, 0.5, 0.05}, {-0.1, 0.1, 0.02}}, {{-0.5, 0.5, 0.1}, {-0.5, 0.5, 0.1}, {-0.7, 0.7, 0.0174532925199}}, {{-6, 6, 0.05}, {0, 0, 1}, {-0.2, 0.2, 0.1}}, {{0, 0, 1}, {-20, 3, 0.02}, {0, 0, 1}}}; auto w = cx.pick(ws, "window");
  auto spe = std::make_shared<LandSPE>(); BruteForceScanMatcher sm(spe, w[0].from, w[0].to, w[0].step, w[1].from, w[1].to, w[1].step, w[2].from, w[2].to, w[2].step); size_t n = 1; for (auto &r : w) n *= values(r).size();
  double fx = cx.pick(std::vector<double>{0, 0.37, 1}, "peak x"), fy = cx.pick(std::vector<double>{0, 0.61, 1}, "peak y"), ft = cx.pick(std::vector<double>{0, 0.5, 1}, "peak turn");
  for (int k = 0; k < 2; ++k) { spe->shape = (k + cx.choose(2, "shape")) % 3; RobotPose i = Poses[k + 1]; spe->peak = {i.x + w[0].from + fx * (w[0].to - w[0].from), i.y + w[1].from + fy * (w[1].to - w[1].from), i.theta + w[2].from + ft * (w[2].to - w[2].from)}; big(cx, sm, *spe, i, n + 1, &w); }
}
MC_SCENARIO(long_searches, 2) {
  auto spe = std::make_shared<LandSPE>(); int kind = cx.choose(5, "matcher"); unsigned seed = cx.choose(cx.thorough ? 40 : 8, "seed"); std::unique_ptr<GridScanMatcher> sm;
  if (kind == 0) sm.reset(new HillClimbingScanMatcher(spe, 20, 0.5, 0.3)); if (kind == 1) sm.reset(new HillClimbingScanMatcher(spe, 6, 0.1, 0.1, true)); if (kind == 2) sm.reset(new MonteCarloScanMatcher(spe, seed, 0.2, 0.1, 100, 500)); if (kind == 3) sm.reset(new MonteCarloScanMatcher(spe, seed, 1, 0.5, 20, 3000)); if (kind == 4) sm.reset(new MonteCarloScanMatcher(spe, seed, 0.05, 0.01, 1000, 1000));
  double px = cx.pick(std::vector<double>{0, 0.83, -1.9}, "peak x"), pt = cx.pick(std::vector<double>{0, 0.21}, "peak turn"); spe->shape = cx.choose(3, "shape");
  for (int k = 0; k < 4; ++k) { RobotPose i = Poses[(k + seed) % 3]; spe->peak = {i.x + px * (1 + 0.1 * (seed % 7)), i.y - 0.7 * px + 0.03 * seed, i.theta + pt}; big(cx, *sm, *spe, i, 0, nullptr); if (k == 1) sm->reset_state(); }
}
