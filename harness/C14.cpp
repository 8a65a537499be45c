// C14: hill climbing and Monte Carlo searches terminate within their budgets
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/scan_matchers/hill_climbing_scan_matcher.h"
#include "core/scan_matchers/monte_carlo_scan_matcher.h"
// for every pose it is asked about the explorer chooses between: no better, equal to the best so far, better
struct AnswerSPE : ScanProbabilityEstimator {
  mc::Ctx &cx; int depth, kinds; mutable double best = 0.5; mutable std::vector<RobotPose> poses; mutable std::vector<bool> better;
  AnswerSPE(mc::Ctx &c, int d, int k) : ScanProbabilityEstimator{nullptr}, cx(c), depth(d), kinds(k) {}
  void start(int d) { depth = d; best = 0.5; poses.clear(); better.clear(); }
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override {
    int i = poses.size(); poses.push_back(p); cx.step();
    if (i > 2000) cx.fail("no-termination", "more than 2000 poses were tested");
    if (i == 0) { better.push_back(false); return best; }
    int a = i <= depth ? cx.choose(kinds, "answer") : 0; better.push_back(a == 1);
    if (a == 1) return best += 0.001;
    return a == 2 ? best : best - 0.25;
  }
};
static const std::vector<RobotPose> Starts = {{0, 0, 0}, {1.5, -2.25, 0.75}, {-100.5, 60.25, -9}};
static TransformedLaserScan wall(double angle, int n) {
  TransformedLaserScan s; s.quality = 1; s.pose_delta = RobotPoseDelta{0, 0, 0};
  for (int i = 0; i < n; ++i) s.scan.points().push_back(ScanPoint2D::make_cartesian({2 + i * std::cos(angle), 1 + i * std::sin(angle)}, true));
  return s;
}
static std::string show(const AnswerSPE &e) { std::ostringstream os; for (size_t i = 0; i < e.poses.size(); ++i) os << " (" << e.poses[i].x << "," << e.poses[i].y << "," << e.poses[i].theta << ")" << (e.better[i] ? "+" : ""); return os.str(); }
// the poses tested after the start must be rounds of six displacements around the best pose known when the round began
static void check_hc(mc::Ctx &cx, const AnswerSPE &e, unsigned max_failed, double tr, double rot, double frame) {
  auto &P = e.poses; unsigned failed = 0; double t = tr, r = rot; size_t i = 1; RobotPose best = P[0];
  std::string ctx = " (" + std::to_string(max_failed) + " failed rounds allowed): tested" + (P.size() < 200 ? show(e) : " " + std::to_string(P.size()) + " poses");
  while (true) {
    if (failed == max_failed) { MC_CHECK(cx, P.size() - i <= (max_failed ? 1 : 0), "budget", P.size() - i << " poses tested after " << failed << " rounds failed" << ctx);
      if (i == P.size()) break; } // the search may begin a round before it notices
    else MC_CHECK(cx, i < P.size(), "stopped-early", "the search stopped after " << failed << " failed rounds" << ctx);
    RobotPose base = best; bool improved = false; std::vector<RobotPose> want;
    for (int d : {1, -1}) { want.push_back({base.x + d * t * std::cos(frame), base.y + d * t * std::sin(frame), base.theta}); want.push_back({base.x - d * t * std::sin(frame), base.y + d * t * std::cos(frame), base.theta}); want.push_back({base.x, base.y, base.theta + d * r}); }
    std::vector<bool> used(6); int k = 0;
    for (; k < 6 && i < P.size(); ++k, ++i) {
      bool f = false; if (t < 1e-7) f = std::fabs(P[i].x - base.x) + std::fabs(P[i].y - base.y) + std::fabs(P[i].theta - base.theta) < 1e-5; // steps too small to tell apart
      for (int w = 0; w < 6 && !f; ++w) if (!used[w] && mc::near(want[w].x, P[i].x) && mc::near(want[w].y, P[i].y) && mc::near(want[w].theta, P[i].theta)) used[w] = f = true;
      MC_CHECK(cx, f, "round-pose", "pose " << i << " (" << P[i].x << "," << P[i].y << "," << P[i].theta << ") is not an untried step of (" << t << "," << r << ") from " << base << ctx);
      if (e.better[i]) { improved = true; best = P[i]; }
    }
    if (failed == max_failed) break;
    MC_CHECK(cx, k == 6, "round-cut", "a round of " << k << " poses" << ctx);
    if (!improved) { ++failed; t /= 2; r /= 2; }
  }
  cx.state(mc::Hash() << failed << t << r << (uint64_t)P.size()); cx.outcome(mc::Hash() << best.x << best.y << best.theta << (uint64_t)P.size());
}
MC_SCENARIO(hill_climbing, 5) {
  unsigned rounds = cx.choose(cx.thorough ? 4 : 3, "rounds"); bool second_first = false; int kinds = cx.thorough ? 3 : 2;
  AnswerSPE *spe = new AnswerSPE(cx, 0, kinds); std::shared_ptr<ScanProbabilityEstimator> sp(spe);
  HillClimbingScanMatcher sm(sp, rounds, 0.25, 0.5); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 2; ++k) {
    spe->start(k ? 6 : cx.thorough ? 9 : 12); RobotPoseDelta d; sm.process_scan(wall(0.3, 3), Starts[k], map, d); MC_LOG(cx, show(*spe));
    check_hc(cx, *spe, rounds, 0.25, 0.5, 0);
    if (!k && cx.flag("reset in between")) sm.reset_state();
  }
}
// which rounds fail: all patterns of failing and improving rounds
MC_SCENARIO(hill_climbing_rounds, 3) {
  unsigned rounds = cx.choose(cx.thorough ? 6 : 4, "rounds"); int n = cx.thorough ? 10 : 8;
  struct E : AnswerSPE { using AnswerSPE::AnswerSPE; int n; std::vector<int> at; // at: which pose of each round is better, 0 none
    double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override {
      int i = poses.size(); poses.push_back(p); cx.step(); if (i > 2000) cx.fail("no-termination", "more than 2000 poses were tested");
      int r = (i - 1) / 6, k = (i - 1) % 6 + 1; bool b = i > 0 && r < n && at[r] == k; better.push_back(b); if (b) best += 0.001; return b || !i ? best : best - 0.1; } };
  E *spe = new E(cx, 0, 2); spe->n = n; for (int i = 0; i < n; ++i) { int a = cx.choose(cx.thorough ? 3 : 3, "round"); spe->at.push_back(a == 0 ? 0 : a == 1 ? 1 : 6); }
  std::shared_ptr<ScanProbabilityEstimator> sp(spe); HillClimbingScanMatcher sm(sp, rounds, 0.2, 0.1); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 2; ++k) { spe->start(0); RobotPoseDelta d; sm.process_scan(wall(1, 4), Starts[k + 1], map, d); check_hc(cx, *spe, rounds, 0.2, 0.1, 0); }
}
// rounds aligned to the main direction of the scan, which changes from scan to scan
MC_SCENARIO(frame_alignment, 3) {
  AnswerSPE *spe = new AnswerSPE(cx, 0, 2); std::shared_ptr<ScanProbabilityEstimator> sp(spe); unsigned rounds = 1 + cx.choose(2, "rounds");
  HillClimbingScanMatcher sm(sp, rounds, 0.2, 0.1, true); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 2; ++k) {
    int a = cx.choose(4, "direction"), n = std::vector<int>{0, 1, 2, 5}[cx.choose(4, "points")]; double ang = std::vector<double>{0.1, 0.7, 1.2, 2.5}[a];
    spe->start(6); RobotPoseDelta d; sm.process_scan(wall(ang, n), Starts[k], map, d); MC_LOG(cx, show(*spe)); check_hc(cx, *spe, rounds, 0.2, 0.1, n < 2 ? 0 : ang);
  }
}
// ------------------------------------------------------------------ Monte Carlo
// the n-th sample drawn with the given spread after the sampler was restarted at the given draws: taken from a fresh enumerator that only ever samples
static RobotPose nth(unsigned seed, double t, double r, const std::vector<int> &segments, const RobotPose &from) {
  GaussianPoseEnumerator pe(seed, t, r, 1000000, 1000000); RobotPose p;
  for (size_t s = 0; s < segments.size(); ++s) { if (s) pe.reset(); for (int i = 0; i < segments[s]; ++i) p = pe.next(from); }
  return p;
}
MC_SCENARIO(monte_carlo, 5) {
  unsigned fails = cx.choose(cx.thorough ? 8 : 6, "failures"), total = std::vector<unsigned>{0, 1, 4, 9, 14}[cx.choose(5, "attempts")], seed = 7;
  AnswerSPE *spe = new AnswerSPE(cx, 0, cx.thorough ? 3 : 2); std::shared_ptr<ScanProbabilityEstimator> sp(spe); double T = 0.2, R = 0.1;
  MonteCarloScanMatcher sm(sp, seed, T, R, fails, total); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  std::vector<int> segs; std::vector<RobotPose> all; std::vector<bool> ans;
  for (int k = 0; k < 2; ++k) {
    spe->start(k ? 3 : cx.thorough ? 10 : 11); RobotPoseDelta d; sm.process_scan(wall(0.3, 3), Starts[k], map, d); auto &P = spe->poses; std::string ctx = " (" + std::to_string(fails) + " failures, " + std::to_string(total) + " poses allowed): tested" + show(*spe); MC_LOG(cx, ctx);
    segs.push_back(0); double t = T, r = R; unsigned f = 0, n = 0; RobotPose best = P[0]; size_t i = 1;
    for (;; ++i) {
      bool go = f < fails && n < total;
      MC_CHECK(cx, go || i == P.size(), "budget", "a pose was tested after " << n << " poses and " << f << " failures" << ctx);
      MC_CHECK(cx, !go || i < P.size(), "stopped-early", "the search stopped after " << n << " poses and " << f << " failures" << ctx);
      if (!go) break;
      ++segs.back(); ++n; RobotPose w = nth(seed, t, r, segs, best);
      MC_CHECK(cx, mc::near(w.x, P[i].x) && mc::near(w.y, P[i].y) && mc::near(w.theta, P[i].theta), "sample", "pose " << i << " is not the sample expected with spread (" << t << "," << r << ") around the best pose: expected " << w << ctx);
      all.push_back(P[i]); ans.push_back(spe->better[i]);
      if (spe->better[i]) { best = P[i]; if (f > fails / 3) { t /= 2; r /= 2; f = 0; segs.push_back(0); } } else ++f;
    }
    cx.state(mc::Hash() << f << n << t << k); cx.outcome(mc::Hash() << (uint64_t)P.size() << best.x << best.y);
  }
}
// one seed - one sequence; another seed - another one; the three coordinates are drawn independently with their own spread
MC_SCENARIO(monte_carlo_seed, 2) {
  unsigned seed = std::vector<unsigned>{0, 1, 42, 4000000000u}[cx.choose(4, "seed")]; double T = cx.flag("T") ? 0.2 : 1, R = cx.flag("R") ? 0.1 : 0; int n = cx.thorough ? 2000 : 200;
  GaussianPoseEnumerator a(seed, T, R, 9999, 9999), b(seed, T, R, 9999, 9999), c(seed + 1, T, R, 9999, 9999), far(seed ^ 0x80000000u, T, R, 9999, 9999), half(seed ^ 0x10000u, T, R, 9999, 9999), w(seed, 2 * T, 3 * R, 9999, 9999); RobotPose o{0, 0, 0}, s{5, -3, 1}; bool differ = false, fdiffer = false, hdiffer = false; double sx = 0, sy = 0, st = 0, sxy = 0, mx = 0;
  for (int i = 0; i < n; ++i) {
    auto p = a.next(o), q = b.next(o), z = c.next(o), v = w.next(s); cx.step();
    MC_CHECK(cx, p.x == q.x && p.y == q.y && p.theta == q.theta, "seed", "two searches with seed " << seed << " differ at pose " << i);
    MC_CHECK(cx, mc::near(v.x, 5 + 2 * p.x) && mc::near(v.y, -3 + 2 * p.y) && mc::near(v.theta, 1 + 3 * p.theta), "spread", "the spread does not scale sample " << i << " around the given pose");
    MC_CHECK(cx, R > 0 || p.theta == 0, "rotation", "rotated with zero spread"); if (p.x != z.x) differ = true; if (p.x != far.next(o).x) fdiffer = true; if (p.x != half.next(o).x) hdiffer = true;
    sx += p.x * p.x; sy += p.y * p.y; st += p.theta * p.theta; sxy += p.x * p.y; mx += p.x;
  }
  MC_CHECK(cx, fdiffer && hdiffer, "seed-ignored", "seeds " << seed << " and another that differs in one of its high bits give the same poses"); MC_CHECK(cx, differ, "seed-ignored", "seeds " << seed << " and " << seed + 1 << " give the same poses");
  double tol = 6 / std::sqrt(double(n));
  for (double k : {std::sqrt(sx / n) / T, std::sqrt(sy / n) / T, R > 0 ? std::sqrt(st / n) / R : 1}) MC_CHECK(cx, std::fabs(k - 1) < tol, "deviation", "the samples' deviation is " << k << " of the configured one");
  MC_CHECK(cx, std::fabs(sxy / n) < tol * T * T && std::fabs(mx / n) < tol * T, "correlation", "samples are biased or correlated"); cx.outcome(mc::Hash() << sx << st);
}
// long searches with regular patterns of better poses
struct PeriodSPE : AnswerSPE { using AnswerSPE::AnswerSPE; int period = 1, until = 0; double step = 1e-5;
  double estimate_scan_probability(const LaserScan2D &, const RobotPose &p, const GridMap &, const SPEParams &) const override { int i = poses.size(); poses.push_back(p); cx.step(); if (i > 80000) cx.fail("no-termination", "more than 80000 poses were tested"); bool b = i > 0 && i < until && i % period == period - 1; better.push_back(b); if (b) best += step; return b || !i ? best : best - 0.1; } };
MC_SCENARIO(long_hill_climbing, 2) {
  unsigned rounds = cx.pick(std::vector<unsigned>{5, 12, 18, 300}, "rounds"); auto spe = std::make_shared<PeriodSPE>(cx, 0, 2); spe->period = cx.pick(std::vector<int>{1, 4, 6, 7, 13, 25, 100}, "period"); spe->until = cx.pick(std::vector<int>{0, 30, 301, 1500}, "until"); if (cx.flag("tiny gains")) spe->step = 1e-12;
  HillClimbingScanMatcher sm(spe, rounds, 0.25, 0.5); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 3; ++k) { spe->start(0); RobotPoseDelta d; sm.process_scan(wall(0.3, 3), Starts[k], map, d); check_hc(cx, *spe, rounds, 0.25, 0.5, 0); }
}
MC_SCENARIO(long_monte_carlo, 2) {
  unsigned fails = cx.pick(std::vector<unsigned>{3, 20, 100, 255, 70000}, "failures"), total = cx.pick(std::vector<unsigned>{50, 300, 1000, 70000}, "attempts"), seed = cx.pick(std::vector<unsigned>{1, 666666}, "seed"); double T = 0.2, R = 0.1; auto spe = std::make_shared<PeriodSPE>(cx, 0, 2); spe->period = cx.pick(std::vector<int>{1, 2, 5, 9, 41, 150}, "period"); spe->until = cx.pick(std::vector<int>{0, 60, 100000}, "until");
  MonteCarloScanMatcher sm(spe, seed, T, R, fails, total); GaussianPoseEnumerator shadow(seed, T, R, 1000000, 1000000); UnboundedPlainGridMap map{std::make_shared<HCell>(), GridMapParams{3, 3, 1}};
  for (int k = 0; k < 3; ++k) {
    spe->start(0); RobotPoseDelta d; sm.process_scan(wall(0.3, 3), Starts[k], map, d); auto &P = spe->poses; std::string ctx = " (" + std::to_string(fails) + " failures, " + std::to_string(total) + " poses allowed, every " + std::to_string(spe->period) + "-th better): " + std::to_string(P.size()) + " poses tested"; MC_LOG(cx, ctx);
    double t = T, r = R; unsigned f = 0, n = 0; RobotPose best = P[0]; size_t i = 1; if (k) shadow.reset();
    for (;; ++i) { bool go = f < fails && n < total; MC_CHECK(cx, go || i == P.size(), "budget", "a pose was tested after " << n << " poses and " << f << " failures" << ctx); MC_CHECK(cx, !go || i < P.size(), "stopped-early", "the search stopped after " << n << " poses and " << f << " failures" << ctx); if (!go) break; ++n;
      RobotPose z = shadow.next(RobotPose{0, 0, 0}), w{best.x + z.x * (t / T), best.y + z.y * (t / T), best.theta + z.theta * (r / R)}; MC_CHECK(cx, mc::near(w.x, P[i].x) && mc::near(w.y, P[i].y) && mc::near(w.theta, P[i].theta), "sample", "pose " << i << " is " << P[i] << ", expected " << w << " with spread (" << t << "," << r << ")" << ctx);
      if (spe->better[i]) { best = P[i]; if (f > fails / 3) { t /= 2; r /= 2; f = 0; shadow.reset(); } } else ++f; }
    cx.state(mc::Hash() << f << n << t << k); cx.outcome(mc::Hash() << (uint64_t)P.size() << best.x << best.y);
  }
}
