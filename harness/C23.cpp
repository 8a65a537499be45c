// C23: the particle filter keeps a valid weighted population
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include <functional>
#include "rng.h"
#include "common.h"
#include "core/particle_filter.h"
#include "gm.h"
struct P : Particle { int tag = -1, sampled = 0; std::vector<int> hist; void sample() override { ++sampled; Particle::sample(); } };
struct F : ParticleFactory<P> { int n = 0; std::shared_ptr<P> create_particle() override { ++n; return std::make_shared<P>(); } };
using PF = ParticleFilter<P>;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static std::string show(const PF &f) { std::ostringstream o; o.precision(17); for (auto &p : f.particles()) o << " " << p->tag << ":" << p->weight(); return o.str(); }
static void valid(mc::Ctx &cx, PF &f, unsigned n, const std::string &ctx) {
  MC_CHECK(cx, f.particles().size() == n, "population-size", f.particles().size() << " particles instead of " << n << "; " << ctx); double s = 0, best = -1;
  for (auto &p : f.particles()) { MC_CHECK(cx, std::isfinite(p->weight()) && p->weight() >= 0, "weight", "weights" << show(f) << "; " << ctx); s += p->weight(); best = std::max(best, p->weight()); }
  MC_CHECK(cx, mc::near(s, 1), "weights-sum", "weights" << show(f) << " sum to " << s << "; " << ctx); const PF &c = f;
  MC_CHECK(cx, f.heaviest_particle().weight() == best && c.heaviest_particle().weight() == best, "heaviest", "the heaviest particle has weight " << f.heaviest_particle().weight() << " of" << show(f) << "; " << ctx);
  bool in = false; for (auto &p : f.particles()) in |= p.get() == &f.heaviest_particle(); MC_CHECK(cx, in, "heaviest", "the heaviest particle is not one of the population; " << ctx);
  std::set<P *> d; for (auto &p : f.particles()) d.insert(p.get()); MC_CHECK(cx, d.size() == n, "distinct", "a particle object is in the population twice; " << ctx);
}
static const std::vector<double> Ws = {0, 1, 0.25, 3, 1e-9, 1e-300}, Bad = {0, 1, 0.5, 0.0, NaN};
MC_SCENARIO(start, 1) { unsigned n = 1 + cx.choose(42, "n"); if (n > 40) n = n == 41 ? 257 : 1000; PF f{std::make_shared<F>(), n}; cx.step(); valid(cx, f, n, "new filter of " + std::to_string(n)); for (auto &p : f.particles()) MC_CHECK(cx, mc::near(p->weight(), 1.0 / n), "start-weight", "a new filter of " << n << " has weights" << show(f)); cx.outcome(mc::Hash() << n); cx.state(mc::Hash() << n); }
MC_SCENARIO(normalize, 3) {
  unsigned n = 1 + cx.choose(cx.thorough ? 5 : 4, "n"); bool bad = cx.flag("bad weights"); PF f{std::make_shared<F>(), n}; std::vector<double> w; double s = 0; std::ostringstream os; os << "weights"; for (unsigned i = 0; i < n; ++i) { w.push_back(cx.pick(bad ? Bad : Ws, "weight")); s += w[i]; f.particles()[i]->set_weight(w[i]); f.particles()[i]->tag = i; os << " " << w[i]; }
  f.normalize_weights(); cx.step(); std::string ctx = os.str(); MC_LOG(cx, ctx); valid(cx, f, n, "normalising " + ctx); mc::Hash h; for (unsigned i = 0; i < n; ++i) { auto &p = f.particles()[i]; h << p->weight(); MC_CHECK(cx, p->tag == int(i), "reordered", "normalising reordered the particles; " << ctx); MC_CHECK(cx, !(s > 0) || mc::near(p->weight(), w[i] / s, 1e-12), "ratio", "normalising " << ctx << " gave" << show(f)); }
  cx.state(h); cx.outcome(h);
}
// one round of resampling with the given draws, judged by what happened to the population
static void resample(mc::Ctx &cx, PF &f, const std::vector<double> &draws, const std::string &ctx) {
  struct Old { P *p; double w; int tag, sampled; size_t hist; }; std::vector<Old> old; std::vector<std::shared_ptr<P>> keep = f.particles(); double sq = 0; for (auto &p : f.particles()) { old.push_back({p.get(), p->weight(), p->tag, p->sampled, p->hist.size()}); sq += p->weight() * p->weight(); }
  double eff = 1 / sq; size_t n = old.size(); std::string before = show(f); mc::rng().arm(draws); bool did = f.try_resample(); mc::rng().disarm(); cx.step();
  if (std::fabs(2 * eff - n) > 1e-6) MC_CHECK(cx, did == (2 * eff < n), "resampling-time", "with" << before << " (effective number " << eff << " of " << n << ") resampling was " << (did ? "" : "not ") << "done; " << ctx);
  bool exact = true; for (auto &o : old) exact &= o.w * 4096 == std::floor(o.w * 4096); // no rounding anywhere: half is not less than half
  if (exact && sq * n == 2) { MC_CHECK(cx, !did, "resampling-time", "with" << before << " exactly half of the " << n << " particles are effective, but resampling was done; " << ctx); cx.counters["exactly half effective"]++; }
  valid(cx, f, n, "resampling" + before + " " + ctx);
  if (!did) { for (size_t i = 0; i < n; ++i) MC_CHECK(cx, f.particles()[i].get() == old[i].p && f.particles()[i]->weight() == old[i].w && old[i].p->sampled == old[i].sampled, "not-resampled", "the population changed without resampling; " << ctx); cx.outcome(mc::Hash() << 1); return; }
  std::map<int, std::pair<int, int>> by; double tot = 0; for (auto &p : f.particles()) tot += old[p->tag].w; mc::Hash h;
  for (auto &p : f.particles()) {
    MC_CHECK(cx, p->tag >= 0 && p->tag < int(n), "state", "a resampled particle has lost its state; " << ctx); auto &o = old[p->tag]; bool orig = p.get() == o.p; (orig ? by[p->tag].first : by[p->tag].second)++; h << p->tag;
    MC_CHECK(cx, o.w > 0, "dead-particle", "particle " << p->tag << " of zero weight was selected; " << before << " " << ctx);
    for (auto &q : old) MC_CHECK(cx, orig || p.get() != q.p, "state", "particle object " << q.tag << " holds the state of " << p->tag << "; " << ctx);
    MC_CHECK(cx, p->hist.size() == o.hist && p->sampled == o.sampled + !orig, "state", (orig ? "a survivor" : "a copy") << " was sampled " << p->sampled - o.sampled << " times or lost its history; " << ctx);
    MC_CHECK(cx, mc::near(p->weight(), o.w / tot), "copied-weight", "after resampling" << before << " there are" << show(f) << "; " << ctx);
  }
  for (auto &b : by) MC_CHECK(cx, b.second.first == 1, "survivor", "particle " << b.first << " was selected " << b.second.first + b.second.second << " times but its original is in the population " << b.second.first << " times; " << ctx);
  for (size_t i = 0; i < n; ++i) { auto &p = f.particles()[i]; p->tag = i; } cx.outcome(h); cx.counters["resampled"]++;
}
static std::vector<double> weights(mc::Ctx &cx, PF &f, const std::vector<double> &alphabet, std::ostream &os) { os << "weights"; for (auto &p : f.particles()) { double w = cx.pick(alphabet, "weight"); os << " " << w; p->set_weight(w); } f.normalize_weights(); return {}; }
MC_SCENARIO(resampling, 4) {
  unsigned n = 2 + cx.choose(3, "n"); PF f{std::make_shared<F>(), n}; for (unsigned i = 0; i < n; ++i) { f.particles()[i]->tag = i; f.particles()[i]->hist.assign(i, 1); } std::ostringstream os;
  weights(cx, f, cx.thorough ? std::vector<double>{0, 1, 0.25, 20, 1e-9} : std::vector<double>{0, 1, 20}, os); static const std::vector<double> D = {0, 0.03, 0.3, 0.52, 0.77, 1 - std::ldexp(1, -53)}, Dt = {0, 0.02, 0.045, 0.3, 0.45, 0.52, 0.66, 0.77, 0.94, 0.999999, 1 - std::ldexp(1, -53)};
  std::vector<double> d; os << " draws"; for (unsigned i = 0; i < n; ++i) { d.push_back(cx.pick(cx.thorough && n < 4 ? Dt : D, "draw")); os << " " << d[i]; } MC_LOG(cx, os.str()); resample(cx, f, d, os.str()); mc::Hash h; for (auto &p : f.particles()) h << p->weight() << p->sampled; cx.state(h);
}
// rounding: larger populations whose weights sum to a bit less than one, with the largest possible draws
MC_SCENARIO(rounding, 2) {
  unsigned n = 5 + cx.choose(cx.thorough ? 60 : 30, "n"), zeros = 1 + cx.choose(n - 2, "zeros"); bool back = cx.flag("zeros last"); PF f{std::make_shared<F>(), n};
  for (unsigned i = 0; i < n; ++i) { f.particles()[i]->tag = i; bool z = back ? i >= n - zeros : i < zeros; f.particles()[i]->set_weight(z ? 0 : 1); } f.normalize_weights();
  double u = cx.pick(std::vector<double>{0, 1 - std::ldexp(1, -53), 1 - std::ldexp(1, -52), 0.5}, "draw"); std::ostringstream os; os << n << " particles, " << zeros << " without weight " << (back ? "last" : "first") << ", all draws " << u; resample(cx, f, std::vector<double>(n, u), os.str()); cx.state(mc::Hash() << n << zeros << back << u);
}
// each particle is selected in proportion to its weight: over a fine grid of all values one draw can take
MC_SCENARIO(proportion, 3) {
  unsigned n = 3 + cx.choose(2, "n"), slot = cx.choose(3, "slot"); std::vector<double> w; double s = 0, sq = 0; for (unsigned i = 0; i < n; ++i) { w.push_back(cx.pick(std::vector<double>{0, 1, 7, 40}, "weight")); s += w[i]; } if (s == 0) return; for (auto &x : w) { x /= s; sq += x * x; } if (2 / sq > n - 1e-6) return;
  int K = cx.thorough ? 1000 : 200; std::vector<int> cnt(n); bool scripted = true;
  for (int k = 0; k < K; ++k) {
    PF f{std::make_shared<F>(), n}; for (unsigned i = 0; i < n; ++i) { f.particles()[i]->tag = i; f.particles()[i]->set_weight(w[i]); } std::vector<double> d(n, 0.5); d[slot] = (k + 0.5) / K; mc::rng().arm(d); f.try_resample(); scripted &= mc::rng().used == n; mc::rng().disarm(); cx.step();
    for (auto &p : f.particles()) cnt[p->tag]++;
  }
  if (!scripted) { cx.counters["draws not under control"]++; return; } // another generator: not decided here
  // the other slots always take the particle at 0.5
  int mid = -1; double c = 0; for (unsigned i = 0; i < n && mid < 0; ++i) { c += w[i]; if (0.5 < c) mid = i; } std::ostringstream os; os << "weights"; for (auto x : w) os << " " << x; os << ": of " << K << " draws"; for (auto x : cnt) os << " " << x;
  for (unsigned i = 0; i < n; ++i) { double want = K * w[i]; int got = cnt[i] - (int(i) == mid ? K * (int(n) - 1) : 0); MC_CHECK(cx, std::fabs(got - want) <= 1.01, "proportion", os.str() << " selected particles 0, 1, ... (slots other than " << slot << " always take " << mid << "); particle " << i << " was selected by " << got << " instead of " << want); cx.state(mc::Hash() << got << i); } cx.outcome(mc::Hash() << os.str());
}
// however small its weight is, a particle is selected by some draw (those that fall where its weight lies among any subset of the others)
MC_SCENARIO(small_weights, 2) {
  unsigned n = 3 + cx.choose(2, "n"); double tiny = cx.pick(std::vector<double>{1e-4, 1e-7, 1e-9, 1e-11, 1e-13}, "tiny"); std::vector<double> w; double s = 0, sq = 0; for (unsigned i = 0; i < n; ++i) { w.push_back(cx.pick(std::vector<double>{0, 1, tiny, 3}, "weight")); s += w[i]; } if (s == 0) return; for (auto &x : w) { x /= s; sq += x * x; } if (2 / sq > n - 1e-6) return; std::ostringstream os; os.precision(17); os << "weights"; for (auto x : w) os << " " << x; MC_LOG(cx, os.str());
  for (unsigned i = 0; i < n; ++i) if (w[i] > 1e-14) {
    bool taken = false; for (unsigned sub = 0; sub < 1u << n && !taken; ++sub) if (!(sub >> i & 1)) {
      double lo = 0; for (unsigned j = 0; j < n; ++j) if (sub >> j & 1) lo += w[j]; double u = lo + w[i] / 2; if (u >= 1) continue;
      PF f{std::make_shared<F>(), n}; for (unsigned k = 0; k < n; ++k) { f.particles()[k]->tag = k; f.particles()[k]->set_weight(w[k]); } std::vector<double> d(n, 0.5); d[0] = u; mc::rng().arm(d); f.try_resample(); bool scripted = mc::rng().used == n; mc::rng().disarm(); cx.step(); if (!scripted) { cx.counters["draws not under control"]++; return; } for (auto &p : f.particles()) taken |= p->tag == int(i); }
    MC_CHECK(cx, taken, "never-selected", "no draw selects particle " << i << "; " << os.str()); cx.counters["particles that some draw selects"]++;
  }
  cx.state(mc::Hash() << os.str()); cx.outcome(mc::Hash() << os.str());
}
static void rounds_body(mc::Ctx &cx, unsigned n, int depth) {
  PF f{std::make_shared<F>(), n}; for (unsigned i = 0; i < n; ++i) f.particles()[i]->tag = i; std::ostringstream os;
  for (int r = 0; r < depth; ++r) {
    std::vector<double> w; double s = 0; os << " | factors"; for (unsigned i = 0; i < n; ++i) { double x = i < 2 || (n > 5 && i % 5 < 2) ? cx.pick(std::vector<double>{0, 1, 9}, "factor") : i == 2 ? cx.pick(std::vector<double>{1, 30}, "factor") : 0.5; os << " " << x; w.push_back(x * f.particles()[i]->weight()); s += w[i]; f.particles()[i]->set_weight(w[i]); f.particles()[i]->hist.push_back(r); }
    f.normalize_weights(); valid(cx, f, n, os.str()); for (unsigned i = 0; i < n; ++i) MC_CHECK(cx, mc::near(f.particles()[i]->weight(), w[i] / s), "ratio", "weights" << show(f) << ";" << os.str());
    int pat = cx.choose(3, "draws"); std::vector<double> d; for (unsigned i = 0; i < n; ++i) d.push_back(pat == 0 ? 0.001 : pat == 1 ? 0.999 : (i + 0.5) / n); os << " draws " << pat; MC_LOG(cx, os.str()); resample(cx, f, d, os.str());
    for (auto &p : f.particles()) MC_CHECK(cx, int(p->hist.size()) == r + 1, "state", "a particle has lost its history;" << os.str()); mc::Hash h; for (auto &p : f.particles()) h << p->weight() << p->sampled; cx.state(h << r);
  }
}
MC_SCENARIO(rounds, 4) { unsigned n = 3 + cx.choose(2, "n"); rounds_body(cx, n, cx.thorough ? 4 : 3); }
// large populations over many rounds, each a repeated word of decisions
MC_SCENARIO(many_particles, 3) { unsigned n = cx.pick(std::vector<unsigned>{20, 57, 300}, "n"); cx.periodic(4, 3, 2); rounds_body(cx, n, cx.thorough ? 60 : 15); }
// ---- the particle-filter SLAM: one master, valid weights whatever the matcher answers
static bool same_pose(const RobotPose &a, const RobotPose &b) { return std::fabs(a.x - b.x) < 1e-9 && std::fabs(a.y - b.y) < 1e-9; }
static void slam_weights_body(mc::Ctx &cx, unsigned n, int depth) {
  mc::rng().restart(); auto sm = std::make_shared<GmSM>(); SingleStateHypothesisLSGWProperties p; p.gsm = sm; p.gmsa = std::make_shared<GmAdder>(); p.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmCell>(), GridMapParams{8, 8, 1});
  const double noise = 0.001; GmappingParticleFilter f{p, GMappingParams{noise, 0, 0, 0, 0, 0, 0, 0}, n}; // every particle processes every scan; all but the master shift by the noise first
  std::ostringstream os; std::vector<RobotPose> pose(n, RobotPose{0, 0, 0}); bool certain = true; std::vector<double> w(n, 1.0 / n); RobotPose best;
  for (int r = 0; r <= depth; ++r) {
    RobotPoseDelta d = r && r < depth && cx.flag("long drive") ? RobotPoseDelta{1, 0, 0} : RobotPoseDelta{0.125, 0, 0}; int pat = r < depth ? cx.choose(n + 4, "scores") : 0; int draws = r < depth ? cx.choose(3, "draws") : 0; os << " | drive " << d.x << " scores " << pat << " draws " << draws; std::vector<double> dr; for (unsigned i = 0; i < n; ++i) dr.push_back(draws == 0 ? 0.0001 : draws == 1 ? 0.9999 : (i + 0.5) / n);
    std::vector<double> sc; std::vector<RobotPose> end; sm->asked.clear(); sm->answer = [&](size_t i, const Ask &a, RobotPoseDelta &c) { c.y = 0.01 * (i + 1) + 0.1 * r; double s = pat == int(n) ? 0 : pat == int(n) + 1 ? NaN : pat == int(n) + 2 ? 0.5 : pat == int(n) + 3 ? (i == 1 ? NaN : 0.25) : pat == int(i) ? 1 : 1e-4; sc.push_back(s); end.push_back(a.at + c); return s; };
    auto s = gm_scan(d); mc::rng().arm(dr); f.handle_sensor_data(s); mc::rng().disarm(); cx.step(); std::string ctx = std::to_string(n) + " particles" + os.str(); MC_LOG(cx, ctx);
    MC_CHECK(cx, sm->asked.size() == n, "population-size", sm->asked.size() << " particles processed scan " << r << "; " << ctx);
    // where each came from: the particles of the previous step, shifted by the noise unless first scan or master
    auto from = [&](size_t i, double dx) { std::vector<int> v; for (size_t j = 0; j < n; ++j) if (std::fabs(pose[j].x + d.x + dx - sm->asked[i].at.x) < 1e-7 && std::fabs(pose[j].y + dx - sm->asked[i].at.y) < 1e-7) v.push_back(j); return v; };
    int masters = 0; std::vector<int> src(n, -1);
    for (size_t i = 0; i < n; ++i) { auto quiet = from(i, 0), loud = from(i, noise); if (r == 0) { MC_CHECK(cx, !quiet.empty(), "source", "particle " << i << " was moved by noise before its first scan; " << ctx); src[i] = i; continue; }
      MC_CHECK(cx, !quiet.empty() || !loud.empty(), "source", "particle " << i << " at " << sm->asked[i].at << " comes from no particle of the previous step; " << ctx); masters += !quiet.empty(); src[i] = quiet.empty() ? loud[0] : quiet[0]; MC_CHECK(cx, w[src[i]] > 0, "dead-particle", "a particle of zero weight survived resampling; " << ctx); }
    if (r) MC_CHECK(cx, masters == 1, "one-master", masters << " particles are masters (processed scan " << r << " without noise); " << ctx);
    if (r) { double top = 0; bool ok = false; std::ostringstream ws; for (int j : src) { ws << " " << w[j]; top = std::max(top, w[j]); } for (int j : src) ok |= w[j] > top - 1e-9 && same_pose(pose[j], best);
      MC_CHECK(cx, ok, "best-particle", "the pose " << best << " published before is not that of a particle of greatest weight (" << ws.str() << " ); " << ctx); }
    best = f.pose(); std::vector<double> nw(n); double tot = 0; for (size_t i = 0; i < n; ++i) { nw[i] = w[src[i]]; tot += nw[i]; } for (auto &x : nw) x /= tot; tot = 0; for (size_t i = 0; i < n; ++i) { if (!std::isnan(sc[i])) nw[i] *= sc[i]; tot += nw[i]; } for (auto &x : nw) x = tot > 0 ? x / tot : 1.0 / n;
    MC_CHECK(cx, std::any_of(end.begin(), end.end(), [&](const RobotPose &e) { return same_pose(e, f.pose()); }), "best-particle", "the published pose " << f.pose() << " is not that of a particle; " << ctx);
    w = nw; pose = end; mc::Hash h; for (auto x : w) h << x; for (auto &q : pose) h << q.x << q.y; cx.state(h << r); cx.outcome(mc::Hash() << f.pose().x << f.pose().y);
  }
}
MC_SCENARIO(slam_weights, 3) { unsigned n = 3 + cx.choose(2, "particles"); slam_weights_body(cx, n, cx.thorough ? 4 : 3); }
MC_SCENARIO(long_slam_weights, 3) { unsigned n = cx.pick(std::vector<unsigned>{4, 12, 30}, "particles"); cx.periodic(3, n > 12 ? 3 : 4, 3); slam_weights_body(cx, n, cx.thorough ? 40 : 12); }
// the particle-filter SLAM resamples at exactly the scans at which too few particles are effective and the robot has moved far enough since the last resampling
static void slam_resampling_time_body(mc::Ctx &cx, unsigned n, int depth) {
  static const std::vector<RobotPoseDelta> Drive = {{0.125, 0, 0}, {-0.5, 0, 0.0625}, {0.25, -0.5, 0}, {0, 0, -0.125}, {1, 0, 0}};
  mc::rng().restart(); auto sm = std::make_shared<GmSM>(); SingleStateHypothesisLSGWProperties p; p.gsm = sm; p.gmsa = std::make_shared<GmAdder>(); p.grid_map = std::make_shared<UnboundedLazyTiledGridMap>(std::make_shared<GmCell>(), GridMapParams{8, 8, 1});
  GmappingParticleFilter f{p, GMappingParams{0, 0, 0, 0, 0, 0, 0, 0}, n}; double draw = cx.pick(std::vector<double>{0.0001, 0.5, 0.9999}, "all draws");
  std::ostringstream os; os << n << " particles, draws " << draw; std::vector<RobotPose> pose(n, RobotPose{0, 0, 0}); std::vector<double> w(n, 1.0 / n); bool due = false; double tx = 0, ty = 0, tth = 0;
  for (int r = 0; r <= depth; ++r) {
    bool last = r == depth; auto d = last ? RobotPoseDelta{0.125, 0, 0} : cx.pick(Drive, "drive"); int fav = last ? 0 : cx.choose(3, "favoured"); os << " | drive " << d.x << "," << d.y << "," << d.theta << " favoured " << fav; std::vector<double> sc; std::vector<RobotPose> end;
    sm->asked.clear(); sm->answer = [&](size_t i, const Ask &a, RobotPoseDelta &c) { c.y = 0.01 * (i + 1) + 0.1 * r; double s = fav == 2 ? 0.5 : int(i) == fav ? 0.5 : 1e-3; sc.push_back(s); end.push_back(a.at + c); return s; };
    auto s = gm_scan(d); mc::rng().arm(std::vector<double>(n, draw)); f.handle_sensor_data(s); bool scripted = mc::rng().used == 0 || mc::rng().used == n; mc::rng().disarm(); cx.step(); std::string ctx = os.str(); MC_LOG(cx, ctx); if (!scripted) { cx.counters["draws not under control"]++; return; }
    MC_CHECK(cx, sm->asked.size() == n, "population-size", sm->asked.size() << " particles processed scan " << r << "; " << ctx); std::vector<int> src; std::set<int> u;
    // all particles moved by the same odometry and keep the orientation of the odometry: the move is a plain shift
    for (size_t i = 0; i < n; ++i) { int j = -1; for (size_t k = 0; k < n; ++k) if (std::fabs(pose[k].x + d.x - sm->asked[i].at.x) < 1e-7 && std::fabs(pose[k].y + d.y - sm->asked[i].at.y) < 1e-7 && (r || k == i)) j = k; MC_CHECK(cx, j >= 0, "source", "particle " << i << " at " << sm->asked[i].at << " comes from no particle of the previous step; " << ctx); src.push_back(j); u.insert(j); }
    MC_CHECK(cx, due ? u.size() == 1 : u.size() == n, "resampling-time", "before scan " << r << " resampling was " << (due ? "needed but not" : "not needed but") << " done (" << u.size() << " of " << n << " particles survive; moved " << tx << "," << ty << "," << tth << " since the last one); " << ctx);
    if (due) { tx = ty = tth = 0; cx.counters["resampled in the SLAM"]++; } std::vector<double> nw; double tot = 0, sq = 0; for (size_t i = 0; i < n; ++i) { nw.push_back(w[src[i]] * sc[i] ); tot += nw[i]; } for (auto &x : nw) { x /= tot; sq += x * x; } tx += std::fabs(d.x); ty += std::fabs(d.y); tth += std::fabs(d.theta);
    if (std::fabs(tx * tx + ty * ty - 0.5) < 1e-6 || std::fabs(tth - 0.2) < 1e-6 || std::fabs(2 / sq - n) < 1e-6) return; // on a threshold
    due = 2 / sq < n && (tx * tx + ty * ty > 0.5 || tth > 0.2); w = nw; pose = end; mc::Hash h; for (auto x : w) h << x; for (auto &q : pose) h << q.x << q.y; cx.state(h << r << tx); cx.outcome(mc::Hash() << due << r);
  }
}
MC_SCENARIO(slam_resampling_time, 3) { unsigned n = 3 + cx.choose(cx.thorough ? 3 : 2, "particles"); slam_resampling_time_body(cx, n, cx.thorough ? 6 : 4); }
MC_SCENARIO(long_slam_resampling_time, 3) { unsigned n = cx.pick(std::vector<unsigned>{4, 12, 30}, "particles"); cx.periodic(4, 4, 3); slam_resampling_time_body(cx, n, cx.thorough ? 60 : 15); }
