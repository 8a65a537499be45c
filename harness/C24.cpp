// C24: each GMapping particle carries its own pose, weight and map
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include <functional>
#include "rng.h"
#include "common.h"
#include "gm.h"
static double Scale = 0.1; static const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
static bool near(const RobotPose &a, const RobotPose &b) { return std::fabs(a.x - b.x) < 1e-9 && std::fabs(a.y - b.y) < 1e-9 && std::fabs(a.theta - b.theta) < 1e-9; }
struct Ref { RobotPose pose{0, 0, 0}, raw{0, 0, 0}; std::vector<RobotPose> wrote; double w = 1, dx = 0, dy = 0, dth = 0; bool first = true, master = false; double lim = 0, lth = 0; };
static UnboundedLazyTiledGridMap blank() { return UnboundedLazyTiledGridMap{std::make_shared<GmCell>(), GridMapParams{8, 8, Scale}}; }
static uint64_t map_of(const Ref &r) { static std::map<uint64_t, uint64_t> memo; if (memo.size() > 200000) memo.clear(); mc::Hash h; h << Scale << gm_window(); for (auto &p : r.wrote) h << p.x << p.y << p.theta; auto it = memo.find(h); if (it != memo.end()) return it->second;
  auto m = blank(); GmAdder a; auto s = gm_scan({0, 0, 0}); for (auto &p : r.wrote) a.append_scan(m, p, s.scan, 1, 0); return memo[h] = content(m); }
static void move(Ref &p, RobotPoseDelta d) { double t = p.pose.theta - p.raw.theta, c = std::cos(t), s = std::sin(t), x = c * d.x - s * d.y, y = s * d.x + c * d.y; p.raw += d; p.pose += RobotPoseDelta{x, y, d.theta}; p.dx += std::fabs(x); p.dy += std::fabs(y); p.dth += std::fabs(d.theta); }
static bool due(const Ref &p) { return !(p.dx * p.dx + p.dy * p.dy < 2 * p.lim * p.lim && p.dth < p.lth); }
struct Slam {
  std::shared_ptr<GmSM> sm = std::make_shared<GmSM>(); SingleStateHypothesisLSGWProperties p; std::shared_ptr<UnboundedLazyTiledGridMap> given; std::unique_ptr<GmappingParticleFilter> f;
  Slam(unsigned n, GMappingParams g, bool used_map = false) { mc::rng().restart(); given = std::make_shared<UnboundedLazyTiledGridMap>(blank()); p.gsm = sm; p.gmsa = std::make_shared<GmAdder>(); p.grid_map = given; f.reset(new GmappingParticleFilter(p, g, n)); }
};
// what the particles do between resamplings: poses, processed scans and maps of two particles (which are never resampled) against two stand-alone references
static const std::vector<RobotPoseDelta> Odom = {{0.125, 0, 0}, {0.5, 0.25, 0}, {0, 0, 0}, {0.125, -0.25, 0.4}, {-0.625, 0.375, -0.25}, {0.25, 0.125, 3.5}, {0, 0, 0.75}, {0.125, 0.25, 0.125}};
static const size_t Mute = 7; // the last one comes with a scan without points
static const std::vector<RobotPoseDelta> Fix = {{0.1, 0, 0}, {0, -0.2, 0.3}, {-0.3, 0.1, 0}};
static void two_particles_body(mc::Ctx &cx, int depth) {
  double lim = cx.pick(std::vector<double>{0, 0.3}, "xy limit"), lth = lim ? cx.pick(std::vector<double>{0.3, 5}, "angle limit") : 0; const double noise = 0.2, tnoise = 0.1; Slam s{2, GMappingParams{noise, 0, tnoise, 0, lim, lim, lth, lth}};
  std::vector<Ref> r(2); for (auto &p : r) { p.lim = lim; p.lth = lth; p.w = 0.5; } int master = -1; std::map<const GridMap *, int> who; std::ostringstream os; os << "limits " << lim << "," << lth;
  for (int k = 0; k < depth; ++k) {
    size_t di = cx.choose((int)Odom.size(), "odometry"); auto d = Odom[di]; bool mute = di == Mute; int a = cx.choose(cx.thorough || cx.repeating() ? 4 : 3, "answers"); os << " | odometry (" << d.x << "," << d.y << "," << d.theta << ") answers " << a; for (auto &p : r) move(p, d); std::string ctx = os.str(); MC_LOG(cx, ctx);
    struct Got { Ask a; RobotPoseDelta c; double s; }; std::vector<Got> got; s.sm->asked.clear(); s.sm->answer = [&](size_t i, const Ask &q, RobotPoseDelta &c) { c = Fix[(i + a + k) % 3]; double v = a == 0 ? 0.5 : a == 1 ? (i ? 0.75 : 0.25) : a == 2 ? (i ? 0 : 0.5) : (i ? NaN : 0.5); got.push_back({q, c, v}); return v; };
    auto sc = gm_scan(d); if (mute) sc.scan.points().clear(); s.f->handle_sensor_data(sc); cx.step(); std::vector<int> due_now; for (int i = 0; i < 2; ++i) if (due(r[i])) due_now.push_back(i);
    MC_CHECK(cx, got.size() == due_now.size(), "processed", got.size() << " particles processed scan " << k << ", expected " << due_now.size() << "; " << ctx); std::vector<RobotPose> at;
    for (size_t g = 0; g < got.size(); ++g) {
      int i = due_now[g]; Ref &p = r[i]; MC_CHECK(cx, !who.count(got[g].a.map) || who[got[g].a.map] == i, "shared-map", "two particles match scans against the same map; " << ctx); who[got[g].a.map] = i;
      RobotPose quiet = p.pose, loud = p.pose + RobotPoseDelta{noise, noise, tnoise}; if (p.first) { MC_CHECK(cx, near(got[g].a.at, quiet), "first-scan", "a particle matched its first scan from " << got[g].a.at << ", expected " << quiet << "; " << ctx); }
      else if (p.master || master == i) { MC_CHECK(cx, near(got[g].a.at, quiet), "master-noise", "the master matched from " << got[g].a.at << ", expected " << quiet << "; " << ctx); }
      else if (master < 0 && near(got[g].a.at, quiet)) { master = i; p.lim = p.lth = 0; } else { MC_CHECK(cx, near(got[g].a.at, loud), "particle-noise", "particle " << i << " matched from " << got[g].a.at << ", expected " << loud << "; " << ctx); p.pose = loud; if (master < 0) { master = 1 - i; } }
      uint64_t want = map_of(p); MC_CHECK(cx, got[g].a.content == want, "map", "particle " << i << " matched scan " << k << " against a map that is not made of its own scans at its own poses; " << ctx);
      p.pose += got[g].c; if (got[g].s > 0 || p.first) { if (!mute) p.wrote.push_back(p.pose); p.first = false; } if (!std::isnan(got[g].s)) p.w *= got[g].s; p.dx = p.dy = p.dth = 0;
    }
    double tot = r[0].w + r[1].w; for (auto &p : r) p.w = tot > 0 ? p.w / tot : 0.5; if (k == 0 && lim == 0) MC_CHECK(cx, got.size() == 2, "processed", "not every particle processed the first scan; " << ctx);
    int b = r[0].w > r[1].w + 1e-9 ? 0 : r[1].w > r[0].w + 1e-9 ? 1 : -1; const GmappingParticleFilter &cf = *s.f; bool ok = false; for (int i = 0; i < 2; ++i) if (b < 0 || i == b) ok |= near(cf.pose(), r[i].pose) && content(cf.map()) == map_of(r[i]);
    MC_CHECK(cx, ok, "published", "the published pose " << cf.pose() << " and map are not those of the best particle (" << r[0].w << " at " << r[0].pose << ", " << r[1].w << " at " << r[1].pose << "); " << ctx);
    mc::Hash h; for (auto &p : r) h << p.pose.x << p.pose.y << p.pose.theta << p.w << p.dx << p.first << map_of(p); cx.state(h << k);
    // the master is due at every scan once it has processed one
    for (int i = 0; i < 2; ++i) if (!r[i].first && lim > 0 && master < 0) return; // limits decide who is due only when the master is known
  }
  MC_CHECK(cx, content(*s.given) == map_of(Ref{}), "given-map", "the map the particles were made from has been written; " << os.str());
  cx.outcome(mc::Hash() << r[0].pose.x << r[0].pose.y << r[1].pose.x << map_of(r[0]) << map_of(r[1]));
}
struct Small { Small() { Scale = 0.1; gm_window() = 12; } }; struct Large { Large(double s, int w) { Scale = s; gm_window() = w; } ~Large() { Small(); } };
MC_SCENARIO(two_particles, 4) { Small s; two_particles_body(cx, cx.thorough ? 5 : 4); }
// long histories, each a repeated word of decisions
MC_SCENARIO(long_two_particles, 4) { Large l{0.25, 30}; cx.periodic(cx.thorough ? 5 : 4, 4, 3); two_particles_body(cx, cx.thorough ? 60 : 25); }
// with resampling: every particle seen at a scan continues exactly one particle of the previous step, with its pose, weight and map
static void resampled_body(mc::Ctx &cx, unsigned n, int depth) {
  Slam s{n, GMappingParams{0.0009765625, 0, 0, 0, 0, 0, 0, 0}}; const double noise = 0.0009765625;
  std::vector<Ref> r(n); for (auto &p : r) p.w = 1.0 / n; std::ostringstream os; os << n << " particles"; RobotPose best; uint64_t best_map = 0; uint64_t now_map = 0; const GmappingParticleFilter &cf = *s.f;
  for (int k = 0; k <= depth; ++k) {
    bool last = k == depth; auto d = k && !last && cx.flag("long drive") ? RobotPoseDelta{1, 0, 0.25} : RobotPoseDelta{0.125, 0, 0}; int fav = last ? 0 : cx.choose(n + 2, "scores"), draws = last ? 0 : cx.choose(n + 1, "draws"); os << " | drive " << d.x << "," << d.theta << " scores " << fav << " draws " << draws; std::string ctx = os.str(); MC_LOG(cx, ctx);
    std::vector<double> dr; for (unsigned i = 0; i < n; ++i) dr.push_back(draws < int(n) ? (draws + 0.5) / n : i + 1 < n ? (i % 2 ? 0.9999 : 0.0001) : 0.5);
    struct Got { Ask a; RobotPoseDelta c; double s; }; std::vector<Got> got; s.sm->asked.clear(); s.sm->answer = [&](size_t i, const Ask &q, RobotPoseDelta &c) { c = RobotPoseDelta{0, 0.1 * int(i) + 0.03 * k, i == 1 ? 0.1 : 0}; double v = fav < int(n) ? (int(i) == fav ? 1 : 1e-4) : fav == int(n) ? 0.5 : (i ? 0.5 : 0); got.push_back({q, c, v}); return v; };
    auto sc = gm_scan(d); mc::rng().arm(dr); s.f->handle_sensor_data(sc); mc::rng().disarm(); cx.step(); for (auto &p : r) move(p, d);
    MC_CHECK(cx, got.size() == n, "processed", got.size() << " of " << n << " particles processed scan " << k << "; " << ctx); std::vector<Ref> next; std::set<const GridMap *> maps; double tot = 0; std::vector<int> src; int masters = 0; double top = 0; bool okbest = k == 0;
    for (auto &g : got) {
      int j = -1; bool quiet = false; std::string why = "no particle is there";
      for (unsigned i = 0; i < n && j < 0; ++i) for (bool q : {true, false}) { RobotPose at = q || r[i].first ? r[i].pose : r[i].pose + RobotPoseDelta{noise, noise, 0}; if (!near(at, g.a.at)) continue; if (map_of(r[i]) != g.a.content) { why = "the map is not that of the particle that was there"; continue; } j = i; quiet = q; break; }
      MC_CHECK(cx, j >= 0, "continues", "at scan " << k << " a particle starts from " << g.a.at << ", but " << why << "; " << ctx); MC_CHECK(cx, maps.insert(g.a.map).second, "shared-map", "two particles match scan " << k << " against the same map; " << ctx);
      if (!r[j].first) masters += quiet; Ref p = r[j]; src.push_back(j); top = std::max(top, p.w); p.pose = g.a.at; tot += p.w; next.push_back(p);
    }
    if (k) for (int j : src) { RobotPose was = r[j].pose; was += RobotPoseDelta{0, 0, 0}; if (r[j].w > top - 1e-9 && r[j].raw.x == r[j].raw.x) { Ref q = r[j]; if (map_of(q) == best_map) okbest = true; } }
    MC_CHECK(cx, okbest, "published-map", "the map published before scan " << k << " was not that of a particle of greatest weight; " << ctx);
    if (k) MC_CHECK(cx, masters == 1, "one-master", masters << " particles process scan " << k << " without noise; " << ctx);
    double t2 = 0; for (unsigned i = 0; i < n; ++i) { auto &p = next[i]; auto &g = got[i]; p.w = p.w / tot * g.s; t2 += p.w; p.pose += g.c; if (g.s > 0 || p.first) { p.wrote.push_back(p.pose); p.first = false; } } for (auto &p : next) p.w = t2 > 0 ? p.w / t2 : 1.0 / n; r = next;
    best = cf.pose(); best_map = content(cf.map()); bool found = false; for (auto &p : r) found |= near(p.pose, best) && map_of(p) == best_map; MC_CHECK(cx, found, "published", "the pose and map published after scan " << k << " (" << best << ") are not those of one particle; " << ctx);
    mc::Hash h; for (auto &p : r) h << p.pose.x << p.pose.y << p.pose.theta << p.w << map_of(p); cx.state(h << k); cx.outcome(h);
    std::set<int> u(src.begin(), src.end()); if (u.size() < n) cx.counters["scans after a resampling that copied particles"]++;
  }
}
MC_SCENARIO(resampled, 4) { Small s; unsigned n = 3 + cx.choose(cx.thorough ? 3 : 2, "particles"); resampled_body(cx, n, cx.thorough ? 4 : 3); }
MC_SCENARIO(long_resampled, 3) { Large l{0.25, 40}; unsigned n = cx.pick(std::vector<unsigned>{5, 16, 30}, "particles"); cx.periodic(3, 4, 3); resampled_body(cx, n, cx.thorough ? 30 : 8); }
// copies draw their own noise
static void copies_evolve_alone_body(mc::Ctx &cx, unsigned n, int depth) {
  const double sg = 0.1; Slam s{n, GMappingParams{0, sg, 0, sg, 0, 0, 0, 0}}; std::ostringstream os; os << n << " particles";
  for (int k = 0; k < depth; ++k) {
    int fav = cx.choose(n, "scores"), draws = cx.choose(3, "draws"); bool go = cx.flag("long drive"); os << " | " << (go ? "long" : "short") << " drive, scores " << fav << " draws " << draws; std::string ctx = os.str(); std::vector<double> dr; for (unsigned i = 0; i < n; ++i) dr.push_back(draws == 0 ? 0.0001 : draws == 1 ? 0.5 : 0.9999);
    s.sm->asked.clear(); s.sm->answer = [&](size_t i, const Ask &, RobotPoseDelta &) { return int(i) == fav ? 1 : 1e-3; }; auto sc = gm_scan(go ? RobotPoseDelta{1, 0, 0} : RobotPoseDelta{0.1, 0, 0}); mc::rng().arm(dr); s.f->handle_sensor_data(sc); mc::rng().disarm(); cx.step(); auto &a = s.sm->asked; MC_CHECK(cx, a.size() == n, "processed", a.size() << " particles processed the scan; " << ctx);
    if (k) for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < i; ++j) { MC_CHECK(cx, !near(a[i].at, a[j].at), "evolve-alike", "particles " << j << " and " << i << " match scan " << k << " from the same pose " << a[i].at << " in spite of their noise; " << ctx); MC_CHECK(cx, a[i].map != a[j].map, "shared-map", "particles " << j << " and " << i << " share their map; " << ctx); }
    mc::Hash h; for (auto &q : a) h << q.at.x << q.at.y << q.content; cx.state(h << k); cx.outcome(h);
  }
}
MC_SCENARIO(copies_evolve_alone, 3) { Small s; unsigned n = 3 + cx.choose(cx.thorough ? 4 : 2, "particles"); copies_evolve_alone_body(cx, n, cx.thorough ? 5 : 3); }
MC_SCENARIO(many_copies_evolve_alone, 3) { Small s; unsigned n = cx.pick(std::vector<unsigned>{6, 15, 30}, "particles"); cx.periodic(3, 4, 2); copies_evolve_alone_body(cx, n, cx.thorough ? 40 : 12); }
// particles that become due at different moments: whatever was copied before its first scan still has a map of its own
static void late_particles_body(mc::Ctx &cx, unsigned n, int depth) {
  const double noise = 0.0009765625; int seed = cx.choose(cx.thorough || cx.repeating() ? 10 : 6, "limits"); Slam s{n, GMappingParams{noise, 0, 0, 0, 0, 1.5, 0, 20}}; mc::rng().seeds = 1 + 97 * seed; s.f.reset(new GmappingParticleFilter(s.p, GMappingParams{noise, 0, 0, 0, 0, 1.5, 0, 20}, n));
  std::vector<Ref> known(1); std::ostringstream os; os << n << " particles, limits " << seed; std::set<uint64_t> have; unsigned first_seen = 0; const GmappingParticleFilter &cf = *s.f;
  for (int k = 0; k <= depth; ++k) {
    bool last = k == depth; auto d = last ? RobotPoseDelta{4, 0, 0} : cx.pick(std::vector<RobotPoseDelta>{{1, 0, 0}, {0.25, 0.125, 0}, {4, 0, 0.5}}, "drive"); int sc = last ? 0 : cx.choose(cx.thorough ? 3 : 2, "scores"), draws = last ? 0 : cx.choose(cx.thorough ? 3 : 2, "draws"); os << " | drive " << d.x << " scores " << sc << " draws " << draws; std::string ctx = os.str(); MC_LOG(cx, ctx);
    std::vector<double> dr; for (unsigned i = 0; i < n; ++i) dr.push_back(draws == 0 ? 0.0001 : draws == 1 ? 0.5 : (i + 0.5) / n); struct Got { Ask a; RobotPoseDelta c; double s; }; std::vector<Got> got;
    s.sm->asked.clear(); s.sm->answer = [&](size_t i, const Ask &q, RobotPoseDelta &c) { c = RobotPoseDelta{0, 0.1 * int(i + 1) + 0.03 * k, 0}; double v = sc == 0 ? 1e-4 : sc == 1 ? (i ? 1e-4 : 1) : 0.5; got.push_back({q, c, v}); return v; };
    for (auto &p : known) move(p, d); auto scan = gm_scan(d); mc::rng().arm(dr); s.f->handle_sensor_data(scan); mc::rng().disarm(); cx.step(); std::set<const GridMap *> maps; std::vector<Ref> next;
    MC_CHECK(cx, got.size() <= n && (!last || got.size() == n), "processed", got.size() << " of " << n << " particles processed scan " << k << "; " << ctx);
    for (auto &g : got) {
      int j = -1; std::string why = "no particle can be there"; for (size_t i = 0; i < known.size() && j < 0; ++i) for (bool q : {true, false}) { if (!q && known[i].first) continue; if (!near(q ? known[i].pose : known[i].pose + RobotPoseDelta{noise, noise, 0}, g.a.at)) continue; if (map_of(known[i]) != g.a.content) { why = "the map is not that of a particle that can be there"; continue; } j = i; break; }
      MC_CHECK(cx, j >= 0, "continues", "at scan " << k << " a particle starts from " << g.a.at << ", but " << why << "; " << ctx); MC_CHECK(cx, maps.insert(g.a.map).second, "shared-map", "two particles match scan " << k << " against the same map; " << ctx);
      Ref p = known[j]; if (p.first) { ++first_seen; if (k) cx.counters["first scans after the first"]++; } p.pose = g.a.at; p.pose += g.c; p.wrote.push_back(p.pose); p.first = false; next.push_back(p);
    }
    for (auto &p : next) { mc::Hash h; h << p.pose.x << p.pose.y << p.pose.theta << map_of(p); if (have.insert(h).second) known.push_back(p); }
    bool found = false; for (auto &p : known) found |= near(p.pose, cf.pose()) && map_of(p) == content(cf.map()); MC_CHECK(cx, found, "published", "the pose and map published after scan " << k << " (" << cf.pose() << ") are not those of one particle; " << ctx);
    if (known.size() > 200) known.erase(known.begin() + 1, known.begin() + 40);
    mc::Hash h; for (auto &g : got) h << g.a.at.x << g.a.at.y << g.a.content; cx.state(h << k); cx.outcome(h);
  }
}
MC_SCENARIO(late_particles, 3) { Large l{0.25, 40}; late_particles_body(cx, 3 + cx.choose(2, "particles"), cx.thorough ? 4 : 3); }
// a copy of the master is an ordinary particle: while the robot hardly moves nobody but the master looks at the scans
MC_SCENARIO(only_one_master, 3) {
  Small sm; unsigned n = 3 + cx.choose(2, "particles"); const double lim = 0.3; bool turn = cx.flag("limited by angle"); Slam s{n, turn ? GMappingParams{0, 0, 0, 0, 50, 50, lim, lim} : GMappingParams{0, 0, 0, 0, lim, lim, 50, 50}}; std::ostringstream os; os << n << " particles"; int still = 2, depth = (cx.thorough ? 5 : 4) + (n == 3); const GmappingParticleFilter &cf = *s.f;
  for (int k = 0; k < depth; ++k) {
    bool go = k == 0 || (k + 1 < depth && cx.flag("long drive")); int fav = go ? cx.choose(n + 1, "scores") : 0, draws = go ? cx.choose(n, "draws") : 0; os << " | " << (go ? "long" : "short") << " drive"; if (go) os << ", scores " << fav << " draws " << draws; std::string ctx = os.str(); MC_LOG(cx, ctx);
    std::vector<double> dr; for (unsigned i = 0; i < n; ++i) dr.push_back((draws + 0.5) / n); s.sm->asked.clear(); s.sm->answer = [&](size_t i, const Ask &, RobotPoseDelta &) { return !go ? 1 : int(i) == fav ? 1 : fav == int(n) ? 0.5 : 1e-3; };
    auto sc = gm_scan(go ? (turn ? RobotPoseDelta{0.75, 0, 1} : RobotPoseDelta{1, 0, 0}) : RobotPoseDelta{0.01, 0, 0.01}); mc::rng().arm(dr); s.f->handle_sensor_data(sc); mc::rng().disarm(); cx.step(); size_t got = s.sm->asked.size(); still = go ? 0 : still + 1;
    if (go) MC_CHECK(cx, got == n, "processed", got << " of " << n << " particles processed scan " << k << " after a long drive; " << ctx);
    if (still > 1) { MC_CHECK(cx, got <= 1, "one-master", got << " particles processed scan " << k << ", before which the robot hardly moved; " << ctx); cx.nontrivial(); }
    cx.state(mc::Hash() << k << got << n << cf.pose().x << cf.pose().theta); cx.outcome(mc::Hash() << k << got << n);
  }
}
