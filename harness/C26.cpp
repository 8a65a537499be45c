// C26: generated scans report the first obstacle along each ray
#include "mc.h"
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "utils/data_generation/laser_scan_generator.h"
using Coord = RegularSquaresGrid::Coord; typedef long double ld;
struct VCell : GridCell { VCell(double v = 0.5) : GridCell{Occupancy{v, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new VCell(*this)); } };
struct Occ { Coord c; double v; };
static std::vector<double> directions(double inc, double hh) { std::vector<double> a; for (int k = 0;; ++k) { double d = k * inc; if (d > 2 * hh + 1e-9 || d >= 2 * M_PI - 1e-9) break; a.push_back(-hh + d); } return a; }
// where the line from p along d enters and leaves the cell; touching a corner or an edge closely is "unsure"
struct Pass { bool hit = false, unsure = false; ld in = 0, out = 0; };
static Pass pass(ld px, ld py, ld dx, ld dy, Coord c, ld s) {
  ld lo = -1e30L, hi = 1e30L; bool par = false; ld b[2][2] = {{c.x * s, (c.x + 1) * s}, {c.y * s, (c.y + 1) * s}}, p[2] = {px, py}, d[2] = {dx, dy}; const ld eps = 1e-6L * s; Pass r;
  for (int k = 0; k < 2; ++k) { if (std::fabs(d[k]) < 1e-9L) { if (p[k] < b[k][0] - eps || p[k] > b[k][1] + eps) return r; if (std::fabs(p[k] - b[k][0]) < eps || std::fabs(p[k] - b[k][1]) < eps) par = true; continue; } ld t0 = (b[k][0] - p[k]) / d[k], t1 = (b[k][1] - p[k]) / d[k]; lo = std::max(lo, std::min(t0, t1)); hi = std::min(hi, std::max(t0, t1)); }
  if (hi - lo < -eps) return r; r.in = lo; r.out = hi; r.unsure = par || hi - lo < eps; r.hit = true; return r;
}
static void judge(mc::Ctx &cx, GridMap &m, const std::vector<Occ> &occ, const LaserScannerParams &lp, const RobotPose &pose, double thr, const std::string &ctx, bool dflt_thr) {
  LaserScanGenerator g{lp}; LaserScan2D scan;
  scan = dflt_thr ? g.laser_scan_2D(m, pose) : g.laser_scan_2D(m, pose, thr); cx.step(); auto dirs = directions(lp.h_angle_inc, lp.h_hsector); ld s = m.scale(); size_t i = 0; auto &pts = scan.points(); mc::Hash hs;
  for (double a : dirs) {
    ld th = ld(a) + pose.theta, dx = cosl(th), dy = sinl(th); std::vector<std::pair<ld, Occ>> sure, maybe; 
    for (auto &o : occ) { if (o.v < thr) continue; Pass p = pass(pose.x, pose.y, dx, dy, o.c, s); if (!p.hit || p.out < 1e-9L) continue; ld in = std::max(p.in, ld(0)), mid = (p.in + p.out) / 2; if (in > lp.max_dist + 1e-6) continue; if (p.unsure || mid > lp.max_dist - 1e-6) maybe.push_back({mid, o}); else sure.push_back({mid, o}); }
    auto less = [](const std::pair<ld, Occ> &x, const std::pair<ld, Occ> &y) { return x.first < y.first; }; std::sort(sure.begin(), sure.end(), less);
    bool here = i < pts.size() && std::fabs(pts[i].angle() - a) < 1e-7; std::ostringstream w; w.precision(12); w << "the ray at " << a << " of the robot at (" << pose.x << "," << pose.y << "," << pose.theta << ") ";
    if (!here) { MC_CHECK(cx, sure.empty(), "missed", w.str() << "reports nothing, but passes the middle of obstacle " << sure[0].second.c << " at " << double(sure[0].first) << "; " << ctx); continue; }
    auto &p = pts[i++]; MC_CHECK(cx, p.is_occupied(), "kind", w.str() << "reports a free point; " << ctx); bool ok = false; std::ostringstream want;
    auto may = [&](const std::pair<ld, Occ> &c) { want << " " << double(c.first); ok |= std::fabs(p.range() - double(c.first)) < 1e-6 * (1 + lp.max_dist); }; if (!sure.empty()) may(sure[0]); for (auto &c : maybe) if (sure.empty() || c.first < sure[0].first) may(c);
    // the robot inside of an obstacle: any place in its own cell ahead of it
    for (auto &o : occ) { if (o.v < thr || !(o.c == m.world_to_cell(pose.point()))) continue; Pass q = pass(pose.x, pose.y, dx, dy, o.c, s); want << " up to " << double(q.out); ok = p.range() >= 0 && p.range() <= q.out + 1e-9L; }
    MC_CHECK(cx, ok, "distance", w.str() << "reports an obstacle at " << p.range() << ", expected" << (want.str().empty() ? " none" : want.str()) << "; " << ctx); hs << int(i) << int(1e4 * p.range());
  }
  MC_CHECK(cx, i == pts.size(), "directions", "the scan has " << pts.size() << " points, of which the one at " << pts[i].angle() << " is not along a next configured direction; " << ctx);
  auto again = g.laser_scan_2D(m, pose, thr); MC_CHECK(cx, again.points().size() == pts.size(), "again", "a second scan from there is different; " << ctx); for (size_t k = 0; k < pts.size(); ++k) MC_CHECK(cx, again.points()[k].range() == pts[k].range() && again.points()[k].angle() == pts[k].angle(), "again", "a second scan from there is different; " << ctx);
  MC_CHECK(cx, !!scan.trig_provider, "trigonometry", "the scan has no trigonometry provider"); scan.trig_provider->set_base_angle(pose.theta); for (auto &p : pts) { auto w = p.move_origin(pose.x, pose.y, scan.trig_provider); MC_CHECK(cx, mc::near(w.x, pose.x + p.range() * std::cos(p.angle() + pose.theta)) && mc::near(w.y, pose.y + p.range() * std::sin(p.angle() + pose.theta)), "trigonometry", "the scan's trigonometry provider moves a point to the wrong place; " << ctx); }
  cx.outcome(hs);
}
static void write(GridMap &m, const Occ &o) { m.update(o.c, AreaOccupancyObservation{true, Occupancy{o.v, 1}, {0, 0}, 1}); }
static const std::vector<LaserScannerParams> Lp = {to_lsp(20, 360, 8), {2.2, deg2rad(30), deg2rad(135)}, {4, deg2rad(17), deg2rad(90)}, {30, deg2rad(90), deg2rad(180)}, {3.3, deg2rad(3.5), deg2rad(180)}};
static const std::vector<std::pair<double, double>> Spot = {{0.5, 0.5}, {0.25, 0.7}, {0.92, 0.13}}; static const std::vector<double> Theta = {0, M_PI / 4, -1.1, 2.9}, ThetaMore = {0, M_PI / 4, -1.1, 2.9, M_PI, -M_PI / 2, 0.01, 1.9, -2.5, 7}; static const std::vector<std::pair<double, double>> SpotMore = {{0.5, 0.5}, {0.25, 0.7}, {0.92, 0.13}, {0.001, 0.999}, {0.5, 0.25}};
// up to two (three) obstacles around the robot
MC_SCENARIO(obstacles, 3) {
  double s = cx.pick(std::vector<double>{1, 0.1}, "scale"); Coord base = cx.pick(std::vector<Coord>{{0, 0}, {-3, 2}}, "robot cell"); auto &sp = cx.pick(cx.thorough ? SpotMore : Spot, "spot"); double th = cx.pick(cx.thorough ? ThetaMore : Theta, "heading"); int li = cx.choose(Lp.size(), "scanner"); LaserScannerParams lp{Lp[li].max_dist * s, Lp[li].h_angle_inc, Lp[li].h_hsector}; int n = cx.choose(cx.thorough ? 4 : 3, "obstacles"), from = 0; bool tiled = n == 1 && s == 1 && cx.flag("tiled");
  auto proto = std::make_shared<VCell>(0.2); std::unique_ptr<GridMap> m; if (tiled) m.reset(new UnboundedLazyTiledGridMap{proto, GridMapParams{11, 11, s}}); else m.reset(new UnboundedPlainGridMap{proto, GridMapParams{11, 11, s}}); std::vector<Occ> occ; std::ostringstream os; os << "scanner " << li << " scale " << s << " obstacles";
  const int R = 2, W = 2 * R + 1; for (int k = 0; k < n; ++k) { int left = W * W - from - (n - 1 - k); int q = from + cx.choose(left, "cell"); from = q + 1; Coord c{base.x + q % W - R, base.y + q / W - R}; if (n > 2 && c == base) return; occ.push_back({c, 1}); write(*m, occ.back()); os << " " << c; }
  RobotPose pose{(base.x + sp.first) * s, (base.y + sp.second) * s, th}; std::string ctx = os.str(); MC_LOG(cx, ctx << " robot " << pose); judge(cx, *m, occ, lp, pose, 1, ctx, true); mc::Hash h; for (auto &o : occ) h << o.c.x << o.c.y; cx.state(h << s << base.x << sp.first << th << li << tiled);
}
// obstacles of all shades against all thresholds
MC_SCENARIO(thresholds, 3) {
  UnboundedPlainGridMap m{std::make_shared<VCell>(0.2), GridMapParams{11, 11, 1}}; double thr = cx.pick(std::vector<double>{0.1, 0.3, 0.5, 0.75, 1}, "threshold"); std::vector<Occ> occ; std::ostringstream os; os << "threshold " << thr << " cells";
  if (thr < 0.2) { for (int x = -9; x <= 9; ++x) for (int y = -9; y <= 9; ++y) occ.push_back({{x, y}, 0.2}); } // also what was never written is an obstacle
  static const std::vector<Coord> C = {{1, 0}, {2, 0}, {3, 1}, {1, 1}, {-2, -1}}; for (auto &c : C) { double v = cx.pick(std::vector<double>{0, 0.4, 0.6, 1}, "occupancy"); Occ o{c, v}; write(m, o); bool old = false; for (auto &p : occ) if (p.c == c) { p.v = v; old = true; } if (!old) occ.push_back(o); os << " " << c << "=" << v; }
  LaserScannerParams lp{5, deg2rad(15), deg2rad(180)}; RobotPose pose{0.4, 0.55, 0.1}; MC_LOG(cx, os.str()); judge(cx, m, occ, lp, pose, thr, os.str(), false); mc::Hash h; for (auto &o : occ) h << o.v; cx.state(h << thr);
}
// every configured direction has its ray: the robot is walled in, so every ray reports
MC_SCENARIO(fields_of_view, 2) {
  double fow = cx.pick(std::vector<double>{360, 270, 240, 180, 90, 1, 300, 350, 100}, "field of view"); int n = 1 + cx.choose(cx.thorough ? 1081 : 120, "rays"); double th = cx.pick(std::vector<double>{0, 0.3, -2}, "heading"); auto lp = to_lsp(20, fow, n); std::ostringstream os; os << "to_lsp(20, " << fow << ", " << n << ") heading " << th;
  UnboundedPlainGridMap m{std::make_shared<VCell>(0), GridMapParams{11, 11, 1}}; std::vector<Occ> occ; for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) if (std::max(std::abs(x), std::abs(y)) == 2) { occ.push_back({{x, y}, 1}); write(m, occ.back()); }
  RobotPose pose{0.437, 0.561, th}; MC_LOG(cx, os.str()); LaserScanGenerator g{lp}; auto sc = g.laser_scan_2D(m, pose); cx.step(); size_t want = fow == 360 ? n : n + 1; MC_CHECK(cx, mc::near(lp.h_angle_inc, deg2rad(fow / n)) && mc::near(lp.h_hsector, deg2rad(fow / 2)) && lp.max_dist == 20, "parameters", os.str() << " gives increment " << lp.h_angle_inc << " half sector " << lp.h_hsector);
  MC_CHECK(cx, sc.points().size() == want, "directions", "a walled-in robot gets " << sc.points().size() << " points instead of " << want << "; " << os.str()); for (size_t k = 0; k < want; ++k) MC_CHECK(cx, std::fabs(sc.points()[k].angle() - (-deg2rad(fow / 2) + k * deg2rad(fow / n))) < 1e-9, "directions", "point " << k << " is at " << sc.points()[k].angle() << "; " << os.str());
  judge(cx, m, occ, lp, pose, 1, os.str(), true); cx.state(mc::Hash() << fow << n << th);
}
// fine fans from many places against a single obstacle
MC_SCENARIO(fans, 2) {
  double s = cx.pick(std::vector<double>{1, 0.1, 0.25}, "scale"); int N = cx.thorough ? 9 : 5; double fx = (cx.choose(N, "x") + 0.5) / N, fy = (cx.choose(N, "y") + 0.5) / N; Coord c = cx.pick(std::vector<Coord>{{1, 0}, {1, 1}, {3, 2}, {-4, 3}, {0, -5}, {-2, -2}, {5, -1}, {0, 0}}, "obstacle"); Coord base = cx.pick(std::vector<Coord>{{0, 0}, {-7, 12}}, "robot cell"); UnboundedPlainGridMap m{std::make_shared<VCell>(0), GridMapParams{11, 11, s}}; std::vector<Occ> occ{{base + c, 1}}; write(m, occ[0]);
  int n = cx.pick(std::vector<int>{360, 97, 8, 16, 720}, "rays"); double md = cx.pick(std::vector<double>{3.2, 15}, "range"); std::ostringstream os; os << n << " rays, range " << md << " cells, obstacle at " << occ[0].c; RobotPose pose{(base.x + fx) * s, (base.y + fy) * s, 0}; MC_LOG(cx, os.str() << pose); judge(cx, m, occ, to_lsp(md * s, 360, n), pose, 1, os.str(), true); cx.state(mc::Hash() << s << fx << fy << c.x << c.y << base.x << n << md);
}
// a robot in a big hall full of pillars, scanners of many rays and long range
MC_SCENARIO(halls, 2) {
  double s = cx.pick(std::vector<double>{0.1, 0.5}, "scale"); int R = cx.pick(std::vector<int>{40, 90}, "half size"), every = cx.pick(std::vector<int>{5, 11, 23}, "pillars every"); bool tiled = cx.flag("tiled"); int n = cx.pick(std::vector<int>{1080, 719, 1000}, "rays"); double md = cx.pick(cx.thorough ? std::vector<double>{20, 75, 200} : std::vector<double>{20, 200}, "range"); auto proto = std::make_shared<VCell>(0); std::unique_ptr<GridMap> m; if (tiled) m.reset(new UnboundedLazyTiledGridMap{proto, GridMapParams{2 * R, 2 * R, s}}); else m.reset(new UnboundedPlainGridMap{proto, GridMapParams{2 * R, 2 * R, s}});
  std::vector<Occ> occ; for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) { bool wall = std::abs(x) == R || std::abs(y) == R, pillar = (x + 200) % every == 2 && (y + 200) % every == 3; if (!wall && !pillar) continue; occ.push_back({{x, y}, 1}); write(*m, occ.back()); }
  static const std::vector<RobotPose> At = {{0.3, 0.4, 0}, {10.5, -7.2, 1.3}, {-20.7, 15.1, -2.9}}; auto at = cx.pick(At, "robot"); RobotPose pose{at.x * s, at.y * s, at.theta}; double fow = cx.pick(std::vector<double>{360, 270}, "field of view"); std::ostringstream os; os << "hall of " << 2 * R + 1 << " cells of " << s << ", pillars every " << every << ", " << n << " rays over " << fow << " degrees, range " << md << " cells" << (tiled ? ", tiled" : ""); MC_LOG(cx, os.str() << pose);
  judge(cx, *m, occ, to_lsp(md * s, fow, n), pose, 1, os.str(), true); cx.state(mc::Hash() << s << R << every << n << md << at.x << fow << tiled);
}
