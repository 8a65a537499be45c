// C32: the command line tools do what the library does
// FLAGS: -std=c++17 -I{V}/lib/ros_env
// NOTE: The real main functions of sm_runner and of the bag adapter run in forked processes on scratch files and a scripted environment (lib/ros_env).
#include "mc.h"
#include "env.h"
#include <unistd.h>
#include <fcntl.h>
#include <ext/stdio_filebuf.h>
#include <dirent.h>
#include <sys/wait.h>
#define NODE_MAIN(name) __attribute__((optimize("O0", "no-unreachable-traps"))) int name(int, char **)
NODE_MAIN(sm_runner_main); NODE_MAIN(adapter_main); NODE_MAIN(evaluator_main);
#define main sm_runner_main
#include "utils/sm_runner.cpp"
#undef main
#define main evaluator_main
#include "utils/pose2D_search_space_evaluator.cpp"
#undef main
#define main adapter_main
#include "ros/wg_pr2_bag_adapter.cpp"
#undef main
#include "utils/console_view.h"
#include "common.h"
static ros::Time T(double s) { return ros::Time(s); }
struct Dir { std::string n = mc::scratch("c32"); Dir() { if (!mkdtemp(&n[0])) abort(); } std::string f(const std::string &s) { return n + "/" + s; } ~Dir() { if (DIR *d = opendir(n.c_str())) { while (auto e = readdir(d)) if (e->d_name[0] != '.') unlink(f(e->d_name).c_str()); closedir(d); } rmdir(n.c_str()); } };
struct Ran { bool exited = false; int code = 0; std::string out; };
// runs a function in a process of its own and returns what it printed
static Ran run(const std::function<int()> &f) {
  int fd[2]; if (pipe(fd)) abort(); std::cout.flush(); std::cerr.flush(); fflush(nullptr); pid_t p = fork();
  if (!p) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); int n = open("/dev/null", O_WRONLY); dup2(n, 2); alarm(30); static __gnu_cxx::stdio_filebuf<char> fb(1, std::ios::out); std::cout.rdbuf(&fb); std::cout.clear(); int r = f(); std::cout.flush(); fflush(nullptr); _exit(r); }
  close(fd[1]); Ran r; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) r.out.append(buf, n); close(fd[0]); int st; waitpid(p, &st, 0); r.exited = WIFEXITED(st); r.code = r.exited ? WEXITSTATUS(st) : -1; return r;
}
static int call(int (*m)(int, char **), std::vector<std::string> a) { std::vector<char *> av; for (auto &s : a) av.push_back(&s[0]); av.push_back(nullptr); return m(a.size(), av.data()); }
static void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
struct Hush { std::ostringstream os; std::streambuf *o; Hush() : o(std::cout.rdbuf(os.rdbuf())) {} ~Hush() { std::cout.rdbuf(o); } };
using KV = std::map<std::string, std::string>;
static KV base() { return {{"slam/mapping/grid/type", "unbounded_plain"}, {"slam/mapping/grid/area/type", "affine_quality_merge"}, {"slam/map/width_in_meters", "4"}, {"slam/map/height_in_meters", "3"}, {"slam/map/meters_per_cell", "0.5"}, {"slam/scmtch/type", "HC"}, {"slam/scmtch/spe/type", "wmpp"}, {"slam/scmtch/spe/wmpp/weighting/type", "even"}}; }
static std::string text(const KV &c) { std::string s; for (auto &e : c) s += e.first + "=" + e.second + "\n"; return s; }
static FilePropertiesProvider props_of(const KV &c) { FilePropertiesProvider p; for (auto &e : c) p.set_property(e.first, e.second); return p; }
static const char *Matchers[] = {"HC", "BF", "BF_M3RSM", "MC", "idle", "HC_FIXED"}, *Maps[] = {"unbounded_plain", "plain", "lazy_tiled", "unbounded_lazy_tiled"}, *Areas[] = {"affine_quality_merge", "mean_probability", "tbm_consistent", "tbm_unknown_even_occ"};
struct Pt { double r, a; bool occ; };
// the reported correction and probability are those of the configured matcher for the given files
MC_SCENARIO(sm_runner, 4) {
  KV c = base(); std::string m = Matchers[cx.choose(6, "matcher")]; c["slam/scmtch/type"] = m; c["slam/mapping/grid/type"] = Maps[m == "BF_M3RSM" ? 0 : cx.choose(4, "map")];
  if (m == "BF") for (std::string d : {"x", "y", "t"}) { c["slam/scmtch/BF/" + d + "/from"] = d == "t" ? "-0.2" : "-0.25"; c["slam/scmtch/BF/" + d + "/to"] = d == "t" ? "0.2" : "0.25"; c["slam/scmtch/BF/" + d + "/step"] = d == "t" ? "0.2" : "0.125"; }
  if (m == "BF_M3RSM") { c["slam/scmtch/BF_M3RSM/limits/x_translation"] = c["slam/scmtch/BF_M3RSM/limits/y_translation"] = "0.5"; c["slam/scmtch/BF_M3RSM/limits/rotation"] = "0.1"; c["slam/scmtch/BF_M3RSM/accuracy/rotation"] = "0.1"; c["slam/scmtch/BF_M3RSM/accuracy/translation"] = "0.25"; }
  if (m == "MC") c["slam/scmtch/MC/seed"] = "7";
  int opt = cx.choose(9, "option"); if (opt >= 1 && opt <= 3) c["slam/mapping/grid/area/type"] = Areas[opt]; switch (opt) { case 4: c["slam/scmtch/spe/wmpp/sp_skip_rate"] = "2"; break; case 5: c["slam/scmtch/spe/wmpp/sp_max_usable_range"] = "1.2"; break; case 6: c["slam/scmtch/spe/wmpp/weighting/type"] = "ahr"; break; case 7: c["slam/scmtch/use_amb_drift_detector"] = "true"; break; case 8: c["slam/scmtch/oope/type"] = "max"; break; }
  std::vector<std::vector<Pt>> scans = {{{1, 0, true}, {1.5, 0.75, true}, {1.25, -0.5, false}, {0.75, 1.5, true}}, {{1.125, 3, true}}, {}}; auto pts = cx.pick(scans, "scan"); std::vector<std::array<double, 3>> poses = {{0, 0, 0}, {0.25, -0.375, 0.5}, {-0.625, 0.125, -1.5}}; auto pose = cx.pick(poses, "pose"); int content = c["slam/mapping/grid/type"] == Maps[0] ? cx.choose(cx.thorough ? 4 : 3, "content") : 0; /* only this kind of map has a state to save */
  Ran r; std::string want; {
    Dir d; auto props = props_of(c); Hush hush; auto map = init_grid_map(props); RobotPose rp{pose[0], pose[1], pose[2]};
    if (content) for (int i = 0; i < (content == 3 ? 12 : 5); ++i) { Point2D w{content == 1 ? 1.1 : 0.3 * i - 1, content == 2 ? 0.9 - 0.2 * i : 0.3 * i - 1.2}; map->update(map->world_to_cell(w), AreaOccupancyObservation{i % 3 != 2, Occupancy{i % 3 == 2 ? 0.1 : 0.9, 0.8}, w, 0.7}); cx.step(); }
    auto st = map->save_state(); put(d.f("map"), std::string(st.begin(), st.end())); put(d.f("p"), text(c)); std::ostringstream ps, ss; ps.precision(17); ss.precision(17); ps << pose[0] << " " << pose[1] << "\n" << pose[2] << "\n"; ss << pts.size() << "\n"; for (auto &p : pts) ss << p.r << " " << p.a << " " << p.occ << "\n"; put(d.f("pose"), ps.str()); put(d.f("scan"), ss.str());
    r = run([&] { return call(sm_runner_main, {"sm_runner", d.f("p"), d.f("pose"), d.f("map"), d.f("scan")}); }); cx.step();
    LaserScan2D raw; for (auto &p : pts) raw.points().push_back(ScanPoint2D::make_polar(p.r, p.a, p.occ)); auto sm = init_scan_matcher(props); TransformedLaserScan ts; ts.quality = 1; ts.scan = sm->filter_scan(raw, rp, *map); RobotPoseDelta delta{0, 0, 0}; double prob = sm->process_scan(ts, rp, *map, delta);
    std::ostringstream os; os << "Pose delta: " << delta << " with probability " << prob << "\n"; want = os.str(); mc::Hash h; h << delta.x << delta.y << delta.theta << content << pts.size(); cx.state(h.v); cx.outcome(h.v);
  }
  MC_LOG(cx, m << " on " << c["slam/mapping/grid/type"] << ": " << want); MC_CHECK(cx, r.exited && r.code == 0, "sm-runner-died", "sm_runner ended with code " << r.code << " after printing " << r.out);
  auto nan = [](std::string s) { for (size_t i; (i = s.find("-nan")) != std::string::npos;) s.erase(i, 1); return s; };
  MC_CHECK(cx, r.out.size() >= want.size() && nan(r.out.substr(r.out.rfind("Pose delta"))) == nan(want), "sm-runner-result", "sm_runner printed '" << r.out << "' instead of '" << want << "'");
}
// what cannot be read ends it with an error, before any result is printed
MC_SCENARIO(sm_runner_errors, 2) {
  Dir d; KV c = base(); put(d.f("p"), text(c)); put(d.f("pose"), "0 0 0\n"); put(d.f("scan"), "1\n1 0 1\n"); { Hush h; auto m = init_grid_map(props_of(c)); auto st = m->save_state(); put(d.f("map"), std::string(st.begin(), st.end())); }
  std::vector<std::string> a = {"sm_runner", d.f("p"), d.f("pose"), d.f("map"), d.f("scan")}; int what = cx.choose(3, "what"); bool bad = true; if (what == 0) { int n = cx.choose(7, "arguments"); bad = n != 4; if (n > 4) a.resize(n + 1, d.f("scan")); else a.resize(n + 1); } else if (what == 1) a[2 + cx.choose(3, "missing")] += "_missing"; else bad = false;
  auto r = run([&] { return call(sm_runner_main, a); }); cx.step(); MC_CHECK(cx, r.exited && (r.code != 0) == bad, "sm-runner-exit", "sm_runner ended with code " << r.code << " for " << a.size() - 1 << " arguments" << (what == 1 ? ", one of them a missing file" : "")); MC_CHECK(cx, (r.out.find("Pose delta") == std::string::npos) == bad, "sm-runner-exit", "sm_runner printed '" << r.out << "'"); cx.state(what * 8 + a.size()); cx.outcome(r.code);
}
// ---- the search space evaluator: the dumped map shows the score of every pose of the window
struct Pgm { int w = 0, h = 0; std::vector<unsigned char> px; };
static Pgm read_pgm(const std::string &f) { Pgm p; std::ifstream in(f, std::ios::binary); std::string magic; int max; if (in >> magic >> p.w >> p.h >> max && magic == "P5" && max == 255) { in.get(); p.px.assign(std::istreambuf_iterator<char>(in), {}); } return p; }
MC_SCENARIO(search_space, 3) {
  double res = cx.pick(cx.thorough ? std::vector<double>{0.25, 0.5, 0.2, 0.4} : std::vector<double>{0.5, 0.4}, "resolution"); UnboundedPlainGridMap map{std::make_shared<LastWriteWinsGridCell>(), {100, 100, 0.1}}; mc::Hash h; int bg = cx.choose(3, "background");
  if (bg) for (int x = -30; x <= 30; ++x) for (int y = -30; y <= 30; ++y) map.update({x, y}, AreaOccupancyObservation{false, Occupancy{bg == 1 ? ((x * 3 + y * 5 + 300) % 11) / 28.0 : ((x + y * 2 + 200) % 7) / 16.0, 1}, {0, 0}, 1}); // (every pose has a score of its own)
  h << bg;
  for (auto p : std::vector<Point2D>{{0.45, 0.05}, {0.05, 0.75}, {-0.55, -0.35}, {0.35, -0.65}}) { int v = cx.choose(3, "obstacle"); if (v) { auto c = map.world_to_cell(p); for (int dx = -1; dx <= 1; ++dx) map.update({c.x + dx, c.y}, AreaOccupancyObservation{true, Occupancy{v == 1 ? 1.0 : 0.75, 1}, {0, 0}, 1}); h << p.x; } h << v; }
  LaserScanGenerator g{to_lsp(100, 270, 1000)}; auto scan = g.laser_scan_2D(map, {0.05, 0.05, 0}, 1); if (scan.points().empty()) cx.prune(); Dir d;
  auto r = run([&] { if (chdir(d.n.c_str())) _exit(9); run_evaluation(map, res); return 0; }); cx.step(); MC_CHECK(cx, r.exited && r.code == 0, "evaluator-died", "the evaluation ended with code " << r.code);
  auto p = read_pgm(d.f("sss_map_0.pgm")); MC_CHECK(cx, p.w >= 100 && p.h >= 100 && (int)p.px.size() == p.w * p.h, "search-space", "the dumped search space is " << p.w << "x" << p.h << " of " << p.px.size()); WeightedMeanPointProbabilitySPE spe{std::make_shared<ObstacleBasedOccupancyObservationPE>(std::make_shared<DiscrepancyOIE>()), std::make_shared<EvenSPW>()}; scan = spe.filter_scan(scan, {0.05, 0.05, 0}, map); if (scan.points().empty()) cx.prune();
  std::map<std::pair<int, int>, double> want; double lo = -1; for (int j = 0; lo + j * res <= 1 + 1e-9; ++j) for (int i = 0; lo + i * res <= 1 + 1e-9; ++i) { RobotPose q{0.05 + lo + i * res, 0.05 + lo + j * res, 0}; want[{int(std::floor(q.x / res)), int(std::floor(q.y / res))}] = spe.estimate_scan_probability(scan, q, map, ScanProbabilityEstimator::SPEParams{}); } want[{int(std::floor(0.05 / res)), int(std::floor(0.05 / res))}];
  { RobotPose q{0.05, 0.05, 0}; auto &c = want[{int(std::floor(0.05 / res)), int(std::floor(0.05 / res))}]; if (std::fabs(std::remainder(1, res)) > 1e-9) c = -2; else c = spe.estimate_scan_probability(scan, q, map, ScanProbabilityEstimator::SPEParams{}); }
  for (int row = 0; row < p.h; ++row) for (int col = 0; col < p.w; ++col) { int x = col - p.w / 2, y = p.h - 1 - row - p.h / 2; auto i = want.find({x, y}); double v = i == want.end() ? 0.5 : i->second; if (v == -2) continue; double px = 255 * (1 - std::max(0.0, std::min(1.0, v))); int got = p.px[row * p.w + col]; MC_CHECK(cx, std::fabs(got - px) <= 1, "search-space", "at resolution " << res << " pixel " << col << "," << row << " is " << got << " instead of " << px); h << got; }
  cx.state(h.v); cx.outcome(h.v);
}
// ---- the console view
MC_SCENARIO(console_view, 3) {
  double scale = cx.pick(std::vector<double>{1, 0.5}, "scale"); UnboundedPlainGridMap map{std::make_shared<LastWriteWinsGridCell>(), {5, 4, scale}}; mc::Hash h; int l = cx.choose(3, "left"), r = cx.choose(3, "right"), u = cx.choose(3, "up"), dn = cx.choose(3, "down"); int cxx = cx.choose(2, "center x"), cy = cx.choose(2, "center y") - 1; bool sym = l == r && u == dn;
  std::vector<double> O = {0.1, 0.5, 0.9, 0.25, 0.75}; std::map<std::pair<int, int>, double> ref; for (int k = 0; k < 3; ++k) { int x = cxx - 1 + k, y = cy + (k % 2); double o = cx.pick(O, "occupancy"); ref[{x, y}] = o; map.update({x, y}, AreaOccupancyObservation{true, Occupancy{o, 1}, {0, 0}, 1}); h << o; }
  std::string got; { Hush hush; Point2D c{(cxx + 0.5) * scale, (cy + 0.5) * scale}; double e = 0.5; if (sym) show_grid_map(map, c, (l + e) * scale, (u + e) * scale); else show_grid_map(map, c, (l + e) * scale, (r + e) * scale, (u + e) * scale, (dn + e) * scale); got = hush.os.str(); } cx.step(); std::string want;
  for (int y = u; y >= -dn; --y) { for (int x = -l; x <= r; ++x) { auto i = ref.find({cxx + x, cy + y}); double o = i == ref.end() ? 0.5 : i->second; want += !x && !y ? 'C' : o > 0.75 ? '#' : o < 0.25 ? '.' : '~'; } want += '\n'; }
  MC_CHECK(cx, got == want, "console", "the view of " << l << "," << r << "," << u << "," << dn << " is\n" << got << "instead of\n" << want); h << l << r << u << dn; cx.state(h.v); cx.outcome(h.v);
}
// ---- the adapter of the Willow Garage logs
static boost::shared_ptr<nav_msgs::OccupancyGrid> grid(int k) { auto g = boost::make_shared<nav_msgs::OccupancyGrid>(); g->header.frame_id = k == 1 ? "map" : "/other"; g->header.stamp = T(k); g->info.width = k; g->info.height = k == 1 ? 2 : 6; g->info.resolution = 0.5; g->info.origin.position.x = -k; g->data.assign(k * g->info.height, k); return g; }
static geometry_msgs::TransformStamped ts(int kind, int k, const std::string &odom) { geometry_msgs::TransformStamped g; std::string p = kind == 0 ? "/map" : kind == 1 ? "/" + odom : kind == 2 ? "/map" : kind == 3 ? "/world" : kind == 4 ? "map" : kind == 7 ? "/map_2" : kind == 8 ? "/ma" : "/map", c = kind == 0 ? "/" + odom : kind == 1 ? "/base" : kind == 2 ? "/marker" : kind == 3 ? "/" + odom : kind == 4 ? odom : kind == 5 ? "/" + odom + "_raw" : kind == 6 ? "/" + odom.substr(0, 3) : "/" + odom; /* 5..8: other frames whose names are alike */ tf::transformStampedTFToMsg(tf::StampedTransform(tf::Transform(tf::createQuaternionFromYaw(0.1 * k), tf::Vector3(k - 1, -0.5 * k, 0.25)), T(10 + k), p, c), g); return g; }
MC_SCENARIO(bag_adapter, 4) {
  renv::reset(); bool own = cx.flag("own odometry frame"); std::string odom = own ? "my_odom" : "odom_combined"; if (own) renv::world().params["~in/odometry/ros/tf/odom_frame_id"] = odom; int n = cx.thorough ? 4 : 3, id = 0; struct Ev { std::vector<geometry_msgs::TransformStamped> t; int grid = 0; }; std::vector<Ev> evs; struct Out { bool corr; geometry_msgs::TransformStamped t; }; std::vector<Out> want; std::vector<int> kinds; bool init = false; geometry_msgs::TransformStamped first;
  for (int i = 0; i < n; ++i) { Ev e; int k = cx.choose(10, "message"); kinds.push_back(k); std::vector<std::vector<int>> sets = {{0}, {1}, {0, 1}, {3, 0, 2}, {}, {4, 0, 0}, {5, 6}, {7, 8, 1}}; if (k < 8) for (int x : sets[k]) { e.t.push_back(ts(x, ++id, odom)); if (x == 0) { if (!init) first = e.t.back(); init = true; want.push_back({true, first}); } else want.push_back({false, e.t.back()}); } else e.grid = k - 7; evs.push_back(e); }
  auto r = run([&] {
    auto &w = renv::world(); size_t spin = 0; int last = 0, errs = 0; auto fail = [&](const std::string &s) { if (!errs++) std::cout << s << std::endl; };
    auto shown = [&] { auto &p = w.published["provided_grid"]; if (!last) { for (auto &x : p) if (!std::any_cast<nav_msgs::OccupancyGrid &>(x).data.empty()) fail("a grid was published before any was received"); return; } if (p.empty()) return fail("no grid was published"); auto &g = std::any_cast<nav_msgs::OccupancyGrid &>(p.back()); auto x = grid(last); if (g.header.frame_id != "provided_map" || g.data != x->data || g.info.width != x->info.width || g.info.height != x->info.height || g.info.origin.position.x != -last || !(g.header.stamp == x->header.stamp)) fail("the last grid published is not the last one received, but one of " + std::to_string(g.data.size()) + " cells in " + g.header.frame_id); };
    w.spin = [&] { shown(); if (spin >= evs.size()) { if (spin++ > evs.size()) w.ok = false; return; } auto &e = evs[spin++]; if (e.grid) { last = e.grid; renv::deliver("provided_grid_orig", grid(e.grid)); } else { auto m = boost::make_shared<tf::tfMessage>(); m->transforms = e.t; renv::deliver("tf_in", m); } };
    call(adapter_main, {"adapter"}); if (w.sent.size() != want.size()) fail(std::to_string(w.sent.size()) + " transforms were sent where " + std::to_string(want.size()) + " were due");
    for (size_t i = 0; i < want.size() && i < w.sent.size(); ++i) { auto &s = w.sent[i].t; tf::StampedTransform x; tf::transformStampedMsgToTF(want[i].t, x); if (want[i].corr) { x.frame_id_ = "/provided_map"; x.child_frame_id_ = "/map"; } bool same = s.frame_id_ == x.frame_id_ && s.child_frame_id_ == x.child_frame_id_ && mc::near(s.getOrigin().x(), x.getOrigin().x()) && mc::near(s.getOrigin().y(), x.getOrigin().y()) && mc::near(s.getOrigin().z(), x.getOrigin().z()) && mc::near(tf::getYaw(s.getRotation()), tf::getYaw(x.getRotation())) && (want[i].corr || s.stamp_ == x.stamp_); if (!same) fail("transform " + std::to_string(i) + " was sent as " + s.frame_id_ + " -> " + s.child_frame_id_ + " at " + std::to_string(s.getOrigin().x()) + " instead of " + x.frame_id_ + " -> " + x.child_frame_id_ + " at " + std::to_string(x.getOrigin().x())); }
    return errs ? 1 : 0;
  });
  cx.step(); MC_CHECK(cx, r.exited && r.code >= 0 && r.code <= 1, "adapter-died", "the adapter died: " << r.out); MC_CHECK(cx, r.code == 0, "adapter", r.out); mc::Hash h; for (int k : kinds) h << k; cx.state(h.v); cx.outcome(h.v);
}
