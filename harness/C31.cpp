// C31: a launched program feeds every scan to its SLAM and publishes what the SLAM says
// FLAGS: -std=c++17 -I{V}/lib/ros_env -ldl
// NOTE: The real main functions of the nodes and of the bag runner are run against a scripted environment (lib/ros_env): every arrival order of messages and transforms; the reference is a SLAM built from the same configuration and fed by hand.
#include "rng.h"
#include "mc.h"
#include "env.h"
#include "ctlsched.h"
#include <unistd.h>
// a renamed main is not ended by an implicit `return 0`: unoptimized, falling off its end does no harm
#define NODE_MAIN(name) __attribute__((optimize("O0", "no-unreachable-traps"))) int name(int, char **)
NODE_MAIN(sh_slam_main); NODE_MAIN(gmapping_main); NODE_MAIN(credibilist_main); NODE_MAIN(bag_runner_main); NODE_MAIN(path_publisher_main);
#define main sh_slam_main
#include "ros/single_hypoth_slam_node.cpp"
#undef main
#define main gmapping_main
#include "slams/gmapping/gmapping.cpp"
#undef main
#define main credibilist_main
#include "slams/credibilist/slam.cpp"
#undef main
#define main bag_runner_main
#include "ros/lslam2D_bag_runner.cpp"
#undef main
#define main path_publisher_main
#include "ros/path_publisher.cpp"
#undef main
#include "common.h"
#include "ros_checks.h"
using Msg = sensor_msgs::LaserScan;
using KV = std::vector<std::pair<std::string, std::string>>;
static ros::Time T(double s) { return ros::Time(s); }
struct Dir { std::string n = mc::scratch("c31"); std::vector<std::string> files; Dir() { if (!mkdtemp(&n[0])) abort(); } std::string f(const std::string &s) { auto p = n + "/" + s; files.push_back(p); return p; } ~Dir() { for (auto &f : files) unlink(f.c_str()); rmdir(n.c_str()); } };
static std::string slurp(const std::string &f) { std::ifstream s(f, std::ios::binary); std::ostringstream o; o << s.rdbuf(); return o.str(); }
static KV slam_config(bool credibilist) {
  KV v = {{"slam/mapping/grid/type", "unbounded_plain"}, {"slam/mapping/grid/area/type", "affine_quality_merge"}, {"slam/map/width_in_meters", "4"}, {"slam/map/height_in_meters", "4"}, {"slam/map/meters_per_cell", "0.5"}, {"slam/mapping/blur", "0.3"},
    {"slam/scmtch/type", "HC"}, {"slam/scmtch/oope/type", "obstacle"}, {"slam/scmtch/spe/type", "wmpp"}, {"slam/scmtch/spe/wmpp/weighting/type", "even"},
    {"slam/scmtch/HC/distortion/translation", "0.2"}, {"slam/scmtch/HC/distortion/rotation", "0.2"}, {"slam/scmtch/HC/distortion/failed_attempts_limit", "3"}, {"slam/scmtch/HC/use_frame_alignement", "0"}};
  if (credibilist) v[1].second = "base_tbm"; return v;
}
static KV gmapping_config() { auto cfg = slam_config(false); cfg.push_back({"slam/particles/number", "3"}); cfg[7] = {"slam/scmtch/oope/type", "custom"}; cfg[1] = {"slam/mapping/grid/area/type", "gmapping"}; return cfg; }
static tf::Transform odom_at(double t) { return tf::Transform(tf::createQuaternionFromYaw(0.1 * t), tf::Vector3(0.25 * t, -0.125 * t, 0)); }
static boost::shared_ptr<Msg> scan_at(double t, int k) {
  auto m = boost::make_shared<Msg>(); m->header.frame_id = "laser"; m->header.stamp = T(t); m->angle_min = -0.6f; m->angle_increment = 0.3f; m->angle_max = 0.6f; m->range_min = 0.1f; m->range_max = 5;
  m->ranges = k == 1 ? std::vector<float>{1.2f, 0.05f, 1.7f, 9.0f, 1.1f} : std::vector<float>{1.0f, 1.5f, 7.0f, 1.25f, 0.9f}; return m;
}
static TransformedLaserScan reference_scan(const Msg &m, RobotPose &prev, const tf::Transform &t, bool skip) {
  TransformedLaserScan s; s.quality = 1; s.scan.trig_provider = std::make_shared<RawTrigonometryProvider>();
  for (size_t i = 0; i < m.ranges.size(); ++i) { double r = m.ranges[i], a = m.angle_min + i * (double)m.angle_increment; if (r < m.range_min) continue; if (r >= m.range_max) { if (!skip) s.scan.points().push_back(ScanPoint2D::make_polar(m.range_max, a, false)); } else s.scan.points().push_back(ScanPoint2D::make_polar(r, a, true)); }
  RobotPose p{t.getOrigin().x(), t.getOrigin().y(), tf::getYaw(t.getRotation())}; s.pose_delta = {p.x - prev.x, p.y - prev.y, p.theta - prev.theta}; prev = p; return s;
}
static bool at(const tf::Transform &t, const RobotPose &p) { return mc::near(t.getOrigin().x(), p.x, 1e-6) && mc::near(t.getOrigin().y(), p.y, 1e-6) && std::fabs(std::remainder(tf::getYaw(t.getRotation()) - p.theta, 2 * M_PI)) < 1e-6; }
struct Setup { bool typed = false, skip = false, cached = false, topic = false, odom = false, map = false, robot = false; int queues = 0; double rate = 5; };
static Setup setup(mc::Ctx &cx) { Setup s; switch (cx.choose(10, "deviation")) { case 1: s.typed = true; break; case 2: s.skip = true; break; case 3: s.cached = true; break; case 4: s.topic = true; break; case 5: s.odom = true; break; case 6: s.map = s.robot = true; break; case 7: s.rate = 1.5; break; case 8: s.queues = 1; break; case 9: s.queues = 2; break; } return s; }
static void params(const Setup &s, const KV &cfg, Dir *dir) {
  auto &p = renv::world().params; KV all = cfg; if (s.skip) all.push_back({"in/lscan2D/skip_exceeding_vals", "true"}); if (s.cached) all.push_back({"slam/performance/use_trig_cache", "1"}); if (s.topic) all.push_back({"in/lscan2D/ros/topic/name", "/my_scan"}); if (s.odom) all.push_back({"in/odometry/ros/tf/odom_frame_id", "my_odom"});
  if (dir) { auto f = dir->f("slam.properties"); std::ofstream o(f); for (auto &e : all) o << e.first << "=" << e.second << "\n"; p["~slam/config"] = f; if (s.typed) for (auto &e : all) p["~" + e.first] = std::string("/another_value"); } // the file wins
  else for (auto &e : all) { char *end; double d = strtod(e.second.c_str(), &end); if (!s.typed || *end) { if (s.typed && e.second == "true") p["~" + e.first] = true; else p["~" + e.first] = e.second; } else if (e.second.find('.') == std::string::npos && e.first.find("meters") == std::string::npos) p["~" + e.first] = (int)d; else p["~" + e.first] = d; }
  if (s.map) p["~ros/tf/map_frame_id"] = std::string("my_map"); if (s.robot) p["~ros/tf/robot_pose_frame_id"] = std::string("my_robot"); if (s.queues) { p["~ros/tf/buffer_duration"] = s.queues == 1 ? 2.5 : 40.5; p["~ros/filter_queue_size"] = s.queues == 1 ? 7 : 70000; p["~ros/subscribers_queue_size"] = s.queues == 1 ? 9 : 90000; } if (s.rate != 5) p["~ros/rviz/map_publishing_rate"] = s.rate;
}
static tf::Transform odom_between(double t) { auto a = odom_at(t - 0.5), b = odom_at(t + 0.5); return tf::Transform(a.getRotation().slerp(b.getRotation(), 0.5), a.getOrigin().lerp(b.getOrigin(), 0.5)); }
// drives a node: scans of the stamps 1, 2, 3 and transforms of 0.5, 1.5, 2.5, 3.5 in every arrival order; `ref` is told about every scan the node can localize
template <typename Main, typename OnScan> void drive(mc::Ctx &cx, const Setup &s, int scans, Main mn, OnScan on_scan) {
  auto &w = renv::world(); std::string odom = s.odom ? "my_odom" : "odom_combined", topic = s.topic ? "/my_scan" : "/base_scan";
  std::vector<int> order; int i = 0, j = 0; while (i < scans || j <= scans) { bool t = i == scans ? true : j == scans + 1 ? false : cx.flag("next is a transform"); order.push_back(t); t ? ++j : ++i; }
  std::string err; auto failed = std::make_shared<mc::Fail>(mc::Fail{"", ""}); bool bad = false;
  w.spin = [&] {
    std::vector<int> pending; int ns = 0, nt = 0; double now = 10;
    try {
      for (int t : order) {
        now += 1.25; w.now = T(now); size_t before = w.sent.size(), maps = w.published["map"].size();
        if (t) { renv::tf_arrives(tf::StampedTransform(odom_at(0.5 + nt), T(0.5 + nt), odom, "laser")); ++nt; } else { pending.push_back(++ns); renv::deliver(topic, scan_at(ns, ns % 2)); }
        size_t n = before, m = maps; auto p = pending; pending.clear();
        for (int k : p) { if (w.tf.canTransform(odom, "laser", T(k))) on_scan(k, odom_between(k), now, n, m); else pending.push_back(k); }
        MC_CHECK(cx, w.sent.size() == n, "published-count", w.sent.size() - before << " transforms were published where " << n - before << " were due"); MC_CHECK(cx, w.published["map"].size() == m, "published-maps", w.published["map"].size() - maps << " maps were published where " << m - maps << " were due"); cx.step();
      }
    } catch (mc::Fail &f) { *failed = f; bad = true; }
  };
  char name[] = "node"; char *argv[] = {name, nullptr}; mn(1, argv);
  if (bad) throw *failed; MC_CHECK(cx, w.spun == 1, "no-spin", "the node ended without waiting for messages");
  MC_CHECK(cx, mc::near(w.tf_buffer, s.queues == 1 ? 2.5 : s.queues ? 40.5 : 5) && w.filter_queue == (s.queues == 1 ? 7 : s.queues ? 70000 : 1000) && w.subscriber_queue == (s.queues == 1 ? 9 : s.queues ? 90000 : 1000), "queues", "the node keeps transforms for " << w.tf_buffer << " s, " << w.filter_queue << " filtered and " << w.subscriber_queue << " received messages");
}
// both transforms of one scan: map -> odometry -> laser leads to the pose, so does map -> robot
static void check_sent(mc::Ctx &cx, const Setup &s, size_t &n, const RobotPose &pose, const tf::Transform &od, double now, double robot_stamp) {
  auto &sent = renv::world().sent; std::string map = s.map ? "my_map" : "map", odom = s.odom ? "my_odom" : "odom_combined", robot = s.robot ? "my_robot" : "robot_pose";
  MC_CHECK(cx, sent.size() >= n + 2, "published-count", "a scan was handled, but only " << sent.size() - n << " transforms were published"); bool c = false, r = false;
  for (int k = 0; k < 2; ++k) {
    auto &t = sent[n++].t; MC_CHECK(cx, t.frame_id_ == map, "frame", "a transform was published from " << t.frame_id_ << " instead of " << map);
    if (t.child_frame_id_ == odom) { c = true; MC_CHECK(cx, at(t * od, pose), "correction", "the published correction does not lead to the pose " << pose); MC_CHECK(cx, t.stamp_ == T(now), "stamp", "the correction is stamped " << t.stamp_); }
    else { MC_CHECK(cx, t.child_frame_id_ == robot, "frame", "a transform was published to " << t.child_frame_id_); r = true; MC_CHECK(cx, at(t, pose), "pose", "the published pose is " << t.getOrigin().x() << "," << t.getOrigin().y() << "," << tf::getYaw(t.getRotation()) << " instead of " << pose); MC_CHECK(cx, t.stamp_ == T(robot_stamp), "stamp", "the pose is stamped " << t.stamp_); }
  }
  MC_CHECK(cx, c && r, "published-kinds", "the pose and the correction were not published once each");
}
static void one_hypothesis(mc::Ctx &cx, bool credibilist, int scans) {
  renv::reset(); Setup s = setup(cx); Dir dir; auto cfg = slam_config(credibilist); params(s, cfg, credibilist || s.typed ? nullptr : &dir);
  FilePropertiesProvider ref_props; for (auto &e : cfg) ref_props.set_property(e.first, e.second);
  std::shared_ptr<SingleStateHypothesisLaserScanGridWorld> ref = credibilist ? init_credibilist_slam(ref_props) : init_1h_slam(ref_props); RobotPose prev{0, 0, 0}; double last = 0; mc::Hash h; std::string frame = s.map ? "my_map" : "map";
  auto on_scan = [&](int k, const tf::Transform &od, double now, size_t &n, size_t &m) {
    auto sc = reference_scan(*scan_at(k, k % 2), prev, od, s.skip); ref->handle_sensor_data(sc); check_sent(cx, s, n, ref->pose(), od, now, now); h << ref->pose().x << ref->pose().theta << k;
    if (now - last >= s.rate) { last = now; auto &maps = renv::world().published["map"]; MC_CHECK(cx, maps.size() > m, "published-maps", "no map was published"); const auto &cr = *ref; check_grid(cx, std::any_cast<const nav_msgs::OccupancyGrid &>(maps[m]), cr.map(), frame); ++m; }
  };
  if (credibilist) drive(cx, s, scans, credibilist_main, on_scan); else drive(cx, s, scans, sh_slam_main, on_scan);
  cx.state(h.v); cx.outcome(h.v);
}
MC_SCENARIO(sh_slam_node, 4) { one_hypothesis(cx, false, cx.thorough ? 4 : 3); }
MC_SCENARIO(credibilist_node, 4) { one_hypothesis(cx, true, cx.thorough ? 4 : 3); }
// the particles' draws are a fixed sequence, so that a filter built by hand and fed the same scans says the same
MC_SCENARIO(gmapping_node, 4) {
  renv::reset(); Setup s = setup(cx); auto cfg = gmapping_config(); params(s, cfg, nullptr); double last = 0; mc::Hash h; int scans = cx.thorough ? 4 : 3;
  struct Ref { RobotPose pose; std::shared_ptr<GmappingMap> map; }; std::vector<Ref> refs; { FilePropertiesProvider p; for (auto &e : cfg) p.set_property(e.first, e.second); mc::rng().restart(); auto ref = init_gmapping(p); RobotPose prev{0, 0, 0}; for (int k = 1; k <= scans; ++k) { auto sc = reference_scan(*scan_at(k, k % 2), prev, odom_between(k), s.skip); ref->handle_sensor_data(sc); const auto &c = *ref; refs.push_back({c.pose(), std::make_shared<GmappingMap>(dynamic_cast<const GmappingMap &>(c.map()))}); } }
  mc::rng().restart();
  drive(cx, s, scans, gmapping_main, [&](int k, const tf::Transform &od, double now, size_t &n, size_t &m) {
    auto &r = refs[k - 1]; check_sent(cx, s, n, r.pose, od, now, k); h << k << (int)n << r.pose.x << r.pose.theta;
    if (now - last >= s.rate) { last = now; auto &maps = renv::world().published["map"]; MC_CHECK(cx, maps.size() > m, "published-maps", "no map was published"); check_grid(cx, std::any_cast<const nav_msgs::OccupancyGrid &>(maps[m]), *r.map, s.map ? "my_map" : "map"); ++m; }
  });
  cx.state(h.v); cx.outcome(h.v);
}
// the correction published by a thread of its own as well, when so launched: whatever the two threads do, every correction published is the last one or the one being replaced
MC_SCENARIO(asynchronous_node, 4) {
  renv::reset(); auto &w = renv::world(); bool cred = cx.flag("credibilist"); int way = cx.choose(3, "asynchronous"); bool async = way == 2; Setup s; s.rate = 1000; s.map = s.robot = cx.flag("own frames"); auto cfg = slam_config(cred); params(s, cfg, nullptr); if (way) w.params["~ros/tf/async_correction"] = async; std::string map = s.map ? "my_map" : "map";
  FilePropertiesProvider rp; for (auto &e : cfg) rp.set_property(e.first, e.second); std::shared_ptr<SingleStateHypothesisLaserScanGridWorld> ref = cred ? init_credibilist_slam(rp) : init_1h_slam(rp); RobotPose prev{0, 0, 0}; std::vector<tf::Transform> want{tf::Transform(tf::createIdentityQuaternion())}; int scans = cx.thorough ? 3 : 2; int alive = 0; bool bad = false; mc::Fail failed{"", ""};
  for (int k = 1; k <= scans; ++k) { auto sc = reference_scan(*scan_at(k, k % 2), prev, odom_between(k), false); ref->handle_sensor_data(sc); auto &p = ref->pose(); want.push_back(tf::Transform(tf::createQuaternionFromYaw(p.theta), tf::Vector3(p.x, p.y, 0)) * odom_between(k).inverse()); }
  auto corrections = [&] { std::vector<tf::Transform> v; for (auto &e : w.sent) if (e.t.child_frame_id_ == "odom_combined") v.push_back(e.t); return v; }; auto same = [](const tf::Transform &a, const tf::Transform &b) { return mc::near(a.getOrigin().x(), b.getOrigin().x(), 1e-6) && mc::near(a.getOrigin().y(), b.getOrigin().y(), 1e-6) && std::fabs(std::remainder(tf::getYaw(a.getRotation()) - tf::getYaw(b.getRotation()), 2 * M_PI)) < 1e-6; };
  w.spin = [&] { try {
    w.now = T(10); renv::tf_arrives(tf::StampedTransform(odom_at(0.5), T(0.5), "odom_combined", "laser"));
    for (int k = 1; k <= scans; ++k) {
      renv::deliver("/base_scan", scan_at(k, k % 2)); tf::StampedTransform next; { renv::Quiet q; next = tf::StampedTransform(odom_at(k + 0.5), T(k + 0.5), "odom_combined", "laser"); } renv::tf_arrives(next); size_t n; { renv::Quiet q; auto now = corrections(); n = now.size(); MC_CHECK(cx, n && same(now.back(), want[k]), "correction", "after scan " << k << " the last correction published is not that of its pose"); }
      for (int i = 0; i < 3; ++i) sched::give_up(*sched::now(), "waiting for messages", false); renv::Quiet q; auto now = corrections(); // the other thread, if any, gets its turn
      MC_CHECK(cx, (now.size() > n) == async, "asynchronous", now.size() - n << " corrections were published while the node waited for messages"); for (size_t i = n; i < now.size(); ++i) MC_CHECK(cx, same(now[i], want[k]), "correction", "a correction published after scan " << k << " is not that of its pose"); cx.step();
    } } catch (mc::Fail &f) { failed = f; bad = true; } w.ok = false; };
  { sched::Session ss{cx, cx.thorough ? 3 : 2}; renv::yield_hook = sched::point; char name[] = "node"; char *argv[] = {name, nullptr}; cred ? credibilist_main(1, argv) : sh_slam_main(1, argv); alive = ss.alive(); renv::yield_hook = nullptr; cx.counters["scheduling points"] += ss.s.points; }
  if (bad) throw failed; MC_CHECK(cx, alive == 0, "thread-left", "a thread outlives the node"); size_t k = 0; mc::Hash h; for (auto &c : corrections()) { size_t j = k; while (j < want.size() && !same(c, want[j])) ++j; MC_CHECK(cx, j < want.size(), "correction", "a published correction is none of those from number " << k << " on"); k = j; h << (int)k; } MC_CHECK(cx, same(corrections().back(), want.back()), "correction", "the last correction published is not that of the last pose"); for (size_t i = 1; i < want.size(); ++i) cx.counters["distinct corrections (asynchronous)"] += !same(want[i], want[i - 1]);
  for (auto &e : w.sent) MC_CHECK(cx, e.t.frame_id_ == map && (e.t.child_frame_id_ == "odom_combined" || e.t.child_frame_id_ == (s.robot ? "my_robot" : "robot_pose")), "frame", "a transform was published from " << e.t.frame_id_ << " to " << e.t.child_frame_id_);
  cx.state(h.v); cx.outcome(h.v);
}
// every live subscriber of a topic gets every message whose transform is known, once, with that transform
struct Sub : TopicObserver<Msg> { std::vector<std::pair<int, int>> *log; int id; std::function<void(int, const tf::StampedTransform &)> seen; void handle_transformed_msg(const boost::shared_ptr<Msg> m, const tf::StampedTransform &t) override { log->push_back({id, (int)m->header.seq}); seen(m->header.seq, t); } };
MC_SCENARIO(subscribers, 4) {
  renv::reset(); auto &w = renv::world(); ros::NodeHandle nh; TopicWithTransform<Msg> topic{nh, "scans", "odom"}; std::vector<std::shared_ptr<Sub>> subs; std::vector<std::pair<int, int>> got; std::vector<std::vector<int>> order(1); int sent = 0, known = 0; std::ostringstream os; int depth = cx.thorough ? 8 : 7, nt = 0; std::vector<int> pending; w.now = T(10);
  for (int k = 0; k < depth; ++k) {
    int op = cx.choose(4, "op"); got.clear(); std::vector<int> due; bool wrong = false;
    for (auto &s : subs) if (s) s->seen = [&](int q, const tf::StampedTransform &t) { auto o = odom_between(q); if (!mc::near(t.getOrigin().x(), o.getOrigin().x(), 1e-6) || !mc::near(t.getOrigin().y(), o.getOrigin().y(), 1e-6)) wrong = true; };
    if (op == 0) { if (subs.size() >= 3) cx.prune(); auto s = std::make_shared<Sub>(); s->log = &got; s->id = subs.size(); subs.push_back(s); topic.subscribe(s); os << " subscribe"; }
    else if (op == 1) { int live = 0; for (auto &s : subs) live += !!s; if (!live) cx.prune(); int v = cx.choose(live, "which"); for (auto &s : subs) if (s && v-- == 0) { os << " destroy " << s->id; s.reset(); } }
    else if (op == 2) { if (sent >= 3) cx.prune(); auto m = scan_at(++sent, 0); m->header.seq = sent; os << " scan " << sent; if (known > 0 && sent < known) due.push_back(sent); else pending.push_back(sent); renv::deliver("scans", m); }
    else { if (nt > 3) cx.prune(); os << " transform"; ++nt; known = nt > 1 ? nt : 0; auto p = pending; pending.clear(); for (int q : p) (known > 0 && q < known ? due : pending).push_back(q); renv::tf_arrives(tf::StampedTransform(odom_at(nt - 0.5), T(nt - 0.5), "odom", "laser")); }
    std::vector<std::pair<int, int>> want; for (int q : due) for (auto &s : subs) if (s) want.push_back({s->id, q}); cx.step();
    MC_CHECK(cx, got == want, "subscribers", got.size() << " deliveries instead of " << want.size() << " (or others):" << os.str()); MC_CHECK(cx, !wrong, "subscribers-transform", "a message came with a wrong transform:" << os.str()); MC_LOG(cx, os.str());
  }
  mc::Hash h; h << sent << nt << (int)subs.size(); for (auto &s : subs) h << !!s; cx.state(h.v); cx.outcome(h.v);
}
// ---- the bag runner: options in any order, the written trajectory and map are those of the SLAM
MC_SCENARIO(bag_runner, 4) {
  renv::reset(); Dir dir; bool verbose = cx.flag("-v"), traj = cx.flag("-t"), map = cx.flag("-m"), skip = cx.flag("skip"), cached = cx.flag("cached"); int lead = cx.choose(4, "options before the arguments"), bad = cx.choose(4, "scans without transforms at");
  bool gm = lead == 3; auto cfg = gm ? gmapping_config() : slam_config(false); cfg.insert(cfg.end(), {{"in/lscan2D/ros/topic/enabled", "true"}, {"in/odometry/ros/tf/enabled", "1"}, {"in/lscan2D/ros/topic/name", "scan"}, {"in/odometry/ros/tf/name", "tfs"}, {"in/odometry/ros/tf/odom_frame_id", "odo"}, {"in/odometry/ros/tf/ignore", cx.pick(std::vector<std::string>{"base-laser", "map-odo:base-laser", "base-laser:map-odo", "base-odo:base-laser:base-laser2", "junk:base-laser", "base-laser-2:x-y-z"}, "ignored transforms")}}); std::string ign = cfg.back().second, lf = ign[10] == '-' ? "/laser-2" : "/laser";
  if (skip) cfg.push_back({"in/lscan2D/skip_exceeding_vals", "true"}); if (cached) cfg.push_back({"slam/performance/use_trig_cache", "true"});
  FilePropertiesProvider ref_props; for (auto &e : cfg) ref_props.set_property(e.first, e.second); auto pf = dir.f("p.properties"), tfile = dir.f("traj"), mfile = dir.f("map.pgm"); { std::ofstream o(pf); for (auto &e : cfg) o << e.first << "=" << e.second << "\n"; }
  mc::rng().restart(); std::shared_ptr<LaserScanGridWorld> ref; if (gm) ref = init_gmapping(ref_props); else ref = init_1h_slam(ref_props); RobotPose prev{0, 0, 0}; std::vector<std::pair<double, RobotPose>> want; auto &b = renv::world().bags["x.bag"];
  auto tfm = [&](double t) { tf::tfMessage m; geometry_msgs::TransformStamped g; tf::transformStampedTFToMsg(tf::StampedTransform(odom_at(99), T(t), "/map", "/odo"), g); m.transforms.push_back(g); tf::transformStampedTFToMsg(tf::StampedTransform(odom_at(t), T(t), "/odo", lf), g); m.transforms.push_back(g); tf::transformStampedTFToMsg(tf::StampedTransform(odom_at(77), T(t), "/base", lf), g); m.transforms.push_back(g); if (lf != "/laser") { tf::transformStampedTFToMsg(tf::StampedTransform(odom_at(0).inverse() * odom_at(0), T(t), lf, "/laser"), g); m.transforms.push_back(g); } b.push_back({"tfs", m}); };
  double first = bad == 1 ? 1.5 : 0.5, end = bad == 2 ? 2.5 : 3.5; if (bad == 3) b.push_back({"scan", *scan_at(0.25, 0)});
  std::vector<int> order; int i = 0, j = 0; for (; i < 3 || j < 4;) { bool t = i == 3 ? true : j == 4 ? false : cx.flag("next is a transform"); order.push_back(t); t ? ++j : ++i; }
  int ns = 0, nt = 0; for (int t : order) if (t) { double x = 0.5 + nt++; if (x >= first && x <= end) tfm(x); } else { ++ns; b.push_back({"scan", *scan_at(ns, ns % 2)}); }
  for (int k = 1; k <= 3; ++k) if (k > first && k < end) { auto m = scan_at(k, k % 2); auto sc = reference_scan(*m, prev, odom_between(k), skip); ref->handle_sensor_data(sc); want.push_back({k, ref->pose()}); }
  std::vector<std::string> opt, args = {"runner"}; opt.insert(opt.end(), {"-p", pf}); if (verbose) opt.push_back("-v"); if (traj) opt.insert(opt.end(), {"-t", tfile}); if (map) opt.insert(opt.end(), {"-m", mfile});
  auto add = [&](const std::vector<std::string> &v) { args.insert(args.end(), v.begin(), v.end()); };
  if (lead == 0) { add({"tiny", "x.bag"}); add(opt); } else if (lead == 1) { add(opt); add({"viny", "x.bag"}); } else if (lead == 2) { add({"viny"}); add(opt); add({"x.bag"}); } else { std::rotate(opt.begin(), opt.begin() + 2, opt.end()); add(opt); add({"gmapping", "x.bag"}); }
  mc::rng().restart();
  std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr); std::ostringstream quiet; auto old = std::cout.rdbuf(quiet.rdbuf()); bag_runner_main(args.size(), av.data()); std::cout.rdbuf(old); cx.step();
  MC_CHECK(cx, renv::world().bags_open == 0, "bag-open", "the log was left open");
  if (traj) {
    std::istringstream f(slurp(tfile)); size_t n = 0; std::string line;
    while (std::getline(f, line)) { std::istringstream l(line); double t, x, y, z, a, b, c, d; l >> t >> x >> y >> z >> a >> b >> c >> d; MC_CHECK(cx, n < want.size() && mc::near(t, want[n].first, 1e-6), "trajectory", "line " << n << " of the trajectory is '" << line << "'"); MC_CHECK(cx, mc::near(x, want[n].second.x, 1e-4) && mc::near(y, want[n].second.y, 1e-4) && std::fabs(std::remainder(tf::getYaw(tf::Quaternion(a, b, c, d)) - want[n].second.theta, 2 * M_PI)) < 1e-4, "trajectory", "line " << n << " of the trajectory is '" << line << "', the pose was " << want[n].second); ++n; }
    MC_CHECK(cx, n == want.size(), "trajectory", "the trajectory has " << n << " poses instead of " << want.size());
  } else MC_CHECK(cx, access(tfile.c_str(), F_OK) != 0, "unasked", "an unasked trajectory was written");
  if (map) { auto rf = dir.f("ref.pgm"); { std::ofstream o(rf); const auto &cr = *ref; GridMapToPgmDumber::dump_map(o, cr.map()); } MC_CHECK(cx, slurp(mfile) == slurp(rf), "map-file", "the written map is not that of the SLAM"); } else MC_CHECK(cx, access(mfile.c_str(), F_OK) != 0, "unasked", "an unasked map was written");
  mc::Hash h; for (auto &w : want) h << w.second.x << w.second.theta; cx.state(h.v); cx.outcome(h.v);
}
// short logs; properties spread over several files, of which the one given first wins
MC_SCENARIO(bag_runner_files, 3) {
  renv::reset(); Dir dir; int scans = cx.choose(3, "scans"), split = cx.choose(4, "files"), lead = cx.choose(3, "options before the arguments"); bool traj = cx.flag("-t"), map = cx.flag("-m"), early = cx.flag("transforms first"), old_files = cx.flag("the files exist already");
  auto cfg = slam_config(false); cfg.insert(cfg.end(), {{"in/lscan2D/ros/topic/enabled", "true"}, {"in/odometry/ros/tf/enabled", "1"}, {"in/lscan2D/ros/topic/name", "scan"}, {"in/odometry/ros/tf/name", "tfs"}, {"in/odometry/ros/tf/odom_frame_id", "odo"}, {"in/lscan2D/skip_exceeding_vals", "true"}});
  FilePropertiesProvider ref_props; for (auto &e : cfg) ref_props.set_property(e.first, e.second); auto p1 = dir.f("p1.properties"), p2 = dir.f("p2.properties"), tfile = dir.f("traj"), mfile = dir.f("map.pgm");
  { std::ofstream a(p1), b(p2); int n = 0; for (auto &e : cfg) { bool to_b = split == 1 && ++n % 2; (to_b ? b : a) << e.first << "=" << e.second << "\n"; if (split == 2 && e.first.compare(0, 3, "in/") == 0) b << e.first << "=other\n"; if (split == 3) b << e.first << "=" << e.second << "\n"; } }
  auto ref = init_1h_slam(ref_props); RobotPose prev{0, 0, 0}; std::vector<RobotPose> want; auto &b = renv::world().bags["x.bag"];
  auto tfm = [&](double t) { tf::tfMessage m; geometry_msgs::TransformStamped g; tf::transformStampedTFToMsg(tf::StampedTransform(odom_at(t), T(t), "/odo", "/laser"), g); m.transforms.push_back(g); b.push_back({"tfs", m}); };
  for (int k = 0; k < 3; ++k) { if (!early && k && k <= scans) b.push_back({"scan", *scan_at(k, k % 2)}); tfm(k + 0.5); } if (early) for (int k = 1; k <= scans; ++k) b.push_back({"scan", *scan_at(k, k % 2)});
  for (int k = 1; k <= scans; ++k) { auto m = scan_at(k, k % 2); auto sc = reference_scan(*m, prev, odom_between(k), true); ref->handle_sensor_data(sc); want.push_back(ref->pose()); }
  if (old_files) for (auto &f : {tfile, mfile}) { std::ofstream o(f); for (int i = 0; i < 4000; ++i) o << "of an earlier run\n"; }
  std::vector<std::string> opt{"-p", p1}, args{"runner"}; if (split) opt.insert(opt.end(), {"-p", p2}); if (traj) opt.insert(opt.end(), {"-t", tfile}); if (map) opt.insert(opt.end(), {"-m", mfile});
  auto add = [&](const std::vector<std::string> &v) { args.insert(args.end(), v.begin(), v.end()); };
  if (lead == 0) { add({"viny", "x.bag"}); add(opt); } else if (lead == 1) { add(opt); add({"tiny", "x.bag"}); } else { add({opt[0], opt[1]}); add({"-v", "tiny"}); add({opt.begin() + 2, opt.end()}); add({"x.bag"}); }
  std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr); std::ostringstream quiet; auto old = std::cout.rdbuf(quiet.rdbuf()); bag_runner_main(args.size(), av.data()); std::cout.rdbuf(old); cx.step();
  MC_CHECK(cx, renv::world().bags_open == 0, "bag-open", "the log was left open");
  if (traj) { std::istringstream f(slurp(tfile)); int n = 0; std::string line; while (std::getline(f, line)) { std::istringstream l(line); double t, x, y; l >> t >> x >> y; MC_CHECK(cx, n < scans && mc::near(t, n + 1, 1e-6) && mc::near(x, want[n].x, 1e-4) && mc::near(y, want[n].y, 1e-4), "trajectory", "line " << n << " of the trajectory is '" << line << "'"); ++n; } MC_CHECK(cx, n == scans, "trajectory", "the trajectory has " << n << " poses instead of " << scans); }
  if (map) { auto rf = dir.f("ref.pgm"); { std::ofstream o(rf); const auto &cr = *ref; GridMapToPgmDumber::dump_map(o, cr.map()); } MC_CHECK(cx, slurp(mfile) == slurp(rf), "map-file", "the written map of a log of " << scans << " scans is not that of the SLAM"); }
  mc::Hash h; h << scans << split; for (auto &w : want) h << w.x << w.theta; cx.state(h.v); cx.outcome(h.v);
}
// wrong usage ends the runner with an error before anything is read or written
MC_SCENARIO(runner_usage, 1) {
  renv::reset(); std::vector<std::vector<std::string>> A = {{}, {"tiny"}, {"tiny", "x.bag", "more"}, {"-v"}, {"tiny", "-m", "x.bag"}}; auto a = cx.pick(A, "arguments"); a.insert(a.begin(), "runner");
  auto e = mc::died([&] { std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); freopen("/dev/null", "w", stdout); int r = bag_runner_main(a.size(), av.data()); if (r) _exit(3); }); cx.step();
  MC_CHECK(cx, !e.empty(), "usage", "the runner accepted a wrong list of arguments"); cx.state(a.size()); cx.outcome(a.size());
}
// ---- parameters given at launch, in every form ROS has for them
MC_SCENARIO(launch_parameters, 2) {
  renv::reset(); LaunchPropertiesProvider p; const LaunchPropertiesProvider &c = p; int way = cx.choose(5, "given as"); auto &w = renv::world().params; std::string k = cx.pick(std::vector<std::string>{"a", "slam/scmtch/type"}, "name"); w["~other"] = std::string("7"); w["/" + k] = std::string("5");
  switch (cx.choose(4, "kind")) {
    case 0: { int v = cx.pick(std::vector<int>{0, 1, -3, 100000, 10}, "value"), d = 11; std::string text = std::to_string(v); if (v == 10) text = "010"; if (way == 1) w["~" + k] = v; if (way == 2) w["~" + k] = text; if (way == 3) p.set_property(k, text); if (way == 4) v = d, w.erase("~" + k); if (way == 0) v = d;
      MC_CHECK(cx, c.get_int(k, d) == v, "int", "integer " << v << " reads as " << c.get_int(k, d)); if (v >= 0) MC_CHECK(cx, c.get_uint(k, d) == (unsigned)v, "uint", "unsigned " << v << " reads as " << c.get_uint(k, d)); if (way == 1 || way == 2 || way == 3) MC_CHECK(cx, c.get_dbl(k, 0.5) == v, "int-as-double", "integer " << v << " reads as the number " << c.get_dbl(k, 0.5)); break; }
    case 1: { double v = cx.pick(std::vector<double>{0, 0.25, -1.5, 1e6, 0.1234567890123}, "value"), d = 0.75; std::ostringstream os; os.precision(15); os << v; if (way == 1) w["~" + k] = v; if (way == 2) w["~" + k] = os.str(); if (way == 3) p.set_property(k, os.str()); if (way == 4 || way == 0) v = d; MC_CHECK(cx, mc::near(c.get_dbl(k, d), v), "double", "number " << v << " reads as " << c.get_dbl(k, d)); break; }
    case 2: { bool v = cx.flag("value"), d = cx.flag("default"); std::string t = cx.flag("as digit") ? (v ? "1" : "0") : (v ? "true" : "false"); if (way == 1) w["~" + k] = v; if (way == 2) w["~" + k] = t; if (way == 3) p.set_property(k, t); if (way == 4 || way == 0) v = d; MC_CHECK(cx, c.get_bool(k, d) == v, "bool", "flag " << v << " reads as " << c.get_bool(k, d)); break; }
    default: { std::string v = cx.pick(std::vector<std::string>{"x", "", "a b=c", "1"}, "value"), d = "dflt"; if (way == 1 || way == 2) w["~" + k] = v; if (way == 3) p.set_property(k, v); if (way == 4 || way == 0) v = d; MC_CHECK(cx, c.get_str(k, d) == v, "string", "text '" << v << "' reads as '" << c.get_str(k, d) << "'"); }
  }
  cx.step(); cx.state(way); cx.outcome(way);
}
// a long drive: no pose of the path is dropped or altered
MC_SCENARIO(long_path, 1) {
  renv::reset(); auto &w = renv::world(); int n = cx.pick(std::vector<int>{60, 300, 1100}, "ticks"), stay = cx.pick(std::vector<int>{1, 7}, "moves every"), tick = 0; auto move = [&](double t) { w.tf.setTransform(tf::StampedTransform(odom_at(t), T(t), "map", "base_link")); }; std::vector<double> want; double cur = 1; move(cur);
  w.on_sleep = [&] { want.push_back(cur); if (tick == n) { w.ok = false; return; } if (++tick % stay == 0) { cur += 1; move(cur); } };
  char name[] = "path"; char *argv[] = {name, nullptr}; path_publisher_main(1, argv); cx.step(); auto &pub = w.published["path"]; MC_CHECK(cx, pub.size() >= want.size(), "path-count", "after " << want.size() << " ticks the path was published " << pub.size() << " times");
  for (size_t i = 0; i < want.size(); i += i + 17 < want.size() ? 17 : 1) { auto &p = std::any_cast<const nav_msgs::Path &>(pub[i]); MC_CHECK(cx, p.poses.size() == i + 1, "path", "the path number " << i << " has " << p.poses.size() << " poses");
    for (size_t k = 0; k <= i; ++k) { auto o = odom_at(want[k]).getOrigin(); MC_CHECK(cx, mc::near(p.poses[k].pose.position.x, o.x()) && mc::near(p.poses[k].pose.position.y, o.y()) && p.poses[k].header.stamp == T(want[k]), "path-pose", "pose " << k << " of the path number " << i << " is " << p.poses[k].pose.position.x << "," << p.poses[k].pose.position.y); } }
  cx.state(n); cx.outcome(n + stay);
}
// ---- the path: one more pose at every tick at which the robot can be found
MC_SCENARIO(path, 3) {
  renv::reset(); auto &w = renv::world(); bool names = cx.flag("own names"); std::string map = names ? "my_map" : "map", base = names ? "my_base" : "base_link", topic = names ? "my_path" : "path"; if (names) { w.params["~ros/tf/map_frame_id"] = map; w.params["base_link_frame_id"] = base; w.params["path_topic_name"] = topic; }
  int n = 1 + cx.choose(4, "ticks"); std::vector<bool> moved; for (int i = 0; i < n; ++i) moved.push_back(cx.flag("moved")); int how = cx.choose(4, "unknown at first"); bool late = how; int tick = 0; std::vector<std::pair<double, double>> want; auto move = [&](double t) { w.tf.setTransform(tf::StampedTransform(odom_at(t), T(t), map, base)); };
  double cur = 1; if (!late) move(cur); bool waiting = late; if (how == 2) { w.tf.setTransform(tf::StampedTransform(odom_at(0), T(1), map, "elsewhere")); w.tf.setTransform(tf::StampedTransform(odom_at(0), T(1), "nowhere", base)); }
  if (how == 3) { w.tf.setTransform(tf::StampedTransform(odom_at(0), T(1), map, "elsewhere")); }
  w.on_sleep = [&] { if (waiting) { waiting = false; move(cur); return; } want.push_back({cur, 0}); if (tick == n) { w.ok = false; return; } if (moved[tick++]) { cur += 1; move(cur); } };
  char name[] = "path"; char *argv[] = {name, nullptr}; path_publisher_main(1, argv); cx.step(); auto &pub = w.published[topic];
  MC_CHECK(cx, pub.size() >= want.size(), "path-count", "after " << want.size() << " ticks the path was published " << pub.size() << " times"); MC_CHECK(cx, w.errors == (late ? 1 : 0), "path-errors", w.errors << " errors were reported");
  for (size_t i = 0; i < want.size(); ++i) {
    auto &p = std::any_cast<const nav_msgs::Path &>(pub[i]); MC_CHECK(cx, p.poses.size() == i + 1 && p.header.frame_id == map && p.header.stamp == T(want[i].first), "path", "the path number " << i << " has " << p.poses.size() << " poses in " << p.header.frame_id);
    for (size_t k = 0; k <= i; ++k) { auto o = odom_at(want[k].first).getOrigin(); auto &q = p.poses[k]; MC_CHECK(cx, mc::near(q.pose.position.x, o.x()) && mc::near(q.pose.position.y, o.y()) && q.header.stamp == T(want[k].first) && q.header.frame_id == map, "path-pose", "pose " << k << " of the path is " << q.pose.position.x << "," << q.pose.position.y); }
  }
  cx.state(want.size()); cx.outcome(want.size() * 2 + late);
}
