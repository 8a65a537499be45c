// C30: published maps, poses and transforms describe the world of the SLAM
// FLAGS: -std=c++17 -I{V}/lib/ros_env -ldl
// NOTE: The real publishers are driven through a stand-in for ROS and tf (lib/ros_env); the asynchronous publisher is run under a controlled scheduler (lib/ctlsched.h): every interleaving of its thread with the SLAM's up to a number of preemptions.
#include "mc.h"
#include "env.h"
#include "ctlsched.h"
#include "ros_checks.h"
#include "core/states/world.h"
#include "ros/occupancy_grid_publisher.h"
#include "ros/pose_correction_tf_publisher.h"
#include "ros/robot_pose_observers.h"
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/rescalable_caching_grid_map.h"
#include "core/maps/const_occupancy_estimator.h"
#include "core/maps/naive_grid_cells.h"
#include "slams/gmapping/gmapping_grid_cell.h"
using Msg = sensor_msgs::LaserScan;
struct Raw : GridCell { Raw(double v) : GridCell{Occupancy{v, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::make_unique<Raw>(*this); } void operator+=(const AreaOccupancyObservation &a) override { _occupancy = a.occupancy; GridCell::on_update(); } };
static ros::Time T(double s) { return ros::Time(s); }
static bool same(const tf::Transform &a, const tf::Transform &b) {
  return mc::near(a.getOrigin().x(), b.getOrigin().x(), 1e-9) && mc::near(a.getOrigin().y(), b.getOrigin().y(), 1e-9) && mc::near(a.getOrigin().z(), b.getOrigin().z(), 1e-9) && std::fabs(std::remainder(tf::getYaw(a.getRotation()) - tf::getYaw(b.getRotation()), 2 * M_PI)) < 1e-9;
}
static tf::Transform flat(double x, double y, double th) { return tf::Transform(tf::createQuaternionFromYaw(th), tf::Vector3(x, y, 0)); }
static tf::Transform flat(const RobotPose &p) { return flat(p.x, p.y, p.theta); }
template <typename M> void grid(mc::Ctx &cx, std::vector<std::pair<int, int>> sizes, bool grow, int updates) {
  renv::reset(); auto sz = cx.pick(sizes, "size"); double sc = cx.pick(std::vector<double>{0.1, 1, 0.25}, "scale"), bg = cx.pick(std::vector<double>{-1, 0.5, 0}, "background");
  M m{std::make_shared<Raw>(bg), GridMapParams{sz.first, sz.second, sc}}; OccupancyGridPublisher<M> pub{ros::Publisher("map"), "the_map", 5.0};
  auto &sent = renv::world().published["map"]; double t = cx.pick(std::vector<double>{100, 5, 3}, "first update at"), last = 0; size_t n = 0;
  for (int k = 0, K = cx.repeating() ? updates : 1 + cx.choose(updates, "updates"); k < K; ++k) {
    if (k) t += cx.pick(std::vector<double>{1, 4.5, 5, 12}, "time passes");
    renv::world().now = T(t);
    int e = cx.choose(3, "change"); DiscretePoint2D c{e == 1 ? 0 : -m.origin().x, e == 1 ? 0 : -m.origin().y};
    if (e == 2 && grow) c = cx.flag("grow left and down") ? DiscretePoint2D{-m.origin().x - 2, -m.origin().y - 1} : DiscretePoint2D{m.width() - m.origin().x + 1, m.height() - m.origin().y};
    if (e) m.update(c, AreaOccupancyObservation{true, Occupancy{cx.pick(std::vector<double>{1, 0, 0.755, 0.29}, "value"), 1}, {0, 0}, 1});
    pub.on_map_update(m); cx.step(); bool due = t - last >= 5;
    MC_CHECK(cx, sent.size() == n + due, "map-interval", "the map was " << (sent.size() > n ? "" : "not ") << "published " << t - last << " s after the previous time");
    if (due) { ++n; last = t; check_grid(cx, std::any_cast<const nav_msgs::OccupancyGrid &>(sent.back()), m, "the_map"); }
    mc::Hash h; h << m.width() << m.height() << (int)due << t; cx.state(h.v);
  }
  cx.outcome(n * 100 + m.width());
}
MC_SCENARIO(grid_plain, 4) { grid<PlainGridMap>(cx, {{1, 1}, {2, 3}, {5, 4}}, false, cx.thorough ? 3 : 2); }
MC_SCENARIO(grid_unbounded, 4) { grid<UnboundedPlainGridMap>(cx, {{1, 1}, {4, 3}}, true, cx.thorough ? 3 : 2); }
MC_SCENARIO(grid_tiled, 4) { grid<UnboundedLazyTiledGridMap>(cx, {{4, 3}, {130, 2}}, cx.thorough, 2); }
// through the interface the SLAMs use
MC_SCENARIO(grid_polymorphic, 2) {
  renv::reset(); renv::world().now = T(50); OccupancyGridPublisher<GridMap> pub{ros::Publisher("map"), "m"}; int w = 1 + cx.choose(5, "w"), h = 1 + cx.choose(5, "h"); UnboundedPlainGridMap m{std::make_shared<GmappingBaseCell>(), GridMapParams{w, h, 0.5}};
  int k = cx.choose(w * h + 1, "cell"); if (k) m.update({(k - 1) % w - m.origin().x, (k - 1) / w - m.origin().y}, AreaOccupancyObservation{true, Occupancy{1, 1}, {0, 0}, 1});
  pub.on_map_update(m); cx.step(); auto &s = renv::world().published["map"]; MC_CHECK(cx, s.size() == 1, "map-interval", "the first map was not published"); check_grid(cx, std::any_cast<const nav_msgs::OccupancyGrid &>(s[0]), m, "m"); cx.state(w * 8 + h); cx.outcome(k);
}
static const std::vector<RobotPose> Poses = {{0, 0, 0}, {1.5, -2, 0.75}, {-3, 0.5, 3.9}, {2, 2, -7.5}};
struct Odo { double x, y, th, z; };
static const std::vector<Odo> Odos = {{0, 0, 0, 0}, {1, -1, 0.5, 0}, {4, 3, -3, 1.5}};
static tf::StampedTransform odo(const Odo &o, double t) { return tf::StampedTransform(tf::Transform(tf::createQuaternionFromYaw(o.th), tf::Vector3(o.x, o.y, o.z)), T(t), "odom", "laser"); }
static boost::shared_ptr<Msg> scan_at(double t) { auto m = boost::make_shared<Msg>(); m->header.stamp = T(t); m->header.frame_id = "laser"; return m; }
// the pose of the robot, stamped with the present or with the last observation
static void robot_pose_body(mc::Ctx &cx) {
  renv::reset(); bool stamped = cx.flag("stamped by the observation"); auto &sent = renv::world().sent; std::shared_ptr<RobotPoseTfPublisher> p; std::shared_ptr<ObservationStampedRoboPoseTfPublisher<Msg>> q;
  if (stamped) p = q = std::make_shared<ObservationStampedRoboPoseTfPublisher<Msg>>("map", "robot"); else p = std::make_shared<RobotPoseTfPublisher>("map", "robot");
  double obs = 0;
  for (int k = 0, K = cx.repeating() ? 200 : 1 + cx.choose(3, "steps"); k < K; ++k) {
    double t = 10 + 1.25 * k; renv::world().now = T(t); if (stamped && cx.flag("observation")) { obs = t - 0.3; q->handle_transformed_msg(scan_at(obs), odo(Odos[0], obs)); MC_CHECK(cx, (int)sent.size() == k, "early-pose", "an observation alone was published as a pose"); }
    auto &pose = cx.pick(Poses, "pose"); p->on_pose_update(pose); cx.step(); MC_CHECK(cx, (int)sent.size() == k + 1, "pose-count", k + 1 << " poses were published " << sent.size() << " times");
    auto &s = sent.back().t; MC_CHECK(cx, same(s, flat(pose)), "pose", "the pose " << pose << " was published as " << s.getOrigin().x() << "," << s.getOrigin().y() << "," << tf::getYaw(s.getRotation()));
    MC_CHECK(cx, s.frame_id_ == "map" && s.child_frame_id_ == "robot", "pose-frames", "the pose was published from " << s.frame_id_ << " to " << s.child_frame_id_);
    MC_CHECK(cx, s.stamp_ == T(stamped ? obs : t), "pose-stamp", "the pose at " << t << " with the observation of " << obs << " is stamped " << s.stamp_); cx.state(mc::Hash().v + k); cx.outcome(k);
  }
}
MC_SCENARIO(robot_pose, 3) { robot_pose_body(cx); }
MC_SCENARIO(long_robot_pose, 3) { cx.periodic(4, 4, 2); robot_pose_body(cx); }
// map -> odometry -> robot leads to the pose
static void expect_correction(mc::Ctx &cx, const tf::StampedTransform &s, const RobotPose &p, const Odo &o) {
  MC_CHECK(cx, s.frame_id_ == "map" && s.child_frame_id_ == "odom", "correction-frames", "the correction was published from " << s.frame_id_ << " to " << s.child_frame_id_);
  MC_CHECK(cx, same(s * flat(o.x, o.y, o.th), flat(p)), "correction", "with the odometry " << o.x << "," << o.y << "," << o.th << " the published correction leads to another pose than " << p);
}
static void correction_body(mc::Ctx &cx) {
  renv::reset(); auto &sent = renv::world().sent; PoseCorrectionTfPublisher<Msg> pub{"map", "odom"}; Odo o{0, 0, 0, 0}; size_t n = 0;
  for (int k = 0, K = cx.repeating() ? 200 : 1 + cx.choose(cx.thorough ? 3 : 3, "steps"); k < K; ++k) {
    double t = 10 + 1.25 * k; renv::world().now = T(t);
    if (cx.flag("odometry")) { o = cx.pick(Odos, "odometry is"); pub.handle_transformed_msg(scan_at(t), odo(o, t)); MC_CHECK(cx, sent.size() == n, "early-correction", "a scan alone was published as a correction"); }
    if (cx.flag("pose")) { auto &p = cx.pick(Poses, "pose is"); pub.on_pose_update(p); ++n; cx.step(); MC_CHECK(cx, sent.size() == n, "correction-count", n << " corrections were published " << sent.size() << " times"); expect_correction(cx, sent.back().t, p, o); MC_CHECK(cx, sent.back().t.stamp_ == T(t), "correction-stamp", "the correction of " << t << " is stamped " << sent.back().t.stamp_); }
    mc::Hash h; h << k << n << o.x; cx.state(h.v);
  }
  cx.outcome(n);
}
MC_SCENARIO(correction, 3) { correction_body(cx); }
MC_SCENARIO(long_correction, 3) { cx.periodic(4, 4, 2); correction_body(cx); }
// the same with a publishing thread: what is published is always one of the corrections, never a mixture, never an older one again
MC_SCENARIO(asynchronous, 4) {
  renv::reset(); auto &sent = renv::world().sent; std::vector<tf::Transform> want{flat(0, 0, 0)}; std::vector<size_t> after; bool async = cx.thorough || true;
  std::vector<std::pair<int, int>> steps; for (int k = 0, K = 1 + cx.choose(cx.thorough ? 4 : 3, "steps"); k < K; ++k) steps.push_back({1 + k % 2, 1 + k % 3});
  renv::world().now = T(7); int alive;
  {
    sched::Session s{cx, cx.thorough ? 8 - (int)steps.size() : 4}; renv::yield_hook = sched::point;
    {
      PoseCorrectionTfPublisher<Msg> pub{"map", "odom", async};
      for (auto &st : steps) { pub.handle_transformed_msg(scan_at(7), odo(Odos[st.first], 7)); pub.on_pose_update(Poses[st.second]); after.push_back(sent.size()); }
      renv::world().ok = false;
    }
    alive = s.alive(); renv::yield_hook = nullptr; cx.counters["scheduling points"] += s.s.points;
  }
  MC_CHECK(cx, alive == 0, "thread-left", "the publishing thread outlives its publisher");
  for (auto &st : steps) want.push_back(flat(Poses[st.second]) * flat(Odos[st.first].x, Odos[st.first].y, Odos[st.first].th).inverse());
  size_t at = 0; mc::Hash h;
  for (size_t i = 0; i < sent.size(); ++i) {
    size_t k = at; while (k < want.size() && !same(sent[i].t, want[k])) ++k;
    MC_CHECK(cx, k < want.size(), "torn", "transform " << i << " of " << sent.size() << " published (" << sent[i].t.getOrigin().x() << "," << sent[i].t.getOrigin().y() << "," << tf::getYaw(sent[i].t.getRotation()) << ") is none of the corrections from number " << at << " on");
    MC_CHECK(cx, sent[i].t.frame_id_ == "map" && sent[i].t.child_frame_id_ == "odom" && sent[i].t.stamp_ == T(7), "correction-frames", "the correction was published from " << sent[i].t.frame_id_ << " to " << sent[i].t.child_frame_id_);
    at = k; h << (int)k;
    for (size_t j = 0; j < after.size(); ++j) if (i + 1 == after[j]) MC_CHECK(cx, at >= j + 1, "late", "correction " << j + 1 << " was not published when the pose had been handled");
  }
  MC_CHECK(cx, sent.size() >= steps.size() && at == steps.size(), "missing", "the last correction was never published");
  cx.step(sent.size()); cx.state(h.v); cx.outcome(h.v);
}
// the trajectory file
static void trajectory_body(mc::Ctx &cx) {
  renv::reset(); bool flush = cx.flag("flush every entry"), direct = cx.flag("stamped by the caller"); int n = cx.repeating() ? 500 : cx.choose(4, "n"); std::string name_s = mc::scratch("c30"); char *name = &name_s[0]; int fd = mkstemp(name); close(fd); std::string err;
  struct E { ros::Time t; RobotPose p; }; std::vector<E> want;
  auto read = [&](const char *when) {
    std::ifstream f(name); std::string line; size_t i = 0;
    while (std::getline(f, line)) {
      std::istringstream s(line); std::string ts; double x, y, z, qx, qy, qz, qw; s >> ts >> x >> y >> z >> qx >> qy >> qz >> qw; if (!s || i >= want.size()) { err = "line '" + line + "'"; return; }
      auto dot = ts.find('.'); long sec = std::stol(ts.substr(0, dot)); std::string frac = dot == std::string::npos ? "" : ts.substr(dot + 1); frac.resize(9, '0'); long ns = std::stol(frac);
      auto &w = want[i++]; std::ostringstream os; os << w.t << " " << w.p;
      if (sec != (long)w.t.sec || std::labs(ns - (long)w.t.nsec) > 1000) err = "the time " + os.str() + " is written as " + ts;
      if (!mc::near(x, w.p.x, 1e-5) || !mc::near(y, w.p.y, 1e-5) || z != 0 || 1 - std::fabs(qz * std::sin(w.p.theta / 2) + qw * std::cos(w.p.theta / 2)) > 1e-5 || std::fabs(qx) > 1e-5 || std::fabs(qy) > 1e-5 || std::fabs(std::remainder(tf::getYaw(tf::Quaternion(qx, qy, qz, qw)) - w.p.theta, 2 * M_PI)) > 1e-4) err = "the pose " + os.str() + " is written as '" + line + "'";
    }
    if (i != want.size()) err = std::to_string(want.size()) + " poses, " + std::to_string(i) + " lines " + when;
  };
  {
    RobotPoseTumTrajectoryDumper d{name, flush};
    for (int k = 0; k < n; ++k) {
      ros::Time t = cx.pick(std::vector<ros::Time>{{1, 500000000}, {1305031102, 5000000}, {12, 0}, {3, 999999000}, {7, 20000}}, "time"); RobotPose p = cx.pick(Poses, "pose"); renv::world().now = direct ? ros::Time(99, 9) : t;
      if (direct) d.log_robot_pose(t, p); else d.on_pose_update(p); want.push_back({t, p}); cx.step(); if (flush && err.empty()) read("after every entry");
    }
  }
  if (err.empty()) read("at the end"); unlink(name);
  MC_CHECK(cx, err.empty(), "trajectory", err); cx.state(n); cx.outcome(n * 4 + flush);
}
MC_SCENARIO(trajectory, 3) { trajectory_body(cx); }
MC_SCENARIO(long_trajectory, 3) { cx.periodic(4, 4, 2); trajectory_body(cx); }
// big maps published many times over a long run
MC_SCENARIO(long_grid_plain, 3) { cx.periodic(4, 3, 2); grid<PlainGridMap>(cx, {{300, 200}, {1, 400}, {64, 7}}, false, cx.thorough ? 100 : 25); }
MC_SCENARIO(long_grid_unbounded, 3) { cx.periodic(4, 4, 2); grid<UnboundedPlainGridMap>(cx, {{30, 20}, {130, 1}, {1, 1}, {100, 64}}, true, cx.thorough ? 60 : 20); }
MC_SCENARIO(long_grid_tiled, 3) { cx.periodic(cx.thorough ? 4 : 3, 4, 2); grid<UnboundedLazyTiledGridMap>(cx, {{130, 20}, {4, 3}}, true, 12); }
