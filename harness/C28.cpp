// C28: laser messages become scans with exactly their usable readings
// FLAGS: -std=c++17 -I{V}/lib/ros_env
// NOTE: The real observer is driven with every message over the stated alphabets through a stand-in for the ROS message types and tf (lib/ros_env).
#include "mc.h"
#include "env.h"
#include "ros/laser_scan_observer.h"
#include "common.h"
using Msg = sensor_msgs::LaserScan;
struct Sink : SensorDataObserver<TransformedLaserScan> { std::vector<TransformedLaserScan> got; bool keep = true; void handle_sensor_data(TransformedLaserScan &s) override { got.push_back(s); s.scan.points().clear(); s.pose_delta = {9, 9, 9}; } };
static boost::shared_ptr<Msg> msg(const std::vector<float> &r, float a0, float inc, float lo, float hi) {
  auto m = boost::make_shared<Msg>(); m->ranges = r; m->angle_min = a0; m->angle_increment = inc; m->angle_max = a0 + (float)((double)inc * ((int)r.size() - 1)); m->range_min = lo; m->range_max = hi;
  m->header.frame_id = "laser"; m->header.stamp = ros::Time(3, 5); return m;
}
static tf::StampedTransform odom(double x, double y, double th) { return tf::StampedTransform(tf::Transform(tf::createQuaternionFromYaw(th), tf::Vector3(x, y, 0.3)), ros::Time(1, 0), "odom", "laser"); }
struct P { double r, a; bool occ; };
static std::vector<P> expected(const Msg &m, bool skip) {
  std::vector<P> v;
  for (size_t i = 0; i < m.ranges.size(); ++i) {
    double r = m.ranges[i], a = (double)m.angle_min + i * (double)m.angle_increment;
    if (std::isnan(r) || r < m.range_min) continue;
    if (r >= m.range_max) { if (!skip) v.push_back({(double)m.range_max, a, false}); } else v.push_back({r, a, true});
  }
  return v;
}
static void compare(mc::Ctx &cx, const TransformedLaserScan &s, const Msg &m, bool skip, double base = 0.7) {
  auto want = expected(m, skip); auto &p = s.scan.points();
  MC_CHECK(cx, p.size() == want.size(), "number-of-points", "a message of " << m.ranges.size() << " readings, " << want.size() << " of them usable, became a scan of " << p.size() << " points");
  MC_CHECK(cx, s.quality == 1.0, "quality", "a scan of a message has quality " << s.quality);
  for (size_t i = 0; i < p.size(); ++i) {
    MC_CHECK(cx, mc::near(p[i].range(), want[i].r) && mc::near(p[i].angle(), want[i].a, 1e-6) && p[i].is_occupied() == want[i].occ, "point",
             "point " << i << " is range " << p[i].range() << " angle " << p[i].angle() << " occupied " << p[i].is_occupied() << " instead of " << want[i].r << " " << want[i].a << " " << want[i].occ);
    MC_CHECK(cx, p[i].factor() == 1, "factor", "a measured point has factor " << p[i].factor());
  }
  // where the points are in the world, with the trigonometry that came with the scan
  if (p.empty()) return;
  MC_CHECK(cx, s.scan.trig_provider != nullptr, "trigonometry", "the scan came without trigonometry");
  for (double b : {base, -2.5, 0.0}) {
    s.scan.trig_provider->set_base_angle(b);
    for (size_t i = 0; i < p.size(); ++i) {
      auto w = p[i].move_origin(Point2D{2, -1}, s.scan.trig_provider); double x = 2 + want[i].r * std::cos(b + want[i].a), y = -1 + want[i].r * std::sin(b + want[i].a);
      MC_CHECK(cx, mc::near(w.x, x, 1e-4) && mc::near(w.y, y, 1e-4), "world-point", "point " << i << " of the scan is at " << w.x << ", " << w.y << " in the world instead of " << x << ", " << y << " at base angle " << b);
    }
  }
}
// every sequence of readings
MC_SCENARIO(readings, 4) {
  const float lo = cx.pick(std::vector<float>{0.1f, 0.0f}, "range_min"), hi = cx.pick(std::vector<float>{30.0f, 5.5f}, "range_max"), inf = std::numeric_limits<float>::infinity();
  std::vector<float> A = {1.25f, lo, hi, 0.5f * lo, hi * 1.5f, inf, -inf, -1.0f, NAN, std::nextafter(hi, 0.0f), 1e30f};
  int n = 1 + cx.choose(cx.thorough ? 4 : 3, "n"); std::vector<float> r;
  for (int i = 0; i < n; ++i) r.push_back(A[cx.choose(A.size(), "reading")]);
  bool skip = cx.flag("skip"), cached = cx.flag("cached trigonometry");
  auto m = msg(r, cx.pick(std::vector<float>{-1.5f, 0.25f}, "angle_min"), cx.pick(std::vector<float>{0.5f, 0.0043633f}, "increment"), lo, hi);
  auto sink = std::make_shared<Sink>(); LaserScanObserver o{sink, skip, cached};
  auto s = o.msg2scan(m); compare(cx, s, *m, skip);
  o.handle_transformed_msg(m, odom(1, 2, 0.5)); cx.step();
  MC_CHECK(cx, sink->got.size() == 1, "one-scan", "a message reached the SLAM " << sink->got.size() << " times");
  compare(cx, sink->got[0], *m, skip, 0.5);
  mc::Hash h; h << (int)sink->got[0].scan.points().size(); for (auto &p : sink->got[0].scan.points()) h << p.range() << (int)p.is_occupied(); cx.state(h.v); cx.outcome(h.v);
}
// laser geometries of real devices: every beam has its own angle to the end of the fan
MC_SCENARIO(devices, 1) {
  struct D { float a0, inc; int n; float hi; }; auto d = cx.pick(std::vector<D>{{-1.5707964f, 0.0087266f, 361, 80}, {-2.3561945f, 0.0043633f, 1081, 30}, {-2.0923497f, 0.0061359f, 683, 5.6f}, {0, 0.0174533f, 360, 3.5f}, {-3.1415927f, 0.0062832f, 1000, 12}, {-1.0472f, 0.0017f, 1232, 8}, {-0.5f, 0.1f, 11, 10}}, "device");
  bool skip = cx.flag("skip"), cached = cx.flag("cached trigonometry"); int every = 1 + cx.choose(4, "every n-th reading is too far");
  std::vector<float> r; for (int i = 0; i < d.n; ++i) r.push_back(every > 1 && i % every == 1 ? d.hi + 1 : 1 + 0.001f * (i % 50));
  auto m = msg(r, d.a0, d.inc, 0.05f, d.hi); auto sink = std::make_shared<Sink>(); LaserScanObserver o{sink, skip, cached};
  for (int k = 0; k < 2; ++k) { o.handle_transformed_msg(m, odom(k, 0, 0)); cx.step(); compare(cx, sink->got.back(), *m, skip, 1.1 * k); }
  cx.outcome(sink->got.back().scan.points().size());
}
// the odometry between consecutive messages, with messages of different shapes
MC_SCENARIO(odometry, 3) {
  const std::vector<RobotPose> A = {{0, 0, 0}, {1.5, -0.5, 0}, {1.5, -0.5, 3}, {-4, 2, -3}, {0.25, 7, 1.25}};
  bool cached = cx.flag("cached trigonometry"); auto sink = std::make_shared<Sink>(); LaserScanObserver o{sink, false, cached}; RobotPose at{0, 0, 0};
  if (cx.flag("given start")) { at = {3, 4, 0.5}; o.set_odometry_pose(at); MC_CHECK(cx, o.odometry_pose().x == 3 && o.odometry_pose().y == 4, "set-odometry", "the odometry pose was not taken over"); }
  int n = 2 + cx.choose(cx.thorough ? 4 : 3, "n"); RobotPose sum = at;
  for (int i = 0; i < n; ++i) {
    RobotPose p = A[cx.choose(A.size(), "odometry")]; int kind = cx.choose(3, "message");
    auto m = kind == 0 ? msg({4, 40}, 0.2f, 0.01f, 0.1f, 30) : kind == 1 ? msg({1, 2, 3}, -1, 1, 0.1f, 30) : msg({0.01f, 0.05f}, -1, 0.5f, 0.1f, 30); // the last one has no usable reading
    o.handle_transformed_msg(m, odom(p.x, p.y, p.theta)); cx.step();
    MC_CHECK(cx, (int)sink->got.size() == i + 1, "one-scan", "after " << i + 1 << " messages the SLAM got " << sink->got.size() << " scans");
    auto &s = sink->got.back(); compare(cx, s, *m, false, 0.3 * i);
    double dth = std::remainder(s.pose_delta.theta - (p.theta - at.theta), 2 * M_PI);
    MC_CHECK(cx, mc::near(s.pose_delta.x, p.x - at.x) && mc::near(s.pose_delta.y, p.y - at.y) && std::fabs(dth) < 1e-9, "odometry", "the scan carries the odometry " << s.pose_delta << " although the robot went from " << at.x << "," << at.y << "," << at.theta << " to " << p.x << "," << p.y << "," << p.theta);
    MC_CHECK(cx, mc::near(o.odometry_pose().x, p.x) && mc::near(o.odometry_pose().y, p.y), "odometry-pose", "the odometry pose is not that of the last message");
    // scans that were handed over earlier keep their own trigonometry
    at = p; sum += s.pose_delta;
    mc::Hash h; h << s.pose_delta.x << s.pose_delta.y << s.pose_delta.theta; cx.state(h.v);
  }
  for (int i = 0; i < n; ++i) if (!sink->got[i].scan.points().empty()) {
    auto &pt = sink->got[i].scan.points().front(); sink->got[i].scan.trig_provider->set_base_angle(0.1); auto w = pt.move_origin(Point2D{0, 0}, sink->got[i].scan.trig_provider);
    MC_CHECK(cx, mc::near(w.x, pt.range() * std::cos(0.1 + pt.angle()), 1e-4), "shared-trigonometry", "a later message changed the trigonometry of an earlier scan");
  }
  MC_CHECK(cx, mc::near(sum.x, at.x) && mc::near(sum.y, at.y), "odometry-sum", "the odometry of all scans does not add up to the last odometry pose");
  cx.outcome((uint64_t)n);
}
// long drives far from the origin with dense scans whose shape changes on the way
MC_SCENARIO(long_drives, 4) {
  bool skip = cx.flag("skip"), cached = cx.flag("cached trigonometry"); double far = cx.pick(std::vector<double>{0, 1e3, -1e5}, "far"); cx.periodic(3, 3, 2); auto sink = std::make_shared<Sink>(); LaserScanObserver o{sink, skip, cached}; RobotPose at{far, -far / 2, 1}; o.set_odometry_pose(at); int n = cx.thorough ? 150 : 25; double sx = at.x, sy = at.y;
  for (int i = 0; i < n; ++i) {
    static const std::vector<RobotPoseDelta> D = {{0.25, 0, 0.3}, {-0.5, 0.125, -0.7}, {1.5, -2, 0}}; auto d = cx.pick(D, "drive"); RobotPose p{at.x + d.x, at.y + d.y, std::remainder(at.theta + d.theta, 2 * M_PI)}; int shape = cx.choose(4, "shape"); std::vector<float> r; int k = shape == 0 ? 1081 : shape == 1 ? 360 : shape == 2 ? 360 : 0; for (int j = 0; j < k; ++j) r.push_back(j % 7 == i % 7 ? 31 : j % 11 == 3 ? NAN : j % 13 == 5 ? 0.01f : 0.5f + 0.02f * ((j * 3 + i) % 1000));
    auto m = msg(r, shape == 2 ? -3.1f : -2.3561945f, shape == 0 ? 0.0043633f : 0.0174533f, 0.05f, 30); o.handle_transformed_msg(m, odom(p.x, p.y, p.theta)); cx.step(); MC_CHECK(cx, int(sink->got.size()) == i + 1, "one-scan", "after " << i + 1 << " messages the SLAM got " << sink->got.size() << " scans"); auto &s = sink->got.back(); compare(cx, s, *m, skip, 0.3 * (i % 20));
    double tol = 1e-9 + 1e-9 * std::fabs(far); MC_CHECK(cx, std::fabs(s.pose_delta.x - d.x) < tol && std::fabs(s.pose_delta.y - d.y) < tol && std::fabs(std::remainder(s.pose_delta.theta - d.theta, 2 * M_PI)) < 1e-7, "odometry", "scan " << i << " carries the odometry " << s.pose_delta << " although the robot moved by " << d.x << "," << d.y << "," << d.theta << " to " << p.x << "," << p.y); at = p; sx += s.pose_delta.x; sy += s.pose_delta.y; s.scan.points().clear(); s.scan.trig_provider.reset(); cx.state(mc::Hash() << at.x << at.y << at.theta << shape);
  }
  MC_CHECK(cx, mc::near(sx, at.x) && mc::near(sy, at.y), "odometry-sum", "the odometry of " << n << " scans does not add up to the last odometry pose"); cx.outcome(mc::Hash() << at.x << at.y << skip << cached);
}
