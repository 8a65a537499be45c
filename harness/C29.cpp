// C29: a recorded log yields every localizable scan once, in order, with the transform of its moment
// FLAGS: -std=c++17 -I{V}/lib/ros_env
// NOTE: The real log reader is driven with every interleaving of the recorded streams through a stand-in for rosbag and tf (lib/ros_env); the reference is the transform of the whole log at the stamp of each scan.
#include "mc.h"
#include "env.h"
#include "ros/bag_topic_with_transform.h"
#include "ros/init_utils.h"
#include "common.h"
using Msg = sensor_msgs::LaserScan;
static bool Torso = false; // the laser is mounted on a torso that is mounted on the base
static double Unit = 0.5; // seconds between the moments of a log
static ros::Time T(int k) { return ros::Time(100, 0) + ros::Duration(k * Unit); }
// true motion: the frame at time t is at (t, t / 2) turned by t / 4
static tf::Transform motion(double t) { return tf::Transform(tf::createQuaternionFromYaw(t / 4), tf::Vector3(t, t / 2, 0)); }
static geometry_msgs::TransformStamped stamped(const tf::Transform &t, int at, const char *from, const char *to) { geometry_msgs::TransformStamped m; tf::transformStampedTFToMsg(tf::StampedTransform(t, T(at), from, to), m); return m; }
struct Ev { int kind, at; }; // 0 scan, 1 odom->base, 2 base->laser, 3 another topic
static renv::BagMsg bagmsg(const Ev &e, const std::string &sl, int ignored) {
  if (e.kind == 0) { Msg m; m.header.frame_id = sl + "laser"; m.header.stamp = T(e.at); m.header.seq = e.at; m.ranges = {1.0f * e.at}; return {"/scan", m}; }
  tf::tfMessage m;
  if (ignored == 1) m.transforms.push_back(stamped(motion(77), e.at, "/map", "/odom"));
  if (e.kind == 1) m.transforms.push_back(stamped(motion(e.at), e.at, (sl + "odom").c_str(), (sl + "base").c_str()));
  if (e.kind == 5) m.transforms.push_back(stamped(tf::Transform(tf::createQuaternionFromYaw(0), tf::Vector3(0, 0, 0.5)), e.at, (sl + "base").c_str(), (sl + "torso").c_str()));
  if (e.kind == 2) m.transforms.push_back(stamped(tf::Transform(tf::createQuaternionFromYaw(0.5), tf::Vector3(0.25, 0, 0)), e.at, (sl + (Torso ? "torso" : "base")).c_str(), (sl + "laser").c_str()));
  if (e.kind == 4) { m.transforms.push_back(stamped(motion(e.at), e.at, (sl + "odom").c_str(), (sl + "base").c_str())); m.transforms.push_back(stamped(tf::Transform(tf::createQuaternionFromYaw(0.5), tf::Vector3(0.25, 0, 0)), e.at, (sl + "base").c_str(), (sl + "laser").c_str())); }
  // ignored transforms that would tear the frames apart
  if (ignored == 2) for (auto *c : {"base", "laser", "odom"}) m.transforms.push_back(stamped(motion(77), e.at, "/map", (sl + c).c_str()));
  if (e.kind == 3) { Msg o; o.header.frame_id = "laser"; o.header.stamp = T(e.at); return {"/other_scan", o}; }
  return {"/tf", m};
}
// the scans the log can localize: first and last transform of every edge enclose them
static std::vector<int> localizable(const std::vector<Ev> &log, bool chain) {
  std::vector<int> r;
  for (auto &s : log) if (s.kind == 0) {
    bool ok = true;
    for (int k : Torso ? std::vector<int>{1, 2, 5} : chain ? std::vector<int>{1, 2} : std::vector<int>{1}) { int lo = 1 << 20, hi = -(1 << 20); for (auto &e : log) if (e.kind == k || (e.kind == 4)) { lo = std::min(lo, e.at); hi = std::max(hi, e.at); } ok = ok && lo <= s.at && s.at <= hi; }
    if (ok) r.push_back(s.at);
  }
  return r;
}
static tf::Transform where(const std::vector<Ev> &log, int at) { // piecewise linear between the recorded transforms
  int lo = -(1 << 20), hi = 1 << 20; for (auto &e : log) if (e.kind == 1 || e.kind == 4) { if (e.at <= at) lo = std::max(lo, e.at); if (e.at >= at) hi = std::min(hi, e.at); }
  double k = hi == lo ? 0 : double(at - lo) / (hi - lo); double x = lo + k * (hi - lo);
  return motion(x) * tf::Transform(tf::createQuaternionFromYaw(0.5), tf::Vector3(0.25, 0, 0));
}
static void run(mc::Ctx &cx, const std::vector<Ev> &log, int ign) {
  // an edge that is recorded only once cannot be interpolated, what becomes of the other scans is left open
  for (int k : {1, 2, 5}) { int n = 0; for (auto &e : log) n += e.kind == k || e.kind == 4; if (n == 1) return; }
  renv::reset(); std::string sl = "/"; auto &b = renv::world().bags["log.bag"]; for (auto &e : log) b.push_back(bagmsg(e, sl, e.kind != 0 ? ign : 0));
  std::ostringstream d; for (auto &e : log) d << " " << (e.kind == 0 ? "scan@" : e.kind == 1 ? "odom@" : e.kind == 2 ? "laser@" : e.kind == 4 ? "tf@" : e.kind == 5 ? "torso@" : "other@") << e.at; MC_LOG(cx, d.str());
  auto want = localizable(log, true); std::vector<int> got;
  {
    BagTopicWithTransform<Msg> bag{"log.bag", "/scan", "/tf", "odom"};
    if (ign) bag.set_tf_ignores({{"/map", {"/elsewhere", "/odom", "/base", "/laser"}}, {"/odom", {"/map"}}});
    while (bag.extract_next_msg()) {
      cx.step(); int at = bag.msg()->header.seq; got.push_back(at);
      MC_CHECK(cx, got.size() <= want.size() + 1, "too-many", "more scans were extracted than the log can localize:" << d.str());
      MC_CHECK(cx, bag.timestamp() == T(at) && bag.msg()->header.stamp == T(at), "stamp", "the scan of " << T(at) << " is reported at " << bag.timestamp());
      auto w = where(log, at); auto &t = bag.transform();
      MC_CHECK(cx, mc::near(t.getOrigin().x(), w.getOrigin().x(), 1e-6) && mc::near(t.getOrigin().y(), w.getOrigin().y(), 1e-6) && mc::near(tf::getYaw(t.getRotation()), tf::getYaw(w.getRotation()), 1e-6), "transform",
               "the scan of " << T(at) << " comes with the transform " << t.getOrigin().x() << "," << t.getOrigin().y() << "," << tf::getYaw(t.getRotation()) << " instead of " << w.getOrigin().x() << "," << w.getOrigin().y() << "," << tf::getYaw(w.getRotation()) << ":" << d.str());
    }
    MC_CHECK(cx, !bag.extract_next_msg(), "end", "a log that had ended yields another scan");
    MC_CHECK(cx, renv::world().bags_open == 1, "closed-early", "the log was closed while it was read");
  }
  MC_CHECK(cx, renv::world().bags_open == 0, "not-closed", "the log was not closed");
  std::ostringstream a, w; for (int x : got) a << " " << x; for (int x : want) w << " " << x;
  MC_CHECK(cx, got == want, "scans", "of the log" << d.str() << " the scans" << a.str() << " were extracted instead of" << w.str());
  mc::Hash h; for (int x : got) h << x; h << log.size(); cx.state(h.v); cx.outcome(h.v);
}
// all interleavings of a stream of scans and a stream of transforms, whatever their times
static void interleave(mc::Ctx &cx, std::vector<Ev> a, std::vector<Ev> b, int ign) {
  std::vector<Ev> log; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) { bool second = i == a.size() ? true : j == b.size() ? false : cx.flag("next is a transform"); log.push_back(second ? b[j++] : a[i++]); }
  run(cx, log, ign);
}
static std::vector<Ev> stream(mc::Ctx &cx, int kind, int lo, int n, int step, const char *l) { std::vector<Ev> v; for (int t = lo; t < lo + n * step; t += step) if (cx.flag(l)) v.push_back({kind, t}); return v; }
MC_SCENARIO(two_streams, 6) {
  Unit = 0.5;
  auto s = stream(cx, 0, 1, cx.thorough ? 6 : 5, 1, "scan recorded"), t = stream(cx, 4, 0, cx.thorough ? 8 : 6, 1, "transform recorded");
  interleave(cx, s, t, cx.choose(3, "transforms to ignore"));
}
// a chain of two edges, recorded at different times
MC_SCENARIO(three_streams, 6) {
  Unit = cx.pick(std::vector<double>{0.5, 40}, "seconds between messages");
  auto s = stream(cx, 0, 1, cx.thorough ? 4 : 3, 1, "scan recorded"), o = stream(cx, 1, 1, cx.thorough ? 5 : 4, 1, "odometry recorded"), l = stream(cx, 2, 0, 2, 5, "laser mounting recorded");
  std::vector<Ev> ol; size_t i = 0, j = 0; while (i < o.size() || j < l.size()) { bool second = i == o.size() ? true : j == l.size() ? false : cx.flag("next is the mounting"); ol.push_back(second ? l[j++] : o[i++]); }
  interleave(cx, s, ol, cx.choose(3, "transforms to ignore"));
}
// a chain of three edges: the ends of the chain are known before they are connected
struct WithTorso { WithTorso() { Torso = true; } ~WithTorso() { Torso = false; } };
MC_SCENARIO(disconnected, 6) {
  WithTorso w; Unit = cx.pick(std::vector<double>{0.5, 40}, "seconds between messages"); int n = cx.thorough ? 4 : 3; std::vector<std::vector<Ev>> st; st.push_back(stream(cx, 0, 1, n, 1, "scan recorded")); std::vector<Ev> log;
  for (int kind : {1, 2, 5}) { int lo = cx.choose(2, "first"), hi = cx.choose(2, "last") ? n + 1 : n; st.push_back({{kind, lo}, {kind, hi}}); }
  std::vector<size_t> at(4); int total = 0; for (auto &x : st) total += x.size(); for (; total; --total) { std::vector<int> can; for (int i = 0; i < 4; ++i) if (at[i] < st[i].size()) can.push_back(i); int i = can[cx.choose(can.size(), "next")]; log.push_back(st[i][at[i]++]); }
  run(cx, log, false);
}
// messages of other topics make no difference
MC_SCENARIO(other_topics, 3) {
  Unit = cx.pick(std::vector<double>{0.5, 150}, "seconds between messages");
  auto s = stream(cx, 0, 1, 3, 1, "scan recorded"); std::vector<Ev> t = {{3, 1}, {4, 0}, {3, 2}, {4, 5}}; if (cx.flag("also at the end")) t.push_back({3, 3});
  interleave(cx, s, t, false);
}
// the configured list of transforms to ignore
struct Props : PropertiesProvider {
  std::string v; bool given;
  int get_int(const std::string &, int d) const override { return d; } unsigned get_uint(const std::string &, unsigned d) const override { return d; } double get_dbl(const std::string &, double d) const override { return d; } bool get_bool(const std::string &, bool d) const override { return d; }
  str get_str(const std::string &id, const str &d) const override { return given && id == "in/odometry/ros/tf/ignore" ? v : d; }
  void set_property(const std::string &, const str &) override {}
};
MC_SCENARIO(ignore_list, 2) {
  const std::vector<std::string> A = {"map-odom", "map-base_link", "world-map", "junk", "a_b-c/d"}; Props p; p.given = true; std::map<std::string, std::vector<std::string>> want;
  int n = cx.choose(cx.thorough ? 5 : 4, "n"); bool tail = n && cx.flag("separator at the end"); if (!n && cx.flag("not given")) p.given = false;
  for (int i = 0; i < n; ++i) { auto e = A[cx.choose(A.size(), "entry")]; p.v += (i ? ":" : "") + e; auto k = e.find('-'); if (k != std::string::npos) want["/" + e.substr(0, k)].push_back("/" + e.substr(k + 1)); }
  if (tail) p.v += ":";
  auto got = tf_ignored_transforms(p); cx.step(); std::map<std::string, std::vector<std::string>> g(got.begin(), got.end());
  for (auto &e : g) std::sort(e.second.begin(), e.second.end()); for (auto &e : want) std::sort(e.second.begin(), e.second.end());
  for (auto &m : {&g, &want}) for (auto &e : *m) e.second.erase(std::unique(e.second.begin(), e.second.end()), e.second.end());
  MC_CHECK(cx, g == want, "ignore-list", "the list '" << p.v << "' is read as " << g.size() << " parents instead of " << want.size() << ", or with other children");
  cx.state(mc::Hash().v); mc::Hash h; h << g.size(); cx.outcome(h.v);
}
// long logs: periodic streams of scans and transforms at different rates, with drop-outs and a late start or an early end of the transforms; transforms arrive late by a constant
MC_SCENARIO(long_logs, 3) {
  Unit = cx.pick(std::vector<double>{0.05, 6}, "seconds between messages");
  int n = cx.thorough ? 600 : 120, tr = cx.pick(std::vector<int>{1, 2, 5}, "transform every"), sr = cx.pick(std::vector<int>{1, 3, 7}, "scan every"), late = cx.pick(std::vector<int>{0, 1, 4, -1, -6}, "transforms late by"), start = cx.pick(std::vector<int>{0, 11}, "transforms start"), end = n - cx.pick(std::vector<int>{0, 9}, "transforms end early"), gap = cx.pick(std::vector<int>{0, 5}, "drop-out"); bool chain = cx.flag("separate mounting");
  struct X { int when; Ev e; }; std::vector<X> v; for (int t = 0; t < n; ++t) { if (t % sr == 0) v.push_back({t * 2, {0, t}}); bool lost = gap && t > n / 2 && t < n / 2 + gap; if (t >= start && t < end && (t - start) % tr == 0 && !lost) { if (chain) { v.push_back({(t + late) * 2 + 1, {1, t}}); if ((t - start) % (3 * tr) == 0) v.push_back({(t + late) * 2 + 1, {2, t}}); } else v.push_back({(t + late) * 2 + 1, {4, t}}); } if (t % 10 == 4) v.push_back({t * 2, {3, t}}); }
  std::stable_sort(v.begin(), v.end(), [](const X &a, const X &b) { return a.when < b.when; }); std::vector<Ev> log; for (auto &x : v) log.push_back(x.e); run(cx, log, cx.choose(3, "transforms to ignore"));
}
