// A stand-in for the parts of ROS 1 that slam-constructor's nodes talk to. Everything that enters or leaves a node
// (parameters, clock, messages, transforms, bags, shutdown) goes through renv::world(), which a harness scripts and reads.
// The semantics of tf are those of tf 1.11+ on top of tf2 (tree of frames, interpolation, exception texts).
#ifndef VERIF_ROS_ENV_H
#define VERIF_ROS_ENV_H
#include <algorithm>
#include <any>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <variant>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>

namespace renv {
inline void (*yield_hook)(const char *) = nullptr;
inline void point(const char *w) { if (yield_hook) yield_hook(w); }
struct Quiet { void (*h)(const char *) = yield_hook; Quiet() { yield_hook = nullptr; } ~Quiet() { yield_hook = h; } }; // no other thread runs
}

namespace ros {
class Duration {
public:
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t ns) : sec(s), nsec(ns) { norm(); }
  explicit Duration(double d) { fromSec(d); }
  Duration &fromSec(double d) { double f = std::floor(d); sec = (int32_t)f; nsec = (int32_t)std::llround((d - f) * 1e9); norm(); return *this; }
  Duration &fromNSec(int64_t t) { int64_t s = t / 1000000000, n = t % 1000000000; if (n < 0) { n += 1000000000; --s; } sec = s; nsec = n; return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  bool isZero() const { return !sec && !nsec; }
  bool sleep() const;
  Duration operator+(const Duration &o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration &o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double k) const { return Duration(toSec() * k); }
  Duration &operator+=(const Duration &o) { return *this = *this + o; }
  Duration &operator-=(const Duration &o) { return *this = *this - o; }
  bool operator==(const Duration &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration &o) const { return !(*this == o); }
  bool operator<(const Duration &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration &o) const { return o < *this; }
  bool operator<=(const Duration &o) const { return !(o < *this); }
  bool operator>=(const Duration &o) const { return !(*this < o); }
private:
  void norm() { while (nsec >= 1000000000) { nsec -= 1000000000; ++sec; } while (nsec < 0) { nsec += 1000000000; --sec; } }
};
class Time {
public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t ns) : sec(s), nsec(ns) {}
  explicit Time(double t) { fromSec(t); }
  Time &fromSec(double t) { double f = std::floor(t); sec = (uint32_t)f; nsec = (uint32_t)std::llround((t - f) * 1e9); if (nsec >= 1000000000u) { nsec -= 1000000000u; ++sec; } return *this; }
  Time &fromNSec(uint64_t t) { sec = t / 1000000000ull; nsec = t % 1000000000ull; return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return !sec && !nsec; }
  bool is_zero() const { return isZero(); }
  Duration operator-(const Time &o) const { return Duration().fromNSec((int64_t)toNSec() - (int64_t)o.toNSec()); }
  Time operator+(const Duration &d) const { return Time().fromNSec((int64_t)toNSec() + d.toNSec()); }
  Time operator-(const Duration &d) const { return Time().fromNSec((int64_t)toNSec() - d.toNSec()); }
  Time &operator+=(const Duration &d) { return *this = *this + d; }
  bool operator==(const Time &o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time &o) const { return !(*this == o); }
  bool operator<(const Time &o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time &o) const { return o < *this; }
  bool operator<=(const Time &o) const { return !(o < *this); }
  bool operator>=(const Time &o) const { return !(*this < o); }
  static Time now();
  static void init() {}
  static bool isSimTime() { return true; }
  static bool isValid() { return true; }
};
inline std::ostream &operator<<(std::ostream &os, const Time &t) { char b[40]; snprintf(b, sizeof b, "%u.%09u", t.sec, t.nsec); return os << b; }
typedef Time WallTime; typedef Duration WallDuration;
}

// ---------------------------------------------------------------- messages
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct PoseStamped { std_msgs::Header header; Pose pose; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}
#define RENV_PTRS(T) typedef boost::shared_ptr<T> T##Ptr; typedef boost::shared_ptr<T const> T##ConstPtr;
namespace sensor_msgs {
struct LaserScan {
  std_msgs::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0, range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
  typedef boost::shared_ptr<LaserScan> Ptr; typedef boost::shared_ptr<LaserScan const> ConstPtr;
};
RENV_PTRS(LaserScan)
}
namespace nav_msgs {
struct MapMetaData { ros::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0; geometry_msgs::Pose origin; };
struct OccupancyGrid { std_msgs::Header header; MapMetaData info; std::vector<int8_t> data; typedef boost::shared_ptr<OccupancyGrid> Ptr; };
struct Path { std_msgs::Header header; std::vector<geometry_msgs::PoseStamped> poses; };
RENV_PTRS(OccupancyGrid) RENV_PTRS(Path)
}
namespace tf { struct tfMessage { std::vector<geometry_msgs::TransformStamped> transforms; }; RENV_PTRS(tfMessage) }
namespace ros { namespace message_traits {
template <typename M> struct FrameId { static std::string value(const M &m) { return m.header.frame_id; } };
template <typename M> struct TimeStamp { static ros::Time value(const M &m) { return m.header.stamp; } };
} }

// ---------------------------------------------------------------- tf
namespace tf {
typedef double tfScalar;
class Vector3 {
public:
  double v[4] = {0, 0, 0, 0};
  Vector3() {}
  Vector3(const double &x, const double &y, const double &z) { v[0] = x; v[1] = y; v[2] = z; }
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  const double &getX() const { return v[0]; } const double &getY() const { return v[1]; } const double &getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  void setValue(double a, double b, double c) { v[0] = a; v[1] = b; v[2] = c; }
  Vector3 operator+(const Vector3 &o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-(const Vector3 &o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
  Vector3 operator*(double k) const { return {v[0] * k, v[1] * k, v[2] * k}; }
  double length() const { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
  Vector3 lerp(const Vector3 &o, double t) const { return *this + (o - *this) * t; }
};
class Quaternion {
public:
  double q[4] = {0, 0, 0, 1};
  Quaternion() {}
  Quaternion(double x, double y, double z, double w) { q[0] = x; q[1] = y; q[2] = z; q[3] = w; }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setRPY(double r, double p, double yaw) {
    double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cr = std::cos(r / 2), sr = std::sin(r / 2);
    q[0] = sr * cp * cy - cr * sp * sy; q[1] = cr * sp * cy + sr * cp * sy; q[2] = cr * cp * sy - sr * sp * cy; q[3] = cr * cp * cy + sr * sp * sy;
  }
  Quaternion operator*(const Quaternion &b) const {
    const double *a = q, *c = b.q;
    return {a[3] * c[0] + a[0] * c[3] + a[1] * c[2] - a[2] * c[1], a[3] * c[1] + a[1] * c[3] + a[2] * c[0] - a[0] * c[2],
            a[3] * c[2] + a[2] * c[3] + a[0] * c[1] - a[1] * c[0], a[3] * c[3] - a[0] * c[0] - a[1] * c[1] - a[2] * c[2]};
  }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  Vector3 rotate(const Vector3 &p) const { Quaternion r = *this * Quaternion(p.x(), p.y(), p.z(), 0) * inverse(); return {r.q[0], r.q[1], r.q[2]}; }
  Quaternion slerp(const Quaternion &o, double t) const {
    double d = q[0] * o.q[0] + q[1] * o.q[1] + q[2] * o.q[2] + q[3] * o.q[3], s = d < 0 ? -1 : 1; d = std::fabs(d);
    double th = std::acos(std::min(1.0, d)), a = 1 - t, b = t;
    if (th > 1e-9) { a = std::sin((1 - t) * th) / std::sin(th); b = std::sin(t * th) / std::sin(th); }
    return {a * q[0] + s * b * o.q[0], a * q[1] + s * b * o.q[1], a * q[2] + s * b * o.q[2], a * q[3] + s * b * o.q[3]};
  }
};
class Matrix3x3 {
  Quaternion _q;
public:
  Matrix3x3() {}
  explicit Matrix3x3(const Quaternion &q) : _q(q) {}
  void setRotation(const Quaternion &q) { _q = q; }
  void getRotation(Quaternion &q) const { q = _q; }
  void getRPY(double &r, double &p, double &y, unsigned = 1) const {
    double X = _q.x(), Y = _q.y(), Z = _q.z(), W = _q.w();
    r = std::atan2(2 * (W * X + Y * Z), 1 - 2 * (X * X + Y * Y)); p = std::asin(std::max(-1.0, std::min(1.0, 2 * (W * Y - Z * X)))); y = std::atan2(2 * (W * Z + X * Y), 1 - 2 * (Y * Y + Z * Z));
  }
};
inline Quaternion createQuaternionFromRPY(double r, double p, double y) { Quaternion q; q.setRPY(r, p, y); return q; }
inline Quaternion createQuaternionFromYaw(double y) { return createQuaternionFromRPY(0, 0, y); }
inline Quaternion createIdentityQuaternion() { return {}; }
inline double getYaw(const Quaternion &q) { double r, p, y; Matrix3x3(q).getRPY(r, p, y); return y; }
inline double getYaw(const geometry_msgs::Quaternion &q) { return getYaw(Quaternion(q.x, q.y, q.z, q.w)); }
// copying is not atomic: another thread may run between the two halves
class Transform {
  Quaternion _r; Vector3 _o;
public:
  Transform() {}
  explicit Transform(const Quaternion &q, const Vector3 &c = Vector3(0, 0, 0)) : _r(q), _o(c) {}
  explicit Transform(const Matrix3x3 &m, const Vector3 &c = Vector3(0, 0, 0)) : _o(c) { m.getRotation(_r); }
  Transform(const Transform &o) : _r(o._r) { renv::point("reading a transform"); _o = o._o; }
  Transform &operator=(const Transform &o) { _r = o._r; renv::point("writing a transform"); _o = o._o; return *this; }
  Transform operator*(const Transform &t) const { return Transform(_r * t._r, _r.rotate(t._o) + _o); }
  Transform &operator*=(const Transform &t) { return *this = *this * t; }
  Vector3 operator*(const Vector3 &p) const { return _r.rotate(p) + _o; }
  Vector3 operator()(const Vector3 &p) const { return *this * p; }
  Transform inverse() const { Quaternion i = _r.inverse(); return Transform(i, i.rotate(-_o)); }
  Transform inverseTimes(const Transform &t) const { return inverse() * t; }
  Vector3 &getOrigin() { return _o; } const Vector3 &getOrigin() const { return _o; }
  Quaternion getRotation() const { return _r; }
  Matrix3x3 getBasis() const { return Matrix3x3(_r); }
  void setOrigin(const Vector3 &o) { _o = o; } void setRotation(const Quaternion &q) { _r = q; } void setBasis(const Matrix3x3 &m) { m.getRotation(_r); }
  void setIdentity() { _r = Quaternion(); _o = Vector3(); }
  static const Transform &getIdentity() { static const Transform t; return t; }
};
typedef Transform Pose;
class StampedTransform : public Transform {
public:
  ros::Time stamp_; std::string frame_id_, child_frame_id_;
  StampedTransform() : frame_id_("NO_ID_STAMPED_DEFAULT_CONSTRUCTION"), child_frame_id_("NO_CHILD") {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform &t) { *static_cast<Transform *>(this) = t; }
};
class TransformException : public std::runtime_error { public: TransformException(const std::string &s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class InvalidArgument : public TransformException { public: using TransformException::TransformException; };
inline void transformStampedMsgToTF(const geometry_msgs::TransformStamped &m, StampedTransform &t) {
  t = StampedTransform(Transform(Quaternion(m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z, m.transform.rotation.w),
                                 Vector3(m.transform.translation.x, m.transform.translation.y, m.transform.translation.z)), m.header.stamp, m.header.frame_id, m.child_frame_id);
}
inline void transformStampedTFToMsg(const StampedTransform &t, geometry_msgs::TransformStamped &m) {
  m.header.stamp = t.stamp_; m.header.frame_id = t.frame_id_; m.child_frame_id = t.child_frame_id_;
  m.transform.translation = {t.getOrigin().x(), t.getOrigin().y(), t.getOrigin().z()};
  m.transform.rotation = {t.getRotation().x(), t.getRotation().y(), t.getRotation().z(), t.getRotation().w()};
}
inline std::string strip_leading_slash(const std::string &f) { return !f.empty() && f[0] == '/' ? f.substr(1) : f; }
class Transformer {
  struct Frame { std::string parent; std::map<uint64_t, std::pair<std::string, Transform>> at; };
  std::map<std::string, Frame> _f; bool _interp; ros::Duration _len;
public:
  Transformer(bool interpolating = true, ros::Duration cache_time = ros::Duration(10.0)) : _interp(interpolating), _len(cache_time) {}
  virtual ~Transformer() {}
  void clear() { _f.clear(); }
  bool setTransform(const StampedTransform &t, const std::string & = "default_authority") {
    std::string c = strip_leading_slash(t.child_frame_id_), p = strip_leading_slash(t.frame_id_);
    if (c == p || c.empty() || p.empty()) return false;
    _f[p]; Frame &f = _f[c];
    uint64_t ns = t.stamp_.toNSec();
    if (!f.at.empty() && f.at.rbegin()->first > ns + (uint64_t)_len.toNSec()) return false; // too old
    f.at[ns] = {p, Transform(t)};
    while (f.at.begin()->first + (uint64_t)_len.toNSec() < f.at.rbegin()->first) f.at.erase(f.at.begin());
    return true;
  }
  bool frameExists(const std::string &n) const { return _f.count(strip_leading_slash(n)); }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &when, StampedTransform &out) const {
    std::string T = strip_leading_slash(target), S = strip_leading_slash(source); ros::Time time = when;
    if (T == S) { if (time.isZero() && _f.count(T)) { auto &a = _f.at(T).at; if (!a.empty()) time.fromNSec(a.rbegin()->first); } out = StampedTransform(Transform(Quaternion(), Vector3()), time, target, source); return; }
    if (!_f.count(T)) throw LookupException("\"" + T + "\" passed to lookupTransform argument target_frame does not exist. ");
    if (!_f.count(S)) throw LookupException("\"" + S + "\" passed to lookupTransform argument source_frame does not exist. ");
    if (time.isZero()) { uint64_t c = common(T, S); if (c) time.fromNSec(c); }
    std::vector<std::string> pt, ps; std::vector<Transform> tt, ts; std::string et, es;
    climb(S, time, ps, ts, es, T, S); climb(T, time, pt, tt, et, T, S);
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < pt.size(); ++j) if (ps[i] == pt[j]) {
      Transform a, b;
      for (size_t k = i; k-- > 0;) a = a * ts[k];
      for (size_t k = j; k-- > 0;) b = b * tt[k];
      out = StampedTransform(b.inverse() * a, time, target, source); return;
    }
    if (!es.empty()) throw ExtrapolationException(es);
    if (!et.empty()) throw ExtrapolationException(et);
    throw ConnectivityException("Could not find a connection between '" + T + "' and '" + S + "' because they are not part of the same tree.Tf has two or more unconnected trees.");
  }
  bool canTransform(const std::string &target, const std::string &source, const ros::Time &t, std::string *err = nullptr) const {
    StampedTransform o; try { lookupTransform(target, source, t, o); return true; } catch (const TransformException &e) { if (err) *err = e.what(); return false; }
  }
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &, const ros::Duration & = ros::Duration(0.01), std::string *err = nullptr) const { return canTransform(target, source, t, err); }
private:
  uint64_t common(const std::string &a, const std::string &b) const {
    uint64_t r = ~0ull; for (auto s : {a, b}) for (int n = 0; n < 50; ++n) { auto &f = _f.at(s); if (f.at.empty()) break; r = std::min(r, f.at.rbegin()->first); s = f.at.rbegin()->second.first; }
    return r == ~0ull ? 0 : r;
  }
  // the chain of parents at a time; stops at the first frame without data for it
  void climb(std::string f, ros::Time t, std::vector<std::string> &p, std::vector<Transform> &tr, std::string &err, const std::string &T, const std::string &S) const {
    p.push_back(f); uint64_t ns = t.toNSec(); std::string tail = ", when looking up transform from frame [" + S + "] to frame [" + T + "]";
    for (int n = 0; n < 50; ++n) {
      auto &a = _f.at(f).at; if (a.empty()) return; // a root
      std::ostringstream os; os.precision(20);
      auto hi = a.lower_bound(ns);
      if (hi != a.end() && hi->first == ns) { tr.push_back(hi->second.second); f = hi->second.first; p.push_back(f); continue; }
      if (a.size() == 1) { os << "Lookup would require extrapolation at time " << t.toSec() << ", but only time " << a.begin()->first * 1e-9 << " is in the buffer" << tail; err = os.str(); return; }
      if (hi == a.end()) { os << "Lookup would require extrapolation into the future.  Requested time " << t.toSec() << " but the latest data is at time " << a.rbegin()->first * 1e-9 << tail; err = os.str(); return; }
      if (hi == a.begin()) { os << "Lookup would require extrapolation into the past.  Requested time " << t.toSec() << " but the earliest data is at time " << a.begin()->first * 1e-9 << tail; err = os.str(); return; }
      auto lo = std::prev(hi);
      if (lo->second.first != hi->second.first) { tr.push_back(lo->second.second); f = lo->second.first; p.push_back(f); continue; }
      double k = double(ns - lo->first) / double(hi->first - lo->first);
      auto &A = lo->second.second, &B = hi->second.second;
      tr.push_back(Transform(A.getRotation().slerp(B.getRotation(), k), A.getOrigin().lerp(B.getOrigin(), k))); f = lo->second.first; p.push_back(f);
    }
  }
};
}

// ---------------------------------------------------------------- the outside world of the nodes
namespace renv {
typedef std::variant<std::string, int, double, bool> Param;
struct Sent { ros::Time when; tf::StampedTransform t; };
struct BagMsg { std::string topic; std::any msg; };
struct World {
  ros::Time now; bool ok = true;
  std::map<std::string, Param> params;
  std::vector<Sent> sent;                                            // transforms broadcast
  std::map<std::string, std::vector<std::any>> published;            // topic -> messages
  std::map<std::string, std::vector<std::function<void(std::any)>>> subscribers;
  tf::Transformer tf{true, ros::Duration(1000.0)};                   // what listeners know
  std::function<void()> spin;                                        // what happens while a node spins
  std::function<void()> on_sleep;
  std::map<std::string, std::vector<BagMsg>> bags;
  int bags_open = 0, errors = 0, spun = 0;
  double tf_buffer = -1; long filter_queue = -1, subscriber_queue = -1;   // what nodes ask for
  std::string node_name;
};
inline World &world() { static World w; return w; }
inline void reset() { world() = World(); yield_hook = nullptr; }
}
namespace ros {
inline Time Time::now() { return renv::world().now; }
inline bool Duration::sleep() const { renv::point("sleeping"); if (renv::world().on_sleep) renv::world().on_sleep(); return true; }
inline bool ok() { renv::point("asking whether ROS is up"); return renv::world().ok; }
inline void shutdown() { renv::world().ok = false; }
inline void requestShutdown() { renv::world().ok = false; }
inline void init(int, char **, const std::string &name, uint32_t = 0) { renv::world().node_name = name; }
inline void spin() { renv::world().spun++; if (renv::world().spin) renv::world().spin(); }
inline void spinOnce() { spin(); }
class Rate { double _hz; public: Rate(double hz) : _hz(hz) {} explicit Rate(const Duration &d) : _hz(1 / d.toSec()) {} bool sleep() { renv::point("sleeping"); if (renv::world().on_sleep) renv::world().on_sleep(); return true; } Duration expectedCycleTime() const { return Duration(1 / _hz); } };
typedef Rate WallRate;
class Publisher {
  std::string _t;
public:
  Publisher() {} explicit Publisher(const std::string &t) : _t(t) {}
  template <typename M> void publish(const M &m) const { renv::world().published[_t].push_back(m); }
  template <typename M> void publish(const boost::shared_ptr<M> &m) const { renv::world().published[_t].push_back(typename std::remove_const<M>::type(*m)); }
  std::string getTopic() const { return _t; }
  uint32_t getNumSubscribers() const { return 1; }
};
class Subscriber { public: void shutdown() {} };
inline std::string resolve(const std::string &t) { return t; }
class NodeHandle {
public:
  NodeHandle(const std::string & = "") {}
  bool ok() const { return ros::ok(); }
  template <typename M> Publisher advertise(const std::string &topic, uint32_t, bool = false) { renv::world().published[topic]; return Publisher(topic); }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t, void (*cb)(boost::shared_ptr<M>)) {
    renv::world().subscribers[topic].push_back([cb](std::any m) { cb(std::any_cast<boost::shared_ptr<M>>(m)); }); return {};
  }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t, void (*cb)(const boost::shared_ptr<M> &)) {
    renv::world().subscribers[topic].push_back([cb](std::any m) { cb(std::any_cast<boost::shared_ptr<M>>(m)); }); return {};
  }
  template <typename M> Subscriber subscribe(const std::string &topic, uint32_t, void (*cb)(const boost::shared_ptr<M const> &)) {
    renv::world().subscribers[topic].push_back([cb](std::any m) { cb(std::any_cast<boost::shared_ptr<M>>(m)); }); return {};
  }
  template <typename T> bool param(const std::string &n, T &v, const T &d) const;
};
namespace param {
template <typename T> bool conv(const renv::Param &p, T &v) { if (auto x = std::get_if<T>(&p)) { v = *x; return true; } return false; }
template <> inline bool conv<double>(const renv::Param &p, double &v) { if (auto x = std::get_if<double>(&p)) { v = *x; return true; } if (auto x = std::get_if<int>(&p)) { v = *x; return true; } return false; }
template <typename T> bool get(const std::string &n, T &v) { auto &m = renv::world().params; auto i = m.find(n); return i != m.end() && conv<T>(i->second, v); }
template <typename T> bool param(const std::string &n, T &v, const T &d) { if (get(n, v)) return true; v = d; return false; }
template <typename T> T param(const std::string &n, const T &d) { T v; param(n, v, d); return v; }
inline void set(const std::string &n, const std::string &v) { renv::world().params[n] = v; }
inline void set(const std::string &n, const char *v) { renv::world().params[n] = std::string(v); }
inline void set(const std::string &n, int v) { renv::world().params[n] = v; }
inline void set(const std::string &n, double v) { renv::world().params[n] = v; }
inline void set(const std::string &n, bool v) { renv::world().params[n] = v; }
inline bool has(const std::string &n) { return renv::world().params.count(n); }
}
template <typename T> bool NodeHandle::param(const std::string &n, T &v, const T &d) const { return param::param(n, v, d); }
}
#define ROS_ERROR(...) (renv::world().errors++)
#define ROS_WARN(...) ((void)0)
#define ROS_INFO(...) ((void)0)
#define ROS_DEBUG(...) ((void)0)
#define ROS_ERROR_STREAM(x) (renv::world().errors++)
#define ROS_WARN_STREAM(x) ((void)0)
#define ROS_INFO_STREAM(x) ((void)0)

namespace tf {
class TransformBroadcaster {
public:
  void sendTransform(const StampedTransform &t) { renv::point("sending a transform"); { renv::Quiet q; renv::Sent s; s.when = ros::Time::now(); s.t = t; renv::world().sent.push_back(s); } renv::point("sent a transform"); }
  void sendTransform(const geometry_msgs::TransformStamped &m) { StampedTransform t; transformStampedMsgToTF(m, t); sendTransform(t); }
  void sendTransform(const std::vector<geometry_msgs::TransformStamped> &v) { for (auto &t : v) sendTransform(t); }
  void sendTransform(const std::vector<StampedTransform> &v) { for (auto &t : v) sendTransform(t); }
};
// listens to what the world's transform tree knows at the moment
class TransformListener : public Transformer {
public:
  explicit TransformListener(ros::Duration d = ros::Duration(10.0), bool = true) { renv::world().tf_buffer = d.toSec(); }
  void lookupTransform(const std::string &a, const std::string &b, const ros::Time &t, StampedTransform &o) const { renv::world().tf.lookupTransform(a, b, t, o); }
  bool canTransform(const std::string &a, const std::string &b, const ros::Time &t, std::string *e = nullptr) const { return renv::world().tf.canTransform(a, b, t, e); }
  bool waitForTransform(const std::string &a, const std::string &b, const ros::Time &t, const ros::Duration &, const ros::Duration & = ros::Duration(0.01), std::string *e = nullptr) const { return renv::world().tf.canTransform(a, b, t, e); }
};
// hands messages over as soon as their transform is known, as the harness calls renv::deliver / renv::tf_changed
template <typename M> class MessageFilter {
  std::list<boost::shared_ptr<M>> _q; std::string _target; std::vector<std::function<void(boost::shared_ptr<M>)>> _cb; size_t _size;
public:
  template <typename F> MessageFilter(F &f, Transformer &, const std::string &target, uint32_t queue) : _target(target), _size(queue) {
    renv::world().filter_queue = queue;
    renv::world().subscribers[f.topic()].push_back([this](std::any m) { if (m.has_value()) { _q.push_back(std::any_cast<boost::shared_ptr<M>>(m)); if (_size && _q.size() > _size) _q.pop_front(); } pump(); });
    renv::world().subscribers["/tf"].push_back([this](std::any) { pump(); });
  }
  template <typename P> void registerCallback(void (P::*f)(const boost::shared_ptr<M>), P *o) { _cb.push_back([f, o](boost::shared_ptr<M> m) { (o->*f)(m); }); }
  template <typename F> void registerCallback(F f) { _cb.push_back(f); }
private:
  void pump() {
    for (auto i = _q.begin(); i != _q.end();) {
      if (renv::world().tf.canTransform(_target, ros::message_traits::FrameId<M>::value(**i), ros::message_traits::TimeStamp<M>::value(**i))) { auto m = *i; i = _q.erase(i); for (auto &c : _cb) c(m); }
      else ++i;
    }
  }
};
}
namespace message_filters {
template <typename M> class Subscriber { std::string _t; public: Subscriber(ros::NodeHandle &, const std::string &t, uint32_t queue) : _t(t) { renv::world().subscriber_queue = queue; } std::string topic() const { return _t; } };
}
namespace renv {
template <typename M> void deliver(const std::string &topic, boost::shared_ptr<M> m) { auto s = world().subscribers[topic]; for (auto &f : s) f(m); }
inline void tf_arrives(const tf::StampedTransform &t) { world().tf.setTransform(t); auto s = world().subscribers["/tf"]; for (auto &f : s) f(std::any()); }
}
namespace rosbag {
class MessageInstance {
  const renv::BagMsg *_m;
public:
  MessageInstance(const renv::BagMsg *m) : _m(m) {}
  const std::string &getTopic() const { return _m->topic; }
  ros::Time getTime() const { return {}; }
  template <typename M> boost::shared_ptr<M> instantiate() const { auto p = std::any_cast<M>(&_m->msg); return p ? boost::make_shared<M>(*p) : boost::shared_ptr<M>(); }
};
namespace bagmode { enum BagMode { Read = 1 }; }
struct BagException : std::runtime_error { using std::runtime_error::runtime_error; };
class Bag {
  bool _open = false;
public:
  std::string name;
  Bag() {}
  explicit Bag(const std::string &f, uint32_t = 1) { open(f); }
  ~Bag() { close(); }
  void open(const std::string &f, uint32_t = 1) { if (!renv::world().bags.count(f)) throw BagException("Error opening file: " + f); name = f; _open = true; renv::world().bags_open++; }
  void close() { if (_open) { _open = false; renv::world().bags_open--; } }
};
struct TopicQuery { std::vector<std::string> t; TopicQuery(const std::vector<std::string> &v) : t(v) {} TopicQuery(const std::string &s) : t{s} {} };
class View {
  std::vector<const renv::BagMsg *> _m;
public:
  class iterator {
    const std::vector<const renv::BagMsg *> *_v; size_t _i;
  public:
    typedef MessageInstance value_type; typedef std::ptrdiff_t difference_type; typedef MessageInstance *pointer; typedef MessageInstance reference; typedef std::forward_iterator_tag iterator_category;
    iterator(const std::vector<const renv::BagMsg *> *v = nullptr, size_t i = 0) : _v(v), _i(i) {}
    MessageInstance operator*() const { return MessageInstance(_v->at(_i)); }
    iterator &operator++() { ++_i; return *this; }
    iterator operator++(int) { iterator c = *this; ++_i; return c; }
    bool operator==(const iterator &o) const { return _i == o._i; } bool operator!=(const iterator &o) const { return _i != o._i; }
  };
  typedef iterator const_iterator;
  View(const Bag &b, const TopicQuery &q) { for (auto &m : renv::world().bags[b.name]) if (std::find(q.t.begin(), q.t.end(), m.topic) != q.t.end()) _m.push_back(&m); }
  iterator begin() const { return iterator(&_m, 0); } iterator end() const { return iterator(&_m, _m.size()); }
  size_t size() const { return _m.size(); }
};
}
#endif
