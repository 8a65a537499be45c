// C18: scan points and poses keep their geometry through all conversions
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include <sstream>
#include "common.h"
#include "core/states/sensor_data.h"
#include "core/states/robot_pose.h"
static bool nr(double a, double b) { return mc::near(a, b, 1e-9); }
static bool same_dir(double a, double b) { return std::fabs(std::remainder(a - b, 2 * M_PI)) < 1e-9; }
static const std::vector<double> Ranges = {0.35, 1, 2.5, 40}, Angles = {0, 0.4, 1.5707963267948966, 2.2, 3.1, -0.7, -1.5707963267948966, -2.9, 3.141592653589793};
static const std::vector<double> Rots = {0, 0.3, -1.2, 1.5707963267948966, 3.0, -3.1, 7.5}, Offs = {0, 1.25, -3.5, 100};
struct Pt { double r, a; bool occ; double f; };
static bool payload(const ScanPoint2D &p, const Pt &q) { return p.is_occupied() == q.occ && p.factor() == q.f; }
#define SHOW(p, q) "(" << p.range() << "," << p.angle() << " / " << p.x() << "," << p.y() << " occ " << p.is_occupied() << " factor " << p.factor() << ") from (" << q.r << "," << q.a << " occ " << q.occ << " factor " << q.f << ")"
static void geometry(mc::Ctx &cx, const char *key, const ScanPoint2D &p, double x, double y, const Pt &q) {
  cx.step(); MC_LOG(cx, " " << key);
  MC_CHECK(cx, nr(p.x(), x) && nr(p.y(), y) && nr(p.range(), std::hypot(x, y)) && (std::hypot(x, y) < 1e-7 || same_dir(p.angle(), std::atan2(y, x))), key, "expected (" << x << "," << y << "): " << SHOW(p, q));
  MC_CHECK(cx, payload(p, q), "payload", key << ": " << SHOW(p, q)); cx.outcome(mc::Hash() << x << y << q.occ << q.f);
}
MC_SCENARIO(points, 4) {
  Pt q{cx.pick(Ranges, "range"), cx.pick(Angles, "angle"), cx.flag("occupied"), cx.flag("factor") ? 3.0 : 1.0}; double x = q.r * std::cos(q.a), y = q.r * std::sin(q.a); bool cart = cx.flag("cartesian");
  ScanPoint2D p = cart ? ScanPoint2D::make_cartesian({x, y}, q.occ) : ScanPoint2D::make_polar(q.r, q.a, q.occ); MC_CHECK(cx, p.factor() == 1, "factor", "a new point's factor is " << p.factor()); p.set_factor(q.f);
  geometry(cx, "construction", p, x, y, q); auto copy = p; geometry(cx, "copy", copy, x, y, q);
  double rot = cx.pick(Rots, "rotation"), dx = cx.pick(Offs, "dx"), dy = cx.pick(Offs, "dy"), c = q.r * std::cos(q.a + rot), s = q.r * std::sin(q.a + rot);
  geometry(cx, "to-cartesian", p.to_cartesian(), x, y, q); geometry(cx, "to-polar", p.to_polar(), x, y, q);
  geometry(cx, "round-trip", p.to_cartesian().to_polar().to_cartesian(), x, y, q); geometry(cx, "round-trip", p.to_polar().to_cartesian().to_polar(), x, y, q);
  geometry(cx, "rotate", p.to_cartesian(rot), c, s, q); geometry(cx, "rotate-back", p.to_cartesian(rot).to_cartesian(-rot), x, y, q);
  { double k = (q.r + 0.6) / q.r; geometry(cx, "extend", p.to_cartesian(rot, 0.6), c * k, s * k, q); }
  geometry(cx, "shift", p.to_polar(dx, dy), x + dx, y + dy, q); geometry(cx, "shift-back", p.to_polar(dx, dy).to_polar(-dx, -dy), x, y, q);
  auto tp = std::make_shared<RawTrigonometryProvider>(); tp->set_base_angle(rot); geometry(cx, "to-cartesian-trig", p.to_cartesian(tp), c, s, q);
  auto w1 = p.move_origin(dx, dy, tp), w2 = p.move_origin(Point2D{dx, dy}, tp), w3 = p.move_origin(dx, dy, rot), w4 = p.to_cartesian(rot).move_origin(dx, dy), w5 = p.move_origin(dx, dy);
  for (auto &w : {w1, w2, w3, w4}) MC_CHECK(cx, nr(w.x, c + dx) && nr(w.y, s + dy), "move-origin", "the world point of " << SHOW(p, q) << " at (" << dx << "," << dy << "," << rot << ") is " << w << ", expected (" << c + dx << "," << s + dy << ")");
  MC_CHECK(cx, nr(w5.x, x + dx) && nr(w5.y, y + dy), "move-origin", "without a rotation the world point is " << w5);
  // back from the world: the scan point seen from the pose
  auto back = ScanPoint2D::make_cartesian({w1.x - dx, w1.y - dy}, q.occ).to_cartesian(-rot); MC_CHECK(cx, nr(back.x(), x) && nr(back.y(), y), "world-and-back", SHOW(back, q));
}
// whole scans, twice with different angles: the trigonometry provider is shared and must not leave a rotation behind
MC_SCENARIO(scans, 4) {
  LaserScan2D scan; std::vector<Pt> pts; int n = cx.choose(cx.thorough ? 4 : 3, "points");
  for (int i = 0; i < n; ++i) { Pt q{Ranges[cx.choose(3, "range")], Angles[cx.choose(cx.thorough ? 9 : 6, "angle")], cx.flag("occupied"), i ? 2.0 : 1.0}; pts.push_back(q); auto p = (i + n) % 2 ? ScanPoint2D::make_cartesian({q.r * std::cos(q.a), q.r * std::sin(q.a)}, q.occ) : ScanPoint2D::make_polar(q.r, q.a, q.occ); scan.points().push_back(p.set_factor(q.f)); }
  for (int k = 0; k < 2; ++k) {
    double a = Rots[cx.choose(cx.thorough ? 7 : 4, "rotation")]; auto c = scan.to_cartesian(a);
    MC_CHECK(cx, (int)c.points().size() == n && (int)scan.points().size() == n, "scan-size", "a scan of " << n << " points became " << c.points().size());
    for (int i = 0; i < n; ++i) { geometry(cx, "scan-point", c.points()[i], pts[i].r * std::cos(pts[i].a + a), pts[i].r * std::sin(pts[i].a + a), pts[i]); geometry(cx, "scan-original", scan.points()[i], pts[i].r * std::cos(pts[i].a), pts[i].r * std::sin(pts[i].a), pts[i]); }
    cx.state(mc::Hash() << a << n << k);
  }
}
// text: a scan (or several, one behind another) reads back as written, into a fresh or a used object
MC_SCENARIO(text, 4) {
  int scans = 1 + cx.choose(2, "scans"), prec = cx.choose(2, "precision"); std::vector<LaserScan2D> in(scans); std::stringstream st; if (prec) st.precision(17); double tol = prec ? 1e-12 : 2e-5;
  for (auto &s : in) { int n = cx.choose(3, "points"); for (int i = 0; i < n; ++i) { double r = Ranges[cx.choose(4, "range")], a = Angles[cx.choose(5, "angle")]; bool o = cx.flag("occupied"); s.points().push_back(i ? ScanPoint2D::make_cartesian({r * std::cos(a), r * std::sin(a)}, o) : ScanPoint2D::make_polar(r, a, o)); } st << s; }
  LaserScan2D used; for (int i = 0; i < 5; ++i) used.points().push_back(ScanPoint2D::make_polar(9, 9, false));
  for (auto &s : in) { LaserScan2D fresh; LaserScan2D &o = cx.flag("used") ? used : fresh; st >> o; cx.step();
    MC_CHECK(cx, bool(st) && o.points().size() == s.points().size(), "text-size", s.points().size() << " points were written, " << o.points().size() << " read");
    for (size_t i = 0; i < s.points().size(); ++i) { auto &a = s.points()[i], &b = o.points()[i]; MC_CHECK(cx, mc::near(a.range(), b.range(), tol) && mc::near(a.angle(), b.angle(), tol) && mc::near(a.x(), b.x(), 100 * tol) && mc::near(a.y(), b.y(), 100 * tol) && a.is_occupied() == b.is_occupied(), "text", "point (" << a.range() << "," << a.angle() << "," << a.is_occupied() << ") was read as (" << b.range() << "," << b.angle() << "," << b.is_occupied() << ")"); cx.outcome(mc::Hash() << a.range() << a.angle()); } cx.nontrivial(); }
}
// poses and pose changes
static std::string s3(double x, double y, double t) { std::ostringstream o; o << "(" << x << "," << y << "," << t << ")"; return o.str(); }
template <typename P> static void is(mc::Ctx &cx, const char *key, const P &p, double x, double y, double t) { cx.step(); MC_CHECK(cx, nr(p.x, x) && nr(p.y, y) && nr(p.theta, t), key, s3(p.x, p.y, p.theta) << ", expected " << s3(x, y, t)); cx.outcome(mc::Hash() << x << y << t); }
MC_SCENARIO(poses, 4) {
  std::vector<std::array<double, 3>> L = {{0, 0, 0}, {1, -2, 0.5}, {-0.25, 0.125, -3}, {100, 50, 6.5}, {0, 0, 1}, {0, -3, 0}, {1e-3, 0, 0}, {-1, 2, -0.5}};
  auto p = cx.pick(L, "pose"), a = cx.pick(L, "delta"), b = cx.pick(L, "second delta"), c = cx.pick(L, "third delta");
  RobotPose P{p[0], p[1], p[2]}; RobotPoseDelta A{a[0], a[1], a[2]}, B{b[0], b[1], b[2]}, C{c[0], c[1], c[2]};
  double sx = p[0] + a[0], sy = p[1] + a[1], st = p[2] + a[2];
  is(cx, "plus", P + A, sx, sy, st); is(cx, "minus", (P + A) - P, a[0], a[1], a[2]); is(cx, "plus-minus", P + (RobotPose{B} - P), b[0], b[1], b[2]); is(cx, "back", (P + A) + (-A), p[0], p[1], p[2]);
  RobotPose Q = P; Q += A; is(cx, "accumulate", Q, sx, sy, st); is(cx, "untouched", P, p[0], p[1], p[2]); Q += B; Q += C;
  is(cx, "sum", Q, sx + b[0] + c[0], sy + b[1] + c[1], st + b[2] + c[2]); is(cx, "associative", P + (A + B + C), Q.x, Q.y, Q.theta); RobotPoseDelta D = A; D += B; D += C; is(cx, "delta-accumulate", P + D, Q.x, Q.y, Q.theta); is(cx, "delta-untouched", A, a[0], a[1], a[2]);
  is(cx, "negate", -A, -a[0], -a[1], -a[2]); is(cx, "abs", A.abs(), std::fabs(a[0]), std::fabs(a[1]), std::fabs(a[2])); MC_CHECK(cx, nr(A.sq_dist(), a[0] * a[0] + a[1] * a[1]), "distance", "squared length of " << A << " is " << A.sq_dist());
  MC_CHECK(cx, bool(A) == (a[0] != 0 || a[1] != 0 || a[2] != 0), "non-zero", A << " is reported as " << bool(A)); MC_CHECK(cx, (A == B) == (a == b), "equality", A << " == " << B << " is " << (A == B));
  MC_CHECK(cx, A.is_abs_less(B) == (std::fabs(a[0]) < std::fabs(b[0]) && std::fabs(a[1]) < std::fabs(b[1]) && std::fabs(a[2]) < std::fabs(b[2])), "abs-less", A << " less than " << B << ": " << A.is_abs_less(B));
  is(cx, "copy", RobotPose{P}, p[0], p[1], p[2]); RobotPose R; is(cx, "default", R, 0, 0, 0); R = P; is(cx, "assign", R, p[0], p[1], p[2]); R = std::move(Q); is(cx, "point", RobotPoseDelta{P.point(), p[2]}, p[0], p[1], p[2]); D.reset(); is(cx, "reset", D, 0, 0, 0);
}
// scans of hundreds of points with every range and angle a sensor may give, turned again and again
MC_SCENARIO(large_scans, 2) {
  int n = cx.pick(std::vector<int>{50, 361, 1081}, "points"); double span = cx.pick(std::vector<double>{1, 3.14, 6.3, 20}, "span"), far = cx.pick(std::vector<double>{0.02, 3, 80, 5000}, "range"), a = cx.pick(std::vector<double>{0, 0.3, -2.9, 6.2, -40.7}, "rotation"); LaserScan2D scan; std::vector<Pt> pts; if (cx.flag("cached")) { auto c = std::make_shared<RawTrigonometryProvider>(); scan.trig_provider = c; }
  for (int i = 0; i < n; ++i) { Pt q{far * (0.01 + (i * 37 % 101) / 100.0), -span / 2 + span * i / n, i % 3 != 1, 1.0 + i % 4}; pts.push_back(q); auto p = i % 5 == 2 ? ScanPoint2D::make_cartesian({q.r * std::cos(q.a), q.r * std::sin(q.a)}, q.occ) : ScanPoint2D::make_polar(q.r, q.a, q.occ); scan.points().push_back(p.set_factor(q.f)); }
  for (double b : {a, -a, a / 3}) { auto c = scan.to_cartesian(b); MC_CHECK(cx, (int)c.points().size() == n, "scan-size", "a scan of " << n << " points became " << c.points().size()); for (int i = 0; i < n; ++i) { geometry(cx, "scan-point", c.points()[i], pts[i].r * std::cos(pts[i].a + b), pts[i].r * std::sin(pts[i].a + b), pts[i]); geometry(cx, "scan-original", scan.points()[i], pts[i].r * std::cos(pts[i].a), pts[i].r * std::sin(pts[i].a), pts[i]); } auto w = c.points()[n / 2].move_origin(1e3, -2e3); auto d = scan.points()[n / 2].move_origin(1e3, -2e3, b); MC_CHECK(cx, nr(w.x, d.x) && nr(w.y, d.y), "move-origin", w << " and " << d); }
  std::stringstream st; st.precision(17); st << scan; LaserScan2D r; st >> r; MC_CHECK(cx, r.points().size() == scan.points().size(), "text-size", n << " points were written, " << r.points().size() << " read"); for (int i = 0; i < n; ++i) MC_CHECK(cx, nr(r.points()[i].x(), scan.points()[i].x()) && nr(r.points()[i].y(), scan.points()[i].y()) && r.points()[i].is_occupied() == scan.points()[i].is_occupied(), "text", "point " << i << " of " << n << " was read as " << r.points()[i].x() << "," << r.points()[i].y());
  cx.state(mc::Hash() << n << span << far << a);
}
