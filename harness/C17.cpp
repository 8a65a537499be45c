// C17: cached trigonometry equals direct trigonometry over the scan's angles
// FLAGS: -D_GLIBCXX_ASSERTIONS
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/trigonometry_utils.h"
#include "core/states/sensor_data.h"
struct R { double min, max, inc; int n; }; // n beams: min, min + inc, ...; the range ends an increment behind the last one
static R deg(double a, double b, double s) { int n = int(std::round((b - a) / s)) + 1; return {a * M_PI / 180, b * M_PI / 180 + s * M_PI / 180, s * M_PI / 180, n}; }
static R flt(float a, float s, int n) { float b = a + (n - 1) * s; return {a, float(b + s), s, n}; } // as a laser message gives it: single precision
static std::vector<R> ranges(bool th) {
  std::vector<R> r = {deg(-135, 135, 0.25), deg(-90, 90, 1), deg(-120, 120, 7.5), deg(0, 359, 1), deg(-180, 180, 0.5), deg(-90, 90, 3), deg(30, 60, 5), deg(30, 65, 5), deg(-90, 91, 1), {-0.5, 0.5 + 0.3, 0.3, 4}, {0, 1, 1, 1}, flt(-2.35619449f, 0.00436332309f, 1081), flt(-1.57079637f, 0.0174532924f, 181), {-0.5, 1.6, 0.3, 7}, {-1, 0.8, 0.3, 6}, {0, 1, 0.25, 4}};
  if (th) for (R q : std::vector<R>{deg(-179, 180, 0.1), flt(-3.12413907f, 0.0087266462f, 720), flt(-2.08621382f, 0.00613592332f, 683), {0, 0.75, 0.25, 3}, {0.25, 1, 0.25, 3}, deg(-45, -10, 0.7)}) r.push_back(q);
  return r;
}
static const std::vector<double> Bases = {0, 0.3, -2.6, M_PI, 7.9, -31.4, 1e3};
static void beams(mc::Ctx &cx, const CachedTrigonometryProvider &p, const R &r, double base, const char *when) {
  double acc = r.min; for (int i = 0; i < r.n; ++i, acc += r.inc) for (double a : {acc, r.min + i * r.inc}) {
    double s = p.sin(a), c = p.cos(a); cx.step();
    MC_CHECK(cx, std::fabs(s - std::sin(base + a)) < 1e-8 && std::fabs(c - std::cos(base + a)) < 1e-8, "value", when << ": beam " << i << " of [" << r.min << "," << r.max << ") step " << r.inc << ", base " << base << ": (sin,cos)=(" << s << "," << c << "), expected (" << std::sin(base + a) << "," << std::cos(base + a) << ")");
  }
  cx.outcome(mc::Hash() << r.min << r.max << r.inc << base);
}
MC_SCENARIO(histories, 3) {
  CachedTrigonometryProvider p; double base = 0; auto rs = ranges(cx.thorough); int steps = 3;
  for (int k = 0; k < steps; ++k) {
    bool first = cx.flag("turn first"); double nb = Bases[cx.choose(k ? 2 : cx.thorough ? (int)Bases.size() : 4, "base")]; const R *r;
    if (first) { p.set_base_angle(nb); base = nb; }
    r = &rs[cx.choose(k > 1 ? (cx.thorough ? 8 : 3) : (int)rs.size(), "range")]; p.update(r->min, r->max, r->inc); MC_LOG(cx, " update");
    if (k < 2 && cx.flag("read before turning")) beams(cx, p, *r, base, "after an update");
    if (!first) { p.set_base_angle(nb); base = nb; }
    beams(cx, p, *r, base, "after a turn"); cx.state(mc::Hash() << k << base << r->min << r->inc);
  }
}
// ranges that share their start and step and differ in their end by a few increments, in any order
MC_SCENARIO(growing_ranges, 2) {
  CachedTrigonometryProvider p; std::vector<R> f; double st = std::vector<double>{0.25, 0.3, 5 * M_PI / 180}[cx.choose(3, "step")], mn = std::vector<double>{0, -0.5, -M_PI / 2}[cx.choose(3, "start")]; double base = 0;
  std::vector<int> ns = {1, 2, 3, 4, 8, 30}; std::vector<double> steps = {st, st / 2, st + 1e-3}, starts = {mn, mn + st, mn - 0.1};
  for (int k = 0; k < (cx.thorough ? 4 : 3); ++k) { int n = cx.pick(ns, "beams"), v = k ? cx.choose(3, "same|step|start") : 0; R r{v == 2 ? starts[1 + k % 2] : mn, 0, v == 1 ? steps[1 + k % 2] : st, n}; r.max = r.min + r.n * r.inc; p.update(r.min, r.max, r.inc); if (cx.flag("turn")) { base += 0.7; p.set_base_angle(base); } beams(cx, p, r, base, "after an update to a similar range"); cx.state(mc::Hash() << k << n << v << base); }
}
// polymorphic use by a scan: points moved to the world with the cache are where direct trigonometry puts them; providers do not share anything
MC_SCENARIO(scans, 2) {
  auto rs = ranges(cx.thorough); auto &r = cx.pick(rs, "range"), &r2 = cx.pick(rs, "other range"); double b = cx.pick(Bases, "base"); auto cp = std::make_shared<CachedTrigonometryProvider>(), other = std::make_shared<CachedTrigonometryProvider>(); cp->update(r.min, r.max, r.inc); other->update(r2.min, r2.max, r2.inc);
  LaserScan2D s, raw; s.trig_provider = cp; for (int i = 0; i < r.n; ++i) { auto q = ScanPoint2D::make_polar(1 + i % 5, r.min + i * r.inc, i % 2); s.points().push_back(q); raw.points().push_back(q); }
  other->set_base_angle(b + 1); auto c = s.to_cartesian(b), d = raw.to_cartesian(b); cx.step();
  MC_CHECK(cx, c.points().size() == s.points().size(), "size", "points are lost");
  for (size_t i = 0; i < c.points().size(); ++i) {
    double a = b + r.min + i * r.inc, g = 1 + i % 5; auto &q = c.points()[i], &e = d.points()[i];
    MC_CHECK(cx, mc::near(q.x(), g * std::cos(a), 1e-7) && mc::near(q.y(), g * std::sin(a), 1e-7), "point", "point " << i << " is at (" << q.x() << "," << q.y() << ")");
    MC_CHECK(cx, mc::near(e.x(), g * std::cos(a), 1e-9) && mc::near(e.y(), g * std::sin(a), 1e-9), "raw-point", "point " << i << " is at (" << e.x() << "," << e.y() << ") without a cache");
  }
  beams(cx, *other, r2, b + 1, "another provider"); beams(cx, *cp, r, b, "after a conversion");
}
// hundreds of updates and turns of one provider, as a long drive makes them
MC_SCENARIO(long_drives, 2) {
  CachedTrigonometryProvider p; auto rs = ranges(cx.thorough); int first = cx.choose((int)rs.size(), "range"), second = cx.choose((int)rs.size(), "other range"), every = cx.pick(std::vector<int>{1, 3, 50}, "change every"); double turn = cx.pick(std::vector<double>{0.01, -0.9, 13.7}, "turn"), base = 0;
  for (int k = 0; k < (cx.thorough ? 300 : 60); ++k) { auto &r = rs[k / every % 2 ? second : first]; p.update(r.min, r.max, r.inc); base += turn; p.set_base_angle(base); if (k < 3 || k % 17 == 0 || k % every == 0) { if (every == 1 && k % 5) continue; beams(cx, p, r, base, "during a long drive"); cx.state(mc::Hash() << k << base << r.min << r.inc); } }
}
