// C19: the angle histogram counts every consecutive direction exactly once
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/features/angle_histogram.h"
struct Dir { bool none; std::vector<int> bins; double a; };
// direction of a pair as an undirected angle in [0, pi) and the bins it may belong to (two of them at a border)
static Dir direction(const ScanPoint2D &p, const ScanPoint2D &q, int n) {
  long double dx = (long double)q.x() - p.x(), dy = (long double)q.y() - p.y(); Dir d{false, {}, 0};
  if (fabsl(dx) + fabsl(dy) < 1e-12) { d.none = true; return d; }
  long double a = atan2l(dy, dx); if (a < 0) a += M_PI; if (a >= M_PI) a -= M_PI; d.a = a;
  long double s = M_PI / n; int b = int(floorl(a / s)); b = std::min(b, n - 1); d.bins.push_back(b);
  if (a - b * s < 1e-9) d.bins.push_back((b + n - 1) % n); if ((b + 1) * s - a < 1e-9) d.bins.push_back((b + 1) % n);
  return d;
}
static std::string check(mc::Ctx &cx, AngleHistogram &h, const LaserScan2D &scan, int n) {
  auto &p = scan.points(); std::ostringstream os; os.precision(17); os << n << " bins, points"; for (auto &q : p) os << " (" << q.x() << "," << q.y() << ")"; os << ": bins"; for (int i = 0; i < n; ++i) os << " " << h[i]; auto ctx = os.str(); MC_LOG(cx, ctx);
  std::vector<int> lo(n), hi(n); int pairs = 0, dups = 0, sum = 0; bool exact = true; std::vector<double> asum(n); std::vector<Dir> ds(p.size());
  for (size_t i = 1; i < p.size(); ++i) { auto d = ds[i] = direction(p[i - 1], p[i], n); if (d.none) { ++dups; exact = false; for (auto &x : hi) ++x; continue; } ++pairs; for (int b : d.bins) ++hi[b]; if (d.bins.size() == 1) { ++lo[d.bins[0]]; asum[d.bins[0]] += d.a; } else exact = false; }
  for (int i = 0; i < n; ++i) { sum += h[i]; MC_CHECK(cx, lo[i] <= (int)h[i] && (int)h[i] <= hi[i], "bin-count", "bin " << i << " counts " << h[i] << " directions, expected " << lo[i] << ".." << hi[i] << ": " << ctx); }
  MC_CHECK(cx, pairs <= sum && sum <= pairs + dups, "total", sum << " directions are counted, " << pairs << " pairs form one: " << ctx);
  for (size_t i = 0; i < p.size(); ++i) {
    int v = h.value(p, i); if (i == 0) { MC_CHECK(cx, v == (int)p.size(), "first-value", "the first point's value is " << v << ": " << ctx); continue; }
    if (ds[i].none) continue; bool ok = false; for (int b : ds[i].bins) ok |= v == (int)h[b] && v > 0;
    MC_CHECK(cx, ok, "value", "the value of point " << i << " is " << v << ", not that of its bin " << ds[i].bins[0] << ": " << ctx);
  }
  int mx = 0, mn = 1 << 30; for (int i = 0; i < n; ++i) { mx = std::max<int>(mx, h[i]); mn = std::min<int>(mn, h[i]); }
  MC_CHECK(cx, (int)h[h.max_i()] == mx && (int)h[h.min_i()] == mn, "extremes", "bins " << h.max_i() << " and " << h.min_i() << " are reported as the fullest and emptiest: " << ctx);
  if (exact) for (int i = 0; i < n; ++i) if (h[i]) MC_CHECK(cx, mc::near(h.mean_bin_angle(i), asum[i] / h[i]), "mean-angle", "the mean direction of bin " << i << " is " << h.mean_bin_angle(i) << ", expected " << asum[i] / h[i] << ": " << ctx);
  if (exact && mx) MC_CHECK(cx, mc::near(h.major_direction(), asum[h.max_i()] / mx), "major", "the main direction is " << h.major_direction() << ": " << ctx);
  MC_CHECK(cx, mc::near(h.angle_step(), M_PI / n), "step", "the angle step is " << h.angle_step());
  mc::Hash hh; hh << n << (int)p.size(); for (int i = 0; i < n; ++i) hh << h[i]; cx.step(); cx.state(hh); cx.outcome(hh);
  std::string key; for (int i = 0; i < n; ++i) key += std::to_string(h[i]) + ","; for (size_t i = 0; i < p.size(); ++i) key += ":" + std::to_string(h.value(p, i)); return key;
}
static const std::vector<int> Ns = {20, 1, 4, 7, 180};
static ScanPoint2D pt(mc::Ctx &cx, int kind, int n, bool cart) {
  int k = cx.choose(n, "point"); Point2D p;
  static const std::vector<Point2D> lattice = {{1, 2}, {2, 2}, {0, 2}, {1, 0.5}, {2.5, 2 + 1e-16 * 4}, {0.6, 2.00002}, {-1, 2 - 1e-16 * 4}, {1 + 1e-15, 3}, {1.7, 2.9}, {-0.4, 1.1}, {3, -1}};
  p = lattice[k]; if (cart) return ScanPoint2D::make_cartesian(p, true); return ScanPoint2D::make_polar(std::hypot(p.x, p.y), std::atan2(p.y, p.x), true);
}
MC_SCENARIO(scans, 4) {
  int n = cx.pick(Ns, "bins"); bool cart = cx.flag("cartesian"); int np = cx.choose(cx.thorough ? 6 : 5, "points"); LaserScan2D s; for (int i = 0; i < np; ++i) s.points().push_back(pt(cx, 0, cx.thorough ? 8 : 10, cart));
  AngleHistogram h(n); h.reset(s); check(cx, h, s, n);
}
// straight walls in all directions of a fine fan, seen as polar scans in both directions: the sums are rounded in every way
MC_SCENARIO(walls, 3) {
  int n = cx.pick(Ns, "bins"); int k = cx.choose(cx.thorough ? 1440 : 360, "wall direction"); double a = k * 2 * M_PI / (cx.thorough ? 1440 : 360), d = std::vector<double>{0.5, 2, 7.3}[cx.choose(3, "distance")]; int inc = cx.choose(3, "step");
  LaserScan2D s; double st = std::vector<double>{0.01, 0.1, 0.3}[inc];
  for (int i = -4; i <= 4; ++i) { double b = i * st; s.points().push_back(ScanPoint2D::make_polar(d / std::cos(b), a + M_PI / 2 + b, true)); } // points of the line at distance d with direction a
  AngleHistogram h(n); h.reset(s); check(cx, h, s, n);
  LaserScan2D r; r.points().assign(s.points().rbegin(), s.points().rend()); AngleHistogram g(n); g.reset(r); check(cx, g, r, n);
  double off = std::fmod(a, M_PI / n); if (off > 1e-6 && M_PI / n - off > 1e-6) for (int i = 0; i < n; ++i) MC_CHECK(cx, h[i] == g[i], "half-turn", "a wall seen from the other end is in another bin");
}
// a histogram that is used again
MC_SCENARIO(histories, 4) {
  int n = std::vector<int>{20, 4}[cx.choose(2, "bins")]; AngleHistogram h(n); std::string last; LaserScan2D s; int steps = cx.thorough ? 3 : 2;
  for (int k = 0; k < steps; ++k) { s = LaserScan2D{}; int np = cx.choose(4, "points"); for (int i = 0; i < np; ++i) s.points().push_back(pt(cx, 0, cx.thorough ? 5 : 8, true)); auto ret = h.reset(s); std::string a = check(cx, h, s, n); AngleHistogram f(n); f.reset(s); std::string b = check(cx, f, s, n);
    MC_CHECK(cx, a == b, "left-over", "after " << k << " other scans the histogram is " << a << ", a fresh one " << b); std::string c = check(cx, ret, s, n); MC_CHECK(cx, c == b, "returned", "the returned histogram is another one"); }
}
// scans of hundreds of points, histograms of hundreds of bins, the same histogram for scan after scan
MC_SCENARIO(large_scans, 2) {
  int n = cx.pick(std::vector<int>{20, 1, 7, 180, 720}, "bins"), np = cx.pick(std::vector<int>{64, 300, 1081}, "points"), shape = cx.choose(4, "shape"); AngleHistogram h(n);
  for (int k = 0; k < 3; ++k) {
    LaserScan2D s; for (int i = 0; i < np - 7 * k; ++i) { double a = -3.1 + 6.2 * i / np, r = 4; if (shape == 0) { double c = std::fabs(std::cos(a)), d = std::fabs(std::sin(a)); r = 3.3 / std::max(c, d); } else if (shape == 1) r = 2 + 0.3 * ((i * 37 + k) % 11); else if (shape == 2) r = 5 + std::sin(3 * a + k); else r = 1 + 0.01 * i; s.points().push_back(i % 2 ? ScanPoint2D::make_polar(r, a + 0.013 * k, i % 3 != 0) : ScanPoint2D::make_cartesian({r * std::cos(a + 0.013 * k), r * std::sin(a + 0.013 * k)}, true)); }
    h.reset(s); check(cx, h, s, n);
  }
}
