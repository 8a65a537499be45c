// C10: adding a scan writes exactly the evidence of its beams
#include "mc.h"
#include <vector>
#include <algorithm>
#include <memory>
#include "common.h"
#include "core/maps/plain_grid_map.h"
#include "core/maps/lazy_tiled_grid_map.h"
#include "core/maps/grid_map_scan_adders.h"
#include "core/maps/const_occupancy_estimator.h"
using Coord = RegularSquaresGrid::Coord;
struct LogCell : GridCell {
  std::vector<AreaOccupancyObservation> log;
  LogCell() : GridCell{Occupancy{0.5, 0.5}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new LogCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override { log.push_back(a); on_update(); }
};
// the estimate is a function of everything the estimator is given
static Occupancy est_of(const Segment2D &b, const Rectangle &c, bool occ) {
  double h = 0.11 * b.beg().x + 0.07 * b.beg().y + 0.05 * b.end().x + 0.03 * b.end().y + 0.013 * c.left() + 0.017 * c.bot() + 0.3 * c.vside_len();
  h -= std::floor(h); if (!occ && h > 0.9) return Occupancy::invalid();
  return occ ? Occupancy{0.5 + 0.5 * h, 0.9} : Occupancy{0.3 * h, 0.2 + 0.5 * h};
}
struct Est : CellOccupancyEstimator {
  Est() : CellOccupancyEstimator{Occupancy{1, 1}, Occupancy{0, 1}} {}
  Occupancy estimate_occupancy(const Segment2D &b, const Rectangle &c, bool occ) override { return est_of(b, c, occ); }
};
struct Omqe : ObservationMappingQualityEstimator {
  size_t n = 0; void reset(const LaserScan2D &s) override { n = s.points().size(); }
  double quality(const LaserScan2D::Points &p, PointId i) const override { return p.size() == n ? 0.4 + 0.125 * i : -1; }
};
struct Pt { double r, a; bool occ; };
struct Setup { double scale, blur, max; };
static bool eq(double a, double b) { return (std::isnan(a) && std::isnan(b)) || mc::near(a, b, 1e-7); }
static std::string show(const AreaOccupancyObservation &a) { std::ostringstream o; o << "{" << (a.is_occupied ? "occ " : "emp ") << a.occupancy.prob_occ << "/" << a.occupancy.estimation_quality << " obstacle " << a.obstacle.x << "," << a.obstacle.y << " quality " << a.quality << "}"; return o.str(); }

using Log = std::map<std::pair<int, int>, std::vector<AreaOccupancyObservation>>;
// the documented evidence of one beam
static void expect(Log &log, const RegularSquaresGrid &g, const RobotPose &p, const Pt &pt, const Setup &s, double q) {
  if (pt.r > s.max) return;
  Point2D end{p.x + pt.r * std::cos(pt.a + p.theta), p.y + pt.r * std::sin(pt.a + p.theta)};
  Segment2D beam{{p.x, p.y}, end};
  auto cells = g.world_to_cells(beam);
  auto cell = [&](double x, double y) { return std::make_pair(int(std::floor(x / s.scale)), int(std::floor(y / s.scale))); };
  auto from = cell(p.x, p.y), to = cell(end.x, end.y);
  auto rect = [&](std::pair<int, int> c) { return Rectangle{c.second * s.scale, (c.second + 1) * s.scale, c.first * s.scale, (c.first + 1) * s.scale}; };
  Occupancy base = est_of(beam, rect(to), pt.occ);
  log[to].push_back({pt.occ, base, end, q});
  double hole = !pt.occ ? 0 : (s.blur < 0 ? -s.blur * pt.r * pt.r : s.blur) / s.scale;
  double whole = std::hypot(from.first - to.first, from.second - to.second);
  for (auto &c : cells) {
    std::pair<int, int> k{c.x, c.y}; if (k == to) continue;
    double d = std::hypot(k.first - to.first, k.second - to.second);
    AreaOccupancyObservation o{false, est_of(beam, rect(k), false), end, q};
    if (d < hole && hole < whole) { o.is_occupied = true; o.occupancy.prob_occ = base.prob_occ * (1 - d * d / (hole * hole)); }
    log[k].push_back(o);
  }
}
static void compare(mc::Ctx &cx, const GridMap &m, const Log &log, const char *what) {
  auto o = m.origin(); size_t total = 0;
  for (int x = -o.x; x < m.width() - o.x; ++x) for (int y = -o.y; y < m.height() - o.y; ++y) {
    auto &got = static_cast<const LogCell &>(m[{x, y}]).log; auto it = log.find({x, y}); size_t n = it == log.end() ? 0 : it->second.size(); total += n;
    MC_CHECK(cx, got.size() == n, std::string(what) + "-cells", "cell (" << x << "," << y << ") got " << got.size() << " observations instead of " << n);
    for (size_t i = 0; i < n; ++i) {
      auto &a = got[i], &b = it->second[i];
      bool ok = a.is_occupied == b.is_occupied && eq(a.occupancy.prob_occ, b.occupancy.prob_occ) && eq(a.occupancy.estimation_quality, b.occupancy.estimation_quality)
        && eq(a.obstacle.x, b.obstacle.x) && eq(a.obstacle.y, b.obstacle.y) && eq(a.quality, b.quality);
      MC_CHECK(cx, ok, std::string(what) + "-evidence", "cell (" << x << "," << y << ") got " << show(a) << " instead of " << show(b));
    }
  }
  size_t all = 0; for (auto &kv : log) all += kv.second.size();
  MC_CHECK(cx, all == total, std::string(what) + "-outside", "only " << total << " of " << all << " crossed cells are inside the map");
}
template <class M> std::unique_ptr<GridMap> make(double scale) { return std::unique_ptr<GridMap>(new M{std::make_shared<LogCell>(), GridMapParams{3, 3, scale}}); }
static std::unique_ptr<GridMap> make(int kind, double scale) { return kind ? make<UnboundedLazyTiledGridMap>(scale) : make<UnboundedPlainGridMap>(scale); }
static std::shared_ptr<GridMapScanAdder> adder(const Setup &s, std::shared_ptr<ObservationMappingQualityEstimator> q) {
  auto b = WallDistanceBlurringScanAdder::builder(); b.set_blur_distance(s.blur); b.set_max_usable_range(s.max);
  b.set_occupancy_estimator(std::make_shared<Est>()); b.set_observation_quality_estimator(q); return b.build();
}
static LaserScan2D scan_of(const std::vector<Pt> &ps) { LaserScan2D s; for (auto &p : ps) s.points().push_back(ScanPoint2D::make_polar(p.r, p.a, p.occ)); return s; }

// one beam: every range, bearing, flag, pose, scale, blur and range limit
MC_SCENARIO(single_beam, 3) {
  std::vector<double> blurs{0, 0.35, 1.3, 2.6, 50, -0.05, -0.3}, maxs{std::numeric_limits<double>::infinity(), 2.9, 0.5}, scales{1, 0.5, 0.3};
  Setup s{cx.pick(scales, "scale"), cx.pick(blurs, "blur"), cx.pick(maxs, "max-range")};
  std::vector<RobotPose> poses{{0.21, 0.17, 0}, {-1.37, 2.63, 0.7}, {5.33, -4.19, -2.9}}; auto pose = cx.pick(poses, "pose");
  int nr = cx.thorough ? 12 : 7, na = cx.thorough ? 48 : 16;
  double r = 0.13 + cx.choose(nr, "range") * (cx.thorough ? 0.47 : 0.83);
  for (int a = 0; a < na; ++a) for (int occ = 0; occ < 2; ++occ) for (double q : {1.0, 0.004}) {
    Pt p{r, -3.05 + a * 6.28 / na, occ == 1}; auto m = make(a & 1, s.scale); Log log;
    expect(log, *m, pose, p, s, q * 0.4);
    adder(s, std::make_shared<Omqe>())->append_scan(*m, pose, scan_of({p}), q); cx.step();
    cx.state(mc::Hash() << r << p.a << occ << q << s.scale << s.blur << s.max << pose.x); cx.outcome(mc::Hash() << log.size() << r << p.a << occ << s.blur);
    MC_LOG(cx, "");
    compare(cx, *m, log, "beam");
  }
  cx.nontrivial();
}
// a beam exactly as long as the usable range is usable, the next longer one is not (everything exact here)
MC_SCENARIO(range_limit, 2) {
  double scale = cx.pick(std::vector<double>{0.5, 1, 0.25}, "scale"), max = cx.pick(std::vector<double>{2.75, 0.375, 6, 0.5}, "max-range"); Setup s{scale, cx.pick(std::vector<double>{0, 1.25, -0.25, 3, 0.5}, "blur"), max}; std::vector<RobotPose> poses{{0.25, 0.375, 0}, {-1.375, 2.625, 0}, {4.125, -3.875, 0}}; auto pose = cx.pick(poses, "pose");
  for (double r : {max, std::nextafter(max, 0) - 1e-9, max + 0.0625}) for (int occ = 0; occ < 2; ++occ) {
    Pt p{r, 0, occ == 1}; auto m = make(occ, scale); Log log; expect(log, *m, pose, p, s, 0.4); cx.step();
    MC_CHECK(cx, log.empty() == (r > max), "oracle", "range limit of the reference"); adder(s, std::make_shared<Omqe>())->append_scan(*m, pose, scan_of({p}), 1); compare(cx, *m, log, "limit"); cx.state(mc::Hash() << r << occ << scale << max << pose.x << s.blur); cx.outcome(mc::Hash() << log.size() << r);
  }
}
// whole scans: order, margins, qualities, excluded points, and the same beams one by one
MC_SCENARIO(scans, 3) {
  std::vector<Pt> al{{0.4, 0.3, true}, {1.7, 0.35, true}, {1.7, 0.35, false}, {2.6, -1.9, true}, {3.3, 3.0, false}}; 
  std::vector<Setup> ss{{1, 0, 3}, {0.5, 1.2, 3}, {0.5, -0.1, 2}};
  Setup s = cx.pick(ss, "setup"); int n = cx.choose(cx.thorough ? 6 : 5, "points"); std::vector<Pt> ps;
  int margin = cx.choose(4, "margin"); bool prior = cx.flag("second-scan");
  for (int i = 0; i < n; ++i) ps.push_back(cx.pick(al, "point"));
  RobotPose pose{0.31, -0.47, 0.4}; auto m = make(margin & 1, s.scale), one = make(margin & 1, s.scale); Log log;
  auto om = std::make_shared<Omqe>(); auto ad = adder(s, om);
  if (prior) { Pt p{1.2, 1.1, true}; ad->append_scan(*m, {0.3, 0.2, 0.1}, scan_of({p, p}), 0.7); for (int i = 0; i < 2; ++i) expect(log, *m, {0.3, 0.2, 0.1}, p, s, 0.7 * (0.4 + 0.125 * i)); }
  auto sc = scan_of(ps);
  GridMap &back = ad->append_scan(*m, pose, sc, 0.8, margin); cx.step();
  MC_CHECK(cx, &back == m.get(), "returned", "append_scan returns another map");
  for (int i = margin; i < n - margin; ++i) expect(log, *m, pose, ps[i], s, 0.8 * (0.4 + 0.125 * i));
  compare(cx, *m, log, "scan");
  // one by one, with the plain quality
  auto idle = std::make_shared<IdleOMQE>(); auto ad2 = adder(s, idle); auto all = make(0, s.scale); Log l2;
  ad2->append_scan(*all, pose, sc, 0.8);
  for (auto &p : ps) { ad2->append_scan(*one, pose, scan_of({p}), 0.8); expect(l2, *one, pose, p, s, 0.8); }
  compare(cx, *all, l2, "whole"); compare(cx, *one, l2, "one-by-one");
  MC_CHECK(cx, sc.points().size() == ps.size(), "scan", "the scan is altered");
  if (n > 2 * margin) cx.nontrivial();
  cx.state(mc::Hash() << n << margin << log.size()); cx.outcome(mc::Hash() << n << margin << log.size());
}
// cartesian scans and the angle-histogram quality: all points of a wall share its bin, so weights are reciprocal to the support
MC_SCENARIO(histogram_quality, 2) {
  int n = 3 + cx.choose(4, "wall-points"), extra = cx.choose(3, "other-points"); Setup s{0.5, 0, std::numeric_limits<double>::infinity()};
  LaserScan2D sc; std::vector<Pt> ps;
  for (int i = 0; i < n; ++i) { Point2D p{2.13, -1.07 + 0.61 * i}; sc.points().push_back(ScanPoint2D::make_cartesian(p, true)); ps.push_back({std::hypot(p.x, p.y), std::atan2(p.y, p.x), true}); }
  for (int i = 0; i < extra; ++i) { Point2D p{1.31 - 0.9 * i, 3.03 - 0.35 * i * i}; sc.points().push_back(ScanPoint2D::make_cartesian(p, true)); ps.push_back({std::hypot(p.x, p.y), std::atan2(p.y, p.x), true}); }
  AngleHistogram h; h.reset(sc); auto m = make(0, s.scale); Log log; RobotPose pose{0.2, 0.3, 0};
  adder(s, std::make_shared<AngleHistogramResiprocalOMQE>())->append_scan(*m, pose, sc, 0.9, 0); cx.step();
  for (size_t i = 0; i < ps.size(); ++i) expect(log, *m, pose, ps[i], s, 0.9 / h.value(sc.points(), i));
  compare(cx, *m, log, "histogram"); cx.nontrivial(); cx.state(mc::Hash() << n << extra); cx.outcome(mc::Hash() << n << extra);
}
// the same adder, one scan after another: the quality is the one of the scan that is added
MC_SCENARIO(histogram_sequence, 3) {
  Setup s{0.5, 0, std::numeric_limits<double>::infinity()}; auto ad = adder(s, std::make_shared<AngleHistogramResiprocalOMQE>()); auto m = make(0, s.scale); Log log; double th = 0;
  for (int k = 0; k < (cx.thorough ? 4 : 3); ++k) {
    int shape = cx.choose(4, "shape"), n = 4 + 2 * cx.choose(2, "points"); std::vector<Pt> ps; LaserScan2D sc;
    for (int i = 0; i < n; ++i) {
      Point2D p = shape == 0 ? Point2D{2.13, -1.07 + 0.61 * i} : shape == 1 ? Point2D{-1.33 + 0.57 * i, 1.79} : shape == 2 ? Point2D{1.31 - 0.9 * i, 3.03 - 0.35 * i * i} : i < n / 2 ? Point2D{2.13, -1.07 + 0.61 * i} : Point2D{1.9 - 0.43 * i, 0.83 + 0.21 * i};
      sc.points().push_back(ScanPoint2D::make_cartesian(p, true)); ps.push_back({std::hypot(p.x, p.y), std::atan2(p.y, p.x), true});
    }
    AngleHistogram h; h.reset(sc); RobotPose pose{0.2 + 0.31 * k, 0.3 - 0.17 * k, th}; th += 0.4; ad->append_scan(*m, pose, sc, 0.9 - 0.2 * k, 0); cx.step();
    for (size_t i = 0; i < ps.size(); ++i) expect(log, *m, pose, ps[i], s, (0.9 - 0.2 * k) / h.value(sc.points(), i));
    compare(cx, *m, log, "histogram"); if (k) cx.nontrivial(); cx.state(mc::Hash() << shape << n << log.size()); cx.outcome(mc::Hash() << shape << n << k);
  }
}
// scans of a real sensor: hundreds of beams of up to hundreds of cells, one scan after another into the same map
MC_SCENARIO(large_scans, 2) {
  std::vector<Setup> ss{{0.1, 0, 1e9}, {0.05, 0.3, 12}, {0.25, -0.02, 25}, {1, 4.5, 40}}; Setup s = cx.pick(ss, "setup"); int kind = cx.choose(2, "map"), n = cx.pick(std::vector<int>{90, 181, 361}, "points"), scans = cx.pick(std::vector<int>{1, 3, 8}, "scans"), margin = cx.pick(std::vector<int>{0, 7, 44}, "margin"); double span = cx.pick(std::vector<double>{3.1, 4.7, 6.28}, "span");
  auto m = make(kind, s.scale); Log log; auto ad = adder(s, std::make_shared<Omqe>()); RobotPose pose{0.313, -0.127, 0.4}; double far = std::min(250 * s.scale, 30.0); if (n > 200 && scans > 3 && !cx.thorough) cx.prune();
  for (int k = 0; k < scans; ++k) {
    std::vector<Pt> ps; for (int i = 0; i < n; ++i) { double h = 0.618034 * (i + 31 * k); h -= std::floor(h); ps.push_back({0.033 + far * (i % 9 ? h * 0.6 : 1.2 * h), -span / 2 + span * i / n, (i * 7 + k) % 5 != 0}); }
    ad->append_scan(*m, pose, scan_of(ps), 0.7, margin); cx.step(n);
    for (int i = margin; i < n - margin; ++i) expect(log, *m, pose, ps[i], s, 0.7 * (0.4 + 0.125 * i));
    pose.x += 0.411; pose.y -= 0.173 * k; pose.theta += 1.9;
  }
  compare(cx, *m, log, "scan"); cx.nontrivial(); cx.state(mc::Hash() << log.size() << n << scans << margin << span); cx.outcome(mc::Hash() << log.size() << n << scans);
}
