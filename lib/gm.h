// Drives the particle-filter SLAM with a matcher whose answers the explorer decides; every particle that processes a scan is seen through that matcher.
#ifndef VERIF_GM_H
#define VERIF_GM_H
#include "slams/gmapping/gmapping_particle_filter.h"
#include "core/maps/const_occupancy_estimator.h"
struct Ask { RobotPose at; const GridMap *map; uint64_t content; };
inline int &gm_window() { static int w = 12; return w; }
inline uint64_t content(const GridMap &m) { mc::Hash h; int n = gm_window(); for (int x = -n; x < n; ++x) for (int y = -n; y < n; ++y) { double o = m.occupancy({x, y}); if (o > 0) { int v = int(std::floor(o * 1e6 + 0.5)); h << x << y << v; } } return h; }
struct GmSM : GridScanMatcher {
  std::vector<Ask> asked; std::function<double(size_t, const Ask &, RobotPoseDelta &)> answer;
  GmSM() : GridScanMatcher{nullptr} {}
  double process_scan(const TransformedLaserScan &, const RobotPose &p, const GridMap &m, RobotPoseDelta &d) override { asked.push_back({p, &m, content(m)}); d = RobotPoseDelta{0, 0, 0}; return answer(asked.size() - 1, asked.back(), d); }
};
// marks the cell the particle is in
struct GmAdder : GridMapScanAdder {
  GmAdder() : GridMapScanAdder{std::make_shared<ConstOccupancyEstimator>(Occupancy{1, 1}, Occupancy{0, 1}), std::make_shared<IdleOMQE>()} {}
  void handle_scan_point(GridMap &m, bool, double q, const Segment2D &b) const override { AreaOccupancyObservation a{true, Occupancy{0.75, 1}, b.end(), q}; m.update(m.world_to_cell(b.end()), a); }
};
struct GmCell : GridCell { // counts its observations
  GmCell() : GridCell{Occupancy{0, 1}} {} std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new GmCell(*this)); }
  void operator+=(const AreaOccupancyObservation &) override { _occupancy.prob_occ = 0.5 * _occupancy.prob_occ + 0.25; on_update(); }
};
inline TransformedLaserScan gm_scan(RobotPoseDelta d) { TransformedLaserScan s; s.quality = 1; s.pose_delta = d; s.scan.points().push_back(ScanPoint2D::make_cartesian({0.01, 0.02}, true)); return s; }
#endif
