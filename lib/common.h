// shared by the map harnesses: a history-sensitive cell and its reference recurrence
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cassert>
#include <iterator>
#include <tuple>
#include <array>
#include "core/maps/grid_map.h"

// Observations are folded into the cell in an order-sensitive way, and every field of the
// observation matters, so a lost, duplicated, reordered or altered write changes the value.
inline double fold(double old, const AreaOccupancyObservation &a) {
  return 0.5 * old + 0.25 * a.occupancy.prob_occ + 0.125 * a.quality + 0.0625 * (a.is_occupied ? 1 : 0)
       + 0.03125 * a.occupancy.estimation_quality + 0.001 * a.obstacle.x - 0.0005 * a.obstacle.y;
}
class HCell : public GridCell {
public:
  HCell(double v = 0.5) : GridCell{Occupancy{v, 0.25}} {}
  std::unique_ptr<GridCell> clone() const override { return std::unique_ptr<GridCell>(new HCell(*this)); }
  void operator+=(const AreaOccupancyObservation &a) override {
    _occupancy.prob_occ = fold(_occupancy.prob_occ, a);
    on_update();
  }
  void mark() { on_update(); }
};
inline AreaOccupancyObservation obs(int k) {
  AreaOccupancyObservation a{(k % 2) == 0, Occupancy{0.1 + 0.17 * (k % 5), 0.5 + 0.1 * (k % 3)}, Point2D{1.0 * (k % 7), 2.0 + (k % 3)}, 0.3 + 0.11 * (k % 6)};
  return a;
}
struct RefCell { double v = 0.5; bool unknown = true; };
#endif
