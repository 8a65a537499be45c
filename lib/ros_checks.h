#ifndef VERIF_ROS_CHECKS_H
#define VERIF_ROS_CHECKS_H
#include "mc.h"
#include "env.h"
// what a map message says about the world point of every cell
template <typename M> void check_grid(mc::Ctx &cx, const nav_msgs::OccupancyGrid &g, const M &m, const std::string &frame) {
  MC_CHECK(cx, g.header.frame_id == frame, "map-frame", "the map is published in the frame '" << g.header.frame_id << "'");
  MC_CHECK(cx, (int)g.info.width == m.width() && (int)g.info.height == m.height() && mc::near(g.info.resolution, m.scale(), 1e-6), "map-size", "a map of " << m.width() << "x" << m.height() << " cells of " << m.scale() << " was published as " << g.info.width << "x" << g.info.height << " of " << g.info.resolution);
  MC_CHECK(cx, g.data.size() == (size_t)g.info.width * g.info.height, "map-data", "a map of " << m.width() << "x" << m.height() << " was published with " << g.data.size() << " cells");
  MC_CHECK(cx, g.info.origin.position.z == 0, "map-origin", "the map was published at height " << g.info.origin.position.z);
  for (int j = 0; j < (int)g.info.height; ++j) for (int i = 0; i < (int)g.info.width; ++i) {
    double wx = g.info.origin.position.x + (i + 0.5) * m.scale(), wy = g.info.origin.position.y + (j + 0.5) * m.scale();
    auto c = m.world_to_cell({wx, wy}); MC_CHECK(cx, m.has_cell(c), "map-place", "the published map shows a place outside of the map");
    double v = m.occupancy(c); int d = g.data[j * g.info.width + i];
    if (v == -1) MC_CHECK(cx, d == -1, "map-unknown", "an unknown cell is published as " << d); else MC_CHECK(cx, d >= 0 && d <= 100 && std::fabs(d - 100 * v) < 1, "map-value", "cell " << c.x << "," << c.y << " of occupancy " << v << " is published as " << d);
  }
}
#endif
