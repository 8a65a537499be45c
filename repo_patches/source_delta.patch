From 538b612cba425634c703420cab2e3dcae79d46c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/40] fix: save and restore the observation number of
 MeanProbabilityCell

---
 src/core/maps/naive_grid_cells.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
-- 
2.43.0


From d9c18b5fd390fe7c1d1844c548584ebb5952eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 02/40] fix: save and restore the hit statistics of
 GmappingBaseCell

---
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From b79a04ee7d575bd3a71c865bd69ed464a4447ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 03/40] fix: do not divide by zero when a TbmOccConsistentCell
 has no evidence

---
 src/core/maps/tbm_grid_cells.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..81bf0d5 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,7 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    if (qual == 0.0) { return Occupancy{0.5, qual}; } // no evidence
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From d5e84486f3d077d10bb38661a08be77f26742149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/40] fix: find the intersection of rectangles that contain
 no corner of each other

---
 src/core/geometry_primitives.h | 51 ++++------------------------------
 1 file changed, 6 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..22b891a 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,12 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto cleft = std::max(left(), that.left());
+    auto cright = std::min(right(), that.right());
+    auto cbot = std::max(bot(), that.bot());
+    auto ctop = std::min(top(), that.top());
+    if (cright < cleft || ctop < cbot) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{cbot, ctop, cleft, cright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +270,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From 47e621794c6a410f9f0722c8f3a7c58c64f70029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 05/40] fix: support line-like rectangles in the overlap of
 rectangles

---
 src/core/geometry_primitives.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 22b891a..4777148 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -262,12 +262,13 @@ public:
     if (area()) {
       return intersect(that).area() / area();
     }
-    if (that.area()) {
-      return that.contains(left(), bot()) ? 1.0 : 0.0;
+    if (is_line()) {
+      auto common = intersect(that);
+      return (common.vside_len() + common.hside_len()) /
+             (vside_len() + hside_len());
     }
-    // FIXME: the assert below, see unit tests.
-    assert(is_point() && that.is_point() && "TODO: support lwr-lines");
-    return *this == that ? 1.0 : 0.0;
+    // NB: this is a point
+    return that.contains(left(), bot()) ? 1.0 : 0.0;
   }
 
 private: // fields
-- 
2.43.0


From 6c27b9322f7eada4eda2f97884a7a5f917b6dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/40] fix: rasterize a line-like rectangle to all the cells
 it crosses

---
 src/core/maps/grid_rasterization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_rasterization.h b/src/core/maps/grid_rasterization.h
index e480d3c..1842a8d 100644
--- a/src/core/maps/grid_rasterization.h
+++ b/src/core/maps/grid_rasterization.h
@@ -36,7 +36,8 @@ public:
     } else if (area_is_empty) {
       // TODO: do not pass scale as an argument. This causes slight slow down.
       //       Find out the reason.
-      _rt = _lb = grid.world_to_cell(r.left(), r.bot());
+      _lb = grid.world_to_cell(r.left(), r.bot());
+      _rt = grid.world_to_cell(r.right(), r.top());
     } else if (area_is_infin) {
       _lb = grid.internal2external({0, 0});
       _rt = grid.internal2external({grid.width() - 1, grid.height() - 1});
-- 
2.43.0


From e626f7d2c6692deac13e57286293d30fdbfd5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 07/40] fix: correct the same-side test of the area occupancy
 estimator

---
 src/core/maps/area_occupancy_estimator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..7d765fa 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -218,8 +218,8 @@ private: // methods
   bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
                             const Point2D &p1, const Point2D &p2) {
     double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+    return 0 < (dy*(p1.x - line_p1.x) - dx*(p1.y - line_p1.y)) *
+               (dy*(p2.x - line_p1.x) - dx*(p2.y - line_p1.y));
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From 0fa8e7d788307d1bc94e17cc50c225f5264f87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 08/40] fix: compute the on-edge shift of a beam for each cell
 rather than once

---
 src/core/maps/area_occupancy_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 7d765fa..26a20bd 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-- 
2.43.0


From df55fe4d3e1c03b0c7efca25ebe621adf7371c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 09/40] fix: pick the chunk behind a beam's end for a beam that
 stops at a cell border

---
 src/core/maps/area_occupancy_estimator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 26a20bd..9c823f0 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -207,10 +207,12 @@ private: // methods
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
-    if (is_occ &&
-        are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
-      area = bnds.area() - area;
+    if (is_occ) {
+      // the line splits the cell in 2 chunks, the bigger one owns the center
+      auto rest_area = bnds.area() - area;
+      area = are_on_the_same_side(inters[0], inters[1],
+                                  beam.beg(), bnds.center()) ?
+        std::min(area, rest_area) : std::max(area, rest_area);
     }
     return area;
   }
-- 
2.43.0


From 98406d4589b5d393e3e612f5031264d3f73004cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 10/40] fix: add nothing of a scan that is covered by its
 margin

---
 src/core/maps/grid_map_scan_adders.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..358b2db 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -55,7 +55,8 @@ public:
                        const LaserScan2D &scan,
                        double scan_quality,
                        double scan_margin = 0.0) const {
-    if (scan.points().empty()) { return map; }
+    // NB: there is nothing to add if the margin covers the scan
+    if (scan.points().size() < scan_margin + 1) { return map; }
 
     const auto rp = pose.point();
     scan.trig_provider->set_base_angle(pose.theta);
-- 
2.43.0


From 2f102e2a341b831b71cdd990f792094a8b9c42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 11/40] fix: fill coarser maps that are added when a rescalable
 map grows

---
 src/core/maps/rescalable_caching_grid_map.h |  8 +++
 src/core/scan_matchers/m3rsm_engine.h       | 59 ++++++++++++++-------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..42bdeee 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,12 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // fills a coarser map that is added to the cache when the finer one grows
+  virtual void init_coarser_map(GridMap &coarser_map,
+                                const GridMap &finer_map) const {}
+
+  // the coarsest map that is already in the cache
+  unsigned cached_coarsest_scale_id() const { return _map_cache->size() - 1; }
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -190,6 +196,8 @@ protected:
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
+      auto new_map = _map_cache->rbegin() + 1;
+      init_coarser_map(**new_map, **(new_map + 1));
     }
   }
 
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..be03aee 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -61,6 +61,7 @@ public:
 protected:
   using RescalableCachingGridMap<BackGridMap>::active_map;
   using RescalableCachingGridMap<BackGridMap>::map;
+  using RescalableCachingGridMap<BackGridMap>::cached_coarsest_scale_id;
 
   // estimates impact of the obstacle observation inside the area
   // to scan probability. Additive model is assumed.
@@ -102,26 +103,48 @@ protected:
     const auto &modified_area = active_map()[area_id];
     auto modified_space = active_map().world_cell_bounds(area_id);
 
+    // NB: maps that are not in the cache yet are filled on creation
     for (unsigned coarser_scale_id = scale_id() + 1;
-         coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
+         coarser_scale_id <= cached_coarsest_scale_id(); ++coarser_scale_id) {
+      if (!update_coarser_map(map(coarser_scale_id), modified_area,
+                              modified_space, impact)) { break; }
+    }
+  }
+
+  bool update_coarser_map(GridMap &coarser_map, const GridCell &modified_area,
+                          const Rectangle &modified_space,
+                          const double impact) const {
+    bool coarser_area_is_updated = false;
+    using GRRectangle = GridRasterizedRectangle;
+    auto cm_coords = GRRectangle{coarser_map, modified_space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, modified_area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
+  }
+
+  void init_coarser_map(GridMap &coarser_map,
+                        const GridMap &finer_map) const override {
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+        update_coarser_map(coarser_map, area,
+                           finer_map.world_cell_bounds(area_id),
+                           estimate_spe_obstacle_impact(area));
       }
-      if (!coarser_area_is_updated) { break; }
     }
   }
 
-- 
2.43.0


From d0bf5ac701e00eeff8780805e19a0da166c0ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 12/40] fix: forget the base pose of a brute force enumeration
 on reset

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From 7096b5d547534d7b41f73f07b9e72b00fe0ff9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 13/40] fix: keep a brute force enumeration inside of its
 ranges

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 15 ++++++++++-----
 src/core/scan_matchers/pose_enumerators.h         |  7 ++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index aa506f1..278283b 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -21,7 +21,7 @@ public:
   }
 
   bool has_next() const override {
-    return _t <= _to_t; // NB: "top-level" changing dimension
+    return less_or_equal(_t, _to_t); // NB: "top-level" changing dimension
   }
 
   RobotPose next(const RobotPose &prev_pose) override {
@@ -44,16 +44,21 @@ public:
     // HACK: use switch falls to simplify code (no nested ifs/d_y, d_t tracking
     switch (0) {
     case 0:
-      if (_x < _to_x) { _x += _step_x; break; }
-      else            { _x = _from_x; /* to Y */ }
+      if (has_step(_x, _step_x, _to_x)) { _x += _step_x; break; }
+      else                              { _x = _from_x; /* to Y */ }
     case 1:
-      if (_y < _to_y) { _y += _step_y; break; }
-      else            { _y = _from_y; /* to T */ }
+      if (has_step(_y, _step_y, _to_y)) { _y += _step_y; break; }
+      else                              { _y = _from_y; /* to T */ }
     case 2:
       _t += _step_t;
     }
   }
 
+private:
+  // NB: rounding errors accumulated in a value must not affect poses number
+  static bool has_step(double value, double step, double to) {
+    return value < to && less_or_equal(value + step, to);
+  }
 private:
   // TODO: use std::optional when C++17 is available
   bool _base_pose_is_set;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 214d40c..beb9ac6 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -27,7 +27,7 @@ public:
   }
 
   bool has_next() const override {
-    return _dst <= _to_dst; // NB: "top-level" changing dimension
+    return less_or_equal(_dst, _to_dst); // NB: "top-level" changing dimension
   }
 
   RobotPose next(const RobotPose &prev_pose) override {
@@ -51,8 +51,9 @@ public:
     // HACK: use switch falls to simplify code (no nested ifs)
     switch (0) {
     case 0:
-      if (_dir < _to_dir) { _dir += _step_dir; break; }
-      else                { _dir = _from_dir; /* to dst */ }
+      if (_dir < _to_dir && less_or_equal(_dir + _step_dir, _to_dir))
+           { _dir += _step_dir; break; }
+      else { _dir = _from_dir; /* to dst */ }
     case 1:
       _dst += _step_dst;
     }
-- 
2.43.0


From ab0f759bccb4b7f961b970d124d65326486ec1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 14/40] fix: align hill climbing rounds to the frame of a scan

---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..dc61b44 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -76,7 +76,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -111,12 +112,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
@@ -156,7 +158,8 @@ private:
     if (!_use_frame_alignement) { return; }
     auto hist = AngleHistogram{20};
     hist.reset(scan);
-    double frame_rot = hist.major_direction();
+    // NB: a single point has no direction
+    double frame_rot = scan.points().size() < 2 ? 0 : hist.major_direction();
 
     auto pe = std::make_shared<HCPE>(_max_lookup_failed_attempts,
         _translation_delta, _rotation_delta, frame_rot);
-- 
2.43.0


From 23cdc28b5a93cb33bb3cbe2b0ff37e74c873872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 15/40] fix: keep almost horizontal directions inside of an
 angle histogram

---
 src/core/features/angle_histogram.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..a9ae9f2 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,15 +84,16 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    // NB: an almost horizontal direction may be rounded to 180
+    return angle < M_PI ? angle : 0;
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
     auto hist_i = std::size_t(std::floor(angle / angle_step()));
-    assert(hist_i < _hist.size());
-    return hist_i;
+    // NB: the ratio may be rounded up to the bins number
+    return std::min(hist_i, _hist.size() - 1);
   }
 
 private:
-- 
2.43.0


From 0a2a67a86b587de1c7bc2b6569e8cb0424332a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 16/40] fix: recognise the unknown scan probability

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..66606bb 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability);
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From d9d658e254c589f46169078c5bdc836165fd8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 17/40] fix: do not reuse a point probability of another map or
 obstacle

---
 .../gmapping/gmapping_occupancy_observation_pe.h      | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..72dd1d9 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,16 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
-
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
       for (int d_y = -Window_Sz; d_y <= Window_Sz; ++d_y) {
@@ -33,15 +29,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From 8da8f0c1c8ef133bcbf916a0ff45dbccc3e358bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 18/40] fix: keep the factor of a scan point when it is
 converted

---
 src/core/states/sensor_data.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/states/sensor_data.h b/src/core/states/sensor_data.h
index c35c101..65e1e0e 100644
--- a/src/core/states/sensor_data.h
+++ b/src/core/states/sensor_data.h
@@ -76,7 +76,8 @@ public: // methods
 
   ScanPoint2D to_cartesian(std::shared_ptr<TrigonometryProvider> tp) const {
     auto point = move_origin(0, 0, tp);
-    return ScanPoint2D{PointType::Cartesian, point.x, point.y, _is_occupied};
+    return ScanPoint2D{PointType::Cartesian, point.x, point.y, _is_occupied}
+             .set_factor(_factor);
   }
 
   // NB: a rotation is preset in a given trigonometry provider
@@ -109,7 +110,7 @@ public: // methods
                                range() + d_range, angle() + d_angle,
                                is_occupied()};
     return ScanPoint2D{PointType::Cartesian, patched.x(), patched.y(),
-                       patched.is_occupied()};
+                       patched.is_occupied()}.set_factor(_factor);
   }
 
   ScanPoint2D to_polar(double d_x = 0, double d_y = 0) const {
@@ -117,7 +118,7 @@ public: // methods
                                x() + d_x, y() + d_y,
                                is_occupied()};
     return ScanPoint2D{PointType::Polar, patched.range(), patched.angle(),
-                       patched.is_occupied()};
+                       patched.is_occupied()}.set_factor(_factor);
   }
 
 private: // data structs
-- 
2.43.0


From 47cd5a87220aa36d91bae5d2ca11f4584491188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 19/40] fix: do not swap the configured width and height of a
 map

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From 0dca59d5ddac85100f08de4ec4f0f4de25a994a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 20/40] fix: read the documented key of the observation quality
 estimator

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From 23adc01331ee16bd6ac37f228e7b84efb4d241a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:46 +0000
Subject: [PATCH 21/40] fix: read the documented key of the GMapping window
 size

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From 80307af607540b706f61c93a0d9a91f6d46c46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 22/40] fix: name the limits of the multi-resolution matcher as
 they are read

---
 config/common/bf_m3rsm.properties | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/common/bf_m3rsm.properties b/config/common/bf_m3rsm.properties
index 264a906..117c208 100644
--- a/config/common/bf_m3rsm.properties
+++ b/config/common/bf_m3rsm.properties
@@ -6,6 +6,6 @@ slam/scmtch/oope/type=max
 slam/scmtch/BF_M3RSM/accuracy/rotation=0.0017
 slam/scmtch/BF_M3RSM/accuracy/translation=0.05
 # 5 degrees
-slam/scmtch/BF_M3RSM/limit/rotation=0.087
-slam/scmtch/BF_M3RSM/limit/x_translation=1
-slam/scmtch/BF_M3RSM/limit/y_translation=1
\ No newline at end of file
+slam/scmtch/BF_M3RSM/limits/rotation=0.087
+slam/scmtch/BF_M3RSM/limits/x_translation=1
+slam/scmtch/BF_M3RSM/limits/y_translation=1
\ No newline at end of file
-- 
2.43.0


From ef3c6fa3eda0ffdd86b09ba7488413ce52b449a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 23/40] fix: let the GMapping configuration name its scan
 probability estimator

---
 config/slams/gmapping_base.properties | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/config/slams/gmapping_base.properties b/config/slams/gmapping_base.properties
index 6ebb80e..1ce4a2f 100644
--- a/config/slams/gmapping_base.properties
+++ b/config/slams/gmapping_base.properties
@@ -13,3 +13,10 @@ slam/particles/sm_delta_lim/xy/min=0.6
 slam/particles/sm_delta_lim/xy/max=0.8
 slam/particles/sm_delta_lim/theta/min=0.3
 slam/particles/sm_delta_lim/theta/max=0.4
+
+# +--------------+
+# | Localization |
+# +--------------+
+slam/scmtch/spe/type=wmpp
+slam/scmtch/spe/wmpp/weighting/type=even
+slam/scmtch/spe/wmpp/sp_skip_rate=3
-- 
2.43.0


From 5e3aaa853c7faa68882a88ea8ab75344c7253021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 24/40] fix: let the experimental vinySLAM configuration name
 its cell type

---
 config/slams/viny_slam_experimental.properties | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/slams/viny_slam_experimental.properties b/config/slams/viny_slam_experimental.properties
index a8ed7a7..88bcab3 100644
--- a/config/slams/viny_slam_experimental.properties
+++ b/config/slams/viny_slam_experimental.properties
@@ -12,6 +12,8 @@ slam/occupancy_estimator/base_occupied/qual=0.04
 slam/occupancy_estimator/base_empty/prob=0.01
 slam/occupancy_estimator/base_empty/qual=0.003
 
+slam/mapping/grid/area/type=tbm_consistent
+
 # == Occupancy Map setup
 
 slam/mapping/grid/type=unbounded_plain
-- 
2.43.0


From 9946842b0a0b18b89706c40d1f81da556112bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 25/40] fix: keep particle weights valid when no particle has
 any

---
 src/core/particle_filter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..22d1895 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -108,6 +108,10 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (!(0 < total_weight)) { // nothing is known about the particles
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From a6540ef562637e37409544805b4fd6d1d7c5b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 26/40] fix: never resample a particle that has no weight

---
 src/core/particle_filter.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index 22d1895..4bb7629 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -55,11 +55,11 @@ public:
       double sample = uniform_distr(engine);
       double total_w = 0;
       for (uint j = 0; j < particles.size(); j++) {
+        if (!(0 < particles[j]->weight())) { continue; }
+        // NB: the last one also takes up what is lost by rounding
+        new_particle_inds[i] = j;
         total_w += particles[j]->weight();
-        if (sample < total_w) {
-          new_particle_inds[i] = j;
-          break;
-        }
+        if (sample < total_w) { break; }
       }
     }
     return new_particle_inds;
-- 
2.43.0


From 60e49d821814ef442492d830ba580e14aeaee3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 27/40] fix: keep the weight of a particle when its scan
 probability is unknown

---
 src/slams/gmapping/gmapping_world.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..5beca43 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -96,7 +96,10 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
+    // NB: a scan of unknown probability says nothing about the particle
+    if (!ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From e289332d75de512a8163c0a2ebd139118f707fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 28/40] fix: treat a copy of the master particle as an ordinary
 particle

---
 src/slams/gmapping/gmapping_world.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 5beca43..f166720 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -49,6 +49,7 @@ public:
     : SingleStateHypothesisLaserScanGridWorld{shw_params}
     , _raw_odom_pose{0, 0, 0}
     , _rnd_engine(std::random_device{}())
+    , _gparams{gparams}
     , _pose_guess_rv{gparams.pose_guess_rv}
     , _next_sm_delta_rv{gparams.next_sm_delta_rv} {
     reset_scan_matching_delta();
@@ -112,7 +113,12 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // NB: a copy of the master is an ordinary particle
+    _pose_guess_rv = _gparams.pose_guess_rv;
+    _next_sm_delta_rv = _gparams.next_sm_delta_rv;
+  }
 
 private:
 
@@ -126,6 +132,7 @@ private:
   bool _is_master = false;
   bool _scan_is_first = true;
   RandomEngine _rnd_engine;
+  GMappingParams _gparams;
   RobotPoseDeltaRV<RandomEngine> _pose_guess_rv, _next_sm_delta_rv;
   RobotPoseDelta _delta_since_last_sm, _next_sm_delta;
 };
-- 
2.43.0


From 026119728655477b153215bacdc8f6dc28a24324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 29/40] fix: give each GMapping particle a map of its own

---
 src/slams/gmapping/gmapping_world.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index f166720..d4c894b 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -114,6 +114,8 @@ public:
   }
   bool is_master() { return _is_master; }
   void sample() override {
+    // NB: maps share their tiles until one of them is written
+    _map = std::make_shared<MapType>(dynamic_cast<const MapType&>(*_map));
     _is_master = false;
     // NB: a copy of the master is an ordinary particle
     _pose_guess_rv = _gparams.pose_guess_rv;
-- 
2.43.0


From 16cc34a6aacbee6debf5d721a9d4ec45b2bb3e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 30/40] fix: let a copy of a GMapping particle draw noise of
 its own

---
 src/slams/gmapping/gmapping_world.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index d4c894b..9e597af 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -116,6 +116,8 @@ public:
   void sample() override {
     // NB: maps share their tiles until one of them is written
     _map = std::make_shared<MapType>(dynamic_cast<const MapType&>(*_map));
+    // NB: otherwise a copy draws the same noise as its source
+    _rnd_engine.seed(std::random_device{}());
     _is_master = false;
     // NB: a copy of the master is an ordinary particle
     _pose_guess_rv = _gparams.pose_guess_rv;
-- 
2.43.0


From 3a5e917adb532692c7ea414aef91350c399a64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 31/40] fix: generate scans from inside of an obstacle

---
 src/utils/data_generation/laser_scan_generator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/data_generation/laser_scan_generator.h b/src/utils/data_generation/laser_scan_generator.h
index f9c0732..ff7e5d6 100644
--- a/src/utils/data_generation/laser_scan_generator.h
+++ b/src/utils/data_generation/laser_scan_generator.h
@@ -64,6 +64,9 @@ public:
         assert(2 == inters.size() && "BUG! LS Gen: obstacle is not pierced");
         auto obst_pnt = Point2D{(inters[0].x + inters[1].x) / 2,
                                 (inters[0].y + inters[1].y) / 2};
+        if (area_id == robot_coord) { // the robot is inside the obstacle
+          obst_pnt = robot_point;
+        }
         auto range = std::sqrt(robot_point.dist_sq(obst_pnt));
         auto scan_point = ScanPoint2D::make_polar(range, a, true);
         scan.points().push_back(scan_point);
-- 
2.43.0


From a79e95e0ddfef74b0e35356396ecefe04c9d4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 32/40] fix: generate exactly one scan point direction per
 configured beam

---
 src/utils/data_generation/laser_scan_generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/data_generation/laser_scan_generator.h b/src/utils/data_generation/laser_scan_generator.h
index ff7e5d6..a558504 100644
--- a/src/utils/data_generation/laser_scan_generator.h
+++ b/src/utils/data_generation/laser_scan_generator.h
@@ -44,8 +44,11 @@ public:
            "LS Gen: robot at cell boundary is not supported");
 
     auto hhsector = _lsp.h_hsector; // horiz. half-sector
-    for (double a = -hhsector; a <= hhsector; a += _lsp.h_angle_inc) {
-      if (2*M_PI <= hhsector + a) { break; }
+    for (unsigned beam_i = 0; ; ++beam_i) {
+      // NB: accumulated rounding would drop or duplicate the last beam
+      auto a = -hhsector + beam_i * _lsp.h_angle_inc;
+      if (!less_or_equal(a, hhsector)) { break; }
+      if (less_or_equal(2*M_PI, hhsector + a)) { break; }
       auto beam_dir = Point2D{_lsp.max_dist * std::cos(a + pose.theta),
                               _lsp.max_dist * std::sin(a + pose.theta)};
       auto area_ids = map.world_to_cells({robot_point, robot_point + beam_dir});
-- 
2.43.0


From cae8b45d17648ef5740064711bd27f52ce37deca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:09 +0000
Subject: [PATCH 33/40] fix: a NaN range of a laser message became an obstacle
 point at NaN

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..541750a 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -6,6 +6,7 @@
 #include <sensor_msgs/LaserScan.h>
 #include <boost/shared_ptr.hpp>
 #include <cassert>
+#include <cmath>
 #include <iostream>
 
 #include "../core/states/state_data.h"
@@ -51,7 +52,7 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
+      if (std::isnan(sp_range) || sp_range < msg->range_min) {
         continue;
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
-- 
2.43.0


From 7548062ca6873a7f77b53b34ebb3f36c7b152164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:47 +0000
Subject: [PATCH 34/40] fix: a log that begins with a scan before its frames
 are known aborted the bag runner

---
 src/ros/bag_topic_with_transform.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..fe49a2a 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -110,6 +110,12 @@ private:
       }
       std::cout << reason << std::endl;;
       return false;
+    } catch (const tf::LookupException &) {
+      // a frame is not known (yet), wait for tf transforms
+      return false;
+    } catch (const tf::ConnectivityException &) {
+      // frames are not connected (yet), wait for tf transforms
+      return false;
     }
 
     _msg_cache.pop();
-- 
2.43.0


From 318b77c648e2c2d0864d469e80fdb79a20f922a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 35/40] fix: scans behind a dropped one at the end of a log
 were lost

---
 src/ros/bag_topic_with_transform.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index fe49a2a..6a6e11a 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -106,7 +106,9 @@ private:
       std::cout << "[WARN][BagTopic] ";
       if (reason.find("past") != std::string::npos) {
          _msg_cache.pop();
-         std::cout << "Scan dropped. ";
+         std::cout << "Scan dropped. " << reason << std::endl;
+         // the next one may be synced already
+         return has_synced_msg();
       }
       std::cout << reason << std::endl;;
       return false;
-- 
2.43.0


From fdd77829d4c7235d479de0223fd308b102428a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 36/40] fix: a node with asynchronous pose correction was
 terminated at shutdown

---
 src/ros/pose_correction_tf_publisher.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ros/pose_correction_tf_publisher.h b/src/ros/pose_correction_tf_publisher.h
index 799bda5..75aa9ce 100644
--- a/src/ros/pose_correction_tf_publisher.h
+++ b/src/ros/pose_correction_tf_publisher.h
@@ -28,6 +28,13 @@ public: //methods
     _transform_publisher = std::move(std::thread{loop_f, this});
   }
 
+  ~PoseCorrectionTfPublisher() {
+    // the loop ends as soon as ROS is shut down
+    if (_transform_publisher.joinable()) {
+      _transform_publisher.join();
+    }
+  }
+
   virtual void handle_transformed_msg(
     const boost::shared_ptr<ObservationType>,
     const tf::StampedTransform& t) override {
-- 
2.43.0


From d551d76b0a52e89d633d3e1c8ec8de5a2eba3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 37/40] fix: the nanoseconds of trajectory stamps lost their
 leading zeros

---
 src/ros/robot_pose_observers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..663ab74 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,8 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.'
+             << std::setw(9) << std::setfill('0') << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From 682ff03ec282082d46ec6c6fa1d2b9f7a861b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 38/40] fix: the multi-resolution matcher aborted on a scan
 without usable obstacle points

---
 src/core/scan_matchers/bf_multi_res_scan_matcher.h | 10 +++++++++-
 src/core/scan_matchers/m3rsm_engine.h              |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..fa85d46 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,7 +43,15 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
+      if (!best_match.is_valid()) {
+        // NB: no pose has a known probability (e.g. no usable scan points)
+        auto unknown_prob = ScanProbabilityEstimator::unknown_probability();
+        result_pose_delta = RobotPoseDelta{0, 0, 0};
+        do_for_each_observer([&](ObsPtr obs) {
+          obs->on_matching_end(result_pose_delta, raw_scan.scan, unknown_prob);
+        });
+        return unknown_prob;
+      }
       if (best_match.is_finest()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index be03aee..cf9d2cd 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -302,6 +302,8 @@ public:
 
   void add_match(Match&& match) {
     double match_prob = match.prob_upper_bound;
+    // NB: a match of unknown probability can't be compared with others
+    if (!match.is_valid()) { return; }
     if (match_prob < _best_finest_probability) { return; }
 
     if (match.is_finest()) {
-- 
2.43.0


From f4f6760b72e30ae2812b44208f001878c32567c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 39/40] fix: the search space evaluator crashed for want of an
 observation quality estimator

---
 src/utils/pose2D_search_space_evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/pose2D_search_space_evaluator.cpp b/src/utils/pose2D_search_space_evaluator.cpp
index c384036..09abfc2 100644
--- a/src/utils/pose2D_search_space_evaluator.cpp
+++ b/src/utils/pose2D_search_space_evaluator.cpp
@@ -146,6 +146,7 @@ void dump_scan(const LaserScan2D &scan, const RobotPose &pose) {
     .set_occupancy_estimator(
       std::make_shared<ConstOccupancyEstimator>(Occupancy{1.0, 1.0},
                                                 Occupancy{0.0, 1.0}))
+    .set_observation_quality_estimator(std::make_shared<IdleOMQE>())
     .build();
   scan_adder->append_scan(map, pose, scan, 1.0);
   GridMapToPgmDumber{"scan"}.on_map_update(map);
-- 
2.43.0


From 1558eec17a7649523975925b4d365c47fdca6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 40/40] fix: build all missing coarser maps at once when one is
 extended by its initialization

---
 src/core/maps/rescalable_caching_grid_map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index 42bdeee..9109449 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -198,6 +198,9 @@ protected:
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
       auto new_map = _map_cache->rbegin() + 1;
       init_coarser_map(**new_map, **(new_map + 1));
+      // NB: a map may have been extended by the initialization
+      pc_w = ge_pow<Map_Scale_Factor>((*new_map)->width());
+      pc_h = ge_pow<Map_Scale_Factor>((*new_map)->height());
     }
   }
 
-- 
2.43.0

