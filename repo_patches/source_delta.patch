From 672aea541ee4cd6643f2f319ad4919dc707c57c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/42] fix: save the whole state of mean-probability and
 gmapping cells

The number of observations (and the mean obstacle position) was not saved, so
a restored map merged further observations differently from the original.
---
 src/core/maps/naive_grid_cells.h        | 13 +++++++++++++
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From 3b5e1a528c2c221ba5c33bfc8e26b6456b17b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/42] fix: append the contents of a byte vector passed to
 Serializer::operator<<

The specialization for const std::vector<char>& was never selected (Type is
deduced as std::vector<char>), so the vector object itself was written.
---
 src/core/serialization.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..232612f 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -60,7 +60,6 @@ Serializer& operator<<(Serializer& s, Type value) {
     return s;
 }
 
-template<>
 inline Serializer& operator<<(Serializer& s, const std::vector<char>& data) {
     s.append(data);
     return s;
-- 
2.43.0


From 96a4c9675f70e8a5067b11ad0bec4c655b09ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/42] fix: a vacuous belief gives an even occupancy instead
 of NaN

An observation of zero quality or a total conflict left no mass in 'occupied'
and 'empty', so TbmOccConsistentCell reported 0/0.
---
 src/core/maps/tbm_grid_cells.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..8ffc982 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,7 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    if (qual == 0.0) { return Occupancy{0.5, 0.0}; } // a vacuous belief
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From c690be6ca18260762da21f6a6dcd000242443c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 04/42] fix: do not look at cells outside of a bounded map in
 M3RSM map validation

A coarse cell of a map whose size is not a power of two sticks out of the
finest level; validate() read the missing cells.
---
 src/core/scan_matchers/m3rsm_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..141f481 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -72,7 +72,7 @@ protected:
                                  const Rectangle &area) const {
     double max = std::numeric_limits<double>::lowest();
     for (auto &a_id : GridRasterizedRectangle{map, area, false}.to_vector()) {
-      if (map[a_id].is_unknown()) { continue; }
+      if (!map.has_cell(a_id) || map[a_id].is_unknown()) { continue; }
       max = std::max(estimate_spe_obstacle_impact(map[a_id]), max);
     }
 
-- 
2.43.0


From 024d34d59c8b722aa53873d2900ff2c1fe174711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 05/42] fix: keep coarser levels of the M3RSM map bounding the
 finest one

* levels that are added when the map grows were left empty, known areas were
  not represented there;
* the first low-impact cell lowered an unknown coarse area although the area
  still covered unknown cells of a greater impact, so the matcher's bounding
  assumption was violated (assert in M3RSMEngine::branch).
---
 src/core/scan_matchers/m3rsm_engine.h | 141 ++++++++++++++++++++++----
 1 file changed, 119 insertions(+), 22 deletions(-)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index 141f481..4a90e60 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -84,50 +84,147 @@ protected:
 
   void pre_area_update(const AreaId &area_id) {
     _prev_fine_impact = estimate_spe_obstacle_impact(active_map()[area_id]); 
+    _prev_width = active_map().width();
+    _prev_height = active_map().height();
+    _prev_coarsest_scale_id = coarsest_scale_id();
   }
 
   void post_area_update(const AreaId &area_id) {
     // TODO: update if a "non-finest" cell is updated?
     assert(scale_id() == finest_scale_id());
-    const auto &modified_area = active_map()[area_id];
-    auto modified_space = active_map().world_cell_bounds(area_id);
-    auto fine_impact = estimate_spe_obstacle_impact(modified_area);
 
     // TODO: implement coarcer maps update on impact decrease
     // assert(less_or_equal(_prev_fine_impact, fine_impact));
-    update_coarser_maps(area_id, fine_impact);
+    update_coarser_maps(area_id);
+
+    const auto &finest_map = active_map();
+    if (finest_map.width() != _prev_width ||
+        finest_map.height() != _prev_height ||
+        coarsest_scale_id() != _prev_coarsest_scale_id) {
+      // The map has grown: added levels know nothing about known areas,
+      // existing coarser areas might cover new (unknown) finer ones.
+      rebuild_coarser_maps();
+    }
   }
 
-  void update_coarser_maps(const AreaId &area_id, const double impact) {
+  void update_coarser_maps(const AreaId &area_id) {
     const auto &modified_area = active_map()[area_id];
     auto modified_space = active_map().world_cell_bounds(area_id);
 
     for (unsigned coarser_scale_id = scale_id() + 1;
          coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
+      if (!propagate(modified_area, modified_space, coarser_scale_id)) {
+        break;
+      }
+    }
+  }
+
+  void rebuild_coarser_maps() {
+    for (unsigned coarser_scale_id = scale_id() + 1;
+         coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
+      forget_map(coarser_scale_id);
+      propagate_entire_map(coarser_scale_id);
+    }
+  }
+
+  void forget_map(unsigned scale_id) {
+    auto &target_map = map(scale_id);
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < target_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < target_map.height(); ++raw_crd.y) {
+        auto area_id = target_map.internal2external(raw_crd);
+        if (target_map[area_id].is_unknown()) { continue; }
+        target_map.reset(area_id, *GridMap::cell_prototype());
+      }
+    }
+  }
+
+  // Propagates a (finer) area to a given coarser level.
+  // Returns whether the level has been modified.
+  bool propagate(const GridCell &area, const Rectangle &space,
+                 unsigned coarser_scale_id) {
+    auto& coarser_map = map(coarser_scale_id);
+    auto impact = estimate_spe_obstacle_impact(area);
+    bool coarser_area_is_updated = false;
+    auto cm_coords = GridRasterizedRectangle{coarser_map, space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      const auto *new_area = &area;
+      if (less_or_equal(impact, coarser_impact)) {
+        if (!coarser_area.is_unknown()) { continue; }
+        // NB: an unknown area can be lowered only if it doesn't cover
+        //     unknown finer areas, otherwise it stops bounding them.
+        new_area = most_impactive_finer_area(coarser_scale_id, coord);
+        if (new_area->is_unknown() && is_inside(coarser_map, coord)) {
+          continue;
+        }
+      }
+
+      coarser_map.reset(coord, *new_area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
+  }
+
+  void propagate_entire_map(unsigned coarser_scale_id) {
+    const auto &finer_map = map(coarser_scale_id - 1);
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+        propagate(area, finer_map.world_cell_bounds(area_id), coarser_scale_id);
       }
-      if (!coarser_area_is_updated) { break; }
     }
   }
 
+  // Looks for the area among those on the next finer level that are covered by
+  // a given one. Areas outside of the finest map are not taken into account.
+  const GridCell *most_impactive_finer_area(unsigned coarser_scale_id,
+                                            const AreaId &coarser_id) const {
+    const auto &finest_map = map(finest_scale_id());
+    const auto &finer_map = map(coarser_scale_id - 1);
+    auto lb = finer_map.world_to_cell(finest_map.cell_to_world(
+      finest_map.internal2external({0, 0})));
+    auto rt = finer_map.world_to_cell(finest_map.cell_to_world(
+      finest_map.internal2external({finest_map.width() - 1,
+                                    finest_map.height() - 1})));
+
+    const GridCell *result = nullptr;
+    double max_impact = std::numeric_limits<double>::lowest();
+    auto space = map(coarser_scale_id).world_cell_bounds(coarser_id);
+    auto fm_coords = GridRasterizedRectangle{finer_map, space, false};
+    while (fm_coords.has_next()) {
+      auto coord = fm_coords.next();
+      bool is_inside = lb.x <= coord.x && coord.x <= rt.x &&
+                       lb.y <= coord.y && coord.y <= rt.y;
+      if (!is_inside) { continue; }
+      const auto &area = finer_map[coord];
+      auto impact = estimate_spe_obstacle_impact(area);
+      if (result && impact <= max_impact) { continue; }
+      result = &area;
+      max_impact = impact;
+    }
+    assert(result && "BUG: an area without finer ones is updated");
+    return result;
+  }
+
+  // NB: has_cell is always true for unbounded maps
+  bool is_inside(const GridMap &map, const AreaId &area_id) const {
+    auto lb = map.internal2external({0, 0});
+    return lb.x <= area_id.x && area_id.x < lb.x + map.width() &&
+           lb.y <= area_id.y && area_id.y < lb.y + map.height();
+  }
+
 private:
   std::shared_ptr<ObservationImpactEstimator> _oie;
   double _prev_fine_impact;
+  int _prev_width, _prev_height;
+  unsigned _prev_coarsest_scale_id;
 };
 
 struct Match {
-- 
2.43.0


From e5b421dc0e7fe21a778b115d970529a8d9a1f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 06/42] fix: intersect rectangles that cross each other

---
 src/core/geometry_primitives.h | 50 ++++------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..1d3f587 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,11 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto ibot = std::max(bot(), that.bot()), itop = std::min(top(), that.top());
+    auto ileft = std::max(left(), that.left());
+    auto iright = std::min(right(), that.right());
+    if (itop < ibot || iright < ileft) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +269,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From 73b7cb0b679773c01b71e1e1137441fd49a13166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 07/42] fix: keep the error of the line when a beam passes a
 corner of a cell

---
 src/core/maps/regular_squares_grid.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..5a3fdf7 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,9 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e = e_x + e_y_inc; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0


From deec9dda675f3dba84aefa083cfefed888091430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 08/42] fix: rasterize areas that are lines

---
 src/core/maps/grid_rasterization.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/grid_rasterization.h b/src/core/maps/grid_rasterization.h
index e480d3c..178ed59 100644
--- a/src/core/maps/grid_rasterization.h
+++ b/src/core/maps/grid_rasterization.h
@@ -36,7 +36,10 @@ public:
     } else if (area_is_empty) {
       // TODO: do not pass scale as an argument. This causes slight slow down.
       //       Find out the reason.
-      _rt = _lb = grid.world_to_cell(r.left(), r.bot());
+      double h_offset = r.hside_len() == 0 ? 0 : offset,
+             v_offset = r.vside_len() == 0 ? 0 : offset;
+      _lb = grid.world_to_cell(r.left() + h_offset, r.bot() + v_offset);
+      _rt = grid.world_to_cell(r.right() - h_offset, r.top() - v_offset);
     } else if (area_is_infin) {
       _lb = grid.internal2external({0, 0});
       _rt = grid.internal2external({grid.width() - 1, grid.height() - 1});
-- 
2.43.0


From a646a3c78a7da1e76949839b946bd79ff40ddf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 09/42] fix: shift a beam off an edge in proportion to the cell
 at hand

---
 src/core/maps/area_occupancy_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..31a1226 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-- 
2.43.0


From 7d7ab4a353463a941e39588f0091f40759e43ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 10/42] fix: estimate occupancy by a beam of zero length on a
 cell border

---
 src/core/maps/area_occupancy_estimator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 31a1226..209b444 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -72,12 +72,14 @@ private: // methods
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
+    // NB: a beam of zero length may be on two edge lines
     if (s.is_horiz()) {
-      shift = {0, (are_equal(s.beg().y, cell.top()) ? -1 : 1) * Shift_Amount};
-    } else if (s.is_vert()) {
-      shift = {(are_equal(s.beg().x, cell.right()) ? -1 : 1) * Shift_Amount, 0};
-    } else {
-      assert(false && "BUG: non-axis aligned segment is on rectange edge");
+      if      (are_equal(s.beg().y, cell.top())) { shift.y = -Shift_Amount; }
+      else if (are_equal(s.beg().y, cell.bot())) { shift.y =  Shift_Amount; }
+    }
+    if (s.is_vert()) {
+      if      (are_equal(s.beg().x, cell.right())) { shift.x = -Shift_Amount; }
+      else if (are_equal(s.beg().x, cell.left()))  { shift.x =  Shift_Amount; }
     }
 
     Segment2D shifted_s{s.beg() + shift, s.end() + shift};
-- 
2.43.0


From 52e481a02a6d3fa7981056a9700d752593adbafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 11/42] fix: tell which side of an obstacle a part of a cell is
 on

---
 src/core/maps/area_occupancy_estimator.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 209b444..efb4c0a 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -209,21 +209,19 @@ private: // methods
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
-    if (is_occ &&
-        are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
-      area = bnds.area() - area;
+    if (is_occ) {
+      // the occupied part lies behind the line through the intersections
+      Point2D corner{corner_x, corner_y},
+              opposite{bnds.left() + bnds.right() - corner_x,
+                       bnds.bot() + bnds.top() - corner_y};
+      Point2D corner_dir = opposite - corner, beam_dir = beam.end() - beam.beg();
+      if (0 < corner_dir.x * beam_dir.x + corner_dir.y * beam_dir.y) {
+        area = bnds.area() - area;
+      }
     }
     return area;
   }
 
-  bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
-                            const Point2D &p1, const Point2D &p2) {
-    double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
-  }
-
   Occupancy estimate_occupancy(double chunk_area, double total_area,
                                bool is_occ) {
     double area_rate = chunk_area / total_area;
-- 
2.43.0


From 04260ace53e40ade87ee1e6aebe9d1da474ad1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 12/42] fix: do not lose intersections at a vertex because of
 rounding

---
 src/core/geometry_primitives.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 1d3f587..f13dcf7 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -120,13 +120,13 @@ struct Ray { // in parametric form
 
 public:
   void intersect(const Segment2D &s, Intersection::Location loc,
-                 Intersections &consumer) const {
+                 Intersections &consumer, double eps = 0) const {
     if (s.is_horiz()) {
-      intersect_horiz_segm(s.beg().x, s.end().x, s.beg().y, loc, consumer);
+      intersect_horiz_segm(s.beg().x, s.end().x, s.beg().y, loc, consumer, eps);
       return;
     }
     if (s.is_vert()) {
-      intersect_vert_segm(s.beg().y, s.end().y, s.beg().x, loc, consumer);
+      intersect_vert_segm(s.beg().y, s.end().y, s.beg().x, loc, consumer, eps);
       return;
     }
     assert(false && "BUG: Unable to intersect non-axes-aligned segment");
@@ -135,12 +135,12 @@ public:
 private:
   void intersect_horiz_segm(double st_x, double end_x, double y,
                             Intersection::Location loc,
-                            Intersections &consumer) const {
+                            Intersections &consumer, double eps) const {
     if (are_equal(delta.y, 0)) { return; }
 
     double inters_alpha = (y - beg.y) / delta.y;
     double inters_x = beg.x + inters_alpha * delta.x;
-    if (inters_x < st_x || end_x < inters_x) // out of segment bounds
+    if (inters_x < st_x - eps || end_x + eps < inters_x) // out of segment bounds
       return;
 
     consumer.emplace_back(loc, inters_x, y);
@@ -148,12 +148,12 @@ private:
 
   void intersect_vert_segm(double st_y, double end_y, double x,
                            Intersection::Location loc,
-                           Intersections &consumer) const {
+                           Intersections &consumer, double eps) const {
     if (are_equal(delta.x, 0)) { return; }
 
     double inters_alpha = (x - beg.x) / delta.x;
     double inters_y = beg.y + inters_alpha * delta.y;
-    if (inters_y < st_y || end_y < inters_y) // out of segment bounds
+    if (inters_y < st_y - eps || end_y + eps < inters_y) // out of segment bounds
       return;
 
     consumer.emplace_back(loc, x, inters_y);
@@ -334,13 +334,21 @@ public: // methods
   }
 
   Intersections find_intersections(const Ray &ray) const {
+    auto intersections = find_intersections(ray, 0);
+    // NB: a vertex may be missed because of fp rounding errors
+    return intersections.size() < 2 ? find_intersections(ray, 1e-11) :
+                                      intersections;
+  }
+
+private: // methods
+  Intersections find_intersections(const Ray &ray, double eps) const {
     Intersections intersections;
 
     // NB: order matters for correct vertex intersection handling
-    ray.intersect(top_edge(), Intersection::Location::Top, intersections);
-    ray.intersect(left_edge(), Intersection::Location::Left, intersections);
-    ray.intersect(bot_edge(), Intersection::Location::Bot, intersections);
-    ray.intersect(right_edge(), Intersection::Location::Right, intersections);
+    ray.intersect(top_edge(), Intersection::Location::Top, intersections, eps);
+    ray.intersect(left_edge(), Intersection::Location::Left, intersections, eps);
+    ray.intersect(bot_edge(), Intersection::Location::Bot, intersections, eps);
+    ray.intersect(right_edge(), Intersection::Location::Right, intersections, eps);
 
     // filter dublicate intersection (intersection is a vertex)
     if (1 < intersections.size() &&
@@ -353,7 +361,6 @@ public: // methods
     return intersections;
   }
 
-private: // methods
   const Segment2D& bot_edge()   const { return edges()[BOT_EDGE_IDX]; }
   const Segment2D& top_edge()   const { return edges()[TOP_EDGE_IDX]; }
   const Segment2D& left_edge()  const { return edges()[LFT_EDGE_IDX]; }
-- 
2.43.0


From cccdd07498ab9ec00a36c498038ddcccd4fc070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 13/42] fix: recognise a segment of zero length on a horizontal
 edge line

---
 src/core/geometry_primitives.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index f13dcf7..84ab186 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -306,13 +306,11 @@ public: // methods
 
   // NB: segment is not necessary coincide with an edge of the rectangle
   bool has_on_edge_line(const Segment2D &s) const {
-    if (s.is_vert()) {
-      return are_equal(s.beg().x, left()) || are_equal(s.beg().x, right());
-    }
-    if (s.is_horiz()) {
-      return are_equal(s.beg().y, bot()) || are_equal(s.beg().y, top());
-    }
-    return false;
+    // NB: a segment of zero length is both vertical and horizontal
+    return (s.is_vert() && (are_equal(s.beg().x, left()) ||
+                            are_equal(s.beg().x, right()))) ||
+           (s.is_horiz() && (are_equal(s.beg().y, bot()) ||
+                             are_equal(s.beg().y, top())));
   }
 
   Segment2D find_containing_edge(const Point2D &p) const {
-- 
2.43.0


From 6e14623e2e4c29cf645b3ca8bb5537424c7a40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 14/42] fix: tolerate rounding of the area of a part of a cell

---
 src/core/maps/area_occupancy_estimator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index efb4c0a..0b0ae41 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -208,6 +208,7 @@ private: // methods
       // NOTE: cell is supposed to be a square
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
+    area = std::min(area, bnds.area()); // fp rounding errors
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
     if (is_occ) {
       // the occupied part lies behind the line through the intersections
-- 
2.43.0


From 4acd1bf6c15adecf7c3924bcba789e7eb981b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 15/42] fix: put directions of almost horizontal segments to
 the histogram

---
 src/core/features/angle_histogram.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..fcb0ef0 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,13 +84,15 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    // NB: an almost horizontal segment can be rounded to 180
+    return angle < M_PI ? angle : 0;
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
-    auto hist_i = std::size_t(std::floor(angle / angle_step()));
+    auto hist_i = std::min(std::size_t(std::floor(angle / angle_step())),
+                           _n - 1); // fp rounding errors
     assert(hist_i < _hist.size());
     return hist_i;
   }
-- 
2.43.0


From c8fd2cfad3432d680766f4e9cec9d87c4c6aab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 16/42] fix: ignore scans that are not longer than both margins

---
 src/core/maps/grid_map_scan_adders.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..eac4b54 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -62,8 +62,7 @@ public:
     _omqe->reset(scan);
 
     const auto &points = scan.points();
-    size_t last_pt_i = points.size() - scan_margin - 1;
-    for (size_t pt_i = scan_margin; pt_i <= last_pt_i; ++pt_i) {
+    for (size_t pt_i = scan_margin; pt_i + scan_margin < points.size(); ++pt_i) {
       const auto &sp = points[pt_i];
       // move to world frame assume sensor is in robots' (0,0)
       const auto &wp = sp.move_origin(rp, scan.trig_provider);
-- 
2.43.0


From 29f460445a566869d07c764e3932965859d9865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 17/42] fix: recognise an unknown scan probability

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..41d7d2f 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability); // NB: NaN isn't equal to itself
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From 132376826f6c478a1926d73e00cbef36bf01fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 18/42] fix: a gmapping cell without hits agrees with no
 obstacle

---
 src/slams/gmapping/gmapping_grid_cell.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index acff67a..2dc626c 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -33,6 +33,7 @@ public:
   }
 
   double discrepancy(const AreaOccupancyObservation &aoo) const override {
+    if (_hits == 0) { return 1.0; } // there is no obstacle to compare with
     auto similarity = std::exp(-obst.dist_sq(aoo.obstacle) / DIST_VARIANCE);
     return 1.0 - similarity;
   }
-- 
2.43.0


From 682021a40c2c0b0d079ba9563f776d0f701ab336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 19/42] fix: enumerate poses around a newly given one after a
 reset

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From b85b78406bf6ac172e17097740a91353fe42655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 20/42] fix: keep pose enumeration inside of its ranges
 including both ends

---
 src/core/scan_matchers/brute_force_scan_matcher.h | 12 +++++++-----
 src/core/scan_matchers/pose_enumerators.h         |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index aa506f1..d6fdba1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -21,7 +21,7 @@ public:
   }
 
   bool has_next() const override {
-    return _t <= _to_t; // NB: "top-level" changing dimension
+    return less_or_equal(_t, _to_t); // NB: "top-level" changing dimension
   }
 
   RobotPose next(const RobotPose &prev_pose) override {
@@ -44,11 +44,13 @@ public:
     // HACK: use switch falls to simplify code (no nested ifs/d_y, d_t tracking
     switch (0) {
     case 0:
-      if (_x < _to_x) { _x += _step_x; break; }
-      else            { _x = _from_x; /* to Y */ }
+      _x += _step_x;
+      if (less_or_equal(_x, _to_x)) { break; }
+      _x = _from_x; /* to Y */
     case 1:
-      if (_y < _to_y) { _y += _step_y; break; }
-      else            { _y = _from_y; /* to T */ }
+      _y += _step_y;
+      if (less_or_equal(_y, _to_y)) { break; }
+      _y = _from_y; /* to T */
     case 2:
       _t += _step_t;
     }
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 214d40c..96a558d 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -27,7 +27,7 @@ public:
   }
 
   bool has_next() const override {
-    return _dst <= _to_dst; // NB: "top-level" changing dimension
+    return less_or_equal(_dst, _to_dst); // NB: "top-level" changing dimension
   }
 
   RobotPose next(const RobotPose &prev_pose) override {
@@ -51,8 +51,9 @@ public:
     // HACK: use switch falls to simplify code (no nested ifs)
     switch (0) {
     case 0:
-      if (_dir < _to_dir) { _dir += _step_dir; break; }
-      else                { _dir = _from_dir; /* to dst */ }
+      _dir += _step_dir;
+      if (less_or_equal(_dir, _to_dir)) { break; }
+      _dir = _from_dir; /* to dst */
     case 1:
       _dst += _step_dst;
     }
-- 
2.43.0


From aa2a06b0f9df6a72e68dd5ac1796d57de414db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 21/42] fix: turn the steps of hill climbing by the given frame
 rotation

---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..7dce9a7 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -76,7 +76,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -111,12 +112,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
@@ -156,7 +158,8 @@ private:
     if (!_use_frame_alignement) { return; }
     auto hist = AngleHistogram{20};
     hist.reset(scan);
-    double frame_rot = hist.major_direction();
+    // NB: a single point has no direction
+    double frame_rot = 1 < scan.points().size() ? hist.major_direction() : 0;
 
     auto pe = std::make_shared<HCPE>(_max_lookup_failed_attempts,
         _translation_delta, _rotation_delta, frame_rot);
-- 
2.43.0


From 51e952c4e5c90de3fcc8dc5a22d221af7a1963cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 22/42] fix: match a scan without usable points by
 multi-resolution search

There is nothing to compare if the scan probability is unknown. An
assertion failed instead of reporting the unknown probability like other
matchers do.
---
 .../scan_matchers/bf_multi_res_scan_matcher.h | 20 ++++++++++++++++++-
 src/core/scan_matchers/m3rsm_engine.h         |  1 +
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..8bb42f9 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,7 +43,11 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
+      if (!best_match.is_valid()) {
+        // NB: the scan has no usable points, so there is nothing to match
+        return handle_unknown_probability(raw_scan, pose, map,
+                                          result_pose_delta);
+      }
       if (best_match.is_finest()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
@@ -65,6 +69,20 @@ public:
     }
   }
 
+private:
+  double handle_unknown_probability(const TransformedLaserScan &raw_scan,
+                                    const RobotPose &pose, const GridMap &map,
+                                    RobotPoseDelta &result_pose_delta) {
+    auto unknown_prob = ScanProbabilityEstimator::unknown_probability();
+    auto scan = filter_scan(raw_scan.scan, pose, map);
+
+    result_pose_delta = RobotPoseDelta{};
+    do_for_each_observer([&result_pose_delta, &scan, unknown_prob](ObsPtr obs) {
+      obs->on_matching_end(result_pose_delta, scan, unknown_prob);
+    });
+    return unknown_prob;
+  }
+
 private:
   M3RSMEngine _engine;
   double _ang_step, _transl_step;
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index 4a90e60..3befee2 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -375,6 +375,7 @@ public:
   }
 
   void add_match(Match&& match) {
+    if (!match.is_valid()) { return; }
     double match_prob = match.prob_upper_bound;
     if (match_prob < _best_finest_probability) { return; }
 
-- 
2.43.0


From 0b4b20191b3a3bda195ccdbb6461311d52634544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:03 +0000
Subject: [PATCH 23/42] fix: do not lose cells on a border of a matched area
 because of rounding

A drift aligned with the grid could cover less cells than its finer parts
(assert in M3RSMEngine::branch).
---
 src/core/scan_matchers/m3rsm_engine.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index 3befee2..c252ad7 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -273,7 +273,7 @@ public:
     map->rescale(target_scale);
     prob_upper_bound = spe->estimate_scan_probability(
        *filtered_scan, drifted_pose, *map,
-       SPEParams{translation_drift, scan_is_prerotated});
+       SPEParams{analysis_area(), scan_is_prerotated});
   }
 
   Match(const Rect &tdrift, const Match &that)
@@ -302,6 +302,17 @@ public:
 private: // methods
   Match(double prob) : prob_upper_bound{prob}  {}
 
+  // NB: rounding must not move a bound of a drift aligned with the grid to
+  //     another cell, otherwise the drift stops covering its finer parts.
+  Rect analysis_area() const {
+    const double Margin = 1e-9;
+    const auto &td = translation_drift;
+    double v_margin = td.vside_len() == 0 ? 0 : Margin,
+           h_margin = td.hside_len() == 0 ? 0 : Margin;
+    return Rect{td.bot() - v_margin, td.top() + v_margin,
+                td.left() - h_margin, td.right() + h_margin};
+  }
+
   void filter_prerotated_scan() {
     return;
     /*
-- 
2.43.0


From e3ff3f65f0c1c0be855e9cf94bf81773f8e6d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 24/42] fix: normalize particles without a weight to equal
 weights

---
 src/core/particle_filter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..5c17730 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_PARTICLE_FILTER_H_INCLUDED
 #define SLAM_CTOR_PARTICLE_FILTER_H_INCLUDED
 
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <random>
@@ -108,6 +109,11 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (!std::isnormal(total_weight)) {
+      // NB: weights say nothing (e.g. all of them are zero)
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From f109abdf7f4f7c09a2ff830e9703d645448f3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 25/42] fix: keep the weight of a gmapping particle if its scan
 has an unknown probability

---
 src/slams/gmapping/gmapping_world.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..afab245 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -96,7 +96,9 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
+    if (!ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From 8245fa90580ce4a79e62e7eb9c383d6d7800a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 26/42] fix: make gmapping particles independent hypotheses
 with own maps

---
 src/slams/gmapping/gmapping_world.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index afab245..459ee3a 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -111,7 +111,13 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // NB: a hypothesis doesn't share its map and noise with the one it's
+    //     copied from
+    _map = std::make_shared<MapType>(dynamic_cast<const MapType&>(*_map));
+    _rnd_engine.seed(std::random_device{}());
+  }
 
 private:
 
-- 
2.43.0


From 3f68c6284b91315bb458f2645c879125284abcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 27/42] fix: copies of the gmapping master particle are noised
 as other particles

---
 src/slams/gmapping/gmapping_world.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 459ee3a..77fc612 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -78,7 +78,7 @@ public:
 
     // TODO: consider super::handle_observation
 
-    if (!_scan_is_first) {
+    if (!_scan_is_first && !_is_master) {
       // add "noise" to guess extra cost function peak
       auto noise = _pose_guess_rv.sample(_rnd_engine);
       LaserScanGridWorld::update_robot_pose(noise);
@@ -103,12 +103,8 @@ public:
   }
 
   void mark_master() {
-    _is_master = true;
     // master is corrected on each step without noise
-    _pose_guess_rv = RobotPoseDeltaRV<RandomEngine>{
-      GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
-    _next_sm_delta_rv = RobotPoseDeltaRV<RandomEngine>{
-      GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
+    _is_master = true;
   }
   bool is_master() { return _is_master; }
   void sample() override {
@@ -123,7 +119,8 @@ private:
 
   void reset_scan_matching_delta() {
     _delta_since_last_sm.reset();
-    _next_sm_delta = _next_sm_delta_rv.sample(_rnd_engine);
+    _next_sm_delta = _is_master ? RobotPoseDelta{} :
+                                  _next_sm_delta_rv.sample(_rnd_engine);
   }
 
 private:
-- 
2.43.0


From c9ede4649997f3c9edfb262c6ff3a9ee77d291df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:57 +0000
Subject: [PATCH 28/42] fix: don't use an outdated agreement of a gmapping cell
 with an obstacle

---
 .../gmapping/gmapping_occupancy_observation_pe.h      | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..72dd1d9 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,16 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
-
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
       for (int d_y = -Window_Sz; d_y <= Window_Sz; ++d_y) {
@@ -33,15 +29,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From a1744d83ba373463cd464a41c3420c7f3137dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 29/42] fix: do not mix up the configured width and height of a
 map

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From 44cacabb425ba75e17d66a0072e0512eae3546f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 30/42] fix: read the documented window size of gmapping

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From e21883194ff4fc7804dedfcc7898707e1706bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 31/42] fix: read the type of an observation quality estimator
 by a sane key

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From aad27d2507b642f54cdd5626bc4a1b07a88d2a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 32/42] fix: set limits of the multi-resolution matcher by the
 keys it reads

---
 config/common/bf_m3rsm.properties | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/common/bf_m3rsm.properties b/config/common/bf_m3rsm.properties
index 264a906..117c208 100644
--- a/config/common/bf_m3rsm.properties
+++ b/config/common/bf_m3rsm.properties
@@ -6,6 +6,6 @@ slam/scmtch/oope/type=max
 slam/scmtch/BF_M3RSM/accuracy/rotation=0.0017
 slam/scmtch/BF_M3RSM/accuracy/translation=0.05
 # 5 degrees
-slam/scmtch/BF_M3RSM/limit/rotation=0.087
-slam/scmtch/BF_M3RSM/limit/x_translation=1
-slam/scmtch/BF_M3RSM/limit/y_translation=1
\ No newline at end of file
+slam/scmtch/BF_M3RSM/limits/rotation=0.087
+slam/scmtch/BF_M3RSM/limits/x_translation=1
+slam/scmtch/BF_M3RSM/limits/y_translation=1
\ No newline at end of file
-- 
2.43.0


From 5444cc044e8f98537bddba5be1a22034500c2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 33/42] fix: set the required scan probability estimator in the
 gmapping config

---
 config/slams/gmapping_base.properties | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/slams/gmapping_base.properties b/config/slams/gmapping_base.properties
index 6ebb80e..192ca79 100644
--- a/config/slams/gmapping_base.properties
+++ b/config/slams/gmapping_base.properties
@@ -13,3 +13,9 @@ slam/particles/sm_delta_lim/xy/min=0.6
 slam/particles/sm_delta_lim/xy/max=0.8
 slam/particles/sm_delta_lim/theta/min=0.3
 slam/particles/sm_delta_lim/theta/max=0.4
+
+# +--------------+
+# | Localization |
+# +--------------+
+slam/scmtch/spe/type=wmpp
+slam/scmtch/spe/wmpp/weighting/type=even
-- 
2.43.0


From 13691bf4085ab1b6325608816e18816347686473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 34/42] fix: let a scan generator handle a robot anywhere
 inside an obstacle

---
 src/utils/data_generation/laser_scan_generator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/data_generation/laser_scan_generator.h b/src/utils/data_generation/laser_scan_generator.h
index f9c0732..f8d2174 100644
--- a/src/utils/data_generation/laser_scan_generator.h
+++ b/src/utils/data_generation/laser_scan_generator.h
@@ -64,7 +64,10 @@ public:
         assert(2 == inters.size() && "BUG! LS Gen: obstacle is not pierced");
         auto obst_pnt = Point2D{(inters[0].x + inters[1].x) / 2,
                                 (inters[0].y + inters[1].y) / 2};
-        auto range = std::sqrt(robot_point.dist_sq(obst_pnt));
+        auto to_obst = obst_pnt - robot_point;
+        // NB: a robot inside an obstacle may have the middle behind it
+        bool is_ahead = 0 < to_obst.x * beam_dir.x + to_obst.y * beam_dir.y;
+        auto range = is_ahead ? std::sqrt(robot_point.dist_sq(obst_pnt)) : 0.0;
         auto scan_point = ScanPoint2D::make_polar(range, a, true);
         scan.points().push_back(scan_point);
 
-- 
2.43.0


From 25abe411f160acf1df81c6e0fdc679372c8606b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 35/42] fix: do not double or lose scanner's border beam
 because of rounding

---
 src/utils/data_generation/laser_scan_generator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/data_generation/laser_scan_generator.h b/src/utils/data_generation/laser_scan_generator.h
index f8d2174..46cb478 100644
--- a/src/utils/data_generation/laser_scan_generator.h
+++ b/src/utils/data_generation/laser_scan_generator.h
@@ -44,8 +44,10 @@ public:
            "LS Gen: robot at cell boundary is not supported");
 
     auto hhsector = _lsp.h_hsector; // horiz. half-sector
-    for (double a = -hhsector; a <= hhsector; a += _lsp.h_angle_inc) {
-      if (2*M_PI <= hhsector + a) { break; }
+    // NB: accumulated angles are subject to fp rounding errors
+    for (double a = -hhsector; less_or_equal(a, hhsector);
+         a += _lsp.h_angle_inc) {
+      if (less_or_equal(2*M_PI, hhsector + a)) { break; }
       auto beam_dir = Point2D{_lsp.max_dist * std::cos(a + pose.theta),
                               _lsp.max_dist * std::sin(a + pose.theta)};
       auto area_ids = map.world_to_cells({robot_point, robot_point + beam_dir});
-- 
2.43.0


From 0d7f27e5b4dd8a7e0182b01b1bc13f20f20b2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 36/42] fix: the search space evaluator crashed on dumping its
 scan

---
 src/utils/pose2D_search_space_evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/pose2D_search_space_evaluator.cpp b/src/utils/pose2D_search_space_evaluator.cpp
index c384036..09abfc2 100644
--- a/src/utils/pose2D_search_space_evaluator.cpp
+++ b/src/utils/pose2D_search_space_evaluator.cpp
@@ -146,6 +146,7 @@ void dump_scan(const LaserScan2D &scan, const RobotPose &pose) {
     .set_occupancy_estimator(
       std::make_shared<ConstOccupancyEstimator>(Occupancy{1.0, 1.0},
                                                 Occupancy{0.0, 1.0}))
+    .set_observation_quality_estimator(std::make_shared<IdleOMQE>())
     .build();
   scan_adder->append_scan(map, pose, scan, 1.0);
   GridMapToPgmDumber{"scan"}.on_map_update(map);
-- 
2.43.0


From e34d0b26bb7d51a2c048261f5a66ea2fe2712f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 37/42] fix: the scan matcher runner skipped scan points twice

---
 src/utils/sm_runner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 7f68dd6..1330085 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -73,13 +73,13 @@ int main(int argc, char **argv) {
 
   // 1) Setup
   auto pose = setup_pose2D(argv[Pose_File_I]);
-  auto raw_scan = setup_laser_scan2D(argv[Scan_File_I]);
+  auto scan = setup_laser_scan2D(argv[Scan_File_I]);
   auto map = setup_map(props, argv[Map_File_I]);
   assert(map->validate());
 
   // 2)
   auto sm = init_scan_matcher(props);
-  auto scan = sm->filter_scan(raw_scan, pose, *map);
+  // NB: a scan is filtered by the scan matcher
   auto pose_delta = RobotPoseDelta{0, 0, 0};
 
   auto tr_scan = TransformedLaserScan{{}, scan, 1 /* qualtiy */};
-- 
2.43.0


From 63fc9ea7f26722c8cca09d80d2a779e0d698c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 38/42] fix: readings that are not a number became scan points

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..062f571 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 #define SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 
+#include <cmath>
 #include <utility>
 #include <memory>
 #include <sensor_msgs/LaserScan.h>
@@ -51,7 +52,7 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
+      if (std::isnan(sp_range) || sp_range < msg->range_min) {
         continue;
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
-- 
2.43.0


From bb4e40b5288c119921ccac87b10299642e2d4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 39/42] fix: leading zeros of nanoseconds were lost in dumped
 trajectories

---
 src/ros/robot_pose_observers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..663ab74 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,8 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.'
+             << std::setw(9) << std::setfill('0') << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From 79a795870fa02e1e9f069528929cba7af8bf894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 40/42] fix: a node with asynchronous pose correction was
 aborted on exit

---
 src/ros/pose_correction_tf_publisher.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ros/pose_correction_tf_publisher.h b/src/ros/pose_correction_tf_publisher.h
index 799bda5..f6457b3 100644
--- a/src/ros/pose_correction_tf_publisher.h
+++ b/src/ros/pose_correction_tf_publisher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 #define SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 
+#include <atomic>
 #include <thread>
 #include <mutex>
 #include <utility>
@@ -28,6 +29,13 @@ public: //methods
     _transform_publisher = std::move(std::thread{loop_f, this});
   }
 
+  ~PoseCorrectionTfPublisher() {
+    _is_stopped = true;
+    if (_transform_publisher.joinable()) {
+      _transform_publisher.join();
+    }
+  }
+
   virtual void handle_transformed_msg(
     const boost::shared_ptr<ObservationType>,
     const tf::StampedTransform& t) override {
@@ -51,7 +59,7 @@ private: //methods
 
   void publishing_loop() {
     ros::Rate rate(1.0 / 0.05);
-    while (ros::ok()) {
+    while (ros::ok() && !_is_stopped) {
       publish_map_to_odom();
       rate.sleep();
     }
@@ -70,6 +78,7 @@ private: // fields
   tf::Transform _last_odom2base;
   tf::Transform _map2odom;
   std::mutex _map2odom_mutex;
+  std::atomic<bool> _is_stopped{false};
   std::thread _transform_publisher;
 };
 
-- 
2.43.0


From 73cab90c2378588b3c1b7fdce6adf9d4be7416e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 41/42] fix: a scan recorded before its transforms aborted the
 replay of a bag

---
 src/ros/bag_topic_with_transform.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..23ecec4 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -96,6 +96,11 @@ private:
     tf::StampedTransform transform;
     try {
       _tf_cache.lookupTransform(_target_frame, frame_id, time, transform);
+    } catch (const tf::LookupException &e) {
+      // ok, frames are unknown until tf transforms arrive
+      return false;
+    } catch (const tf::ConnectivityException &e) {
+      return false;
     } catch (const tf::ExtrapolationException &e) {
       auto reason = std::string{e.what()};
       if (reason.find("extrapolation into the future") != std::string::npos) {
-- 
2.43.0


From 2002c727633fdfbd81248bed0df6148b65b09d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 42/42] fix: scans queued behind a dropped one were lost at the
 end of a bag

---
 src/ros/bag_topic_with_transform.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index 23ecec4..f51326c 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -109,12 +109,14 @@ private:
       }
 
       std::cout << "[WARN][BagTopic] ";
-      if (reason.find("past") != std::string::npos) {
+      auto scan_is_dropped = reason.find("past") != std::string::npos;
+      if (scan_is_dropped) {
          _msg_cache.pop();
          std::cout << "Scan dropped. ";
       }
       std::cout << reason << std::endl;;
-      return false;
+      // the next scan may be waiting for nothing but the dropped one
+      return scan_is_dropped && has_synced_msg();
     }
 
     _msg_cache.pop();
-- 
2.43.0

