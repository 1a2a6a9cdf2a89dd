From 4b4f8d164fb55abec8439be44c2d23da8c8d6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 01/23] fix: occupancy of a TBM cell whose belief is vacuous is
 NaN

---
 src/core/maps/tbm_grid_cells.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..cdc4631 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,7 +88,7 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
-    double p_occu = tbm.occupied() / qual;
+    double p_occu = qual == 0.0 ? 0.5 : tbm.occupied() / qual; // 0.5 - unknown
     return Occupancy { p_occu, qual };
   }
 };
-- 
2.43.0


From aac2b0032476630bf1657db2e879580e7b870d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 02/23] fix: rectangle intersection is empty for crossing
 rectangles and aborts for almost touching ones

---
 src/core/geometry_primitives.h | 50 ++++------------------------------
 1 file changed, 5 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..1d3f587 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,11 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto ibot = std::max(bot(), that.bot()), itop = std::min(top(), that.top());
+    auto ileft = std::max(left(), that.left());
+    auto iright = std::min(right(), that.right());
+    if (itop < ibot || iright < ileft) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +269,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From 7dc77df266bec9d1b871f3bb26f7b2b9c1d125a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 03/23] fix: gmapping observation probability is stale after a
 map update and shared between the points of a cell

---
 src/slams/gmapping/gmapping_occupancy_observation_pe.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..01af179 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,15 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
 
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
@@ -33,15 +30,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From d948ffe8795d5a99042d5e48e67d19d645fa434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 04/23] fix: unknown scan probability is never recognized (NaN
 compared with ==)

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..66606bb 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability);
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From 77de613c92eb33d5ada767142f04b51a2f79265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 05/23] fix: a reset enumeration keeps the old base pose or
 does not restart

---
 src/core/scan_matchers/brute_force_scan_matcher.h   | 1 +
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 5 ++++-
 src/core/scan_matchers/pose_enumerators.h           | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..57f4651 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -51,7 +51,10 @@ public:
     return distorted_pose;
   }
 
-  void reset() override {}
+  void reset() override {
+    _action_id = 0;
+    _base_pose_is_set = false;
+  }
   void feedback(bool pose_is_acceptable) override {}
 
 private:
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From 3e36955e0ccf5aacea847d2cc4b93894e92490fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 06/23] fix: the hill climbing scan matcher ignores the frame
 alignment rotation

---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index 57f4651..3ded410 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -79,7 +79,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -114,12 +115,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
-- 
2.43.0


From d12ffe1deec5c84faa6f566a1463eabb72c65389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 07/23] fix: integrating a scan with no more points than the
 scan margin reads out of bounds

---
 src/core/maps/grid_map_scan_adders.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..eb8a155 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -55,7 +55,7 @@ public:
                        const LaserScan2D &scan,
                        double scan_quality,
                        double scan_margin = 0.0) const {
-    if (scan.points().empty()) { return map; }
+    if (scan.points().size() < scan_margin + 1) { return map; }
 
     const auto rp = pose.point();
     scan.trig_provider->set_base_angle(pose.theta);
-- 
2.43.0


From a73c7c9fea06e6dcaa099b8c5f27625eb0555755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 08/23] fix: a direction within rounding of 180 degrees aborts
 the angle histogram

---
 src/core/features/angle_histogram.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..777dbbe 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,15 +84,15 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    return M_PI <= angle ? 0 : angle; // 180 (after rounding) ~ 0
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
     auto hist_i = std::size_t(std::floor(angle / angle_step()));
-    assert(hist_i < _hist.size());
-    return hist_i;
+    // the rate of an angle next to 180 can be rounded up to the bins number
+    return std::min(hist_i, _hist.size() - 1);
   }
 
 private:
-- 
2.43.0


From 931c505982d241714639b224b1d36ee615bf2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 09/23] fix: the occupied part of a cell is taken from the
 wrong side of the beam's end

---
 src/core/maps/area_occupancy_estimator.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..d3a7e30 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -207,19 +207,27 @@ private: // methods
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
+    // NB: the corner can be on the line, so use the opposite one as a reference
+    Point2D opposite_corner{bnds.left() + bnds.right() - corner_x,
+                            bnds.bot() + bnds.top() - corner_y};
     if (is_occ &&
-        are_on_the_same_side(inters[0], inters[1],
-                             beam.beg(), {corner_x, corner_y})) {
+        are_on_the_same_side(inters[0], inters[1], beam.beg(),
+                             {corner_x, corner_y}, opposite_corner)) {
       area = bnds.area() - area;
     }
     return area;
   }
 
+  // Checks if p is on the side of the line the corner is on,
+  // corners are expected to be on different sides of the line
   bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
-                            const Point2D &p1, const Point2D &p2) {
+                            const Point2D &p, const Point2D &corner,
+                            const Point2D &opposite_corner) {
     double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+    auto p_side = dy * (p.x - line_p1.x) - dx * (p.y - line_p1.y);
+    auto corner_side = dy * (corner.x - opposite_corner.x) -
+                       dx * (corner.y - opposite_corner.y);
+    return 0 < p_side * corner_side;
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From 24ff4a3c112776a19c7b9ed5f22d2a6d5213394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 10/23] fix: area occupancy estimates depend on the cell of the
 first estimate

---
 src/core/maps/area_occupancy_estimator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index d3a7e30..07f6ebe 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,7 +68,7 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
+    const double Shift_Amount = _low_qual * cell.side();
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-- 
2.43.0


From 903f8e0606f4cbc6f92da86d098831d297b6d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 11/23] fix: particles copied by resampling share the map and
 the noise of the original

---
 src/slams/gmapping/gmapping_world.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..2fbe4e9 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -109,7 +109,13 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // a sampled particle evolves independently of the one it is copied from
+    auto map = std::dynamic_pointer_cast<MapType>(_map);
+    if (map) { _map = std::make_shared<MapType>(*map); }
+    _rnd_engine.seed(std::random_device{}());
+  }
 
 private:
 
-- 
2.43.0


From e1213dac21c98d12cb5187987ce68703863651b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 12/23] fix: the weight of a particle becomes zero or NaN on a
 scan that can't be matched

---
 src/slams/gmapping/gmapping_world.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 2fbe4e9..c689c33 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -89,6 +89,11 @@ public:
                                                     map(), pose_delta);
     LaserScanGridWorld::update_robot_pose(pose_delta);
 
+    // NB: the first scan has no map to be matched with
+    if (!_scan_is_first && !ScanProbabilityEstimator::is_prob_unknown(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
+
     // TODO: scan_prob threshold to params
     if (0.0 < scan_prob || _scan_is_first) {
       // map update accordig to original gmapping code (ref?)
@@ -96,7 +101,6 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From 3cdbcb581a61869ad3c6ce8c10129a35fbe94a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 13/23] fix: particle weights become NaN if all of them are
 zero

---
 src/core/particle_filter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..96a61ba 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -108,6 +108,10 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
+    if (total_weight <= 0) { // the observations exclude every particle
+      for (auto &p : _particles) { p->set_weight(1.0 / _particles.size()); }
+      return;
+    }
     for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
   }
 
-- 
2.43.0


From 666a22c627335dc61d48a453f15d463e820cfaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 14/23] fix: a beam that is a point on the line of a cell's
 edge aborts the area estimate

---
 src/core/maps/area_occupancy_estimator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 07f6ebe..0304e21 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -72,10 +72,11 @@ private: // methods
     if (!cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
-    if (s.is_horiz()) {
-      shift = {0, (are_equal(s.beg().y, cell.top()) ? -1 : 1) * Shift_Amount};
-    } else if (s.is_vert()) {
+    // NB: same order as in the edge line check, it matters for points
+    if (s.is_vert()) {
       shift = {(are_equal(s.beg().x, cell.right()) ? -1 : 1) * Shift_Amount, 0};
+    } else if (s.is_horiz()) {
+      shift = {0, (are_equal(s.beg().y, cell.top()) ? -1 : 1) * Shift_Amount};
     } else {
       assert(false && "BUG: non-axis aligned segment is on rectange edge");
     }
-- 
2.43.0


From 6b1b50022bbe407cb5608cf32ffe14e03a1693a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 15/23] fix: the area estimate aborts on a cell whose sides
 differ by rounding

---
 src/core/maps/area_occupancy_estimator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0304e21..3128c90 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -204,8 +204,9 @@ private: // methods
           base_sum += std::abs(inter.y - corner_y);
         }
       }
-      // NOTE: cell is supposed to be a square
-      area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
+      // NB: the sides can differ (at least after rounding)
+      auto height = inters[0].is_horiz() ? bnds.vside_len() : bnds.hside_len();
+      area = 0.5 * height * base_sum;
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
     // NB: the corner can be on the line, so use the opposite one as a reference
-- 
2.43.0


From 0bc6b9b53efd4c73267d676754951402e347c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 16/23] fix: the map width and height settings set each other

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From dc429b602a55747001b4fcfd28a29cb11d472828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 17/23] fix: the type of the observation quality estimator is
 read under a misspelt name

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From e1e4dda13cd757075fe4bb354a36468a1da319e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 18/23] fix: the window size of the gmapping estimator is read
 under a misspelt name

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From 8ccb46ecd37ce67309e7a04de8b1c13c48c3818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:57 +0000
Subject: [PATCH 19/23] fix: BF_M3RSM limits are read under names that differ
 from the shipped config

---
 src/utils/init_scan_matching.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/init_scan_matching.h b/src/utils/init_scan_matching.h
index af5abca..5f4dac3 100644
--- a/src/utils/init_scan_matching.h
+++ b/src/utils/init_scan_matching.h
@@ -174,9 +174,9 @@ decltype(auto) init_bf_m3rsm(const PropertiesProvider &props,
   auto ang_acc = props.get_dbl(SM_NS + "accuracy/rotation", deg2rad(0.1));
   auto trl_acc = props.get_dbl(SM_NS + "accuracy/translation", 0.05);
 
-  auto max_x_err = props.get_dbl(SM_NS + "limits/x_translation", 1);
-  auto max_y_err = props.get_dbl(SM_NS + "limits/y_translation", 1);
-  auto max_rot_err = props.get_dbl(SM_NS + "limits/rotation", deg2rad(5));
+  auto max_x_err = props.get_dbl(SM_NS + "limit/x_translation", 1);
+  auto max_y_err = props.get_dbl(SM_NS + "limit/y_translation", 1);
+  auto max_rot_err = props.get_dbl(SM_NS + "limit/rotation", deg2rad(5));
 
   return std::make_shared<BruteForceMultiResolutionScanMatcher>(
     spe, max_x_err, max_y_err, max_rot_err, ang_acc, trl_acc);
-- 
2.43.0


From 569e0e357484c7bed8612d981915db4b3e4fa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 20/23] fix: do not index past the last tile row when an
 unbounded tiled map grows

The end of the last row was taken as &_tiles[size], which is outside of the
vector (it aborts with checked library builds); use iterators instead.
---
 src/core/maps/lazy_tiled_grid_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/maps/lazy_tiled_grid_map.h b/src/core/maps/lazy_tiled_grid_map.h
index 314e395..c941290 100644
--- a/src/core/maps/lazy_tiled_grid_map.h
+++ b/src/core/maps/lazy_tiled_grid_map.h
@@ -166,9 +166,9 @@ protected:
     std::vector<std::shared_ptr<Tile>> new_tiles{new_tiles_nm_x*new_tiles_nm_y,
                                                  unknown_tile()};
     for (unsigned row_i = 0; row_i != _tiles_nm_y; ++row_i) {
-      std::move(&_tiles[row_i * _tiles_nm_x],       // row begin
-                &_tiles[(row_i + 1) * _tiles_nm_x], // row end
-                &new_tiles[(prep_y + row_i)* new_tiles_nm_x + prep_x]);
+      std::move(_tiles.begin() + row_i * _tiles_nm_x,       // row begin
+                _tiles.begin() + (row_i + 1) * _tiles_nm_x, // row end
+                new_tiles.begin() + (prep_y + row_i)* new_tiles_nm_x + prep_x);
     }
 
     _tiles_nm_x = new_tiles_nm_x;
-- 
2.43.0


From b300542bbe75f34189932f47af627660f5b06b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 21/23] fix: write the bytes of a vector when it is streamed
 into a Serializer

The specialisation for const std::vector<char>& could never be deduced, so the
generic template copied the vector object itself into the raw buffer (a leak and
a write to an unconstructed vector) instead of appending its content.
---
 src/core/serialization.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/serialization.h b/src/core/serialization.h
index 48592b5..232612f 100644
--- a/src/core/serialization.h
+++ b/src/core/serialization.h
@@ -60,7 +60,6 @@ Serializer& operator<<(Serializer& s, Type value) {
     return s;
 }
 
-template<>
 inline Serializer& operator<<(Serializer& s, const std::vector<char>& data) {
     s.append(data);
     return s;
-- 
2.43.0


From c8eef11631134245af73158dce9ab7aa7e5ecdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:53 +0000
Subject: [PATCH 22/23] fix: M3RSM map: take the finer areas into account in
 added levels

A level that is added when the map is expanded was left blank, so it
(and the coarsest level) did not bound the areas updated before the
expansion. An added level is now initialized with the finer one.
---
 src/core/maps/rescalable_caching_grid_map.h |  7 +++
 src/core/scan_matchers/m3rsm_engine.h       | 57 +++++++++++++++------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..4e47784 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,9 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // a just created coarser map content policy
+  virtual void init_coarser_map(const GridMap &finer_map,
+                                GridMap &coarser_map) const {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -189,8 +192,12 @@ protected:
 
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
+      init_coarser_map(this->map(_map_cache->size() - 2), *map);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
     }
+    init_coarser_map(map(_map_cache->size() - 2), *_map_cache->back());
+    // NB: an initialization is able to expand an added level
+    ensure_map_cache_is_continuous();
   }
 
 private:
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..af39e42 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -98,33 +98,56 @@ protected:
     update_coarser_maps(area_id, fine_impact);
   }
 
+  // NB: a level is added when the map is expanded, so it has to take account
+  //     of the areas updated before.
+  void init_coarser_map(const GridMap &finer_map,
+                        GridMap &coarser_map) const override {
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+        update_coarser_map(coarser_map, finer_map.world_cell_bounds(area_id),
+                           area, estimate_spe_obstacle_impact(area));
+      }
+    }
+  }
+
   void update_coarser_maps(const AreaId &area_id, const double impact) {
     const auto &modified_area = active_map()[area_id];
     auto modified_space = active_map().world_cell_bounds(area_id);
 
     for (unsigned coarser_scale_id = scale_id() + 1;
          coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
-      auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
+      if (!update_coarser_map(map(coarser_scale_id), modified_space,
+                              modified_area, impact)) {
+        break;
       }
-      if (!coarser_area_is_updated) { break; }
     }
   }
 
+  bool update_coarser_map(GridMap &coarser_map, const Rectangle &modified_space,
+                          const GridCell &modified_area, double impact) const {
+    bool coarser_area_is_updated = false;
+    using GRRectangle = GridRasterizedRectangle;
+    auto cm_coords = GRRectangle{coarser_map, modified_space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = coarser_map[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, modified_area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
+  }
+
 private:
   std::shared_ptr<ObservationImpactEstimator> _oie;
   double _prev_fine_impact;
-- 
2.43.0


From 7e83a4dea71de3c9434b08dc6db89461ef423991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:27 +0000
Subject: [PATCH 23/23] fix: keep the line error of world_to_cells when a
 segment passes a cell corner

The error was set to zero on a tie, so on a slope such as 3 or 1/3 every
corner shifted the walked line and cells off the segment were reported.
---
 src/core/maps/regular_squares_grid.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..5a3fdf7 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,9 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e = e_x + e_y_inc; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0

