From 5752d78fe67aebb3142e3f1929f0018a98bb12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/63] fix: keep the estimate of the start cell of GridAstar
 as float

The cost estimate of each start was truncated to int, so that a start whose
estimate was larger than cost_leave could be returned as a goal, and so that
the best-effort path was not the one nearest to the goal.
---
 planner_cspace/include/planner_cspace/grid_astar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 4536a0a..f3b5e1f 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -205,7 +205,7 @@ protected:
 
     std::vector<VecWithCost> ss_normalized;
     Vec better;
-    int cost_estim_min = std::numeric_limits<int>::max();
+    float cost_estim_min = std::numeric_limits<float>::max();
     for (const VecWithCost& st : sts)
     {
       if (st.v_ == en)
@@ -216,7 +216,7 @@ protected:
       ss_normalized.emplace_back(s, st.c_);
       g[s] = st.c_;
 
-      const int cost_estim = model->costEstim(s, e);
+      const float cost_estim = model->costEstim(s, e);
       open_.emplace(cost_estim + st.c_, st.c_, s);
       if (cost_estim_min > cost_estim)
       {
-- 
2.43.0


From c1a08902e96d620a9d018b062c8a8b0710fcf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 02/63] fix: initialize the number of search tasks in
 GridAstar(size)

search_task_num_ was left uninitialized by the constructor taking the size.
---
 planner_cspace/include/planner_cspace/grid_astar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index f3b5e1f..97c0db8 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -157,9 +157,10 @@ public:
   {
   }
   explicit GridAstar(const Vec size)
+    : queue_size_limit_(0)
+    , search_task_num_(1)
   {
     reset(size);
-    queue_size_limit_ = 0;
   }
   void setQueueSizeLimit(const size_t size)
   {
-- 
2.43.0


From 55c28d51a759ad638b553c4ed0e630e65c6dc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 03/63] fix: avoid NaN in KalmanFilter1::measure with zero
 sigmas

The gain was 0/0 if both the state and the measurement had no uncertainty.
---
 track_odometry/include/track_odometry/kalman_filter1.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/track_odometry/include/track_odometry/kalman_filter1.h b/track_odometry/include/track_odometry/kalman_filter1.h
index 5aad66a..fd8b51d 100644
--- a/track_odometry/include/track_odometry/kalman_filter1.h
+++ b/track_odometry/include/track_odometry/kalman_filter1.h
@@ -69,7 +69,9 @@ public:
       sigma_ = sigma_in;
       return;
     }
-    double kt = sigma_ * sigma_ / (sigma_ * sigma_ + sigma_in * sigma_in);
+    const double var_sum = sigma_ * sigma_ + sigma_in * sigma_in;
+    // If both the state and the measurement have no uncertainty, keep the state
+    const double kt = var_sum > 0 ? sigma_ * sigma_ / var_sum : 0;
     x_ = x_ + kt * (x_in - x_);
     sigma_ = (1.0 - kt) * sigma_;
   }
-- 
2.43.0


From f5c48272af995838f47b8924c4aec1c940a23b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 04/63] fix: search diagonal neighbors on the incremental
 update of DistanceMap

Erased cells reachable only through a diagonal gap were left unreached,
and the cells behind a corner got too large values.
---
 planner_cspace/src/distance_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index e4bcb55..42bb3de 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -312,7 +312,7 @@ void DistanceMap::update(
     {
       for (d[1] = -1; d[1] <= 1; d[1]++)
       {
-        if (!((d[0] == 0) ^ (d[1] == 0)))
+        if (d[0] == 0 && d[1] == 0)
           continue;
         Astar::Vec next = p + d;
         next[2] = 0;
-- 
2.43.0


From eb2a9246926e614b74f406609c9ece41f6139cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 05/63] fix: erase all reached cells in the updated area of
 DistanceMap

The cells in the updated area are not always connected to each other.
The part not connected to the cell with the minimum cost kept old values.
---
 planner_cspace/src/distance_map.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index 42bb3de..f075529 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -258,7 +258,6 @@ void DistanceMap::update(
     create(s, e);
     return;
   }
-  Astar::Vec p_cost_min;
   float cost_min = std::numeric_limits<float>::max();
   for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)
   {
@@ -266,7 +265,6 @@ void DistanceMap::update(
     {
       if (cost_min > g_[p])
       {
-        p_cost_min = p;
         cost_min = g_[p];
       }
     }
@@ -286,9 +284,16 @@ void DistanceMap::update(
     return;
   }
 
-  if (cost_min != std::numeric_limits<float>::max())
+  for (Astar::Vec p(0, rect.min[1], 0); p[1] <= rect.max[1]; p[1]++)
   {
-    pq_erase_.emplace(0.0, 0.0, p_cost_min);
+    for (p[0] = rect.min[0]; p[0] <= rect.max[0]; p[0]++)
+    {
+      // All reached cells in the updated area, as they may be not connected to each other
+      if (g_[p] != std::numeric_limits<float>::max())
+      {
+        pq_erase_.emplace(0.0, 0.0, p);
+      }
+    }
   }
 
   if (g_[s_rough] > cost_min)
-- 
2.43.0


From 77f5a857a8a3559b45bcdfa00716c7b9295f8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 06/63] fix: recreate DistanceMap after the start or the goal
 was out of the map

The distance map was left for the old goal and the update was lost, but
the following updates reused it.
---
 planner_cspace/src/distance_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/distance_map.cpp b/planner_cspace/src/distance_map.cpp
index f075529..3be45a2 100644
--- a/planner_cspace/src/distance_map.cpp
+++ b/planner_cspace/src/distance_map.cpp
@@ -281,6 +281,7 @@ void DistanceMap::update(
   if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
   {
     // Out of the map
+    goal_ = Astar::Vec(-1, -1, -1);
     return;
   }
 
@@ -362,13 +363,14 @@ void DistanceMap::create(const Astar::Vec& s, const Astar::Vec& e)
 {
   const Astar::Vec e_rough(e[0], e[1], 0);
   const Astar::Vec s_rough(s[0], s[1], 0);
-  goal_ = e_rough;
 
   if (s_rough.isExceeded(cm_rough_.size()) || e_rough.isExceeded(cm_rough_.size()))
   {
     // Out of the map
+    goal_ = Astar::Vec(-1, -1, -1);
     return;
   }
+  goal_ = e_rough;
 
   pq_open_.clear();
   pq_erase_.clear();
-- 
2.43.0


From 72a383364974cb02f83149e0d4187a950e86bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 07/63] fix: remove all expired clouds from
 PointcloudAccumulator

---
 .../include/costmap_cspace/pointcloud_accumulator.h      | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
index f7d5b41..0513dc8 100644
--- a/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
+++ b/costmap_cspace/include/costmap_cspace/pointcloud_accumulator.h
@@ -74,14 +74,9 @@ public:
 
   void push(const Points& points)
   {
-    for (auto it = points_.begin(); it != points_.end(); ++it)
+    while (!points_.empty() && points_.front().stamp_ + time_to_hold_ < points.stamp_)
     {
-      if (it->stamp_ + time_to_hold_ < points.stamp_)
-      {
-        it = points_.erase(it);
-        continue;
-      }
-      break;
+      points_.pop_front();
     }
     points_.push_back(points);
   }
-- 
2.43.0


From 80d7b9c7d197065e17c66fecbb9b6f371bcd104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 08/63] fix: mask footprint template only where the neighbor
 cell covers it

---
 .../costmap_3d_layer/footprint.h              | 46 ++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
index 5553935..81fea5a 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/footprint.h
@@ -69,7 +69,12 @@ protected:
   {
     int x_min, x_max, y_min, y_max;
   };
+  struct Mask
+  {
+    bool x_min, x_max, y_min, y_max;
+  };
   int range_max_;
+  std::vector<Mask> template_mask_;
   std::vector<bool> unknown_buf_;
 
 public:
@@ -191,9 +196,36 @@ public:
       if (footprint_radius_ == 0)
         cs_template_.e(0, 0, yaw) = 100;
     }
+
+    template_mask_.resize(info.angle);
+    for (size_t yaw = 0; yaw < info.angle; yaw++)
+    {
+      template_mask_[yaw] = getTemplateMask(yaw);
+    }
   }
 
 protected:
+  // Returns the sides of the template which are always covered by the template of the neighbor cell on the side.
+  // It is true if the cost never decreases toward the center.
+  Mask getTemplateMask(const size_t yaw) const
+  {
+    Mask mask = {true, true, true, true};
+    for (int i = -range_max_; i <= range_max_; i++)
+    {
+      for (int j = 1; j <= range_max_; j++)
+      {
+        if (cs_template_.e(-j, i, yaw) > cs_template_.e(-j + 1, i, yaw))
+          mask.x_min = false;
+        if (cs_template_.e(j, i, yaw) > cs_template_.e(j - 1, i, yaw))
+          mask.x_max = false;
+        if (cs_template_.e(i, -j, yaw) > cs_template_.e(i, -j + 1, yaw))
+          mask.y_min = false;
+        if (cs_template_.e(i, j, yaw) > cs_template_.e(i, j - 1, yaw))
+          mask.y_max = false;
+      }
+    }
+    return mask;
+  }
   bool updateChain(const bool output)
   {
     return false;
@@ -276,16 +308,18 @@ protected:
       const nav_msgs::OccupancyGrid::ConstPtr& msg,
       const size_t yaw)
   {
-    const auto getMaskedRange = [this, msg](const int pos, Rect& result)
+    const Mask& mask = template_mask_[yaw];
+    const auto getMaskedRange = [this, msg, &mask](const int pos, Rect& result)
     {
       const int gx = pos % msg->info.width;
       const int gy = pos / msg->info.width;
       const int8_t* const ptr = msg->data.data() + pos;
-      result.x_min = (gx == 0 || (*(ptr - 1) >= *ptr)) ? 0 : -range_max_;
-      result.x_max = (gx == static_cast<int>(msg->info.width) - 1 || (*(ptr + 1) >= *ptr)) ? 0 : range_max_;
-      result.y_min = (gy == 0 || (*(ptr - msg->info.width) >= *ptr)) ? 0 : -range_max_;
-      result.y_max =
-          (gy == static_cast<int>(msg->info.height) - 1 || (*(ptr + msg->info.width) >= *ptr)) ? 0 : range_max_;
+      const int w = msg->info.width;
+      const int h = msg->info.height;
+      result.x_min = (mask.x_min && gx > 0 && *(ptr - 1) >= *ptr) ? 0 : -range_max_;
+      result.x_max = (mask.x_max && gx < w - 1 && *(ptr + 1) >= *ptr) ? 0 : range_max_;
+      result.y_min = (mask.y_min && gy > 0 && *(ptr - w) >= *ptr) ? 0 : -range_max_;
+      result.y_max = (mask.y_max && gy < h - 1 && *(ptr + w) >= *ptr) ? 0 : range_max_;
     };
     const auto getRange = (msg->info.resolution == map->info.linear_resolution) ?
                               getMaskedRange :
-- 
2.43.0


From d02d86cf89874263915f237c7ed4410f19541d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 09/63] fix: update all cells affected by the current and
 previous overlay maps

---
 .../include/costmap_cspace/costmap_3d_layer/base.h  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 81589dc..b021d69 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -265,6 +265,7 @@ protected:
   Costmap3dLayerBase::Ptr child_;
   UpdatedRegion region_;
   UpdatedRegion region_prev_;
+  UpdatedRegion region_map_updated_;
   nav_msgs::OccupancyGrid::ConstPtr map_updated_;
 
 public:
@@ -364,11 +365,19 @@ public:
 
     map_updated_ = msg;
 
-    region_ = UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);
+    // Costs are spread to the outside of the overlay map
+    UpdatedRegion region(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp);
+    region.expand(getRangeMax());
+    region.normalize(map_->info.width, map_->info.height);
+
+    // The region of the previous overlay map is also updated as its costs are removed
+    region_map_updated_.merge(region);
+    region_ = region_map_updated_;
 
     if (update_chain_entry)
     {
-      updateChainEntry(UpdatedRegion(ox, oy, 0, w, h, map_->info.angle, msg->header.stamp));
+      region_map_updated_ = region;
+      updateChainEntry(region_);
     }
     else
     {
-- 
2.43.0


From b55671039089d165d2e93033a07f3ed3aa66489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 10/63] fix: notify costmap regions which were updated without
 output

---
 .../include/costmap_cspace/costmap_3d_layer/output.h        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
index a11271e..1d53868 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/output.h
@@ -105,6 +105,9 @@ protected:
     auto update_msg = generateUpdateMsg();
     if (cb_ && output)
       return cb_(map_, update_msg);
+
+    // Whole map must be notified next time as the update is not notified
+    region_prev_ = UpdatedRegion(0, 0, 0, map_->info.width, map_->info.height, map_->info.angle);
     return true;
   }
 
@@ -121,7 +124,8 @@ protected:
     region_merged.merge(region_prev_);
     region_merged.normalize(map_->info.width, map_->info.height);
 
-    region_prev_ = region;
+    // Keep the regions which are not notified yet if the update is out of the map
+    region_prev_ = (region.width_ == 0 || region.height_ == 0) ? region_merged : region;
     region_ = UpdatedRegion();
 
     update_msg->x = region_merged.x_;
-- 
2.43.0


From 9d7c9d44686254cedd0df9a77a78f656e1196327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 11/63] fix: cover all cells of overlay maps with different
 resolution

---
 .../include/costmap_cspace/costmap_3d_layer/base.h           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index b021d69..79f71c9 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -358,10 +358,11 @@ public:
         std::lround((msg->info.origin.position.y - map_->info.origin.position.y) /
                     map_->info.linear_resolution);
 
+    const double resolution_scale = msg->info.resolution / map_->info.linear_resolution;
     const int w =
-        std::lround(msg->info.width * msg->info.resolution / map_->info.linear_resolution);
+        std::lround((static_cast<int>(msg->info.width) - 1) * resolution_scale) + std::ceil(resolution_scale);
     const int h =
-        std::lround(msg->info.height * msg->info.resolution / map_->info.linear_resolution);
+        std::lround((static_cast<int>(msg->info.height) - 1) * resolution_scale) + std::ceil(resolution_scale);
 
     map_updated_ = msg;
 
-- 
2.43.0


From 9bc1961701d8dc9b91e9967bde89380760821fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 12/63] fix: update all cells of the previous overlay map after
 the base map is changed

---
 .../include/costmap_cspace/costmap_3d_layer/base.h         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
index 79f71c9..3eefdac 100644
--- a/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
+++ b/costmap_cspace/include/costmap_cspace/costmap_3d_layer/base.h
@@ -444,6 +444,13 @@ protected:
   {
     setMapMetaData(map_->info);
     *map_overlay_ = *map_;
+    if (map_updated_)
+    {
+      // Cells affected by the last overlay map are changed as the base map is changed
+      region_map_updated_ = UpdatedRegion(
+          0, 0, 0, map_->info.width, map_->info.height, map_->info.angle,
+          map_updated_->header.stamp);
+    }
     if (child_)
       child_->setBaseMapChain();
   }
-- 
2.43.0


From d280b6a6671fdd830d9c54920078ae6b90420bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 13/63] fix: keep the accumulated cloud of safety_limiter in
 the fixed frame

---
 safety_limiter/src/safety_limiter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index ea1307e..67b2b2c 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -391,11 +391,13 @@ protected:
             fixed_to_base.transform.rotation.x,
             fixed_to_base.transform.rotation.y,
             fixed_to_base.transform.rotation.z);
-    pcl::transformPointCloud(*cloud_accum_, *cloud_accum_, fixed_to_base_eigen);
+    // Keep the accumulated cloud in the fixed frame since it is used again if no new cloud comes
+    pcl::PointCloud<pcl::PointXYZ>::Ptr cloud_base(new pcl::PointCloud<pcl::PointXYZ>);
+    pcl::transformPointCloud(*cloud_accum_, *cloud_base, fixed_to_base_eigen);
 
     pcl::PointCloud<pcl::PointXYZ>::Ptr pc(new pcl::PointCloud<pcl::PointXYZ>);
     pcl::VoxelGrid<pcl::PointXYZ> ds;
-    ds.setInputCloud(cloud_accum_);
+    ds.setInputCloud(cloud_base);
     ds.setLeafSize(downsample_grid_, downsample_grid_, downsample_grid_);
     ds.filter(*pc);
 
-- 
2.43.0


From 8ce6d4f98aa223d1772a58814358086eba8eafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 14/63] fix: follow the change of the freq parameter in
 safety_limiter

---
 safety_limiter/src/safety_limiter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index 67b2b2c..78f5e73 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -110,6 +110,7 @@ protected:
   std::vector<ros::Subscriber> sub_clouds_;
   ros::Subscriber sub_disable_;
   ros::Subscriber sub_watchdog_;
+  ros::Timer predict_timer_;
   ros::Timer watchdog_timer_;
   tf2_ros::Buffer tfbuf_;
   tf2_ros::TransformListener tfl_;
@@ -255,7 +256,7 @@ public:
   }
   void spin()
   {
-    ros::Timer predict_timer =
+    predict_timer_ =
         nh_.createTimer(ros::Duration(1.0 / hz_), &SafetyLimiterNode::cbPredictTimer, this);
 
     if (watchdog_interval_ != ros::Duration(0.0))
@@ -340,6 +341,9 @@ protected:
     hold_ = ros::Duration(std::max(config.hold, 1.0 / hz_));
     allow_empty_cloud_ = config.allow_empty_cloud;
 
+    // Velocity limit must not be released before the next prediction
+    predict_timer_.setPeriod(ros::Duration(1.0 / hz_), false);
+
     tmax_ = 0.0;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From e6e2efac6e0936565640af4343bfcb1a6dfae94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 15/63] fix: ignore negative period of odometry in
 trajectory_tracker

The acceleration limit multiplied by a negative period replaced the commanded
velocity by a value beyond the speed limits.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 4e26ee8..37ba6cf 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -328,7 +328,7 @@ void TrackerNode::cbOdometry(const nav_msgs::Odometry::ConstPtr& odom)
 
   if (prev_odom_stamp_ != ros::Time())
   {
-    const double dt = std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec());
+    const double dt = std::max(0.0, std::min(max_dt_, (odom->header.stamp - prev_odom_stamp_).toSec()));
     nav_msgs::Odometry odom_compensated = *odom;
     Eigen::Vector3d prediction_offset(0, 0, 0);
     if (predict_odom_)
-- 
2.43.0


From 714f5840552e575e751ca85b111f3d027b9bc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 16/63] fix: decimate the path of trajectory_tracker on
 reception and keep its goal

path_step dropped the last pose of the path, and changing it at runtime left
the progress on the path out of the range.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index 37ba6cf..ec121e2 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -298,6 +298,15 @@ void TrackerNode::cbPath(const typename MSG_TYPE::ConstPtr& msg)
       return;
     }
   }
+  if (path_step_ > 1 && path_.size() > 1)
+  {
+    // Pick up every path_step_ poses without losing the goal.
+    trajectory_tracker::Path2D path_decimated;
+    for (size_t i = 0; i + 1 < path_.size(); i += path_step_)
+      path_decimated.push_back(path_[i]);
+    path_decimated.push_back(path_.back());
+    path_ = path_decimated;
+  }
 }
 
 void TrackerNode::cbOdometry(const nav_msgs::Odometry::ConstPtr& odom)
@@ -543,7 +552,7 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
         Eigen::Rotation2Dd(robot_yaw);
     const auto robot_to_path_2d = path_to_robot_2d.inverse();
 
-    for (size_t i = 0; i < path_.size(); i += path_step_)
+    for (size_t i = 0; i < path_.size(); ++i)
       lpath.push_back(
           trajectory_tracker::Pose2D(
               robot_to_path_2d * path_[i].pos_, -robot_yaw + path_[i].yaw_, path_[i].velocity_));
-- 
2.43.0


From 172b38a11e6d2ffcd78b1af18f4f4c967ae6268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 17/63] fix: avoid NaN curvature of three points sharing a
 position

A path coming back to the same position reset the angular velocity commanded
by trajectory_tracker.
---
 .../include/trajectory_tracker/eigen_line.h               | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/include/trajectory_tracker/eigen_line.h b/trajectory_tracker/include/trajectory_tracker/eigen_line.h
index eca6446..a8d1d72 100644
--- a/trajectory_tracker/include/trajectory_tracker/eigen_line.h
+++ b/trajectory_tracker/include/trajectory_tracker/eigen_line.h
@@ -45,7 +45,13 @@ inline float curv3p(
   float ret;
   ret = 2 * (a[0] * b[1] + b[0] * c[1] + c[0] * a[1] -
              a[0] * c[1] - b[0] * a[1] - c[0] * b[1]);
-  ret /= std::sqrt((b - a).squaredNorm() * (b - c).squaredNorm() * (c - a).squaredNorm());
+  const float len3 = std::sqrt((b - a).squaredNorm() * (b - c).squaredNorm() * (c - a).squaredNorm());
+  if (len3 == 0)
+  {
+    // Some of the points are at the same position.
+    return 0;
+  }
+  ret /= len3;
 
   return ret;
 }
-- 
2.43.0


From c5e89ced3d1aeae5ca814bbeec50ed49bc3ab400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 18/63] fix: apply the acceleration limit once with
 limit_vel_by_avel of trajectory_tracker

The linear velocity was changed twice in a control period and the change could
be twice as large as max_acc allows.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index ec121e2..fd133f3 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -473,6 +473,7 @@ void TrackerNode::control(
       }
       else
       {
+        const trajectory_tracker::VelAccLimitter v_lim_prev = v_lim_;
         v_lim_.set(
             trajectory_tracker::timeOptimalControl(tracking_result.signed_local_distance, acc_toc_[0]),
             tracking_result.target_linear_vel, acc_[0], dt);
@@ -481,8 +482,10 @@ void TrackerNode::control(
 
         if (limit_vel_by_avel_ && std::abs(wref) > vel_[1])
         {
+          const float v_sign = std::copysign(1.0, v_lim_.get());
+          v_lim_ = v_lim_prev;
           v_lim_.set(
-              std::copysign(1.0, v_lim_.get()) * std::abs(vel_[1] / tracking_result.tracking_point_curv),
+              v_sign * std::abs(vel_[1] / tracking_result.tracking_point_curv),
               tracking_result.target_linear_vel, acc_[0], dt);
           wref = std::copysign(1.0, wref) * vel_[1];
         }
-- 
2.43.0


From c73240199b38f94df3339caade7a120e4f9d4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 19/63] fix: stop the robot if its pose is not available in
 trajectory_tracker

The last velocity was left commanded when the transform from the odometry frame
to the robot was lost.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index fd133f3..c547fcb 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -376,6 +376,13 @@ void TrackerNode::cbTimer(const ros::TimerEvent& event)
   catch (tf2::TransformException& e)
   {
     ROS_WARN_THROTTLE(1, "TF exception: %s", e.what());
+    v_lim_.clear();
+    w_lim_.clear();
+    geometry_msgs::Twist cmd_vel;
+    cmd_vel.linear.x = 0.0;
+    cmd_vel.angular.z = 0.0;
+    pub_vel_.publish(cmd_vel);
+
     trajectory_tracker_msgs::TrajectoryTrackerStatus status;
     status.header.stamp = ros::Time::now();
     status.distance_remains = 0.0;
-- 
2.43.0


From 9c7a8517f6ecfcd17f6e837dffdc712590fa36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 20/63] fix: measure the distance from the path segment in
 trajectory_tracker

The distance to the last pose was used on the whole last segment, and the
distance to the infinite line on the others, so FAR_FROM_PATH was reported on
the path and not reported beyond the corners.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index c547fcb..f716a75 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -676,11 +676,8 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
   else
   {
     // Too far from given path
-    float dist_from_path = dist_err;
-    if (i_nearest == 0)
-      dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
-    else if (i_nearest + 1 >= static_cast<int>(path_.size()))
-      dist_from_path = -(lpath[i_nearest].pos_ - origin).norm();
+    const float dist_from_path =
+        lpath.findNearestWithDistance(lpath.cbegin(), it_local_goal, origin).second;
     if (std::abs(dist_from_path) > d_stop_)
     {
       result.distance_remains = distance_remains;
-- 
2.43.0


From 52e2c5961b668bc0645a4299cce82cafab9715e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 21/63] fix: proceed on sparse paths in trajectory_tracker

The search of the nearest line strip was limited to 1 m after the current
progress, so the robot ran through the path having longer intervals.
---
 trajectory_tracker/src/trajectory_tracker.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_tracker.cpp b/trajectory_tracker/src/trajectory_tracker.cpp
index f716a75..6a5a863 100644
--- a/trajectory_tracker/src/trajectory_tracker.cpp
+++ b/trajectory_tracker/src/trajectory_tracker.cpp
@@ -586,7 +586,15 @@ TrackerNode::TrackingResult TrackerNode::getTrackingResult(
   const trajectory_tracker::Path2D::ConstIterator it_local_goal =
       lpath.findLocalGoal(lpath.cbegin() + path_step_done_, lpath.cend(), allow_backward_);
 
-  const float max_search_range = (path_step_done_ > 0) ? 1.0 : 0.0;
+  float max_search_range = 0.0;
+  if (path_step_done_ > 0)
+  {
+    // Search the current and the next line strips at least to proceed on sparse paths.
+    float dist_next = 0.0;
+    for (int i = path_step_done_; i < path_step_done_ + 2 && i + 1 < static_cast<int>(lpath.size()); ++i)
+      dist_next += (lpath[i + 1].pos_ - lpath[i].pos_).norm();
+    max_search_range = std::max(1.0, dist_next + 0.001);
+  }
   const trajectory_tracker::Path2D::ConstIterator it_nearest =
       lpath.findNearest(lpath.cbegin() + path_step_done_, it_local_goal, origin,
                         max_search_range, epsilon_);
-- 
2.43.0


From 5552258e175c98c736ebae6f3f7d522584c83b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 22/63] fix: begin best effort path of GridAstar at a start
 grid

---
 planner_cspace/include/planner_cspace/grid_astar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/include/planner_cspace/grid_astar.h b/planner_cspace/include/planner_cspace/grid_astar.h
index 97c0db8..3c1cd10 100644
--- a/planner_cspace/include/planner_cspace/grid_astar.h
+++ b/planner_cspace/include/planner_cspace/grid_astar.h
@@ -219,7 +219,8 @@ protected:
 
       const float cost_estim = model->costEstim(s, e);
       open_.emplace(cost_estim + st.c_, st.c_, s);
-      if (cost_estim_min > cost_estim)
+      // Even if the cost of all the starts can't be estimated, the best effort path begins at a start
+      if (cost_estim_min > cost_estim || ss_normalized.size() == 1)
       {
         cost_estim_min = cost_estim;
         better = s;
-- 
2.43.0


From 43e156ab0f2fefc8ddc3cb0ec5caf7f0de22fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:02 +0000
Subject: [PATCH 23/63] fix: lower rough costmap on overwriting costmap update
 in planner_3d

---
 planner_cspace/src/planner_3d.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8c83251..83fba3d 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -876,6 +876,15 @@ protected:
                 cm_[gp + p] = c;
             }
           }
+          if (overwrite_cost_)
+          {
+            // Overwriting may decrease the cost
+            char cost_rough = 100;
+            for (p[2] = 0; p[2] < static_cast<int>(map_info_.angle); p[2]++)
+              cost_rough = std::min(cost_rough, cm_[gp_rough + p]);
+            p[2] = 0;
+            cm_rough_[gp_rough + p] = cost_rough;
+          }
         }
       }
     }
-- 
2.43.0


From 9e1dc49a69b4e9738106ccaf1fe7b56d2e6c05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 24/63] fix: estimate cost from the relocated start in
 planner_3d

---
 planner_cspace/src/planner_3d.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 83fba3d..8adccf9 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1947,7 +1947,12 @@ protected:
         break;
     }
 
-    const float initial_2dof_cost = cost_estim_cache_[Astar::Vec(start_grid[0], start_grid[1], 0)];
+    // Start grid may have been moved from the robot position
+    float initial_2dof_cost = std::numeric_limits<float>::max();
+    for (const Astar::VecWithCost& s : starts)
+    {
+      initial_2dof_cost = std::min(initial_2dof_cost, cost_estim_cache_[Astar::Vec(s.v_[0], s.v_[1], 0)]);
+    }
     // If goal gets occupied, cost_estim_cache_ is not updated to reduce
     // computational cost for clearing huge map. In this case, cm_[e] is 100.
     if (initial_2dof_cost == std::numeric_limits<float>::max() || cm_[end_grid] >= 100)
-- 
2.43.0


From d2fdb45c203d9c27183131273227ea177972212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 25/63] fix: search relocated pose on the given costmap in
 planner_3d

---
 planner_cspace/src/planner_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 8adccf9..a76c73e 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -525,10 +525,10 @@ protected:
               (unsigned int)s2[1] >= (unsigned int)map_info_.height)
             continue;
           s2.cycleUnsigned(map_info_.angle);
-          if (!cm_.validate(s2, range_))
+          if (!cm.validate(s2, range_))
             continue;
 
-          if (cm_[s2] >= cost_acceptable)
+          if (cm[s2] >= cost_acceptable)
             continue;
           const auto cost = model_->euclidCost(d);
           if (cost < range_min)
-- 
2.43.0


From 2bb73ad9ab637873fa4df2dd0d6bdd0946e39624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:08 +0000
Subject: [PATCH 26/63] fix: accept make_plan with start and goal on the same
 grid

---
 planner_cspace/src/planner_3d.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index a76c73e..a57e682 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -400,7 +400,11 @@ protected:
     std::list<Astar::Vec> path_grid;
     std::vector<GridAstarModel3D::VecWithCost> starts;
     starts.emplace_back(s);
-    if (!as_.search(
+    if (s == e)
+    {
+      path_grid.push_back(e);
+    }
+    else if (!as_.search(
             starts, e, path_grid,
             model_2d,
             cb_progress,
-- 
2.43.0


From 13a5957eebbbabc4c9c6f4d335579125beec4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 27/63] fix: keep rough costmap in step with the updated
 costmap in planner_3d

---
 planner_cspace/src/planner_3d.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index a57e682..7cc4f29 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -862,8 +862,6 @@ protected:
           }
           p[2] = 0;
           cm_updates_[gp_rough + p] = cost_min;
-          if (cost_min > cm_rough_[gp_rough + p])
-            cm_rough_[gp_rough + p] = cost_min;
 
           for (p[2] = 0; p[2] < static_cast<int>(msg->angle); p[2]++)
           {
@@ -880,15 +878,15 @@ protected:
                 cm_[gp + p] = c;
             }
           }
-          if (overwrite_cost_)
+
+          // Different angles may be occupied by the base map and the update
+          char cost_rough = 100;
+          for (p[2] = 0; p[2] < static_cast<int>(map_info_.angle); p[2]++)
           {
-            // Overwriting may decrease the cost
-            char cost_rough = 100;
-            for (p[2] = 0; p[2] < static_cast<int>(map_info_.angle); p[2]++)
-              cost_rough = std::min(cost_rough, cm_[gp_rough + p]);
-            p[2] = 0;
-            cm_rough_[gp_rough + p] = cost_rough;
+            cost_rough = std::min(cost_rough, cm_[gp_rough + p]);
           }
+          p[2] = 0;
+          cm_rough_[gp_rough + p] = cost_rough;
         }
       }
     }
-- 
2.43.0


From 864ce9ccd5ec9d727946a51ebad6435f5658a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 28/63] fix: search temporary escape goal around the start in
 planner_3d

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 7cc4f29..75a36db 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2130,7 +2130,7 @@ protected:
     if (!enable_crowd_mode_)
     {
       // Just find available (not occupied) pose
-      Astar::Vec te;
+      Astar::Vec te = start_grid;
       if (!searchAvailablePos(cm_, te, esc_range_, esc_angle_, relocation_acceptable_cost_, esc_range_min_))
       {
         ROS_WARN("No valid temporary escape goal");
-- 
2.43.0


From a135b69f0b6d420e55aee0aa18b3f6e0a99725f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 29/63] fix: don't read costmap out of range on crowd escape in
 planner_3d

---
 planner_cspace/src/planner_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 75a36db..6652e1f 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -2193,8 +2193,8 @@ protected:
       // Construct arraivability map
       const int local_width = esc_range_ * 2 + 1;
       const Astar::Vec local_origin = s - Astar::Vec(esc_range_, esc_range_, 0);
-      const Astar::Vec local_range(local_width, local_width, 0);
-      const Astar::Vec local_size(local_width + 1, local_width + 1, 1);
+      const Astar::Vec local_range(local_width - 1, local_width - 1, 0);
+      const Astar::Vec local_size(local_width, local_width, 1);
       const Astar::Vec local_center(esc_range_, esc_range_, 0);
       const DistanceMap::Params dmp =
           {
-- 
2.43.0


From f44dbdd468ce8feef41f815b7efe6ce6afff5113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 30/63] fix: keep minimum escape range on falling back to
 costly grids in planner_3d

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 6652e1f..b5e65f7 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -548,7 +548,7 @@ protected:
     {
       if (cost_acceptable != 100)
       {
-        return searchAvailablePos(cm, s, xy_range, angle_range, 100);
+        return searchAvailablePos(cm, s, xy_range, angle_range, 100, min_xy_range);
       }
       return false;
     }
-- 
2.43.0


From ae08e8530f55f04b2ee3c76460d7fdaea6ff424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 31/63] fix: planner_3d: report DONE when the goal is refused
 or cleared

---
 planner_cspace/src/planner_3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index b5e65f7..7f736a6 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -480,6 +480,7 @@ protected:
       if (!createCostEstimCache())
       {
         has_goal_ = false;
+        status_.status = planner_cspace_msgs::PlannerStatus::DONE;
         return false;
       }
       status_.status = planner_cspace_msgs::PlannerStatus::DOING;
@@ -490,6 +491,7 @@ protected:
     else
     {
       has_goal_ = false;
+      status_.status = planner_cspace_msgs::PlannerStatus::DONE;
       if (act_->isActive())
         act_->setSucceeded(move_base_msgs::MoveBaseResult(), "Goal cleared.");
       if (act_tolerant_->isActive())
-- 
2.43.0


From ebf90389fba94123c7ab1bd988aa72e241603a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 32/63] fix: planner_3d: stop following the preempted goal when
 its replacement is invalid

---
 planner_cspace/src/planner_3d.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 7f736a6..35235cd 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -451,6 +451,11 @@ protected:
     if (act_tolerant_->isActive())
       act_tolerant_->setPreempted(planner_cspace_msgs::MoveWithToleranceResult(), "Preempted.");
 
+    abandonGoal();
+  }
+
+  void abandonGoal()
+  {
     has_goal_ = false;
     escape_status_ = TemporaryEscapeStatus::NOT_ESCAPING;
     status_.status = planner_cspace_msgs::PlannerStatus::DONE;
@@ -1129,7 +1134,10 @@ protected:
 
     move_base_msgs::MoveBaseGoalConstPtr goal = act_->acceptNewGoal();
     if (!setGoal(goal->target_pose))
+    {
+      abandonGoal();
       act_->setAborted(move_base_msgs::MoveBaseResult(), "Given goal is invalid.");
+    }
   }
 
   void cbTolerantAction()
@@ -1142,7 +1150,10 @@ protected:
 
     goal_tolerant_ = act_tolerant_->acceptNewGoal();
     if (!setGoal(goal_tolerant_->target_pose))
+    {
+      abandonGoal();
       act_tolerant_->setAborted(planner_cspace_msgs::MoveWithToleranceResult(), "Given goal is invalid.");
+    }
   }
 
   void updateStart()
-- 
2.43.0


From bbf15d40877fdbb087e99e46ca4eb1fb5a3500ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 33/63] fix: planner_3d: keep the costmap watchdog running over
 a reconfiguration

---
 planner_cspace/src/planner_3d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 35235cd..6cea7f4 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -1520,6 +1520,11 @@ public:
     start_pose_predictor_.setConfig(start_pose_predictor_config);
     trigger_plan_by_costmap_update_ = config.trigger_plan_by_costmap_update;
     no_map_update_timer_.stop();
+    if (trigger_plan_by_costmap_update_ && costmap_watchdog_ > ros::Duration(0))
+    {
+      no_map_update_timer_ =
+          nh_.createTimer(costmap_watchdog_, &Planner3dNode::cbNoMapUpdateTimer, this, true);
+    }
   }
 
   void waitUntil(const ros::Time& next_replan_time)
-- 
2.43.0


From b1052c08e9553750ad07a7728b1e46b0769152a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 34/63] fix: planner_3d: recreate the cost estimation for goals
 given while the robot pose is missing

---
 planner_cspace/src/planner_3d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 6cea7f4..7777379 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -570,6 +570,7 @@ protected:
     if (!has_goal_)
       return true;
 
+    cost_estim_cache_created_ = false;
     if (!has_map_ || !has_start_)
     {
       ROS_ERROR("Goal received, however map/goal/start are not ready. (%d/%d/%d)",
@@ -577,7 +578,6 @@ protected:
       return true;
     }
 
-    cost_estim_cache_created_ = false;
     is_start_occupied_ = false;
 
     Astar::Vec s = metric2Grid(start_.pose);
-- 
2.43.0


From 80f582422a0b8937a6473d47e15a46410b369da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 35/63] fix: planner_3d: no access to cells out of the map on
 fast_map_update

---
 planner_cspace/src/planner_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 7777379..62f68c2 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -942,7 +942,8 @@ protected:
 
     const Astar::Vec e = metric2Grid(goal_.pose);
 
-    if (cm_[e] == 100)
+    // The goal may be out of the map if cost_estim_cache_ is not created
+    if (!cost_estim_cache_created_ || cm_[e] == 100)
     {
       createCostEstimCache(false);
       return;
-- 
2.43.0


From 03a4dac433fb94db0eec9a60a55a4c6e9ab0c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:18 +0000
Subject: [PATCH 36/63] fix: start_pose_predictor: check collision of the next
 start pose too

---
 planner_cspace/src/start_pose_predictor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/start_pose_predictor.cpp b/planner_cspace/src/start_pose_predictor.cpp
index 759c541..904829b 100644
--- a/planner_cspace/src/start_pose_predictor.cpp
+++ b/planner_cspace/src/start_pose_predictor.cpp
@@ -135,7 +135,7 @@ bool StartPosePredictor::buildResults(
     const GridAstar<3, 2>::Gridmap<char, 0x40>& cm,
     StartPosePredictor::Astar::Vec& start_grid)
 {
-  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it, cm))
+  if (isPathColliding(previous_path_2d_.begin(), expected_start_pose_it + 1, cm))
   {
     ROS_WARN("The robot might collide with an obstacle during the next planning. An empty path is published.");
     clear();
-- 
2.43.0


From 7268b60523d2e7cd5e18f555c7cc3bfc37f9dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 37/63] fix: laserscan_to_map: filter every point by its own
 height

---
 costmap_cspace/src/laserscan_to_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index ed8f77e..b033d9a 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -160,7 +160,7 @@ private:
       auto itr_x = sensor_msgs::PointCloud2ConstIterator<float>(pc, "x");
       auto itr_y = sensor_msgs::PointCloud2ConstIterator<float>(pc, "y");
       auto itr_z = sensor_msgs::PointCloud2ConstIterator<float>(pc, "z");
-      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y)
+      for (; itr_x != itr_x.end(); ++itr_x, ++itr_y, ++itr_z)
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-- 
2.43.0


From 11ea5292c8bfb68261149a27edcb92b6d433cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 38/63] fix: laserscan_to_map: drop scans that could not be
 transformed

---
 costmap_cspace/src/laserscan_to_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index b033d9a..df1c9b7 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -121,6 +121,7 @@ private:
     catch (tf2::TransformException& e)
     {
       ROS_WARN("%s", e.what());
+      return;
     }
     accum_.push(costmap_cspace::PointcloudAccumurator<sensor_msgs::PointCloud2>::Points(
         cloud_global, cloud_global.header.stamp));
-- 
2.43.0


From 72d512e6d329a772c84fe9e180a6c897202c685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 39/63] fix: laserscan_to_map, pointcloud2_to_map: no points
 from out of the map in the first row and column

---
 costmap_cspace/src/laserscan_to_map.cpp   | 9 +++++----
 costmap_cspace/src/pointcloud2_to_map.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/costmap_cspace/src/laserscan_to_map.cpp b/costmap_cspace/src/laserscan_to_map.cpp
index df1c9b7..2088018 100644
--- a/costmap_cspace/src/laserscan_to_map.cpp
+++ b/costmap_cspace/src/laserscan_to_map.cpp
@@ -36,6 +36,7 @@
 #include <tf2_ros/transform_listener.h>
 #include <tf2_sensor_msgs/tf2_sensor_msgs.h>
 
+#include <cmath>
 #include <limits>
 #include <string>
 
@@ -165,10 +166,10 @@ private:
       {
         if (*itr_z - robot_z < z_min_ || z_max_ < *itr_z - robot_z)
           continue;
-        unsigned int x = int(
-            (*itr_x - map.info.origin.position.x) / map.info.resolution);
-        unsigned int y = int(
-            (*itr_y - map.info.origin.position.y) / map.info.resolution);
+        unsigned int x = static_cast<int>(std::floor(
+            (*itr_x - map.info.origin.position.x) / map.info.resolution));
+        unsigned int y = static_cast<int>(std::floor(
+            (*itr_y - map.info.origin.position.y) / map.info.resolution));
         if (x >= map.info.width || y >= map.info.height)
           continue;
         map.data[x + y * map.info.width] = 100;
diff --git a/costmap_cspace/src/pointcloud2_to_map.cpp b/costmap_cspace/src/pointcloud2_to_map.cpp
index 2d4ec5c..c9e390c 100644
--- a/costmap_cspace/src/pointcloud2_to_map.cpp
+++ b/costmap_cspace/src/pointcloud2_to_map.cpp
@@ -35,6 +35,7 @@
 #include <nav_msgs/OccupancyGrid.h>
 #include <sensor_msgs/PointCloud2.h>
 
+#include <cmath>
 #include <string>
 #include <vector>
 
@@ -174,10 +175,10 @@ private:
         {
           if (*iter_z - robot_z < z_min_ || z_max_ < *iter_z - robot_z)
             continue;
-          unsigned int x = int(
-              (*iter_x - map_.info.origin.position.x) / map_.info.resolution);
-          unsigned int y = int(
-              (*iter_y - map_.info.origin.position.y) / map_.info.resolution);
+          unsigned int x = static_cast<int>(std::floor(
+              (*iter_x - map_.info.origin.position.x) / map_.info.resolution));
+          unsigned int y = static_cast<int>(std::floor(
+              (*iter_y - map_.info.origin.position.y) / map_.info.resolution));
           if (x >= map_.info.width || y >= map_.info.height)
             continue;
           map_.data[x + y * map_.info.width] = 100;
-- 
2.43.0


From 123fadc739a0ad87193312d811c4f76302ba4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 40/63] fix: track_odometry: no overshoot of the slip ratio
 prediction on a gap of the input

---
 track_odometry/src/track_odometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 15e85b9..f26282c 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -27,6 +27,7 @@
  * POSSIBILITY OF SUCH DAMAGE.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <memory>
@@ -232,7 +233,7 @@ private:
       if (w_imu * w_odom < 0 && !negative_slip_)
         w_imu = w_odom;
 
-      slip_.predict(-slip_.x_ * dt * predict_filter_tc_, dt * sigma_predict_);
+      slip_.predict(-slip_.x_ * std::min(1.0, dt * predict_filter_tc_), dt * sigma_predict_);
       if (std::abs(w_odom) > sigma_odom_ * 3)
       {
         // non-kf mode: calculate slip_ratio if angular vel < 3*sigma
-- 
2.43.0


From bc8c0f100d6fd07800f070ddfe3fb7a3687ded2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 41/63] fix: track_odometry: no overshoot of the z filter on a
 gap of the input

---
 track_odometry/src/track_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index f26282c..094767d 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -273,7 +273,7 @@ private:
 
       odom.pose.pose.position = toPoint(toEigen(odom_prev_.pose.pose.position) + v);
       if (z_filter_timeconst_ > 0)
-        odom.pose.pose.position.z *= 1.0 - (dt / z_filter_timeconst_);
+        odom.pose.pose.position.z *= std::max(0.0, 1.0 - (dt / z_filter_timeconst_));
 
       odom.child_frame_id = base_link_id_;
       pub_odom_.publish(odom);
-- 
2.43.0


From f781f607c299e410860e861f9cc283abe12067e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 42/63] fix: track_odometry: no NaN with zero sigma_odom

---
 track_odometry/src/track_odometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/track_odometry/src/track_odometry.cpp b/track_odometry/src/track_odometry.cpp
index 094767d..9a81838 100644
--- a/track_odometry/src/track_odometry.cpp
+++ b/track_odometry/src/track_odometry.cpp
@@ -244,7 +244,7 @@ private:
           (w_odom - w_imu) / (w_odom * std::abs(w_odom));
       double slip_ratio_per_angvel_sigma =
           sigma_odom_ * std::abs(2.0 * w_odom * sigma_odom_ / std::pow(w_odom * w_odom - sigma_odom_ * sigma_odom_, 2));
-      if (std::abs(w_odom) < sigma_odom_)
+      if (std::abs(w_odom) <= sigma_odom_)
         slip_ratio_per_angvel_sigma = std::numeric_limits<double>::infinity();
 
       slip_.measure(slip_ratio_per_angvel, slip_ratio_per_angvel_sigma);
-- 
2.43.0


From b343cb6d102a4589747829363142a42d3d24845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 43/63] fix: trajectory_saver: do not report success if the
 file could not be written

---
 trajectory_tracker/src/trajectory_saver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_saver.cpp b/trajectory_tracker/src/trajectory_saver.cpp
index 6fbf884..e0b86d0 100644
--- a/trajectory_tracker/src/trajectory_saver.cpp
+++ b/trajectory_tracker/src/trajectory_saver.cpp
@@ -101,6 +101,12 @@ void SaverNode::cbPath(const nav_msgs::Path::ConstPtr& msg)
   ros::serialization::serialize(stream, *msg);
 
   ofs.write(reinterpret_cast<char*>(buffer.get()), serial_size);
+  ofs.close();
+  if (!ofs)
+  {
+    ROS_ERROR("Failed to write %s", filename_.c_str());
+    return;
+  }
 
   saved_ = true;
 }
-- 
2.43.0


From e4d85d1a73679d396ab0c0bdceb9a230296725b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 44/63] fix: trajectory_server: no access to the first pose of
 an empty path

---
 trajectory_tracker/src/trajectory_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index c3c2632..481f736 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -244,7 +244,7 @@ bool ServerNode::change(trajectory_tracker_msgs::ChangePath::Request& req,
     ros::serialization::IStream stream(buffer_.get(), serial_size_);
     ros::serialization::deserialize(stream, path_);
     path_.header.stamp = ros::Time::now();
-    if (filter_step_ > 0)
+    if (filter_step_ > 0 && !path_.poses.empty())
     {
       std::cout << filter_step_ << std::endl;
       lpf_[0] = new trajectory_tracker::Filter(
-- 
2.43.0


From f49ece1d3f0ff4cd92251f27551831989443ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 45/63] fix: trajectory_server: ignore feedback of markers that
 are not on the path

---
 trajectory_tracker/src/trajectory_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajectory_tracker/src/trajectory_server.cpp b/trajectory_tracker/src/trajectory_server.cpp
index 481f736..85ab179 100644
--- a/trajectory_tracker/src/trajectory_server.cpp
+++ b/trajectory_tracker/src/trajectory_server.cpp
@@ -139,6 +139,11 @@ void ServerNode::processFeedback(
     const visualization_msgs::InteractiveMarkerFeedbackConstPtr& feedback)
 {
   int id = std::atoi(feedback->marker_name.c_str());
+  if (id < 0 || static_cast<size_t>(id) >= path_.poses.size())
+  {
+    ROS_WARN("Marker %s is not on the path", feedback->marker_name.c_str());
+    return;
+  }
   switch (feedback->event_type)
   {
     case visualization_msgs::InteractiveMarkerFeedback::POSE_UPDATE:
-- 
2.43.0


From a336bd62b694f3f18c3945d6ceda292354fcbb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 46/63] fix: pose_transform: construct the node

---
 map_organizer/src/pose_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/pose_transform.cpp b/map_organizer/src/pose_transform.cpp
index b80ca92..a702487 100644
--- a/map_organizer/src/pose_transform.cpp
+++ b/map_organizer/src/pose_transform.cpp
@@ -94,7 +94,7 @@ int main(int argc, char** argv)
 {
   ros::init(argc, argv, "pose_transform");
 
-  PoseTransformNode ptn();
+  PoseTransformNode ptn;
   ros::spin();
 
   return 0;
-- 
2.43.0


From b580f5fe9a457a9cef969a20a961802e3ea07abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 47/63] fix: select_map: publish the selected floor of a new
 map set

---
 map_organizer/src/select_map.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map_organizer/src/select_map.cpp b/map_organizer/src/select_map.cpp
index eb1be48..d32ada5 100644
--- a/map_organizer/src/select_map.cpp
+++ b/map_organizer/src/select_map.cpp
@@ -41,11 +41,13 @@
 map_organizer_msgs::OccupancyGridArray maps;
 std::vector<nav_msgs::MapMetaData> orig_mapinfos;
 int floor_cur = 0;
+bool maps_updated = false;
 
 void cbMaps(const map_organizer_msgs::OccupancyGridArray::Ptr& msg)
 {
   ROS_INFO("Map array received");
   maps = *msg;
+  maps_updated = true;
   orig_mapinfos.clear();
   for (auto& map : maps.maps)
   {
@@ -91,7 +93,7 @@ int main(int argc, char** argv)
     if (maps.maps.size() == 0)
       continue;
 
-    if (floor_cur != floor_prev)
+    if (floor_cur != floor_prev || maps_updated)
     {
       if (floor_cur >= 0 && floor_cur < static_cast<int>(maps.maps.size()))
       {
@@ -103,6 +105,7 @@ int main(int argc, char** argv)
         ROS_INFO("Floor out of range");
       }
       floor_prev = floor_cur;
+      maps_updated = false;
     }
     trans.header.stamp = ros::Time::now() + ros::Duration(0.15);
     tfb.sendTransform(trans);
-- 
2.43.0


From 1a4d5a2ee666641bf331862d450a5962005d8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 48/63] fix: save_maps: write the image path relative to the
 yaml file

---
 map_organizer/src/save_maps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map_organizer/src/save_maps.cpp b/map_organizer/src/save_maps.cpp
index 76eadb9..58eb0bc 100644
--- a/map_organizer/src/save_maps.cpp
+++ b/map_organizer/src/save_maps.cpp
@@ -127,7 +127,7 @@ public:
     fprintf(yaml, "image: %s\nresolution: %f\n"
                   "origin: [%f, %f, %f]\nheight: %f\n"
                   "negate: 0\noccupied_thresh: 0.65\nfree_thresh: 0.196\n\n",
-            mapdatafile.c_str(), map->info.resolution,
+            mapdatafile.substr(mapdatafile.rfind('/') + 1).c_str(), map->info.resolution,
             map->info.origin.position.x, map->info.origin.position.y, yaw, map->info.origin.position.z);
 
     fclose(yaml);
-- 
2.43.0


From 97498ec5ba6bf4f5dad1852e3070b4bc66025d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 49/63] fix: pointcloud_to_maps: do not merge the cells around
 zero

---
 map_organizer/src/pointcloud_to_maps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 7bad9fe..5781d81 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -104,9 +104,9 @@ public:
 
     for (const auto& p : pc->points)
     {
-      const int h = (p.z / grid);
-      const int x = (p.x / grid);
-      const int y = (p.y / grid);
+      const int h = std::floor(p.z / grid);
+      const int x = std::floor(p.x / grid);
+      const int y = std::floor(p.y / grid);
       if (x_min > x)
         x_min = x;
       if (y_min > y)
@@ -156,9 +156,9 @@ public:
       {
         for (auto& p : pc->points)
         {
-          const int x = (p.x / grid);
-          const int y = (p.y / grid);
-          const int z = (p.z / grid);
+          const int x = std::floor(p.x / grid);
+          const int y = std::floor(p.y / grid);
+          const int z = std::floor(p.z / grid);
           const auto v = std::pair<int, int>(x, y);
 
           if (std::abs(i - z) <= floor_height)
-- 
2.43.0


From 6d3c77e9033483555607dec3ec5c6c4f19cdfa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 50/63] fix: pointcloud_to_maps: size of the map of a cloud of
 negative coordinates

---
 map_organizer/src/pointcloud_to_maps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index 5781d81..a9df40c 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -98,9 +98,9 @@ public:
     floor_tolerance = std::lround(floor_tolerance_f / grid);
 
     std::map<int, int> hist;
-    int x_min = std::numeric_limits<int>::max(), x_max = 0;
-    int y_min = std::numeric_limits<int>::max(), y_max = 0;
-    int h_min = std::numeric_limits<int>::max(), h_max = 0;
+    int x_min = std::numeric_limits<int>::max(), x_max = std::numeric_limits<int>::lowest();
+    int y_min = std::numeric_limits<int>::max(), y_max = std::numeric_limits<int>::lowest();
+    int h_min = std::numeric_limits<int>::max(), h_max = std::numeric_limits<int>::lowest();
 
     for (const auto& p : pc->points)
     {
-- 
2.43.0


From 34596e1d2a2fe2c65c85c219c2dd846a85fe646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:12 +0000
Subject: [PATCH 51/63] fix: pointcloud_to_maps: look up the area of the floor
 by its own height

---
 map_organizer/src/pointcloud_to_maps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/map_organizer/src/pointcloud_to_maps.cpp b/map_organizer/src/pointcloud_to_maps.cpp
index a9df40c..7252d24 100644
--- a/map_organizer/src/pointcloud_to_maps.cpp
+++ b/map_organizer/src/pointcloud_to_maps.cpp
@@ -229,8 +229,8 @@ public:
     auto it_prev = maps.rbegin();
     for (auto it = maps.rbegin() + 1; it != maps.rend() && it_prev != maps.rend(); it++)
     {
-      const int h = it->info.origin.position.z / grid;
-      const int h_prev = it_prev->info.origin.position.z / grid;
+      const int h = std::lround(it->info.origin.position.z / grid);
+      const int h_prev = std::lround(it_prev->info.origin.position.z / grid);
       if (std::abs(it_prev->info.origin.position.z - it->info.origin.position.z) < grid * 1.5)
       {
         // merge slopes
@@ -280,7 +280,7 @@ public:
     for (auto& map : maps)
     {
       num++;
-      int h = map.info.origin.position.z / grid;
+      const int h = std::lround(map.info.origin.position.z / grid);
       if (floor_runnable_area[h] < min_floor_area)
       {
         ROS_WARN("floor %d (%5.2fm^2), h = %0.2fm skipped",
-- 
2.43.0


From 612b747ba24b70904922c0a3fff7268edf621c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 52/63] fix: costmap_3d: do not extend the buffer of overlays
 while processing it

---
 costmap_cspace/src/costmap_3d.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/costmap_cspace/src/costmap_3d.cpp b/costmap_cspace/src/costmap_3d.cpp
index 3b6a436..4197ddb 100644
--- a/costmap_cspace/src/costmap_3d.cpp
+++ b/costmap_cspace/src/costmap_3d.cpp
@@ -77,10 +77,11 @@ protected:
 
     if (map_buffer_.size() > 0)
     {
-      for (auto& map : map_buffer_)
+      decltype(map_buffer_) map_buffer;
+      map_buffer.swap(map_buffer_);
+      for (auto& map : map_buffer)
         cbMapOverlay(map.first, map.second);
-      ROS_INFO("%ld buffered costmaps processed", map_buffer_.size());
-      map_buffer_.clear();
+      ROS_INFO("%ld buffered costmaps processed", map_buffer.size());
     }
   }
   void cbMapOverlay(
-- 
2.43.0


From 727e378b86c29c113bc86950a02ea5184d5952d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 53/63] fix: planner_2dof_serial_joints: ignore trajectories
 without exactly one point

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index eef5db9..8524b92 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -210,6 +210,7 @@ private:
     if (msg->points.size() != 1)
     {
       ROS_ERROR("single trajectory point required.");
+      return;
     }
     decltype(cmd_prev_) cmd;
     cmd.first = msg->points[0].time_from_start;
-- 
2.43.0


From 06e544a1f2889c399e887fe0bb93c1c35b71c470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 54/63] fix: planner_2dof_serial_joints: keep the target on
 trajectories of other joints

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 8524b92..548dd82 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -193,16 +193,15 @@ private:
   int id_[2];
   void cbTrajectory(const trajectory_msgs::JointTrajectory::ConstPtr& msg)
   {
-    id_[0] = -1;
-    id_[1] = -1;
+    int id[2] = {-1, -1};
     for (size_t i = 0; i < msg->joint_names.size(); i++)
     {
       if (msg->joint_names[i].compare(links_[0].name_) == 0)
-        id_[0] = i;
+        id[0] = i;
       else if (msg->joint_names[i].compare(links_[1].name_) == 0)
-        id_[1] = i;
+        id[1] = i;
     }
-    if (id_[0] == -1 || id_[1] == -1)
+    if (id[0] == -1 || id[1] == -1)
     {
       ROS_ERROR("joint_trajectory does not contains link group %s.", group_.c_str());
       return;
@@ -214,11 +213,13 @@ private:
     }
     decltype(cmd_prev_) cmd;
     cmd.first = msg->points[0].time_from_start;
-    cmd.second.first = msg->points[0].positions[id_[0]];
-    cmd.second.second = msg->points[0].positions[id_[1]];
+    cmd.second.first = msg->points[0].positions[id[0]];
+    cmd.second.second = msg->points[0].positions[id[1]];
     if (cmd_prev_ == cmd)
       return;
     cmd_prev_ = cmd;
+    id_[0] = id[0];
+    id_[1] = id[1];
     traj_prev_ = *msg;
     avg_vel_ = -1.0;
 
-- 
2.43.0


From 59f4dcd0314134931b3a27f701b437db14e7e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 55/63] fix: planner_2dof_serial_joints: accept zero as the
 first target

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 548dd82..8920fb0 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -215,7 +215,7 @@ private:
     cmd.first = msg->points[0].time_from_start;
     cmd.second.first = msg->points[0].positions[id[0]];
     cmd.second.second = msg->points[0].positions[id[1]];
-    if (cmd_prev_ == cmd)
+    if (id_[0] != -1 && cmd_prev_ == cmd)
       return;
     cmd_prev_ = cmd;
     id_[0] = id[0];
-- 
2.43.0


From df15cabcb4a9aa7d8d7d6c85b68422d17be55c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 56/63] fix: planner_2dof_serial_joints: treat joint angles out
 of the range as cyclic

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index 8920fb0..f716bae 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -552,6 +552,9 @@ private:
     metric2Grid(e, eg);
     ROS_INFO("Planning from (%d, %d) to (%d, %d)",
              s[0], s[1], e[0], e[1]);
+    const Astar::Vec s_orig = s;
+    s.cycleUnsigned(resolution_ * 2, resolution_ * 2);
+    e.cycleUnsigned(resolution_ * 2, resolution_ * 2);
 
     if (cm_[s] == 100)
     {
@@ -600,7 +603,7 @@ private:
     //   std::chrono::duration<float>(tnow - ts).count());
 
     bool first = false;
-    Astar::Vec n_prev = s;
+    Astar::Vec n_prev = s_orig;
     path.push_back(sg);
     int i = 0;
     for (auto& n : path_grid)
-- 
2.43.0


From d8b9f9b06acc32838e747f71dd317fb756d09b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 57/63] fix: planner_2dof_serial_joints: command the motion
 that was checked

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index f716bae..bc6695d 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -576,8 +576,14 @@ private:
 
     if (model_->cost(s, e, starts, e) >= model_->euclidCost(d))
     {
+      // The model checks the motion in the nearest direction
+      Astar::Vec e_near = s_orig + d, e_orig;
+      metric2Grid(e_orig, eg);
+      Astar::Vecf eg_near = eg;
+      for (int i = 0; i < 2; i++)
+        eg_near[i] += (e_near[i] - e_orig[i]) * 2.0 * M_PI / resolution_;
       path.push_back(sg);
-      path.push_back(eg);
+      path.push_back(eg_near);
       if (s == e)
       {
         replan_prev_ = ros::Time(0);
-- 
2.43.0


From f04acd0cb4798263a37374b894b8af5979df151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:21 +0000
Subject: [PATCH 58/63] fix: planner_2dof_serial_joints: no crash on negative
 replan_interval

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index bc6695d..a82ce5f 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -181,9 +181,9 @@ private:
     links_[1].current_th_ = msg->position[id[1]];
     has_joint_states_ = true;
 
-    if ((replan_prev_ + replan_interval_ < ros::Time::now() ||
-         replan_prev_ == ros::Time(0)) &&
-        replan_interval_ > ros::Duration(0))
+    if (replan_interval_ > ros::Duration(0) &&
+        (replan_prev_ + replan_interval_ < ros::Time::now() ||
+         replan_prev_ == ros::Time(0)))
     {
       replan();
     }
-- 
2.43.0


From 8fdff719f9fc2c208bf300d6f609c2bf6afa582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 59/63] fix: planner_2dof_serial_joints: no division by zero on
 a request of the current angles

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index a82ce5f..cd529fd 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -270,7 +270,7 @@ private:
             pos_sum += diff_max;
           }
         }
-        if (traj_prev_.points[0].time_from_start <= ros::Duration(0))
+        if (traj_prev_.points[0].time_from_start <= ros::Duration(0) || pos_sum <= 0)
         {
           avg_vel_ = std::min(links_[0].vmax_, links_[1].vmax_);
         }
-- 
2.43.0


From c2aeb24a7215f66924562462fd910bfad7227d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 60/63] fix: planner_2dof_serial_joints: do not abort searching
 on zero replan_interval

---
 planner_cspace/src/planner_2dof_serial_joints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_2dof_serial_joints.cpp b/planner_cspace/src/planner_2dof_serial_joints.cpp
index cd529fd..d11a7fa 100644
--- a/planner_cspace/src/planner_2dof_serial_joints.cpp
+++ b/planner_cspace/src/planner_2dof_serial_joints.cpp
@@ -593,7 +593,7 @@ private:
     std::list<Astar::Vec> path_grid;
     // const auto ts = std::chrono::high_resolution_clock::now();
     float cancel = std::numeric_limits<float>::max();
-    if (replan_interval_ >= ros::Duration(0))
+    if (replan_interval_ > ros::Duration(0))
       cancel = replan_interval_.toSec();
     if (!as_.search(
             starts, e, path_grid, model_,
-- 
2.43.0


From 67bd96e5b8190010216f624d91ac3ef766f521ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 61/63] fix: trajectory_tracker: sign of the curvature of two
 backward poses

---
 trajectory_tracker/include/trajectory_tracker/path2d.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajectory_tracker/include/trajectory_tracker/path2d.h b/trajectory_tracker/include/trajectory_tracker/path2d.h
index 298a4a1..11b72cd 100644
--- a/trajectory_tracker/include/trajectory_tracker/path2d.h
+++ b/trajectory_tracker/include/trajectory_tracker/path2d.h
@@ -285,7 +285,8 @@ public:
       const float r2 = std::copysign(
           std::sqrt(std::pow(rel.pos_.x(), 2) + std::pow(rel.pos_.x() * cos_v / sin_v, 2)),
           rel.pos_.x() * sin_v);
-      return 1.0f / ((r1 + r2) / 2);
+      // Radius seen from the heading to the one seen from the direction of travel
+      return std::copysign(1.0f, static_cast<float>(rel.pos_.x())) / ((r1 + r2) / 2);
     }
     const float max_search_range_sq = max_search_range * max_search_range;
     trajectory_tracker::Average<float> curv;
-- 
2.43.0


From f18de1a141c399318aa9896e08f7497b35f490e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:12 +0000
Subject: [PATCH 62/63] fix: stop on an outdated costmap also if updates that
 are not applied keep coming

With trigger_plan_by_costmap_update, an update out of the map restarted the
watchdog timer and planned a path as if the costmap had just been updated.
---
 planner_cspace/src/planner_3d.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/planner_cspace/src/planner_3d.cpp b/planner_cspace/src/planner_3d.cpp
index 62f68c2..7140476 100644
--- a/planner_cspace/src/planner_3d.cpp
+++ b/planner_cspace/src/planner_3d.cpp
@@ -989,9 +989,14 @@ protected:
     ROS_DEBUG("Map updated");
     if (trigger_plan_by_costmap_update_)
     {
-      no_map_update_timer_.stop();
       updateStart();
       applyCostmapUpdate(msg);
+      if (map_update_retained_)
+      {
+        // The update is not applied. Keep the timer to detect that the costmap is too old.
+        return;
+      }
+      no_map_update_timer_.stop();
       planPath(last_costmap_);
       if (costmap_watchdog_ > ros::Duration(0))
       {
-- 
2.43.0


From cfb7e0cdb0bc361ea9b2b9737bd92c4e543ff447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:23 +0000
Subject: [PATCH 63/63] fix: safety_limiter: keep the velocity limit until the
 next prediction if parameters are changed

---
 safety_limiter/src/safety_limiter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/safety_limiter/src/safety_limiter.cpp b/safety_limiter/src/safety_limiter.cpp
index 78f5e73..c5a3a71 100644
--- a/safety_limiter/src/safety_limiter.cpp
+++ b/safety_limiter/src/safety_limiter.cpp
@@ -163,6 +163,7 @@ public:
     , tfl_(tfbuf_)
     , cloud_accum_(new pcl::PointCloud<pcl::PointXYZ>)
     , cloud_clear_(false)
+    , r_lim_(1.0)
     , last_disable_cmd_(0)
     , watchdog_stop_(false)
     , has_cloud_(false)
@@ -343,6 +344,8 @@ protected:
 
     // Velocity limit must not be released before the next prediction
     predict_timer_.setPeriod(ros::Duration(1.0 / hz_), false);
+    if (r_lim_ < 1.0)
+      hold_off_ = std::max(hold_off_, ros::Time::now() + hold_);
 
     tmax_ = 0.0;
     for (int i = 0; i < 2; i++)
@@ -353,7 +356,6 @@ protected:
     }
     tmax_ *= 1.5;
     tmax_ += std::max(d_margin_ / vel_[0], yaw_margin_ / vel_[1]);
-    r_lim_ = 1.0;
   }
   double predict(const geometry_msgs::Twist& in)
   {
-- 
2.43.0

