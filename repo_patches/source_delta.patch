From b4e590f6764009d64d20a42c92646ed642d76c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/18] fix: allocate enough KdTree nodes for max_leaf_size of
 1 and 2

---
 include/small_gicp/ann/kdtree.hpp     | 2 +-
 include/small_gicp/ann/kdtree_omp.hpp | 2 +-
 include/small_gicp/ann/kdtree_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..a48ac05 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A binary tree with N leaves has at most 2N - 1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..48c790d 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A binary tree with N leaves has at most 2N - 1 nodes
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..f5652f2 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,7 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    kdtree.nodes.resize(2 * traits::size(points));  // A binary tree with N leaves has at most 2N - 1 nodes
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From f5f45afdcd2902c261f3717c0aa67048e3f1b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 02/18] fix: return no neighbors from a KdTree of an empty
 point cloud

---
 include/small_gicp/ann/kdtree.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index a48ac05..f4950cf 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,7 +171,9 @@ public:
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<-1> result(k_indices, k_sq_dists, k);
-    knn_search(query, root, result, setting);
+    if (!nodes.empty()) {
+      knn_search(query, root, result, setting);
+    }
     return result.num_found();
   }
 
@@ -184,7 +186,9 @@ public:
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
     KnnResult<N> result(k_indices, k_sq_dists);
-    knn_search(query, root, result, setting);
+    if (!nodes.empty()) {
+      knn_search(query, root, result, setting);
+    }
     return result.num_found();
   }
 
@@ -236,7 +240,7 @@ public:
   const PointCloud& points;     ///< Input points
   std::vector<size_t> indices;  ///< Point indices refered by nodes
 
-  NodeIndexType root;       ///< Root node index (should be zero)
+  NodeIndexType root = INVALID_NODE;  ///< Root node index (zero, or invalid if the point cloud is empty)
   std::vector<Node> nodes;  ///< Kd-tree nodes
 };
 
-- 
2.43.0


From aa64711af9317107906777b865f7f8de7f9be463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 03/18] fix: ignore out-of-range points in voxel grid
 downsampling when they start a summation block

---
 include/small_gicp/util/downsampling.hpp     | 5 +++++
 include/small_gicp/util/downsampling_omp.hpp | 5 +++++
 include/small_gicp/util/downsampling_tbb.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..2971a4c 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  // Out-of-range points are sorted to the end
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..1718724 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    // Out-of-range points are sorted to the end
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..ae4737a 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    // Out-of-range points are sorted to the end
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From 024118ec1ecd96a56e3b02faf4eb762917574595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 04/18] fix: replace the previous voxel search offsets when
 selecting the 27-neighborhood

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From 7b725378b7221532316ef6fcb7a452658bf6e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 05/18] fix: add the general factor's error to the candidate
 error in Levenberg-Marquardt

---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From b83103a79e2b99cfe5650a5635cd1a1bc18d294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:23 +0000
Subject: [PATCH 06/18] fix: apply max_correspondence_distance in VGICP
 alignment

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..2168d9c 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


From 422a33660ca0f66719e6d8e8047ed76d6b414e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 07/18] fix: refresh the base class search trees after
 RegistrationPCL::swapSourceAndTarget

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..023f9f8 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -115,6 +115,10 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+
+  // Let the base class rebuild its search trees for the swapped clouds
+  this->source_cloud_updated_ = true;
+  this->target_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 687a686eb2d6ba38f42b7f27bc111aff41571f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 08/18] fix: discard cached voxel maps when covariances are set
 in RegistrationPCL

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 023f9f8..4de12ab 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 98faa72688a19780f9b890311ae1b9f3682ac9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 09/18] fix: validate the new voxel resolution and discard
 voxel maps of the previous one in RegistrationPCL

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 4de12ab..2640be5 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -165,11 +165,15 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
 
+  if (voxel_resolution_ != r) {
+    source_voxelmap_.reset();
+    target_voxelmap_.reset();
+  }
   voxel_resolution_ = r;
 }
 
-- 
2.43.0


From eba3deef34ef0ed171138b28e5199bd3da791f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 10/18] fix: keep the state of RegistrationPCL when the base
 class rejects an empty input cloud

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 2640be5..95ffd45 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -44,6 +44,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputSource(cloud);
+  if (input_ != cloud) {
+    return;  // The base class rejected the cloud
+  }
+
   source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
   source_covs_.clear();
   source_voxelmap_.reset();
@@ -56,6 +60,10 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
   }
 
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputTarget(cloud);
+  if (target_ != cloud) {
+    return;  // The base class rejected the cloud
+  }
+
   target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
   target_covs_.clear();
   target_voxelmap_.reset();
-- 
2.43.0


From 5649e57432284c58799b89a29858558a2a2072fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 11/18] fix: re-estimate covariances after the number of
 neighbors is changed in RegistrationPCL

---
 include/small_gicp/pcl/pcl_registration.hpp   |  3 +++
 .../small_gicp/pcl/pcl_registration_impl.hpp  | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration.hpp b/include/small_gicp/pcl/pcl_registration.hpp
index 57c14ec..c65914b 100644
--- a/include/small_gicp/pcl/pcl_registration.hpp
+++ b/include/small_gicp/pcl/pcl_registration.hpp
@@ -108,6 +108,9 @@ protected:
   std::vector<Eigen::Matrix4d> target_covs_;  ///< Covariances of target points
   std::vector<Eigen::Matrix4d> source_covs_;  ///< Covariances of source points.
 
+  bool target_covs_estimated_;  ///< True if target_covs_ were estimated here (i.e., not set by the user).
+  bool source_covs_estimated_;  ///< True if source_covs_ were estimated here (i.e., not set by the user).
+
   RegistrationResult result_;  ///< Registration result.
 };
 
diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 95ffd45..f029c3f 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -30,6 +30,8 @@ RegistrationPCL<PointSource, PointTarget>::RegistrationPCL() {
   transformation_epsilon_ = 5e-4;
 
   voxel_resolution_ = 1.0;
+  source_covs_estimated_ = false;
+  target_covs_estimated_ = false;
   verbose_ = false;
   registration_type_ = "GICP";
 }
@@ -82,6 +84,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_covs_estimated_ = false;
   source_voxelmap_.reset();
 }
 
@@ -98,6 +101,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_covs_estimated_ = false;
   target_voxelmap_.reset();
 }
 
@@ -124,6 +128,7 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   input_.swap(target_);
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
+  std::swap(source_covs_estimated_, target_covs_estimated_);
   source_voxelmap_.swap(target_voxelmap_);
 
   // Let the base class rebuild its search trees for the swapped clouds
@@ -168,6 +173,18 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
     PCL_ERROR("[RegistrationPCL::setNumNeighborsForCovariance] Invalid number of neighbors: %d\n", k);
     k = 5;
   }
+
+  if (k_correspondences_ != k) {
+    // Covariances estimated with the previous number of neighbors must be estimated again
+    if (source_covs_estimated_) {
+      source_covs_.clear();
+      source_voxelmap_.reset();
+    }
+    if (target_covs_estimated_) {
+      target_covs_.clear();
+      target_voxelmap_.reset();
+    }
+  }
   k_correspondences_ = k;
 }
 
@@ -227,9 +244,11 @@ void RegistrationPCL<PointSource, PointTarget>::computeTransformation(PointCloud
 
   if (source_covs_.size() != input_->size()) {
     estimate_covariances_omp(source_proxy, *source_tree_, k_correspondences_, num_threads_);
+    source_covs_estimated_ = true;
   }
   if (target_covs_.size() != target_->size()) {
     estimate_covariances_omp(target_proxy, *target_tree_, k_correspondences_, num_threads_);
+    target_covs_estimated_ = true;
   }
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
-- 
2.43.0


From ca518cf136db39fcc3a5ea3c6ac77608ab6a0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 12/18] fix: visit each column at most once when the projective
 search window is wider than the index map

---
 include/small_gicp/ann/projective_search.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 3a542ef..23d8ad4 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -122,6 +122,12 @@ private:
           continue;
         }
 
+        // Skip columns that have already been visited before wrapping around (i.e., when the window is wider than the index map)
+        const int du_prev = du - static_cast<int>(index_map.cols());
+        if (du_prev >= -search_window_h && border_h(u + du_prev, index_map.cols()) == u_clamped) {
+          continue;
+        }
+
         const auto index = index_map(v_clamped, u_clamped);
         if (index == invalid_index) {
           continue;
-- 
2.43.0


From 2443446a1b87d29e63620ea6799f6735897b4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 13/18] fix: keep points projected to the right and bottom
 borders in the projective search

---
 include/small_gicp/ann/projective_search.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/small_gicp/ann/projective_search.hpp b/include/small_gicp/ann/projective_search.hpp
index 23d8ad4..ef54fab 100644
--- a/include/small_gicp/ann/projective_search.hpp
+++ b/include/small_gicp/ann/projective_search.hpp
@@ -53,8 +53,8 @@ public:
     for (size_t i = 0; i < traits::size(points); ++i) {
       const Eigen::Vector4d pt = traits::point(points, i);
       const Eigen::Vector2d uv = project(pt.head<3>());
-      const int u = uv[0] * index_map.cols();
-      const int v = uv[1] * index_map.rows();
+      const int u = to_pixel(uv[0], index_map.cols());
+      const int v = to_pixel(uv[1], index_map.rows());
 
       if (u < 0 || u >= index_map.cols() || v < 0 || v >= index_map.rows()) {
         continue;
@@ -100,6 +100,9 @@ public:
   }
 
 private:
+  /// @brief Convert a normalized image coordinate into a pixel index. The right and bottom borders (1.0) belong to the last pixel.
+  static int to_pixel(double x, int size) { return x == 1.0 ? size - 1 : x * size; }
+
   template <typename Result>
   void knn_search(const Eigen::Vector4d& query, Result& result, const KnnSetting& setting) const {
     BorderModeH border_h;
@@ -107,8 +110,8 @@ private:
 
     Projection project;
     const Eigen::Vector2d uv = project(query.head<3>());
-    const int u = uv[0] * index_map.cols();
-    const int v = uv[1] * index_map.rows();
+    const int u = to_pixel(uv[0], index_map.cols());
+    const int v = to_pixel(uv[1], index_map.rows());
 
     for (int dv = -search_window_v; dv <= search_window_v; dv++) {
       const int v_clamped = border_v(v + dv, index_map.rows());
-- 
2.43.0


From 2f951911564a51db5c718c31158913f8d41a2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 14/18] fix: return -1 as the index of neighbors not found in
 the Python KdTree queries as documented

---
 src/python/kdtree.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/kdtree.cpp b/src/python/kdtree.cpp
index 5003935..404e46c 100644
--- a/src/python/kdtree.cpp
+++ b/src/python/kdtree.cpp
@@ -1,5 +1,6 @@
 // SPDX-FileCopyrightText: Copyright 2024 Kenji Koide
 // SPDX-License-Identifier: MIT
+#include <cstdint>
 #include <iostream>
 
 #include <pybind11/pybind11.h>
@@ -70,7 +71,7 @@ void define_kdtree(py::module& m) {
         size_t k_index = -1;
         double k_sq_dist = std::numeric_limits<double>::max();
         const size_t found = traits::nearest_neighbor_search(kdtree, Eigen::Vector4d(pt.x(), pt.y(), pt.z(), 1.0), &k_index, &k_sq_dist);
-        return std::make_tuple(found, k_index, k_sq_dist);
+        return std::make_tuple(found, static_cast<std::int64_t>(k_index), k_sq_dist);
       },
       py::arg("pt"),
       R"""(
@@ -97,7 +98,7 @@ void define_kdtree(py::module& m) {
         std::vector<size_t> k_indices(k, -1);
         std::vector<double> k_sq_dists(k, std::numeric_limits<double>::max());
         const size_t found = traits::knn_search(kdtree, Eigen::Vector4d(pt.x(), pt.y(), pt.z(), 1.0), k, k_indices.data(), k_sq_dists.data());
-        return std::make_pair(k_indices, k_sq_dists);
+        return std::make_pair(std::vector<std::int64_t>(k_indices.begin(), k_indices.end()), k_sq_dists);
       },
       py::arg("pt"),
       py::arg("k"),
@@ -138,7 +139,7 @@ void define_kdtree(py::module& m) {
           }
         }
 
-        return std::make_pair(k_indices, k_sq_dists);
+        return std::make_pair(std::vector<std::int64_t>(k_indices.begin(), k_indices.end()), k_sq_dists);
       },
       py::arg("pts"),
       py::arg("num_threads") = 1,
@@ -186,7 +187,7 @@ void define_kdtree(py::module& m) {
           }
         }
 
-        return std::make_pair(k_indices, k_sq_dists);
+        return std::make_pair(k_indices.cast<std::int64_t>().eval(), k_sq_dists);
       },
       py::arg("pts"),
       py::arg("k"),
-- 
2.43.0


From b7718a8819567eb87293dae8d1e663d867a29de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 15/18] fix: reject None instead of dereferencing a null point
 cloud in the Python bindings

---
 src/python/align.cpp      | 4 ++--
 src/python/kdtree.cpp     | 2 +-
 src/python/preprocess.cpp | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/align.cpp b/src/python/align.cpp
index 86d4884..a1b1312 100644
--- a/src/python/align.cpp
+++ b/src/python/align.cpp
@@ -182,8 +182,8 @@ void define_align(py::module& m) {
       }
       return align(*target, *source, *target_tree, Eigen::Isometry3d(init_T_target_source), setting);
     },
-    py::arg("target"),
-    py::arg("source"),
+    py::arg("target").none(false),
+    py::arg("source").none(false),
     py::arg("target_tree") = nullptr,
     py::arg("init_T_target_source") = Eigen::Matrix4d::Identity(),
     py::arg("registration_type") = "GICP",
diff --git a/src/python/kdtree.cpp b/src/python/kdtree.cpp
index 404e46c..96422cf 100644
--- a/src/python/kdtree.cpp
+++ b/src/python/kdtree.cpp
@@ -50,7 +50,7 @@ void define_kdtree(py::module& m) {
 
     .def(
       py::init([](const PointCloud::ConstPtr& points, int num_threads) { return std::make_shared<KdTree<PointCloud>>(points, KdTreeBuilderOMP(num_threads)); }),
-      py::arg("points"),
+      py::arg("points").none(false),
       py::arg("num_threads") = 1,
       R"""(
         KdTree(points: PointCloud, num_threads: int = 1)
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index a849c2a..307ab7b 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -118,7 +118,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -152,7 +152,7 @@ void define_preprocess(py::module& m) {
         estimate_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
@@ -186,7 +186,7 @@ void define_preprocess(py::module& m) {
         estimate_normals_covariances_omp(*points, *tree, num_neighbors, num_threads);
       }
     },
-    py::arg("points"),
+    py::arg("points").none(false),
     py::arg("tree") = nullptr,
     py::arg("num_neighbors") = 20,
     py::arg("num_threads") = 1,
-- 
2.43.0


From 4fb00c4ee1f12bfb3812573436bc649acd4b527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 16/18] fix: do not take the fourth column of an N x 4 array as
 the homogeneous coordinate in the Python bindings

---
 src/python/pointcloud.cpp | 10 ++--------
 src/python/preprocess.cpp |  6 +-----
 2 files changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/python/pointcloud.cpp b/src/python/pointcloud.cpp
index 39197f8..692a56e 100644
--- a/src/python/pointcloud.cpp
+++ b/src/python/pointcloud.cpp
@@ -25,14 +25,8 @@ void define_pointcloud(py::module& m) {
 
         auto pc = std::make_shared<PointCloud>();
         pc->resize(points.rows());
-        if (points.cols() == 3) {
-          for (size_t i = 0; i < points.rows(); i++) {
-            pc->point(i) << points.row(i).transpose(), 1.0;
-          }
-        } else {
-          for (size_t i = 0; i < points.rows(); i++) {
-            pc->point(i) << points.row(i).transpose();
-          }
+        for (size_t i = 0; i < points.rows(); i++) {
+          pc->point(i) << points.row(i).head<3>().transpose(), 1.0;
         }
 
         return pc;
diff --git a/src/python/preprocess.cpp b/src/python/preprocess.cpp
index 307ab7b..7d3fc84 100644
--- a/src/python/preprocess.cpp
+++ b/src/python/preprocess.cpp
@@ -218,11 +218,7 @@ void define_preprocess(py::module& m) {
       auto points = std::make_shared<PointCloud>();
       points->resize(points_numpy.rows());
       for (size_t i = 0; i < points_numpy.rows(); i++) {
-        if (points_numpy.cols() == 3) {
-          points->point(i) << points_numpy.row(i).transpose(), 1.0;
-        } else {
-          points->point(i) << points_numpy.row(i).transpose();
-        }
+        points->point(i) << points_numpy.row(i).head<3>().transpose(), 1.0;
       }
 
       auto downsampled = voxelgrid_sampling_omp(*points, downsampling_resolution, num_threads);
-- 
2.43.0


From 3a87c716c7a0ea305dfbfda2d434ce1779ac1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 17/18] fix: do not drop points because of the homogeneous
 coordinate in voxelgrid sampling with a very small leaf size

---
 include/small_gicp/util/downsampling.hpp     | 2 +-
 include/small_gicp/util/downsampling_omp.hpp | 2 +-
 include/small_gicp/util/downsampling_tbb.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 2971a4c..abe9e35 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -35,7 +35,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   std::vector<std::pair<std::uint64_t, size_t>> coord_pt(traits::size(points));
   for (size_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index 1718724..572b038 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 32)
   for (std::int64_t i = 0; i < traits::size(points); i++) {
     const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-    if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+    if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
       std::cerr << "warning: voxel coord is out of range!!" << std::endl;
       coord_pt[i] = {invalid_coord, i};
       continue;
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index ae4737a..92a1424 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -39,7 +39,7 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), 64), [&](const tbb::blocked_range<size_t>& range) {
     for (size_t i = range.begin(); i != range.end(); i++) {
       const Eigen::Array4i coord = fast_floor(traits::point(points, i) * inv_leaf_size) + coord_offset;
-      if ((coord < 0).any() || (coord > coord_bit_mask).any()) {
+      if ((coord.head<3>() < 0).any() || (coord.head<3>() > coord_bit_mask).any()) {
         std::cerr << "warning: voxel coord is out of range!!" << std::endl;
         coord_pt[i] = {invalid_coord, i};
         continue;
-- 
2.43.0


From d4f4ba5af784834f454f8739afc53e8d55735cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 18/18] fix: do not evict every voxel when lru_horizon is set
 to (nearly) the maximum value

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 6ca65ef..3777340 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -73,7 +73,7 @@ public:
     if ((++lru_counter) % lru_clear_cycle == 0) {
       // Remove least recently used voxels
       auto remove_counter = std::remove_if(flat_voxels.begin(), flat_voxels.end(), [&](const std::shared_ptr<std::pair<VoxelInfo, VoxelContents>>& voxel) {
-        return voxel->first.lru + lru_horizon < lru_counter;
+        return lru_counter - voxel->first.lru > lru_horizon;
       });
       flat_voxels.erase(remove_counter, flat_voxels.end());
 
-- 
2.43.0

