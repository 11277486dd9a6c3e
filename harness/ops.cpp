// C28: histories of documented calls on valid finite data, run under sanitizers, and run twice with different contents
// of fresh heap and stack memory (a result that depends on them used uninitialised memory).
#include <malloc.h>
#include <tbb/tbb.h>
#include "sched.hpp"
#include "knncheck.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using Iso = Eigen::Isometry3d;
using FlatMap = IncrementalVoxelMap<FlatContainerNormalCov>;
using FlatPoints = IncrementalVoxelMap<FlatContainerPoints>;

#if defined(__SANITIZE_ADDRESS__)
constexpr int kMaxN = 700;
#else
constexpr int kMaxN = 1500;
#endif

/// A voxel map searched only within the range of its integer coordinates (a diverging optimisation may leave it).
template <typename Map>
struct Ranged {
  const Map& m;
};
namespace small_gicp::traits {
template <typename Map>
struct Traits<Ranged<Map>> {
  static size_t nearest_neighbor_search(const Ranged<Map>& r, const Eigen::Vector4d& p, size_t* i, double* d) {
    if (!(p.head<3>().cwiseAbs().maxCoeff() * r.m.inv_leaf_size < 1e9)) return 0;
    return Traits<Map>::nearest_neighbor_search(r.m, p, i, d);
  }
};
}  // namespace small_gicp::traits

/// Output buffers on the heap, of exactly the promised length, and filled with a pattern that must not be read.
struct Out {
  std::unique_ptr<size_t[]> i;
  std::unique_ptr<double[]> d;
  explicit Out(size_t k, int fill) : i(new size_t[k]), d(new double[k]) {
    memset(i.get(), fill, k * sizeof(size_t));
    memset(d.get(), fill, k * sizeof(double));
  }
};

/// What the documented results of a history are, as numbers.
struct Digest {
  std::vector<std::pair<std::string, uint64_t>> v;
  void raw(const std::string& what, const void* p, size_t n) { v.emplace_back(what, hash_bytes((const uint8_t*)p, n)); }
  void num(const std::string& what, uint64_t x) { v.emplace_back(what, x); }
};

__attribute__((noinline)) static void scribble(int fill) {
  volatile unsigned char area[96 * 1024];
  for (size_t i = 0; i < sizeof area; i++) area[i] = (unsigned char)fill;
}

struct Slot {
  PointCloud::Ptr c = std::make_shared<PointCloud>();
  Pts model;  // the points the cloud must hold
  bool normals = false, covs = false;
  double scale = 1;
};

struct History {
  Src& s;
  Digest dg;
  int fill;
  std::vector<Slot> slots = std::vector<Slot>(3);
  std::shared_ptr<KdTree<PointCloud>> tree;
  Pts tree_model;
  double tree_scale = 1;
  std::unique_ptr<GaussianVoxelMap> gmap;
  std::unique_ptr<FlatMap> fmap;
  std::unique_ptr<FlatPoints> pmap;
  std::string where;
  int ops = 0, interesting = 0;
  History(Src& s, int fill) : s(s), fill(fill) {}

  static Eigen::Matrix4d some_cov(double scale) { return V4(scale * 0.1, scale * 0.02, scale * 0.1, 0).cwiseAbs2().asDiagonal(); }
  Slot& any() { return slots[s.below(slots.size())]; }
  int threads() { return s.one_of<int>({2, 1, 3, 8}); }

  void points(const std::string& what, const PointCloud& c) {
    PBT_CHECK(c.normals.size() == c.size() && c.covs.size() == c.size(), where << ": attribute arrays of different length");
    for (auto& p : c.points) PBT_CHECK(p.allFinite(), where << ": non-finite point in the result");
    dg.num(what, c.size());
    if (c.size()) dg.raw(what, c.points.data(), c.size() * sizeof(V4));
  }

  template <typename T>
  void query(const T& t, double scale, size_t n_points, const Pts& near, const char* what) {
    V4 q = gen::query(s, near, scale);
    // keep within the range of voxel coordinates
    if (q.head<3>().cwiseAbs().maxCoeff() > 1e5 * scale) q = V4(scale, 0, 0, 1);
    size_t k = s.pick({2, 3, 1}) == 0 ? 1 : s.range(1, s.coin(10) ? 400 : 20);
    Out o(k, fill);
    size_t n;
    if (s.coin(30)) {
      n = traits::nearest_neighbor_search(t, q, o.i.get(), o.d.get());
      k = 1;
    } else
      n = traits::knn_search(t, q, k, o.i.get(), o.d.get());
    PBT_CHECK(n <= k, where << " " << what << ": " << n << " neighbours for k=" << k);
    dg.num(what, n);
    for (size_t i = 0; i < n; i++) {
      PBT_CHECK(n_points == 0 || o.i[i] < n_points, where << " " << what << ": invalid index " << o.i[i]);
      PBT_CHECK(std::isfinite(o.d[i]) && o.d[i] >= 0 && (i == 0 || o.d[i - 1] <= o.d[i]), where << " " << what << ": distance " << o.d[i] << " at " << i);
    }
    dg.raw(std::string(what) + " indices", o.i.get(), n * sizeof(size_t));
    dg.raw(std::string(what) + " distances", o.d.get(), n * sizeof(double));
    if (n > 1) interesting++;
  }
  template <typename Map>
  void map_query(const Map& m, const Slot& sl, const char* what) {
    query(m, sl.scale, 0, sl.model, what);
    for (size_t v = 0; v < m.flat_voxels.size(); v++) {
      auto& vox = m.flat_voxels[v]->second;
      for (size_t j = 0; j < traits::size(vox); j++) {
        size_t idx = m.calc_index(v, j);
        V4 p = traits::point(m, idx);
        PBT_CHECK(p.allFinite(), where << " " << what << ": non-finite point in the map");
        dg.raw(what, p.data(), sizeof(V4));
      }
    }
    dg.num(what, m.size());
  }
  void result(const std::string& what, const RegistrationResult& r, size_t n, bool exact) {
    PBT_CHECK(r.num_inliers <= n, where << ": " << r.num_inliers << " inliers of " << n);
    if (!exact) return;
    dg.raw(what + " pose", r.T_target_source.matrix().data(), 16 * sizeof(double));
    dg.num(what + " inliers", r.num_inliers);
    dg.num(what + " flags", r.converged * 1000 + r.iterations);
    dg.raw(what + " H", r.H.data(), sizeof(r.H));
    dg.raw(what + " b", r.b.data(), sizeof(r.b));
    dg.raw(what + " error", &r.error, sizeof(double));
    if (r.num_inliers > 5) interesting++;
  }

  template <typename F, typename Red, typename Opt, typename Tgt, typename Tree>
  RegistrationResult solve(const Tgt& tgt, const PointCloud& src, const Tree& tree, const Iso& T, double scale, int nt) {
    Registration<F, Red, NullFactor, DistanceRejector, Opt> reg;
    reg.rejector.max_dist_sq = std::pow(scale * s.one_of<double>({1.0, 0.1, 1e6, 0.0}), 2);
    reg.optimizer.max_iterations = s.one_of<int>({3, 0, 1, 10});
    reg.optimizer.verbose = s.coin(5);
    if constexpr (std::is_same_v<Opt, LevenbergMarquardtOptimizer>) {
      reg.optimizer.max_inner_iterations = s.one_of<int>({10, 1, 2});
      reg.optimizer.init_lambda = s.one_of<double>({1e-3, 1.0, 1e-9});
    } else
      reg.optimizer.lambda = s.one_of<double>({1e-6, 1.0});
    reg.criteria.translation_eps = s.one_of<double>({1e-3, 0.0, 1e9});
    if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = nt;
    return reg.align(tgt, src, tree, T);
  }

  void step(int op = -1) {
    if (op < 0) op = s.pick({3, 2, 4, 1, 6, 4, 5, 4, 4, 5, 4, 2, 1, 2});
    ops++;
    where = "step " + std::to_string(ops) + " op " + std::to_string(op);
    s.label("op:" + std::to_string(op));
    switch (op) {
      case 0: {  // a cloud from points
        Slot& sl = any();
        gen::CloudInfo ci;
        gen::Opt o;
        o.max_n = s.one_of<int>({kMaxN, 40, 3});
        if (ops <= 2) o.min_n = 30;
        if (s.coin(10))
          sl.model.clear();
        else
          sl.model = gen::points(s, o, &ci);
        sl.scale = ci.scale;
        if (s.coin(50))
          sl.c = std::make_shared<PointCloud>(sl.model);
        else {
          sl.c->resize(sl.model.size());
          for (size_t i = 0; i < sl.model.size(); i++) sl.c->point(i) = sl.model[i];
        }
        sl.normals = sl.covs = false;
        break;
      }
      case 1: {  // resize, copy, move
        Slot& sl = any();
        int what = s.below(4);
        if (what == 0) {
          size_t old = sl.c->size(), n = s.size(0, 60);
          sl.c->resize(n);
          for (size_t i = old; i < n; i++) sl.c->point(i) = V4(i, 0, 1, 1);
          sl.model.resize(n);
          for (size_t i = old; i < n; i++) sl.model[i] = V4(i, 0, 1, 1);
          if (n > old) sl.normals = sl.covs = false;
        } else if (what == 1) {
          Slot& other = any();
          if (&other != &sl) {
            other.c = std::make_shared<PointCloud>(*sl.c);
            other.model = sl.model;
            other.normals = sl.normals;
            other.covs = sl.covs;
            other.scale = sl.scale;
          }
        } else if (what == 2) {
          PointCloud tmp = std::move(*sl.c);
          *sl.c = std::move(tmp);
        } else {
          auto p = std::make_shared<PointCloud>();
          p->resize(sl.c->size());
          for (size_t i = 0; i < sl.c->size(); i++) traits::set_point(*p, i, traits::point(*sl.c, i));
          sl.c = p;
          sl.normals = sl.covs = false;
        }
        break;
      }
      case 2: {  // voxel grid
        Slot& sl = any();
        double leaf = sl.scale * s.one_of<double>({0.2, 0.01, 1.0, 50.0});
        double reach = 0;
        for (auto& p : sl.model) reach = std::max(reach, p.head<3>().cwiseAbs().maxCoeff());
        if (reach / leaf > 1e9) leaf = reach;  // coordinates outside the int range are outside the documented domain
        int how = s.below(3);
        auto out = how == 0 ? voxelgrid_sampling(*sl.c, leaf) : how == 1 ? voxelgrid_sampling_omp(*sl.c, leaf, threads()) : voxelgrid_sampling_tbb(*sl.c, leaf);
        PBT_CHECK(out->size() <= sl.model.size(), where << ": more points than before");
        if (how == 0) {
          points("voxelgrid", *out);
          if (out->size() > 1 && out->size() < sl.model.size()) interesting++;
          if (s.coin(50)) {
            Slot& to = any();
            double sc = sl.scale;
            to.c = out;
            to.model = out->points;
            to.normals = to.covs = false;
            to.scale = sc;
          }
        } else
          for (auto& p : out->points) PBT_CHECK(p.allFinite(), where << ": non-finite point");
        break;
      }
      case 3: {  // random sampling
        Slot& sl = any();
        std::mt19937 rng(s.below(1000));
        auto out = random_sampling(*sl.c, s.below(sl.model.size() + 5), rng);
        points("random sampling", *out);
        break;
      }
      case 4: {  // normals and covariances
        Slot& sl = any();
        int k = s.one_of<int>({10, 1, 4, 5, 20, 50}), how = s.below(3), what = s.below(3), nt = threads();
        bool own_tree = s.coin(70);
        auto go = [&](auto& cloud) {
          if (own_tree) {
            if (how == 0) what == 0 ? estimate_normals(cloud, k) : what == 1 ? estimate_covariances(cloud, k) : estimate_normals_covariances(cloud, k);
            if (how == 1) what == 0 ? estimate_normals_omp(cloud, k, nt) : what == 1 ? estimate_covariances_omp(cloud, k, nt) : estimate_normals_covariances_omp(cloud, k, nt);
            if (how == 2) what == 0 ? estimate_normals_tbb(cloud, k) : what == 1 ? estimate_covariances_tbb(cloud, k) : estimate_normals_covariances_tbb(cloud, k);
          } else {
            UnsafeKdTree<PointCloud> t(cloud);
            if (how == 0) what == 0 ? estimate_normals(cloud, t, k) : what == 1 ? estimate_covariances(cloud, t, k) : estimate_normals_covariances(cloud, t, k);
            if (how == 1) what == 0 ? estimate_normals_omp(cloud, t, k, nt) : what == 1 ? estimate_covariances_omp(cloud, t, k, nt) : estimate_normals_covariances_omp(cloud, t, k, nt);
            if (how == 2) what == 0 ? estimate_normals_tbb(cloud, t, k) : what == 1 ? estimate_covariances_tbb(cloud, t, k) : estimate_normals_covariances_tbb(cloud, t, k);
          }
        };
        go(*sl.c);
        sl.normals = sl.normals || what != 1;
        sl.covs = sl.covs || what != 0;
        size_t n = sl.c->size();
        for (size_t i = 0; i < n; i++) {
          if (what != 1) PBT_CHECK(sl.c->normal(i).allFinite(), where << ": normal " << i << " is not finite (k=" << k << ")");
          if (what != 0) PBT_CHECK(sl.c->cov(i).allFinite(), where << ": covariance " << i << " is not finite (k=" << k << ")");
        }
        if (n && what != 1) dg.raw("normals", sl.c->normals.data(), n * sizeof(V4));
        if (n && what != 0) dg.raw("covs", sl.c->covs.data(), n * sizeof(Eigen::Matrix4d));
        if (n > 5) interesting++;
        break;
      }
      case 5: {  // a tree
        Slot& sl = any();
        int leaf = s.one_of<int>({20, 1, 2, 3, 1000}), scan = s.one_of<int>({128, 1, 5}), how = s.below(3);
        auto held = std::make_shared<PointCloud>(*sl.c);
        if (how == 0) {
          KdTreeBuilder b;
          b.max_leaf_size = leaf;
          b.projection_setting.max_scan_count = scan;
          tree = std::make_shared<KdTree<PointCloud>>(held, b);
        } else if (how == 1) {
          KdTreeBuilderOMP b(threads());
          b.max_leaf_size = leaf;
          b.projection_setting.max_scan_count = scan;
          tree = std::make_shared<KdTree<PointCloud>>(held, b);
        } else {
          KdTreeBuilderTBB b;
          b.max_leaf_size = leaf;
          b.projection_setting.max_scan_count = scan;
          tree = std::make_shared<KdTree<PointCloud>>(held, b);
        }
        tree_model = sl.model;
        tree_scale = sl.scale;
        KdTree<PointCloud, NormalProjection> other(held);
        query(other, sl.scale, sl.model.size(), sl.model, "normal-projection tree");
        break;
      }
      case 6:  // queries
        for (int i = 0; tree && i < 3; i++) query(*tree, tree_scale, tree_model.size(), tree_model, "tree");
        break;
      case 7: {  // Gaussian voxel map
        Slot& sl = any();
        if (!sl.covs && !sl.c->empty()) {
          for (size_t i = 0; i < sl.c->size(); i++) sl.c->cov(i) = some_cov(sl.scale);
          sl.covs = true;
        }
        if (!gmap || s.coin(20)) {
          gmap.reset(new GaussianVoxelMap(sl.scale * s.one_of<double>({0.5, 0.05, 10.0})));
          gmap->set_search_offsets(s.one_of<int>({1, 7, 27, 5}));
          gmap->lru_clear_cycle = s.one_of<int>({10, 1, 2});
          gmap->lru_horizon = s.one_of<int>({100, 0, 1});
        }
        Iso T = gen::pose(s, 3, sl.scale);
        if (in_range(*gmap, sl, T)) gmap->insert(*sl.c, T);
        map_query(*gmap, sl, "Gaussian map");
        break;
      }
      case 8: {  // flat voxel maps
        Slot& sl = any();
        if (!(sl.covs && sl.normals)) {
          for (size_t i = 0; i < sl.c->size(); i++) sl.c->cov(i) = some_cov(sl.scale), sl.c->normal(i) = V4(0, 0, 1, 0);
          sl.covs = sl.normals = true;
        }
        bool fresh = s.coin(20);
        if (!fmap || fresh) {
          double leaf = sl.scale * s.one_of<double>({0.5, 0.05, 10.0});
          fmap.reset(new FlatMap(leaf));
          pmap.reset(new FlatPoints(leaf));
          int off = s.one_of<int>({1, 7, 27});
          fmap->set_search_offsets(off);
          pmap->set_search_offsets(off);
          fmap->lru_clear_cycle = pmap->lru_clear_cycle = s.one_of<int>({10, 1, 2});
          fmap->lru_horizon = pmap->lru_horizon = s.one_of<int>({100, 0, 1});
          fmap->voxel_setting.max_num_points_in_cell = pmap->voxel_setting.max_num_points_in_cell = s.one_of<int>({10, 1, 100});
          fmap->voxel_setting.min_sq_dist_in_cell = pmap->voxel_setting.min_sq_dist_in_cell = s.one_of<double>({0.01, 0.0, 1.0}) * sl.scale * sl.scale;
        }
        Iso T = gen::pose(s, 3, sl.scale);
        if (in_range(*fmap, sl, T)) {
          fmap->insert(*sl.c, T);
          pmap->insert(*sl.c, T);
        }
        map_query(*fmap, sl, "flat map");
        map_query(*pmap, sl, "point map");
        break;
      }
      case 9: {  // registration against a tree
        Slot &a = any(), &b = any();
        UnsafeKdTree<PointCloud> t(*a.c);
        Iso T = gen::pose(s, 0.2, 0.1 * a.scale);
        int how = s.below(6), nt = threads();
        if (how >= 2 && (!a.normals || !a.covs || !b.covs)) how = s.below(2);
        RegistrationResult r;
        switch (how) {
          case 0: r = solve<ICPFactor, SerialReduction, GaussNewtonOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
          case 1: r = solve<ICPFactor, ParallelReductionOMP, LevenbergMarquardtOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
          case 2: r = solve<PointToPlaneICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
          case 3: r = solve<GICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
          case 4: r = solve<GICPFactor, ParallelReductionTBB, GaussNewtonOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
          default: r = solve<RobustFactor<Huber, GICPFactor>, SerialReduction, GaussNewtonOptimizer>(*a.c, *b.c, t, T, a.scale, nt); break;
        }
        result("align " + std::to_string(how), r, b.c->size(), how == 0 || how == 2 || how == 3 || how == 5);
        break;
      }
      case 10: {  // registration against voxel maps
        Slot& b = any();
        Iso T = gen::pose(s, 0.2, 0.1 * b.scale);
        bool flat = s.coin(50), vg = b.covs && !b.c->empty();
        if (!flat && gmap && vg && in_range(*gmap, b, T)) result("align voxels", solve<GICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(*gmap, *b.c, Ranged<GaussianVoxelMap>{*gmap}, T, b.scale, 1), b.c->size(), true);
        if (flat && fmap && vg && in_range(*fmap, b, T)) {
          int how = s.below(3);
          auto r = how == 0   ? solve<GICPFactor, SerialReduction, GaussNewtonOptimizer>(*fmap, *b.c, Ranged<FlatMap>{*fmap}, T, b.scale, 1)
                   : how == 1 ? solve<PointToPlaneICPFactor, SerialReduction, LevenbergMarquardtOptimizer>(*fmap, *b.c, Ranged<FlatMap>{*fmap}, T, b.scale, 1)
                              : solve<ICPFactor, ParallelReductionOMP, LevenbergMarquardtOptimizer>(*pmap, *b.c, Ranged<FlatPoints>{*pmap}, T, b.scale, threads());
          result("align flat " + std::to_string(how), r, b.c->size(), how < 2);
        }
        break;
      }
      case 11: {  // the simple interface
        Slot &a = any(), &b = any();
        RegistrationSetting st;
        st.type = s.one_of<RegistrationSetting::RegistrationType>({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
        double scale = std::max(a.scale, b.scale), reach = scale;
        for (auto* sl : {&a, &b})
          for (auto& p : sl->model) reach = std::max(reach, p.head<3>().cwiseAbs().maxCoeff());
        st.downsampling_resolution = std::max(scale * s.one_of<double>({0.1, 1.0, 100.0}), reach * 1e-6);
        st.voxel_resolution = std::max(scale * s.one_of<double>({0.5, 5.0}), reach * 1e-6);
        st.max_correspondence_distance = scale * s.one_of<double>({1.0, 0.01});
        st.num_threads = threads();
        st.max_iterations = s.one_of<int>({5, 0, 1});
        Iso T = gen::pose(s, 0.2, 0.1 * a.scale);
        auto r = align(a.model, b.model, T, st);
        result("simple align", r, b.model.size(), false);
        if (s.coin(50)) {
          auto [c, t] = preprocess_points(*a.c, st.downsampling_resolution, s.one_of<int>({10, 5, 20}), threads());
          PBT_CHECK(c && t, where << ": no result");
          query(*t, a.scale, c->size(), c->points, "preprocessed");
          dg.v.resize(dg.v.size() - 3);  // parallel: not comparable bit for bit
          auto m = create_gaussian_voxelmap(*c, st.voxel_resolution);
          PBT_CHECK(c->empty() || m->size() > 0, where << ": empty voxel map");
          result("align on preprocessed", align(*c, *c, *t, T, st), c->size(), false);
          st.type = RegistrationSetting::VGICP;
          result("align on voxels", align(*m, *c, T, st), c->size(), false);
        }
        break;
      }
      case 12: {  // projective search
        Slot& sl = any();
        int W = s.one_of<int>({64, 1, 16, 7}), H = s.one_of<int>({32, 1, 8});
        UnsafeProjectiveSearch<PointCloud> ps(W, H, *sl.c);
        ps.search_window_h = s.one_of<int>({10, 0, 2, 200});
        ps.search_window_v = s.one_of<int>({5, 0, 100});
        query(ps, sl.scale, sl.model.size(), sl.model, "projective search");
        auto p = std::make_shared<ProjectiveSearch<PointCloud>>(W, H, std::make_shared<PointCloud>(*sl.c));
        query(*p, sl.scale, sl.model.size(), sl.model, "owning projective search");
        break;
      }
      case 13:  // drop everything
        switch (s.below(7)) {
          case 0: tree.reset(); break;
          case 1: gmap.reset(); break;
          case 2: fmap.reset(), pmap.reset(); break;
          case 3: any() = Slot(); break;
          // go on with a copy, the original gone
          case 4:
            if (tree) tree = std::make_shared<KdTree<PointCloud>>(KdTree<PointCloud>(*tree));
            break;
          case 5:
            if (gmap) gmap.reset(new GaussianVoxelMap(*std::make_unique<GaussianVoxelMap>(*gmap)));
            break;
          default:
            if (fmap) fmap.reset(new FlatMap(FlatMap(*fmap))), pmap.reset(new FlatPoints(FlatPoints(*pmap)));
            break;
        }
        break;
    }
    // every cloud still holds what it held
    for (auto& sl : slots) {
      PBT_CHECK(sl.c->size() == sl.model.size(), where << ": a cloud changed its size");
      if (sl.model.size()) PBT_CHECK(memcmp(sl.c->points.data(), sl.model.data(), sl.model.size() * sizeof(V4)) == 0, where << ": the points of a cloud changed");
    }
    scribble(fill);
  }
  /// voxel coordinates stay within the range of an int
  template <typename Map>
  bool in_range(const Map& m, const Slot& sl, const Iso& T) {
    double reach = T.translation().cwiseAbs().maxCoeff();
    for (auto& p : sl.model) reach = std::max(reach, 2 * p.head<3>().norm());
    return reach * m.inv_leaf_size < 1e8;
  }
};

static void history(Src& s, int fill, Digest& d, int& interesting, int& ops) {
#if !defined(__SANITIZE_ADDRESS__)
  mallopt(M_PERTURB, fill ^ 0xff);
#endif
  scribble(fill);
  sched::TbbThreads lim(s.one_of<int>({4, 1, 2, 8}));
  int n = s.range(4, 30);
  History h(s, fill);
  h.step(0);
  h.step(0);
  for (int i = 0; i < n; i++) h.step();
  d = h.dg;
  interesting = h.interesting;
  ops = h.ops;
}

PBT_PROPERTY(memory_safety) {
  size_t start = s.generating ? *s.rec_len : s.pos;
  int f1 = 0xa5, f2 = s.one_of<int>({0x00, 0x3f, 0xff, 0x7f});
  size_t begin = s.generating ? *s.rec_len : s.pos;
  (void)start;
  Digest a, b;
  int interesting = 0, ops = 0;
  history(s, f1, a, interesting, ops);
  s.nontrivial = interesting >= 3;
  s.note("operations=" + std::to_string(ops) + " results=" + std::to_string(a.v.size()) + " second fill=" + std::to_string(f2));
#if !defined(__SANITIZE_ADDRESS__)
  // the same history over differently filled memory
  Src s2;
  std::vector<uint8_t> tape;
  if (s.generating)
    tape.assign(s.rec + begin, s.rec + *s.rec_len);
  else if (begin < s.in_len)
    tape.assign(s.in + begin, s.in + s.in_len);
  s2.in = tape.data();
  s2.in_len = tape.size();
  int i2 = 0, o2 = 0;
  history(s2, f2, b, i2, o2);
  PBT_CHECK(a.v.size() == b.v.size(), "the history gives " << a.v.size() << " and " << b.v.size() << " results over differently filled memory");
  for (size_t i = 0; i < a.v.size(); i++)
    PBT_CHECK(a.v[i] == b.v[i], "result " << i << " of " << a.v.size() << " (" << a.v[i].first << ") depends on the previous contents of fresh memory (fills " << f1 << " and " << f2 << ")");
  mallopt(M_PERTURB, 165);
#else
  (void)b;
  (void)f2;
#endif
}
