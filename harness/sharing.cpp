// C29: no data races inside parallel operations (ThreadSanitizer over a runtime whose synchronisation it sees), and concurrent
// read-only use of shared objects gives the single-threaded answers.
#include <tbb/tbb.h>
#include <thread>
#include "clouds.hpp"
#include "knncheck.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using Iso = Eigen::Isometry3d;
using FlatMap = IncrementalVoxelMap<FlatContainerNormalCov>;

#ifdef MINIRT_TSAN
constexpr int kMaxN = 1800, kShared = 250;
#else
constexpr int kMaxN = 6000, kShared = 1500;
#endif

// ------------------------------------------------------------------------------------------ inside parallel operations

template <typename Cloud>
static void parallel_case(Src& s, const Pts& p, double scale, int threads) {
  auto c = std::make_shared<Cloud>(p);
  int op = s.below(7);
  bool tbb = s.coin(50);
  static const char* names[] = {"tree", "voxel grid", "normals", "covariances", "both", "reduction", "registration"};
  s.label(std::string(names[op]) + (tbb ? "/tbb" : "/omp"));
  s.note(std::string(names[op]) + (tbb ? "/tbb" : "/omp") + " n=" + std::to_string(p.size()) + " threads=" + std::to_string(threads));
  int k = s.one_of<int>({10, 5, 2});
  switch (op) {
    case 0: {
      int leaf = s.one_of<int>({20, 1, 4});
      if (tbb) {
        KdTreeBuilderTBB b;
        b.max_leaf_size = leaf;
        KdTree<Cloud> t(c, b);
      } else {
        KdTreeBuilderOMP b(threads);
        b.max_leaf_size = leaf;
        s.coin(50) ? (void)KdTree<Cloud>(c, b) : (void)KdTree<Cloud, NormalProjection>(c, b);
      }
      break;
    }
    case 1: {
      double leaf = scale * s.one_of<double>({0.1, 0.01, 0.5, 3.0});
      tbb ? (void)voxelgrid_sampling_tbb(*c, leaf) : (void)voxelgrid_sampling_omp(*c, leaf, threads);
      break;
    }
    case 2: tbb ? estimate_normals_tbb(*c, k) : estimate_normals_omp(*c, k, threads); break;
    case 3: tbb ? estimate_covariances_tbb(*c, k) : estimate_covariances_omp(*c, k, threads); break;
    case 4: tbb ? estimate_normals_covariances_tbb(*c, k) : estimate_normals_covariances_omp(*c, k, threads); break;
    default: {
      if (p.empty()) break;
      size_t n = std::min<size_t>(p.size(), 500);
      Cloud src(Pts(p.begin(), p.begin() + n));
      for (size_t i = 0; i < p.size(); i++) traits::set_cov(*c, i, Eigen::Matrix4d(V4(1, 1, 1, 0).asDiagonal()));
      for (size_t i = 0; i < n; i++) traits::set_cov(src, i, Eigen::Matrix4d(V4(1, 1, 1, 0).asDiagonal()));
      UnsafeKdTree<Cloud> t(*c);
      Iso T = gen::pose(s, 0.1, 0.1 * scale);
      DistanceRejector rej;
      rej.max_dist_sq = scale * scale;
      auto go = [&](auto factor, auto red) {
        using F = decltype(factor);
        using R = decltype(red);
        if (op == 5) {
          std::vector<F> fs(n, F(typename F::Setting()));
          for (int i = 0; i < 2; i++) {
            red.linearize(*c, src, t, rej, T, fs);
            red.error(*c, src, T, fs);
          }
        } else {
          Registration<F, R, NullFactor, DistanceRejector, LevenbergMarquardtOptimizer> reg;
          reg.reduction = red;
          reg.optimizer.max_iterations = 2;
          reg.align(*c, src, t, T);
        }
      };
      ParallelReductionOMP omp;
      omp.num_threads = threads;
      if (tbb)
        s.coin(50) ? go(ICPFactor(ICPFactor::Setting()), ParallelReductionTBB()) : go(GICPFactor(GICPFactor::Setting()), ParallelReductionTBB());
      else
        s.coin(50) ? go(ICPFactor(ICPFactor::Setting()), omp) : go(GICPFactor(GICPFactor::Setting()), omp);
    }
  }
}

PBT_PROPERTY(parallel_races) {
  gen::CloudInfo ci;
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  s.nontrivial = threads > 1;
  if (s.coin(25)) {  // the sorts themselves
    size_t n = s.one_of<int>({1500, 3000, 1024, 257});
    Rng r(s.seed());
    std::vector<uint64_t> v(n);
    uint64_t range = s.one_of<uint64_t>({~0ull, 3, 1000});
    for (auto& x : v) x = r.below(range);
    int how = s.below(3);
    auto key = [](const uint64_t& a) { return a; };
    auto less = [](const uint64_t& a, const uint64_t& b) { return a < b; };
    if (how == 0) quick_sort_omp(v.begin(), v.end(), less, threads);
    if (how == 1) merge_sort_omp(v.begin(), v.end(), less, threads);
    if (how == 2) radix_sort_tbb(v.data(), v.data() + n, key);
    s.label("sort " + std::to_string(how));
    s.note("sort " + std::to_string(how) + " n=" + std::to_string(n) + " threads=" + std::to_string(threads));
    return;
  }
  gen::Opt o;
  o.max_n = kMaxN;
  if (s.coin(50)) o.min_n = 1100;
  Pts p = gen::points(s, o, &ci);
  s.coin(50) ? parallel_case<UserCloud>(s, p, ci.scale, threads) : parallel_case<PointCloud>(s, p, ci.scale, threads);
}

// ------------------------------------------------------------------------------------------ concurrent read-only use

struct Shared {  // only ever used through const references by the readers
  PointCloud::Ptr cloud = std::make_shared<PointCloud>();
  std::unique_ptr<const KdTree<PointCloud>> tree;
  std::unique_ptr<const KdTree<PointCloud, NormalProjection>> ntree;
  std::unique_ptr<GaussianVoxelMap> gmap;
  std::unique_ptr<FlatMap> fmap;
  std::unique_ptr<const ProjectiveSearch<PointCloud>> proj;
  PointCloud source;
  Registration<GICPFactor, SerialReduction> reg;
  Registration<RobustFactor<Huber, ICPFactor>, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> robust;
  Registration<PointToPlaneICPFactor, SerialReduction> plane;
  double scale = 1;
};
struct Action {
  int op;
  V4 q;
  size_t k;
  uint64_t x;
  Iso T;
};
using Answer = std::vector<uint64_t>;

static void put(Answer& a, const void* p, size_t n) { a.push_back(hash_bytes((const uint8_t*)p, n)); }
template <typename T>
static void ask(const T& t, const Action& c, Answer& a) {
  std::vector<size_t> i(c.k);
  std::vector<double> d(c.k);
  size_t n = c.x % 2 ? traits::knn_search(t, c.q, c.k, i.data(), d.data()) : traits::nearest_neighbor_search(t, c.q, i.data(), d.data());
  a.push_back(n);
  put(a, i.data(), n * sizeof(size_t));
  put(a, d.data(), n * sizeof(double));
}
static void put(Answer& a, const RegistrationResult& r) {
  put(a, r.T_target_source.matrix().data(), 16 * sizeof(double));
  put(a, r.H.data(), sizeof(r.H));
  put(a, r.b.data(), sizeof(r.b));
  a.push_back(r.num_inliers);
  a.push_back(r.iterations * 2 + r.converged);
}
template <typename Map>
static void contents(const Map& m, Answer& a) {
  a.push_back(traits::size(m));
  for (size_t v = 0; v < m.flat_voxels.size(); v++)
    for (size_t j = 0; j < traits::size(m.flat_voxels[v]->second); j++) {
      size_t i = m.calc_index(v, j);
      put(a, traits::point(m, i).data(), sizeof(V4));
      put(a, traits::cov(m, i).data(), sizeof(Eigen::Matrix4d));
      if constexpr (std::is_same_v<Map, FlatMap>) put(a, traits::normal(m, i).data(), sizeof(V4));
    }
}
static Answer perform(const Shared& w, const Action& c) {
  Answer a;
  switch (c.op) {
    case 0: ask(*w.tree, c, a); break;
    case 1: ask(*w.ntree, c, a); break;
    case 2: ask(*w.gmap, c, a); break;
    case 3: ask(*w.fmap, c, a); break;
    case 4: ask(*w.proj, c, a); break;
    case 5: {
      KnnSetting st;
      st.epsilon = 1e-9;
      std::vector<size_t> i(8);
      std::vector<double> d(8);
      size_t n = w.tree->kdtree.knn_search<8>(c.q, i.data(), d.data(), st);
      a.push_back(n);
      put(a, i.data(), n * sizeof(size_t));
      break;
    }
    case 6: contents(*w.gmap, a); break;
    case 7: contents(*w.fmap, a); break;
    case 8: {
      const PointCloud& p = *w.cloud;
      if (p.size()) {
        size_t i = c.x % p.size();
        put(a, traits::point(p, i).data(), sizeof(V4));
        put(a, traits::normal(p, i).data(), sizeof(V4));
        put(a, traits::cov(p, i).data(), sizeof(Eigen::Matrix4d));
      }
      break;
    }
    case 9: {
      auto out = voxelgrid_sampling(*w.cloud, w.scale * 0.3);
      put(a, out->points.data(), out->size() * sizeof(V4));
      break;
    }
    case 10: {
      std::mt19937 rng(c.x);
      auto out = random_sampling(*w.cloud, c.k, rng);
      put(a, out->points.data(), out->size() * sizeof(V4));
      break;
    }
    case 11: {
      UnsafeKdTree<PointCloud> t(*w.cloud);
      ask(t, c, a);
      break;
    }
    case 12: {  // attributes of an own cloud, with the shared tree as its neighbour search
      PointCloud own(w.cloud->points);
      estimate_normals_covariances(own, *w.tree, 6);
      put(a, own.normals.data(), own.size() * sizeof(V4));
      put(a, own.covs.data(), own.size() * sizeof(Eigen::Matrix4d));
      break;
    }
    case 13: {
      GaussianVoxelMap m(w.scale * 0.4);
      m.insert(*w.cloud, c.T);
      contents(m, a);
      break;
    }
    case 14: put(a, w.reg.align(*w.cloud, w.source, *w.tree, c.T)); break;
    case 15: put(a, w.robust.align(*w.cloud, w.source, *w.tree, c.T)); break;
    case 16: put(a, w.reg.align(*w.gmap, w.source, *w.gmap, c.T)); break;
    case 17: put(a, w.plane.align(*w.fmap, w.source, *w.fmap, c.T)); break;
    default: {  // one factor by hand
      GICPFactor f;
      Eigen::Matrix<double, 6, 6> H;
      Eigen::Matrix<double, 6, 1> b;
      double e = 0;
      if (w.source.empty()) break;
      bool ok = f.linearize(*w.cloud, w.source, *w.tree, c.T, c.x % w.source.size(), w.reg.rejector, &H, &b, &e);
      a.push_back(ok);
      if (ok) put(a, H.data(), sizeof(H)), put(a, &e, sizeof(e));
      break;
    }
  }
  return a;
}

PBT_PROPERTY(concurrent_reads) {
  sched::seed(1, 0);
#ifdef MINIRT
  minirt::set_default_threads(1);
#endif
  Shared w;
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = kShared;
  o.min_n = 25;
  o.far = false;
  o.allow_empty = s.coin(5);
  Pts p = gen::points(s, o, &ci);
  w.scale = ci.scale;
  *w.cloud = PointCloud(p);
  estimate_normals_covariances(*w.cloud, 8);
  Iso off = gen::pose(s, 0.05, 0.03 * ci.scale);
  Pts q;
  for (size_t i = 0; i < p.size(); i += 1 + p.size() / 120) q.push_back(off * p[i]);
  w.source = PointCloud(q);
  estimate_normals_covariances(w.source, 8);
  w.tree.reset(new KdTree<PointCloud>(w.cloud));
  w.ntree.reset(new KdTree<PointCloud, NormalProjection>(w.cloud));
  w.gmap.reset(new GaussianVoxelMap(0.4 * ci.scale));
  w.gmap->set_search_offsets(s.one_of<int>({1, 7, 27}));
  w.gmap->insert(*w.cloud);
  w.fmap.reset(new FlatMap(0.4 * ci.scale));
  w.fmap->set_search_offsets(s.one_of<int>({7, 1, 27}));
  w.fmap->voxel_setting.min_sq_dist_in_cell = 1e-4 * ci.scale * ci.scale;
  w.fmap->insert(*w.cloud);
  if (s.coin(50)) w.gmap->insert(w.source, off);
  w.proj.reset(new ProjectiveSearch<PointCloud>(64, 32, w.cloud));
  w.reg.rejector.max_dist_sq = w.robust.rejector.max_dist_sq = w.plane.rejector.max_dist_sq = ci.scale * ci.scale;
  w.reg.optimizer.max_iterations = w.robust.optimizer.max_iterations = w.plane.optimizer.max_iterations = 3;

  int threads = 2 + s.below(3), n = s.range(2, 14);
  std::vector<std::vector<Action>> plan(threads);
  bool same = s.coin(30);  // all threads do the same at the same time
  for (int t = 0; t < threads; t++)
    for (int i = 0; i < n; i++) {
      if (same && t > 0) {
        plan[t].push_back(plan[0][i]);
        continue;
      }
      Action a;
      a.op = s.pick({4, 2, 4, 4, 2, 2, 1, 1, 2, 2, 1, 1, 1, 1, 3, 2, 2, 2, 2});
      a.q = gen::query(s, p, ci.scale);
      if (a.q.head<3>().cwiseAbs().maxCoeff() > 1e4 * ci.scale) a.q = V4(ci.scale, 0, 0, 1);
      a.k = s.range(1, 20);
      a.x = s.below(1 << 16);
      a.T = gen::pose(s, 0.05, 0.03 * ci.scale);
      plan[t].push_back(a);
    }
  Answer before_g, before_f, after_g, after_f;
  contents(*w.gmap, before_g);
  contents(*w.fmap, before_f);
  PointCloud copy = *w.cloud;
  std::vector<std::vector<Answer>> got(threads);
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  const Shared& shared = w;
  for (int t = 0; t < threads; t++) {
    got[t].resize(n);
    ts.emplace_back([&, t] {
      ready++;
      while (ready.load() < threads) std::this_thread::yield();
      for (int i = 0; i < n; i++) got[t][i] = perform(shared, plan[t][i]);
    });
  }
  for (auto& t : ts) t.join();
  s.nontrivial = p.size() > 20;
  s.note("n=" + std::to_string(p.size()) + " threads=" + std::to_string(threads) + " actions=" + std::to_string(n));
  for (int t = 0; t < threads; t++)
    for (int i = 0; i < n; i++) {
      s.label("op:" + std::to_string(plan[t][i].op));
      Answer want = perform(shared, plan[t][i]);
      PBT_CHECK(got[t][i] == want, "thread " << t << " of " << threads << " action " << i << " (op " << plan[t][i].op << "): the answer differs from the single-threaded one (n=" << p.size() << ")");
    }
  contents(*w.gmap, after_g);
  contents(*w.fmap, after_f);
  PBT_CHECK(before_g == after_g && before_f == after_f, "read-only use changed a voxel map");
  PBT_CHECK(memcmp(copy.points.data(), w.cloud->points.data(), p.size() * sizeof(V4)) == 0, "read-only use changed the cloud");
}
