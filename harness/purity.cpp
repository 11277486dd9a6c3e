// C31: operations are functions of their arguments - no state is carried from one call to the next, and const inputs stay as they are.
#include <tbb/tbb.h>
#include <thread>
#include "clouds.hpp"
#include "room.hpp"
#include <pcl/point_cloud.h>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_registration.hpp>
#include <small_gicp/pcl/pcl_registration_impl.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>

using FlatMap = IncrementalVoxelMap<FlatContainerNormalCov>;

struct Data {
  Pts p, n;
  std::vector<Eigen::Matrix4d> c;
  void of(const Pts& pts) {
    p = pts;
    PointCloud t(p);
    estimate_normals_covariances(t, 10);
    n = t.normals;
    c.assign(t.covs.begin(), t.covs.end());
  }
};

/// Places where inputs live; a reused arena gives different inputs the same addresses.
struct Arena {
  std::shared_ptr<PointCloud> a = std::make_shared<PointCloud>(), b = std::make_shared<PointCloud>();
  std::vector<uint64_t> keys;
  std::vector<Eigen::Vector3d> raw_a, raw_b;
  std::vector<Eigen::Vector4f> raw_fa, raw_fb;
  pcl::PointCloud<pcl::PointXYZ>::Ptr pcl_a = pcl::make_shared<pcl::PointCloud<pcl::PointXYZ>>(), pcl_b = pcl::make_shared<pcl::PointCloud<pcl::PointXYZ>>();
  Registration<GICPFactor, SerialReduction> gicp;
  Registration<ICPFactor, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> icp;
  Registration<PointToPlaneICPFactor, SerialReduction> plane;
  static void load(PointCloud& c, const Data& d) {
    c.resize(d.p.size());
    for (size_t i = 0; i < d.p.size(); i++) c.point(i) = d.p[i], c.normal(i) = d.n[i], c.cov(i) = d.c[i];
  }
};

struct Result {
  std::vector<std::pair<std::string, uint64_t>> v;
  void raw(const char* what, const void* p, size_t n) { v.emplace_back(what, hash_bytes((const uint8_t*)p, n)); }
  void num(const char* what, double x) { raw(what, &x, sizeof x); }
  void cloud(const PointCloud& c, bool normals = false, bool covs = false) {
    num("size", c.size());
    raw("points", c.points.data(), c.size() * sizeof(V4));
    if (normals) raw("normals", c.normals.data(), c.size() * sizeof(V4));
    if (covs) raw("covariances", c.covs.data(), c.size() * sizeof(Eigen::Matrix4d));
  }
  void reg(const RegistrationResult& r) {
    raw("pose", r.T_target_source.matrix().data(), 16 * sizeof(double));
    num("iterations", r.iterations);
    num("inliers", r.num_inliers);
    num("converged", r.converged);
    raw("H", r.H.data(), sizeof r.H);
    raw("b", r.b.data(), sizeof r.b);
    num("error", r.error);
  }
  template <typename T>
  void search(const T& t, const Pts& q, int k, bool indices = true) {
    std::vector<size_t> i(k);
    std::vector<double> d(k);
    for (auto& x : q) {
      size_t n = traits::knn_search(t, x, k, i.data(), d.data());
      num("found", n);
      if (indices) raw("indices", i.data(), n * sizeof(size_t));
      raw("distances", d.data(), n * sizeof(double));
    }
  }
};

struct Job {
  int type = 0, how = 0, k = 10, nt = 1;
  double x = 0, leaf = 1;
  uint64_t seed = 0;
  Iso T = Iso::Identity(), init = Iso::Identity();
  const Data *a = nullptr, *b = nullptr;
};
static const char* kNames[] = {"voxelgrid", "random sampling", "tree", "features", "gaussian map", "flat map", "registration", "registration 1 thread", "sort", "radix sort", "projective", "helper", "pcl", "arrays", "preprocess", "voxels"};
constexpr int kTypes = 16;

static Result run(const Job& j, Arena& A, bool reuse) {
  Result R;
  Arena::load(*A.a, *j.a);
  Arena::load(*A.b, *j.b);
  const PointCloud &a = *A.a, &b = *A.b;
  bool const_inputs = true;
  Pts q(j.b->p.begin(), j.b->p.begin() + std::min<size_t>(j.b->p.size(), 12));
  switch (j.type) {
    case 0:
      if (j.how % 2) {
        pcl::PointCloud<pcl::PointCovariance> in;
        in.resize(a.size());
        for (size_t i = 0; i < a.size(); i++) in[i].getVector4fMap() = a.points[i].cast<float>();
        auto o = voxelgrid_sampling<pcl::PointCloud<pcl::PointCovariance>, PointCloud>(in, j.leaf);
        R.cloud(*o);
      } else
        R.cloud(*voxelgrid_sampling(a, j.leaf));
      break;
    case 1: {
      std::mt19937 rng(j.seed);
      R.cloud(*random_sampling(a, a.size() / 2, rng));
      R.num("generator", rng());
      break;
    }
    case 2:
      if (j.how % 4 == 0) {
        R.search(UnsafeKdTree<PointCloud>(a), q, j.k);
      } else if (j.how % 4 == 1) {
        R.search(KdTree<PointCloud, NormalProjection>(A.a), q, j.k);
      } else if (j.how % 4 == 2) {
        R.search(KdTree<PointCloud>(A.a, KdTreeBuilderOMP(j.nt)), q, j.k);
      } else {
        R.search(KdTree<PointCloud>(A.a, KdTreeBuilderTBB()), q, j.k);
      }
      break;
    case 3: {
      const_inputs = false;
      PointCloud& c = *A.a;
      UnsafeKdTree<PointCloud> t(c);
      switch (j.how % 6) {
        case 0: estimate_normals(c, t, j.k); break;
        case 1: estimate_covariances(c, t, j.k); break;
        case 2: estimate_normals_covariances(c, t, j.k); break;
        case 3: estimate_normals_covariances_omp(c, t, j.k, j.nt); break;
        case 4: estimate_normals_covariances_tbb(c, t, j.k); break;
        default: estimate_covariances_omp(c, t, j.k, j.nt); break;
      }
      R.cloud(c, true, true);
      break;
    }
    case 4:
    case 5: {
      auto go = [&](auto& map) {
        map.set_search_offsets(j.how % 3 == 0 ? 1 : j.how % 3 == 1 ? 7 : 27);
        map.lru_clear_cycle = 2;
        map.lru_horizon = 1 + j.how % 5;
        map.insert(a, j.T);
        map.insert(b, j.init);
        map.insert(a, j.T * j.init);
        R.num("voxels", map.size());
        for (size_t v = 0; v < map.flat_voxels.size(); v++)
          for (size_t i = 0; i < traits::size(map.flat_voxels[v]->second); i++) {
            size_t id = map.calc_index(v, i);
            V4 p = traits::point(map, id);
            Eigen::Matrix4d c = traits::cov(map, id);
            R.raw("stored point", p.data(), sizeof p);
            R.raw("stored covariance", c.data(), sizeof c);
          }
        R.search(map, q, j.k);
      };
      if (j.type == 4) {
        GaussianVoxelMap m(j.leaf);
        go(m);
      } else {
        FlatMap m(j.leaf);
        m.voxel_setting.min_sq_dist_in_cell = j.leaf * j.leaf * 1e-3;
        go(m);
      }
      break;
    }
    case 6: {
      KdTree<PointCloud> t(A.a);
      auto go = [&](auto& shared) {
        std::decay_t<decltype(shared)> fresh;
        auto& reg = reuse ? shared : fresh;
        reg.rejector.max_dist_sq = j.x * j.x;
        reg.optimizer.max_iterations = 1 + j.how % 7;
        reg.criteria.translation_eps = reg.criteria.rotation_eps = j.how % 2 ? 1e-3 : 0.1;
        R.reg(reg.align(a, b, t, j.init));
      };
      if (j.how % 3 == 0) go(A.gicp);
      if (j.how % 3 == 1) go(A.icp);
      if (j.how % 3 == 2) go(A.plane);
      break;
    }
    case 7: {
      UnsafeKdTree<PointCloud> t(a);
      Registration<RobustFactor<Cauchy, GICPFactor>, ParallelReductionOMP> reg;
      reg.reduction.num_threads = 1;
      reg.rejector.max_dist_sq = j.x * j.x;
      reg.optimizer.max_iterations = 1 + j.how % 7;
      R.reg(reg.align(a, b, t, j.init));
      break;
    }
    case 8: {
      A.keys.clear();
      Rng r(j.seed);
      for (size_t i = 0; i < a.size() * (1 + j.how % 8); i++) A.keys.push_back(r.next() << 16 | i);
      if (j.how % 2)
        merge_sort_omp(A.keys.begin(), A.keys.end(), std::less<uint64_t>(), j.nt);
      else
        quick_sort_omp(A.keys.begin(), A.keys.end(), std::less<uint64_t>(), j.nt);
      R.raw("sorted", A.keys.data(), A.keys.size() * 8);
      break;
    }
    case 9: {
      A.keys.clear();
      Rng r(j.seed);
      for (size_t i = 0; i < a.size() * (1 + j.how % 4); i++) A.keys.push_back((r.next() & 0xffff) << 32 | i);
      radix_sort_tbb(A.keys.data(), A.keys.data() + A.keys.size(), [](uint64_t x) { return (uint32_t)(x >> 32); });
      R.raw("sorted", A.keys.data(), A.keys.size() * 8);
      break;
    }
    case 10: {
      UnsafeProjectiveSearch<PointCloud> t(32 + j.how, 16 + j.how % 9, a);
      R.search(t, q, j.k);
      break;
    }
    case 11: {
      RegistrationSetting st;
      st.num_threads = 1;
      st.max_iterations = 1 + j.how % 7;
      st.max_correspondence_distance = j.x;
      if (j.how % 4 == 3) {
        auto m = create_gaussian_voxelmap(a, j.leaf);
        R.reg(align(*m, b, j.init, st));
      } else {
        st.type = j.how % 4 == 0 ? RegistrationSetting::ICP : j.how % 4 == 1 ? RegistrationSetting::PLANE_ICP : RegistrationSetting::GICP;
        KdTree<PointCloud> t(A.a);
        R.reg(align(a, b, t, j.init, st));
      }
      break;
    }
    case 12: {
      using C = pcl::PointCloud<pcl::PointXYZ>;
      auto ca = A.pcl_a, cb = A.pcl_b;  // read only while they are set
      ca->clear(), cb->clear();
      for (auto& p : a.points) ca->push_back({(float)p[0], (float)p[1], (float)p[2]});
      for (auto& p : b.points) cb->push_back({(float)p[0], (float)p[1], (float)p[2]});
      RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> reg;
      reg.setNumThreads(1);
      reg.setRegistrationType(j.how % 2 ? "GICP" : "VGICP");
      reg.setVoxelResolution(j.leaf);
      reg.setMaxCorrespondenceDistance(j.x);
      reg.setMaximumIterations(1 + j.how % 5);
      reg.setInputTarget(ca);
      reg.setInputSource(cb);
      C out;
      reg.align(out, j.init.matrix().cast<float>());
      Eigen::Matrix4f T = reg.getFinalTransformation();
      R.raw("pose", T.data(), sizeof T);
      for (auto& p : out) R.raw("aligned point", p.data, 3 * sizeof(float));
      break;
    }
    case 13: {
      RegistrationSetting st;
      st.num_threads = 1;
      st.max_iterations = 1 + j.how % 7;
      st.max_correspondence_distance = j.x;
      st.downsampling_resolution = j.leaf;
      st.voxel_resolution = 2 * j.leaf;
      st.type = (RegistrationSetting::RegistrationType)(j.how % 4);
      if (j.how % 3) {
        A.raw_a.resize(a.size()), A.raw_b.resize(b.size());
        for (size_t i = 0; i < a.size(); i++) A.raw_a[i] = a.points[i].head<3>();
        for (size_t i = 0; i < b.size(); i++) A.raw_b[i] = b.points[i].head<3>();
        R.reg(align(A.raw_a, A.raw_b, j.init, st));
      } else {
        A.raw_fa.resize(a.size()), A.raw_fb.resize(b.size());
        for (size_t i = 0; i < a.size(); i++) A.raw_fa[i] = a.points[i].cast<float>();
        for (size_t i = 0; i < b.size(); i++) A.raw_fb[i] = b.points[i].cast<float>();
        R.reg(align(A.raw_fa, A.raw_fb, j.init, st));
      }
      break;
    }
    case 14: {
      std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> r;
      if (j.how % 2) {
        A.raw_a.resize(a.size());
        for (size_t i = 0; i < a.size(); i++) A.raw_a[i] = a.points[i].head<3>();
        r = preprocess_points(A.raw_a, j.leaf, j.k, 1);
      } else
        r = preprocess_points(a, j.leaf, j.k, 1);
      R.cloud(*r.first, true, true);
      if (r.first->size()) R.search(*r.second, q, j.k);
      break;
    }
    default: {
      // attributes only: the order of the downsampled points is not fixed when several threads work on them
      const_inputs = true;
      auto g = create_gaussian_voxelmap(a, j.leaf);
      R.num("voxels", g->size());
      R.search(*g, q, 1, false);
      break;
    }
  }
  auto same = [](const PointCloud& c, const Data& d) {
    size_t n = d.p.size();
    return c.size() == n && (n == 0 || (!memcmp(c.points.data(), d.p.data(), n * sizeof(V4)) && !memcmp(c.normals.data(), d.n.data(), n * sizeof(V4)) && !memcmp(c.covs.data(), d.c.data(), n * sizeof(Eigen::Matrix4d))));
  };
  if (const_inputs) R.num("first input unchanged", same(a, *j.a));
  R.num("second input unchanged", same(b, *j.b));
  return R;
}

static void compare(const Result& ref, const Result& got, const Job& j, const std::string& when) {
  PBT_CHECK(ref.v.size() == got.v.size(), kNames[j.type] << " gives " << got.v.size() << " values " << when << ", " << ref.v.size() << " on its own");
  for (size_t i = 0; i < ref.v.size(); i++)
    PBT_CHECK(ref.v[i] == got.v[i], kNames[j.type] << " (variant " << j.how << ", " << j.a->p.size() << " and " << j.b->p.size() << " points): " << ref.v[i].first << " (value " << i << ") differs " << when << " from the first call with the same inputs");
}

PBT_PROPERTY(history_independence) {
  // inputs: a few clouds, some of the same size, some nearly equal
  std::vector<std::unique_ptr<Data>> pool;
  double scale = s.one_of<double>({1.0, 10.0});
  int clouds = s.range(2, 4);
  for (int i = 0; i < clouds; i++) {
    auto d = std::make_unique<Data>();
    Pts p;
    int kind = i == 0 ? 0 : s.pick({2, 3, 2, 1});
    Rng r(s.seed());
    if (kind == 0 || kind == 3) {
      gen::Opt o;
      o.min_n = kind == 3 ? 0 : 20;
      o.max_n = kind == 3 ? 30 : s.one_of<int>({120, 300, 700});
      p = gen::points(s, o);
      for (auto& x : p) x.head<3>() = x.head<3>().cwiseMax(-1e3).cwiseMin(1e3);
    } else {
      p = pool[s.below(pool.size())]->p;
      if (kind == 1)
        for (auto& x : p) x.head<3>() += V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)) * scale;  // the same size
      else if (!p.empty())
        p[s.below(p.size())].head<3>() += V3(0.3, 0.1, -0.2) * scale;  // one point moved
      s.label(kind == 1 ? "same size" : "one point moved");
    }
    d->of(p);
    pool.push_back(std::move(d));
  }
  std::vector<Job> jobs;
  int nj = s.range(2, 5), focus = s.below(kTypes);
  bool focused = s.coin(60);
  for (int i = 0; i < nj; i++) {
    Job j;
    j.type = focused ? focus : (int)s.below(kTypes);
    j.how = focused && i && s.coin(50) ? jobs[0].how : s.below(30);
    j.k = s.one_of<int>({10, 1, 3, 20});
    j.nt = s.one_of<int>({2, 1, 4});
    j.x = scale * s.one_of<double>({0.5, 0.1, 3.0});
    j.leaf = scale * s.one_of<double>({0.2, 0.05, 1.0});
    j.seed = s.below(1000);
    j.T = gen::pose(s, 0.3, 0.3 * scale);
    j.init = gen::pose(s, 0.1, 0.1 * scale);
    j.a = pool[s.below(pool.size())].get();
    j.b = pool[s.below(pool.size())].get();
    if (focused && i && s.coin(60)) {
      // the same call on other clouds
      const Data *a = j.a, *b = j.b;
      j = jobs[s.below(jobs.size())];
      j.a = a, j.b = b;
    }
    // searching a voxel map far away leaves the range of its integer coordinates
    jobs.push_back(j);
    s.label(kNames[j.type]);
  }
  std::ostringstream os;
  for (auto& j : jobs) os << kNames[j.type] << "/" << j.how << "(" << j.a->p.size() << "," << j.b->p.size() << ") ";
  s.note(os.str());
  // each job on its own, in a thread of its own, on fresh objects
  std::vector<Result> ref(jobs.size());
  for (size_t i = 0; i < jobs.size(); i++) {
    Arena A;
    if (s.coin(30))
      std::thread([&] { ref[i] = run(jobs[i], A, false); }).join();
    else
      ref[i] = run(jobs[i], A, false);
    for (auto& kv : ref[i].v) PBT_CHECK(kv.first.find("unchanged") == std::string::npos || kv == std::make_pair(kv.first, [] { double one = 1; return hash_bytes((const uint8_t*)&one, 8); }()), kNames[jobs[i].type] << ": an input passed as const was modified");
  }
  // any order, repeated, at the same addresses, through the same objects
  Arena A;
  int steps = s.range(2, 10);
  for (int i = 0; i < steps; i++) {
    size_t k = s.below(jobs.size());
    Result r;
    bool other = s.coin(20);
    if (other)
      std::thread([&] { r = run(jobs[k], A, true); }).join();
    else
      r = run(jobs[k], A, true);
    compare(ref[k], r, jobs[k], other ? "on another thread after other calls" : "after other calls");
  }
  // and concurrently with unrelated calls
  if (s.coin(40)) {
    int nth = s.range(2, 4);
    std::vector<std::vector<size_t>> plan(nth);
    for (auto& p : plan)
      for (int i = 0; i < 3; i++) p.push_back(s.below(jobs.size()));
    std::vector<std::vector<Result>> out(nth);
    std::vector<std::thread> th;
    for (int t = 0; t < nth; t++)
      th.emplace_back([&, t] {
        Arena B;
        for (size_t k : plan[t]) out[t].push_back(run(jobs[k], B, true));
      });
    for (auto& t : th) t.join();
    for (int t = 0; t < nth; t++)
      for (size_t i = 0; i < plan[t].size(); i++) compare(ref[plan[t][i]], out[t][i], jobs[plan[t][i]], "while other calls run");
    s.label("concurrent");
  }
  std::set<const Data*> used;
  for (auto& j : jobs) used.insert(j.a);
  s.nontrivial = used.size() > 1;
}
