#include <tbb/tbb.h>
#include "sched.hpp"
#include "knncheck.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/points/point_cloud.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;
using knn::Buf;

struct YieldCloud {
  Pts p;
  mutable std::atomic<long> bad{0};
};
namespace small_gicp::traits {
template <>
struct Traits<YieldCloud> {
  static size_t size(const YieldCloud& c) { return c.p.size(); }
  static bool has_points(const YieldCloud& c) { return !c.p.empty(); }
  static Eigen::Vector4d point(const YieldCloud& c, size_t i) {
    sched::point();
    if (i >= c.p.size()) {
      c.bad++;
      return V4(0, 0, 0, 1);
    }
    return c.p[i];
  }
};
}  // namespace small_gicp::traits

#ifdef MINIRT_TSAN
constexpr int kMaxN = 2500;
#elif defined(MINIRT_SCHED)
constexpr int kMaxN = 5000;
#else
constexpr int kMaxN = 12000;
#endif

template <typename Cloud, typename Proj, typename Builder>
static void run(Src& s, std::shared_ptr<Cloud> cloud, const Pts& p, double scale, const Builder& builder) {
  KdTree<Cloud, Proj> tree(cloud, builder);
  sched::seed(1, 0);
  // every point must be found at distance zero
  size_t step = p.size() > 20000 ? p.size() / 200 : p.size() > 3000 ? 3 : 1;
  for (size_t i = s.below(step); i < p.size(); i += step) {
    Buf b(1);
    size_t n = tree.nearest_neighbor_search(p[i], b.i.data(), b.d.data());
    PBT_CHECK(n == 1 && b.i[0] < p.size(), "point " << i << " not found in the tree (n=" << p.size() << ", found " << n << ", index " << b.i[0] << ")");
    PBT_CHECK(b.d[0] <= gen::sq_tol(p, p[i], 0) && gen::sqd(p[b.i[0]], p[i]) <= gen::sq_tol(p, p[i], 0), "nearest neighbour of point " << i << " itself is index " << b.i[0] << " at sq. distance " << b.d[0]);
  }
  int nq = s.range(1, 6);
  for (int j = 0; j < nq; j++) {
    V4 q = gen::query(s, p, scale);
    size_t k = s.one_of<int>({1, 5, 20, 300});
    Buf b(k);
    knn::check_exact(p, q, k, tree.knn_search(q, k, b.i.data(), b.d.data()), b, "parallel-built tree");
  }
  if (p.size() <= 4000) {
    // enumerating everything gives every index exactly once
    size_t k = p.size() + 1;
    Buf b(k);
    V4 q = p.empty() ? V4(0, 0, 0, 1) : p[0];
    knn::check_exact(p, q, k, tree.knn_search(q, k, b.i.data(), b.d.data()), b, "full enumeration");
  }
}

PBT_PROPERTY(kdtree_parallel) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({kMaxN, 1200, 600});
  if (s.coin(70)) o.min_n = 513;
  gen::maybe_huge(s, o, 1500);
  int type = s.pick({2, 3});
  Pts p = gen::points(s, o, &ci);
  int leaf = s.one_of<int>({20, 1, 2, 4, 600});
  int scan = s.one_of<int>({128, 2, 30});
  bool normal = s.coin(40), use_tbb = s.coin(50);
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  s.label(use_tbb ? "builder:tbb" : "builder:omp");
  s.nontrivial = p.size() > 512 && threads > 1;
  s.note("n=" + std::to_string(p.size()) + " shape=" + ci.shape + " leaf=" + std::to_string(leaf) + " threads=" + std::to_string(threads) + (use_tbb ? " tbb" : " omp") + (normal ? " normal-projection" : " axis-projection"));
  KdTreeBuilderOMP bo(threads);
  bo.max_leaf_size = leaf;
  bo.projection_setting.max_scan_count = scan;
  KdTreeBuilderTBB bt;
  bt.max_leaf_size = leaf;
  bt.projection_setting.max_scan_count = scan;
  auto go = [&](auto cloud) {
    using C = typename decltype(cloud)::element_type;
    if (use_tbb)
      normal ? run<C, NormalProjection>(s, cloud, p, ci.scale, bt) : run<C, AxisAlignedProjection>(s, cloud, p, ci.scale, bt);
    else
      normal ? run<C, NormalProjection>(s, cloud, p, ci.scale, bo) : run<C, AxisAlignedProjection>(s, cloud, p, ci.scale, bo);
  };
  if (type == 0) {
    go(std::make_shared<PointCloud>(p));
  } else {
    auto c = std::make_shared<YieldCloud>();
    c->p = p;
    go(c);
    PBT_CHECK(c->bad == 0, "construction accessed a point index out of range");
  }
}
