#include "knncheck.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/points/point_cloud.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;
using knn::Buf;

static void check_eps(const Pts& p, const V4& q, size_t k, size_t num, const Buf& b, double eps) {
  b.check_guard();
  auto ref = gen::brute_sq_dists(p, q, k);
  size_t want = std::min(k, p.size());
  PBT_CHECK(num == want, "with epsilon " << eps << ": " << num << " neighbours returned, expected " << want);
  if (num == 0) return;
  double tol = gen::sq_tol(p, q, std::max(ref.back(), eps));
  std::set<size_t> seen;
  for (size_t i = 0; i < num; i++) {
    PBT_CHECK(b.i[i] < p.size() && seen.insert(b.i[i]).second, "with epsilon " << eps << ": invalid or repeated index " << b.i[i]);
    double t = gen::sqd(p[b.i[i]], q);
    PBT_CHECK(std::abs(b.d[i] - t) <= gen::sq_tol(p, q, t), "reported sq. distance " << b.d[i] << ", true " << t);
    PBT_CHECK(i == 0 || b.d[i - 1] <= b.d[i], "distances not ascending");
    if (b.d[num - 1] > eps + tol || num < k) PBT_CHECK(std::abs(t - ref[i]) <= tol, "with epsilon " << eps << " the result (worst " << b.d[num - 1] << ") is neither within epsilon nor exact: neighbour " << i << " at " << t << ", exact " << ref[i] << ", k=" << k);
  }
  PBT_CHECK(b.d[num - 1] <= std::max(eps, ref.back()) + tol, "worst returned sq. distance " << b.d[num - 1] << " exceeds max(epsilon=" << eps << ", exact=" << ref.back() << ")");
}

template <typename Proj>
static void eps_case(Src& s, const Pts& p, double scale, int leaf) {
  auto cloud = std::make_shared<PointCloud>(p);
  KdTreeBuilder builder;
  builder.max_leaf_size = leaf;
  KdTree<PointCloud, Proj> tree(cloud, builder);
  int nq = s.range(1, 6);
  int early = 0;
  for (int i = 0; i < nq; i++) {
    V4 q = gen::query(s, p, scale);
    size_t k = s.one_of<int>({1, 2, 4, 10, 30});
    KnnSetting setting;
    auto ref = gen::brute_sq_dists(p, q, k);
    int ek = s.pick({2, 3, 3, 2});
    // thresholds at, below and above the exact answer
    setting.epsilon = ek == 0 ? 0.0 : ek == 1 ? (ref.empty() ? 1.0 : ref.back() * s.one_of<double>({1.0, 0.5, 2.0, 10.0})) : ek == 2 ? s.logreal(1e-6, 10) * scale * scale : 1e18;
    if (!ref.empty() && ref.back() < setting.epsilon) early++;
    Buf b(k);
    switch (s.pick({3, 2, 1, 1})) {
      case 0: check_eps(p, q, k, tree.knn_search(q, k, b.i.data(), b.d.data(), setting), b, setting.epsilon); break;
      case 1: check_eps(p, q, k, tree.kdtree.knn_search(q, k, b.i.data(), b.d.data(), setting), b, setting.epsilon); break;
      case 2: {
        Buf b1(1);
        check_eps(p, q, 1, tree.nearest_neighbor_search(q, b1.i.data(), b1.d.data(), setting), b1, setting.epsilon);
        break;
      }
      case 3: {
        Buf b4(4);
        check_eps(p, q, 4, tree.kdtree.template knn_search<4>(q, b4.i.data(), b4.d.data(), setting), b4, setting.epsilon);
        break;
      }
    }
    if (setting.epsilon == 0) {
      Buf be(k);
      knn::check_exact(p, q, k, tree.knn_search(q, k, be.i.data(), be.d.data(), setting), be, "epsilon 0");
    }
  }
  if (early) s.label("early-termination-possible");
  s.nontrivial = early > 0 && (int)p.size() > leaf;
}

PBT_PROPERTY(knn_epsilon) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({300, 40, 1500});
  Pts p = gen::points(s, o, &ci);
  int leaf = s.one_of<int>({20, 1, 4, 8});
  bool normal = s.coin(30);
  s.note("n=" + std::to_string(p.size()) + " shape=" + ci.shape + " leaf=" + std::to_string(leaf));
  normal ? eps_case<NormalProjection>(s, p, ci.scale, leaf) : eps_case<AxisAlignedProjection>(s, p, ci.scale, leaf);
}

