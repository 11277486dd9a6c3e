#include "knncheck.hpp"
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;
using knn::Buf;

// A user-defined cloud whose accessors check the index.
struct StrictCloud {
  Pts p;
};
namespace small_gicp::traits {
template <>
struct Traits<StrictCloud> {
  static size_t size(const StrictCloud& c) { return c.p.size(); }
  static bool has_points(const StrictCloud& c) { return !c.p.empty(); }
  static Eigen::Vector4d point(const StrictCloud& c, size_t i) {
    if (i >= c.p.size()) PBT_FAIL("point index " << i << " out of range (n=" << c.p.size() << ")");
    return c.p[i];
  }
};
}  // namespace small_gicp::traits

struct Cfg {
  int leaf, scan;
};

template <typename Tree>
static void queries(Src& s, const Tree& tree, const Pts& p, double scale, int nq, const char* what) {
  for (int i = 0; i < nq; i++) {
    V4 q = gen::query(s, p, scale);
    int mode = s.pick({5, 2, 2});
    if (mode == 0) {
      size_t k = s.one_of<int>({1, 2, 3, 5, 10, 20, 64, 130, 300});
      if (s.coin(15)) k = p.size() + s.below(4);
      if (k == 0) k = 1;
      Buf b(k);
      size_t n = tree.knn_search(q, k, b.i.data(), b.d.data());
      knn::check_exact(p, q, k, n, b, std::string(what) + " knn_search");
    } else if (mode == 1) {
      Buf b(1);
      size_t n = tree.nearest_neighbor_search(q, b.i.data(), b.d.data());
      knn::check_exact(p, q, 1, n, b, std::string(what) + " nearest_neighbor_search");
    } else {
      Buf b(1);
      size_t n = traits::nearest_neighbor_search(tree, q, b.i.data(), b.d.data());
      knn::check_exact(p, q, 1, n, b, std::string(what) + " traits::nearest_neighbor_search");
      Buf b2(7);
      n = traits::knn_search(tree, q, 7, b2.i.data(), b2.d.data());
      knn::check_exact(p, q, 7, n, b2, std::string(what) + " traits::knn_search");
    }
  }
}

template <typename Tree>
static void static_queries(Src& s, const Tree& tree, const Pts& p, double scale) {
  V4 q = gen::query(s, p, scale);
  {
    Buf b(1);
    knn::check_exact(p, q, 1, tree.template knn_search<1>(q, b.i.data(), b.d.data()), b, "knn_search<1>");
  }
  {
    Buf b(2);
    knn::check_exact(p, q, 2, tree.template knn_search<2>(q, b.i.data(), b.d.data()), b, "knn_search<2>");
  }
  {
    Buf b(12);
    knn::check_exact(p, q, 12, tree.template knn_search<12>(q, b.i.data(), b.d.data()), b, "knn_search<12>");
  }
}

template <typename Cloud, typename Proj>
static void with_cloud(Src& s, std::shared_ptr<Cloud> cloud, const Pts& p, const Cfg& cfg, double scale, int nq) {
  KdTreeBuilder builder;
  builder.max_leaf_size = cfg.leaf;
  builder.projection_setting.max_scan_count = cfg.scan;
  if (s.coin(50)) {
    UnsafeKdTree<Cloud, Proj> tree(*cloud, builder);
    queries(s, tree, p, scale, nq, "UnsafeKdTree");
    static_queries(s, tree, p, scale);
  } else {
    auto tree = std::make_shared<KdTree<Cloud, Proj>>(cloud, builder);
    cloud.reset();  // the safe tree owns the points
    queries(s, *tree, p, scale, nq, "KdTree");
  }
}

PBT_PROPERTY(kdtree_exact) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({300, 40, 1500, 5000});
  gen::maybe_huge(s, o, 2500);
  int type = s.pick({4, 2, 2});
  o.floats = type == 2;
  Pts p = gen::points(s, o, &ci);
  if (s.coin(8)) {
    // other units; powers of two keep the coordinates exact
    double f = std::pow(2.0, s.coin(70) ? -s.range(15, 50) : s.range(10, 40));
    for (auto& v : p) v.head<3>() *= f;
    ci.scale *= f, ci.offset *= f;
    s.label("other-units");
  }
  Cfg cfg;
  cfg.leaf = s.one_of<int>({20, 1, 2, 3, 5, 8, 100});
  cfg.scan = s.one_of<int>({128, 1, 2, 3, 17, 1000});
  bool normal = s.coin(45);
  int nq = s.range(1, 10);
  s.label(normal ? "projection:normal" : "projection:axis");
  s.label("leaf:" + std::to_string(cfg.leaf));
  s.label(type == 0 ? "cloud:PointCloud" : type == 1 ? "cloud:user" : "cloud:pcl");
  s.nontrivial = (int)p.size() > cfg.leaf;
  std::ostringstream os;
  os << "n=" << p.size() << " shape=" << ci.shape << " scale=" << ci.scale << " offset=" << ci.offset << " leaf=" << cfg.leaf << " scan=" << cfg.scan << (normal ? " normal-projection" : " axis-projection") << " cloud-type=" << type << " queries=" << nq;
  if (!p.empty()) os << " p[0]=" << gen::str(p[0]);
  s.note(os.str());

  if (type == 0) {
    auto c = std::make_shared<PointCloud>(p);
    normal ? with_cloud<PointCloud, NormalProjection>(s, c, p, cfg, ci.scale, nq) : with_cloud<PointCloud, AxisAlignedProjection>(s, c, p, cfg, ci.scale, nq);
  } else if (type == 1) {
    auto c = std::make_shared<StrictCloud>();
    c->p = p;
    normal ? with_cloud<StrictCloud, NormalProjection>(s, c, p, cfg, ci.scale, nq) : with_cloud<StrictCloud, AxisAlignedProjection>(s, c, p, cfg, ci.scale, nq);
  } else {
    auto c = std::make_shared<pcl::PointCloud<pcl::PointXYZ>>();
    for (auto& v : p) c->push_back(pcl::PointXYZ(v[0], v[1], v[2]));
    using C = pcl::PointCloud<pcl::PointXYZ>;
    normal ? with_cloud<C, NormalProjection>(s, c, p, cfg, ci.scale, nq) : with_cloud<C, AxisAlignedProjection>(s, c, p, cfg, ci.scale, nq);
  }
}

