#define NO_TBB_CONTROL
#include "estimation.hpp"
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>

/// A user-supplied neighbour search returning arbitrary index sets.
struct FakeSearch {
  std::map<std::array<double, 3>, std::vector<size_t>> answers;
  size_t knn_search(const V4& q, size_t k, size_t* idx, double* d) const {
    auto& a = answers.at({q[0], q[1], q[2]});
    size_t m = std::min(k, a.size());
    for (size_t i = 0; i < m; i++) idx[i] = a[i], d[i] = i;
    return m;
  }
};

template <typename Cloud>
static void go(Src& s, Cloud& cloud, const Pts& p, int k, double ptol) {
  const V4 n0(0.25, 0.5, 0.75, 0);
  M4 c0 = M4::Constant(0.125);
  for (size_t i = 0; i < p.size(); i++) {
    traits::set_normal(cloud, i, n0);
    traits::set_cov(cloud, i, c0);
  }
  int what = s.pick({1, 1, 2});  // normals, covariances, both
  int how = s.pick({3, 2, 1});   // own tree, supplied tree, supplied fake
  static const char* hn[] = {"own-tree", "given-tree", "given-search"};
  s.label(hn[how]);
  s.label(what == 0 ? "normals" : what == 1 ? "covariances" : "both");
  std::vector<std::vector<size_t>> sets(p.size());
  std::vector<char> known(p.size(), 1);
  FakeSearch fake;
  UnsafeKdTree<Cloud> tree(cloud);
  Rng r(s.seed());
  for (size_t i = 0; i < p.size(); i++) {
    if (how == 0) {
      bool unique;
      sets[i] = exact_neighbours(p, p[i], k, unique);
      known[i] = unique;
    } else if (how == 1) {
      std::vector<size_t> idx(k);
      std::vector<double> d(k);
      sets[i].assign(idx.begin(), idx.begin());
      size_t m = tree.knn_search(p[i], k, idx.data(), d.data());
      sets[i].assign(idx.begin(), idx.begin() + m);
    } else {
      size_t m = r.below(9);
      std::vector<size_t> a;
      for (size_t j = 0; j < m; j++) a.push_back(r.below(p.size()));
      fake.answers[{p[i][0], p[i][1], p[i][2]}] = a;
    }
  }
  if (how == 2)
    for (size_t i = 0; i < p.size(); i++) {
      auto& a = fake.answers.at({p[i][0], p[i][1], p[i][2]});
      sets[i].assign(a.begin(), a.begin() + std::min<size_t>(k, a.size()));
    }
  bool left_out = k == 20 && s.coin(30);  // the documented default
  auto run = [&](auto& search) {
    if (left_out) {
      if (what == 0) estimate_normals(cloud, search);
      if (what == 1) estimate_covariances(cloud, search);
      if (what == 2) estimate_normals_covariances(cloud, search);
    } else if (what == 0)
      estimate_normals(cloud, search, k);
    else if (what == 1)
      estimate_covariances(cloud, search, k);
    else
      estimate_normals_covariances(cloud, search, k);
  };
  if (how == 0) {
    if (left_out) {
      if (what == 0) estimate_normals(cloud);
      if (what == 1) estimate_covariances(cloud);
      if (what == 2) estimate_normals_covariances(cloud);
    } else if (what == 0)
      estimate_normals(cloud, k);
    else if (what == 1)
      estimate_covariances(cloud, k);
    else
      estimate_normals_covariances(cloud, k);
  } else if (how == 1)
    run(tree);
  else
    run(fake);
  PBT_CHECK(traits::size(cloud) == p.size(), "cloud size changed");
  long checked = 0;
  for (size_t i = 0; i < p.size(); i++) {
    std::string w = "point " + std::to_string(i) + " (n=" + std::to_string(p.size()) + ", k=" + std::to_string(k) + ", " + hn[how] + ")";
    V4 pt = traits::point(cloud, i);
    PBT_CHECK((pt - p[i]).norm() <= 0, w << ": position modified");
    Hood h;
    const Hood* hp = nullptr;
    if (known[i] && sets[i].size() >= 5) {
      h = hood(p, sets[i]);
      hp = &h;
      checked++;
    }
    V4 n = traits::normal(cloud, i);
    M4 c = traits::cov(cloud, i);
    if (what != 1)
      check_normal(n, p[i], sets[i].size(), hp, ptol, w);
    else
      PBT_CHECK(n == n0, w << ": covariance estimation changed the normal");
    if (what != 0)
      check_cov(c, sets[i].size(), hp, ptol, w);
    else
      PBT_CHECK(c == c0, w << ": normal estimation changed the covariance");
  }
  s.nontrivial = checked > 0;
}

PBT_PROPERTY(local_features) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({120, 30, 400});
  int type = s.pick({4, 2, 2});
  o.floats = type == 2;
  Pts p = gen::points(s, o, &ci);
  int k = s.one_of<int>({10, 20, 5, 6, 4, 3, 1, 7, 2, 30, 64, 150});
  if (s.coin(5)) k = p.size() + 1 + s.below(3);
  s.label("k:" + std::to_string(std::min(k, 31)));
  s.note("n=" + std::to_string(p.size()) + " k=" + std::to_string(k) + " shape=" + ci.shape + " offset=" + std::to_string(ci.offset));
  if (type == 0) {
    PointCloud c(p);
    go(s, c, p, k, 0);
    PBT_CHECK(c.normals.size() == p.size() && c.covs.size() == p.size(), "attribute arrays have the wrong length");
  } else if (type == 1) {
    UserCloud c(p);
    go(s, c, p, k, 0);
    PBT_CHECK(c.bad == 0, "point index out of range accessed");
  } else {
    pcl::PointCloud<pcl::PointNormalCovariance> c;
    c.resize(p.size());
    for (size_t i = 0; i < p.size(); i++) c[i].getVector4fMap() = p[i].cast<float>();
    go(s, c, p, k, 1e-6);
  }
}
