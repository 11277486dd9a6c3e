// Generators and oracles for per-point factors.
#pragma once
#define NO_TBB_CONTROL
#include "clouds.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/plane_icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/factors/robust_kernel.hpp>
#include <small_gicp/registration/rejector.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using M3 = Eigen::Matrix3d;
using M4 = Eigen::Matrix4d;
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;
using Iso = Eigen::Isometry3d;

/// A user-supplied exhaustive search that only offers knn_search.
struct UserSearch {
  const Pts* p;
  size_t knn(const V4& q, size_t k, size_t* idx, double* d) const {
    std::vector<std::pair<double, size_t>> v(p->size());
    for (size_t i = 0; i < v.size(); i++) v[i] = {gen::sqd((*p)[i], q), i};
    size_t m = std::min(k, v.size());
    std::partial_sort(v.begin(), v.begin() + m, v.end());
    for (size_t i = 0; i < m; i++) d[i] = v[i].first, idx[i] = v[i].second;
    return m;
  }
};
namespace small_gicp::traits {
template <>
struct Traits<UserSearch> {
  static size_t knn_search(const UserSearch& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return t.knn(q, k, i, d); }
};
}  // namespace small_gicp::traits

template <typename C>
static void set_attr(C& c, const std::vector<V4>& n, const std::vector<M4>& cov) {
  for (size_t i = 0; i < traits::size(c); i++) {
    traits::set_normal(c, i, n[i]);
    traits::set_cov(c, i, cov[i]);
  }
}

struct Scene {
  Pts tgt, src;
  std::vector<V4> tn, sn;
  std::vector<M4> tc, sc;
  double scale = 1, mag = 1;
  bool exact = false;  // lattice coordinates: distances at the identity pose are exact
};

inline V4 rand_normal(Rng& r) {
  V3 v(r.gauss(), r.gauss(), r.gauss());
  v.normalize();
  return V4(v[0], v[1], v[2], 0);
}
inline M4 rand_cov(Rng& r, int kind, double scale) {
  M4 c = M4::Zero();
  V3 n = rand_normal(r).head<3>();
  if (kind == 0)  // regularised plane covariance
    c.block<3, 3>(0, 0) = M3::Identity() - (1 - 1e-3) * n * n.transpose();
  else if (kind == 1)
    c.block<3, 3>(0, 0) = M3::Identity();
  else {
    M3 a;
    for (int i = 0; i < 9; i++) a(i / 3, i % 3) = r.real(-1, 1);
    M3 m = (a * a.transpose() + 0.02 * M3::Identity()) * scale;
    c.block<3, 3>(0, 0) = 0.5 * (m + m.transpose());
  }
  return c;
}

inline Scene scene(Src& s, int max_n, bool allow_empty_target = true) {
  Scene sc;
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = max_n;
  o.allow_empty = allow_empty_target;
  sc.tgt = gen::points(s, o, &ci);
  sc.scale = ci.scale;
  sc.exact = ci.lattice > 0 && ci.offset == 0 && (ci.scale == 1.0);
  size_t n = 1 + s.below(20);
  Rng r(s.seed());
  int ck = s.pick({3, 1, 2});
  for (size_t i = 0; i < n; i++) {
    V4 p = gen::query(s, sc.tgt, ci.scale);
    sc.src.push_back(p);
    sc.sn.push_back(rand_normal(r));
    sc.sc.push_back(rand_cov(r, ck, 0.3));
  }
  // larger sources, so that any source index is reached
  if (s.coin(15))
    for (size_t more = s.one_of<int>({200, 1000, 3000}); sc.src.size() < more;) {
      sc.src.push_back(sc.src[r.below(n)] + V4(r.gauss() * sc.scale * 0.1, r.gauss() * sc.scale * 0.1, 0, 0));
      sc.sn.push_back(rand_normal(r));
      sc.sc.push_back(rand_cov(r, ck, 0.3));
    }
  for (auto& p : sc.tgt) {
    sc.tn.push_back(r.below(20) ? rand_normal(r) : V4(0, 0, 0, 0));
    sc.tc.push_back(rand_cov(r, ck, 0.3));
    sc.mag = std::max(sc.mag, p.head<3>().cwiseAbs().maxCoeff());
  }
  for (auto& p : sc.src) sc.mag = std::max(sc.mag, p.head<3>().cwiseAbs().maxCoeff());
  return sc;
}

inline M3 skew_ref(const V3& v) {
  M3 m;
  m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return m;
}
/// exact-ish exponential of a twist (rotation first), by Taylor series in long double with scaling
inline Iso exp_ref(const V6& d) {
  using L4 = Eigen::Matrix<long double, 4, 4>;
  L4 A = L4::Zero();
  A(0, 1) = -d[2], A(0, 2) = d[1], A(1, 0) = d[2], A(1, 2) = -d[0], A(2, 0) = -d[1], A(2, 1) = d[0];
  A(0, 3) = d[3], A(1, 3) = d[4], A(2, 3) = d[5];
  int sq = 0;
  long double nrm = d.norm();
  while (nrm > 0.5L) nrm /= 2, sq++;
  A = A * std::pow(0.5L, sq);
  L4 E = L4::Identity(), P = L4::Identity();
  for (int k = 1; k < 26; k++) {
    P = (P * A) / (long double)k;
    E += P;
  }
  for (int k = 0; k < sq; k++) E = E * E;
  Iso T;
  T.matrix() = E.cast<double>();
  return T;
}
/// the pose that keeps T's rotation and moves p exactly (up to rounding) to position x
inline Iso moving_to(const Iso& T, const V4& p, const V3& x) {
  Iso r = T;
  r.translation() = x - T.linear() * p.head<3>();
  return r;
}

struct Lin {
  M6 H = M6::Constant(1e300);
  V6 b = V6::Constant(1e300);
  double e = 1e300;
  bool in = false;
};
