// A user-defined point cloud type (traits specialisation) whose accessors are scheduling points
// and record out-of-range accesses instead of performing them.
#pragma once
#include <atomic>
#include "sched.hpp"
#include <small_gicp/points/traits.hpp>

struct UserCloud {
  std::vector<Eigen::Vector4d> p, n;
  std::vector<Eigen::Matrix4d> c;
  mutable std::atomic<long> bad{0};
  std::vector<int> np, nn, nc;  // writes per element (each element is written by at most one thread, or TSan reports it)
  UserCloud() {}
  explicit UserCloud(const std::vector<Eigen::Vector4d>& pts) : p(pts), n(pts.size(), Eigen::Vector4d::Zero()), c(pts.size(), Eigen::Matrix4d::Zero()), np(pts.size()), nn(pts.size()), nc(pts.size()) {}
  size_t size() const { return p.size(); }
  bool ok(size_t i) const {
    sched::point();
    if (i < p.size()) return true;
    bad.fetch_add(1, std::memory_order_relaxed);
    return false;
  }
};

namespace small_gicp::traits {
template <>
struct Traits<UserCloud> {
  static size_t size(const UserCloud& c) { return c.p.size(); }
  static bool has_points(const UserCloud& c) { return !c.p.empty(); }
  static bool has_normals(const UserCloud& c) { return !c.n.empty(); }
  static bool has_covs(const UserCloud& c) { return !c.c.empty(); }
  static Eigen::Vector4d point(const UserCloud& c, size_t i) { return c.ok(i) ? c.p[i] : Eigen::Vector4d(0, 0, 0, 1); }
  static Eigen::Vector4d normal(const UserCloud& c, size_t i) { return c.ok(i) ? c.n[i] : Eigen::Vector4d(0, 0, 0, 0); }
  static Eigen::Matrix4d cov(const UserCloud& c, size_t i) { return c.ok(i) ? c.c[i] : Eigen::Matrix4d(Eigen::Matrix4d::Zero()); }
  static void resize(UserCloud& c, size_t n) {
    c.p.resize(n, Eigen::Vector4d(0, 0, 0, 1));
    c.n.resize(n, Eigen::Vector4d::Zero());
    c.c.resize(n, Eigen::Matrix4d::Zero());
    c.np.resize(n);
    c.nn.resize(n);
    c.nc.resize(n);
  }
  static void set_point(UserCloud& c, size_t i, const Eigen::Vector4d& v) {
    if (c.ok(i)) c.p[i] = v, c.np[i]++;
  }
  static void set_normal(UserCloud& c, size_t i, const Eigen::Vector4d& v) {
    if (c.ok(i)) c.n[i] = v, c.nn[i]++;
  }
  static void set_cov(UserCloud& c, size_t i, const Eigen::Matrix4d& v) {
    if (c.ok(i)) c.c[i] = v, c.nc[i]++;
  }
};
}  // namespace small_gicp::traits
