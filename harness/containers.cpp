// C23: point clouds and traits conversions keep what was stored.
#include <list>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>
#include <small_gicp/pcl/pcl_proxy.hpp>
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/points/point_cloud.hpp>
#include "clouds.hpp"
#include "gen.hpp"
using namespace small_gicp;
using namespace pbt;
using gen::V3;
using gen::V4;
using M4 = Eigen::Matrix4d;

struct Item {
  V4 p, n;
  M4 c;
  bool hp = false, hn = false, hc = false;  // has it been set?
};
enum { kPoint = 1, kNormal = 2, kCov = 4 };

static double fl(double x, bool f) { return f ? (double)(float)x : x; }
template <typename M>
static M rounded(const M& m, bool f) {
  return f ? M(m.template cast<float>().template cast<double>()) : m;
}

/// One cloud of some type together with what it should hold.
template <typename C, int Attr, bool Float>
struct Store {
  static constexpr int attr = Attr;
  C c;
  std::vector<Item> m;

  void resize(size_t n) {
    traits::resize(c, n);
    m.resize(n);
  }
  void set(int a, size_t i, const V4& v, const M4& cov) {
    if constexpr (Attr & kPoint)
      if (a == kPoint) traits::set_point(c, i, v), m[i].p = rounded(v, Float), m[i].hp = true;
    if constexpr (Attr & kNormal)
      if (a == kNormal) traits::set_normal(c, i, v), m[i].n = rounded(v, Float), m[i].hn = true;
    if constexpr (Attr & kCov)
      if (a == kCov) traits::set_cov(c, i, cov), m[i].c = rounded(cov, Float), m[i].hc = true;
  }
  void check(const std::string& what) const {
    PBT_CHECK(traits::size(c) == m.size(), what << ": size " << traits::size(c) << ", expected " << m.size());
    PBT_CHECK(traits::has_points(c) == !m.empty(), what << ": has_points with " << m.size() << " points");
    if constexpr (Attr & kNormal) PBT_CHECK(traits::has_normals(c) == !m.empty(), what << ": has_normals with " << m.size() << " points");
    if constexpr (Attr & kCov) PBT_CHECK(traits::has_covs(c) == !m.empty(), what << ": has_covs with " << m.size() << " points");
    for (size_t i = 0; i < m.size(); i++) {
      if constexpr (Attr & kPoint)
        if (m[i].hp) PBT_CHECK(V4(traits::point(c, i)) == m[i].p, what << ": point " << i << " of " << m.size() << " is " << gen::str(traits::point(c, i)) << ", stored was " << gen::str(m[i].p));
      if constexpr (Attr & kNormal)
        if (m[i].hn) PBT_CHECK(V4(traits::normal(c, i)) == m[i].n, what << ": normal " << i << " of " << m.size() << " is " << gen::str(traits::normal(c, i)) << ", stored was " << gen::str(m[i].n));
      if constexpr (Attr & kCov)
        if (m[i].hc) PBT_CHECK(M4(traits::cov(c, i)) == m[i].c, what << ": covariance " << i << " of " << m.size() << " is\n" << M4(traits::cov(c, i)) << "\nstored was\n" << m[i].c);
    }
  }
};
using Own = Store<PointCloud, 7, false>;
using User = Store<UserCloud, 7, false>;
using PclFull = Store<pcl::PointCloud<pcl::PointNormalCovariance>, 7, true>;
using PclCov = Store<pcl::PointCloud<pcl::PointCovariance>, 5, true>;
using PclNormal = Store<pcl::PointCloud<pcl::PointNormal>, 3, true>;
using PclXYZ = Store<pcl::PointCloud<pcl::PointXYZ>, 1, true>;
using PclXYZI = Store<pcl::PointCloud<pcl::PointXYZI>, 1, true>;

static double value(Src& s, Rng& r) {
  switch (r.below(6)) {
    case 0: return (double)((int)r.below(21) - 10);
    case 1: return r.real(-1, 1) * 1e6;
    case 2: return r.real(-1, 1) * 1e-6;
    case 3: return -0.0;
    case 4: return r.real(-1, 1) * 1e30;
    default: return r.real(-100, 100);
  }
}

/// copies every attribute both sides have, element by element through the traits
template <typename A, typename B>
static void copy(const A& a, B& b) {
  b.resize(traits::size(a.c));
  for (size_t i = 0; i < traits::size(a.c); i++) {
    if constexpr (A::attr & B::attr & kPoint)
      if (a.m[i].hp) b.set(kPoint, i, traits::point(a.c, i), M4());
    if constexpr (A::attr & B::attr & kNormal)
      if (a.m[i].hn) b.set(kNormal, i, traits::normal(a.c, i), M4());
    if constexpr (A::attr & B::attr & kCov)
      if (a.m[i].hc) b.set(kCov, i, V4(), traits::cov(a.c, i));
  }
}

template <typename T, int D, typename Alloc>
static void construct(Src& s, Rng& r, Own& o, const std::string& what) {
  std::vector<Eigen::Matrix<T, D, 1>, Alloc> v(s.below(40));
  for (auto& x : v)
    for (int k = 0; k < D; k++) x[k] = std::is_integral_v<T> ? (T)((int)r.below(2001) - 1000) : (T)value(s, r);
  auto before = v;
  PointCloud c(v);
  PBT_CHECK(c.points.size() == v.size() && c.normals.size() == v.size() && c.covs.size() == v.size() && c.size() == v.size() && c.empty() == v.empty(), what << ": attribute counts " << c.points.size() << "/" << c.normals.size() << "/" << c.covs.size() << " for " << v.size() << " points");
  o.c = c;
  o.m.assign(v.size(), Item());
  for (size_t i = 0; i < v.size(); i++) {
    o.m[i].p = V4((double)v[i][0], (double)v[i][1], (double)v[i][2], 1.0);
    o.m[i].hp = true;
  }
  PBT_CHECK(before == v || v.empty(), what << ": input changed");
}

PBT_PROPERTY(containers) {
  Rng r(s.seed());
  Own own;
  User user;
  PclFull pfull;
  PclCov pcov;
  PclNormal pnormal;
  PclXYZ pxyz;
  PclXYZI pxyzi;
  // a proxy stores covariances next to a PCL cloud
  pcl::PointCloud<pcl::PointXYZ> base;
  std::vector<M4> proxy_covs;
  std::vector<Item> proxy_model;
  std::string hist;
  auto each = [&](int which, auto f) {
    switch (which) {
      case 0: return f(own);
      case 1: return f(pfull);
      case 2: return f(user);
      case 3: return f(pcov);
      case 4: return f(pnormal);
      case 5: return f(pxyz);
      default: return f(pxyzi);
    }
  };
  static const char* names[] = {"PointCloud", "pcl PointNormalCovariance", "UserCloud", "pcl PointCovariance", "pcl PointNormal", "pcl PointXYZ", "pcl PointXYZI"};
  int ops = 3 + s.below(20), moved = 0;
  for (int o = 0; o < ops; o++) {
    int which = s.pick({4, 2, 1, 2, 2, 1, 1});
    int what = s.pick({3, 6, 3, 2, 1});
    if (what == 0) {
      size_t n = s.size(0, 60);
      hist += std::string(" resize(") + names[which] + "," + std::to_string(n) + ")";
      each(which, [&](auto& st) { st.resize(n); });
      if (which != 0 && which != 2 && s.coin(40)) {
        // points that hold something else already (recycled buffers, padding left by whoever filled them)
        hist += " [recycled points]";
        each(which, [&](auto& st) {
          if constexpr (!std::is_same_v<decltype(st), Own&> && !std::is_same_v<decltype(st), User&>)
            for (size_t i = 0; i < st.m.size(); i++) {
              auto* f = reinterpret_cast<float*>(&st.c.points[i]);
              for (size_t k = 0; k < sizeof(st.c.points[i]) / sizeof(float); k++) f[k] = 7.5f + k;
              st.m[i] = Item();
            }
        });
      }
    } else if (what == 1) {
      hist += std::string(" set(") + names[which] + ")";
      each(which, [&](auto& st) {
        for (size_t i = 0; i < st.m.size(); i++)
          if (r.below(3)) {
            int a = 1 << r.below(3);
            V4 v(value(s, r), value(s, r), value(s, r), a == kPoint ? 1.0 : 0.0);
            M4 c = M4::Zero();
            for (int k = 0; k < 9; k++) c(k / 3, k % 3) = value(s, r);
            c.block<3, 3>(0, 0) = Eigen::Matrix3d(c.block<3, 3>(0, 0) + c.block<3, 3>(0, 0).transpose());
            st.set(a, i, v, c);
          }
      });
    } else if (what == 2) {
      int to = s.below(7);
      if (to != which) {
        hist += std::string(" copy(") + names[which] + "->" + names[to] + ")";
        each(which, [&](auto& a) { each(to, [&](auto& b) {
          if constexpr (!std::is_same_v<decltype(a), decltype(b)>) copy(a, b), moved++;
        }); });
      }
    } else if (what == 3) {
      int f = s.below(8);
      hist += " construct(" + std::to_string(f) + ")";
      std::string w = "PointCloud from vector type " + std::to_string(f);
      using namespace Eigen;
      if (f == 0) construct<float, 3, std::allocator<Matrix<float, 3, 1>>>(s, r, own, w);
      if (f == 1) construct<float, 4, std::allocator<Matrix<float, 4, 1>>>(s, r, own, w);
      if (f == 2) construct<double, 3, std::allocator<Matrix<double, 3, 1>>>(s, r, own, w);
      if (f == 3) construct<double, 4, std::allocator<Matrix<double, 4, 1>>>(s, r, own, w);
      if (f == 4) construct<double, 4, aligned_allocator<Matrix<double, 4, 1>>>(s, r, own, w);
      if (f == 5) construct<float, 4, aligned_allocator<Matrix<float, 4, 1>>>(s, r, own, w);
      if (f == 6) construct<int, 3, std::allocator<Matrix<int, 3, 1>>>(s, r, own, w);
      if (f == 7) construct<double, 6, std::allocator<Matrix<double, 6, 1>>>(s, r, own, w);
      moved++;
    } else {
      // own cloud: accessors, writable references, copies
      hist += " access";
      PointCloud& c = own.c;
      for (size_t i = 0; i < own.m.size(); i++) {
        if (r.below(2)) {
          V4 v(value(s, r), value(s, r), value(s, r), 0);
          c.normal(i) = v, own.m[i].n = v, own.m[i].hn = true;
        }
        if (r.below(4) == 0) {
          V4 v(value(s, r), value(s, r), value(s, r), 1);
          c.point(i) = v, own.m[i].p = v, own.m[i].hp = true;
        }
        if (r.below(4) == 0) {
          M4 v = M4::Zero();
          v(0, 0) = value(s, r), v(1, 2) = v(2, 1) = value(s, r);
          c.cov(i) = v, own.m[i].c = v, own.m[i].hc = true;
        }
        const PointCloud& k = c;
        PBT_CHECK((!own.m[i].hp || k.point(i) == own.m[i].p) && (!own.m[i].hn || k.normal(i) == own.m[i].n) && (!own.m[i].hc || k.cov(i) == own.m[i].c), hist << ": accessors of point " << i << " disagree with what was stored");
      }
      Own other = own;  // value semantics
      PBT_CHECK(other.c.points.size() == c.points.size() && other.c.normals.size() == c.normals.size() && other.c.covs.size() == c.covs.size(), hist << ": copy");
      other.check(hist + " [copy]");
    }
    for (int w = 0; w < 7; w++) each(w, [&](auto& st) { st.check(std::string(names[w]) + " after" + hist); });
    PBT_CHECK(own.c.size() == own.c.points.size() && own.c.points.size() == own.c.normals.size() && own.c.points.size() == own.c.covs.size() && own.c.empty() == own.c.points.empty(),
              "PointCloud after" << hist << ": " << own.c.points.size() << " points, " << own.c.normals.size() << " normals, " << own.c.covs.size() << " covariances");
  }
  // proxy over the PCL XYZ cloud
  if (s.coin(60)) {
    PointCloudProxy<pcl::PointXYZ> proxy(pxyz.c, proxy_covs);
    size_t n = pxyz.m.size();
    PBT_CHECK(traits::size(proxy) == n && traits::has_points(proxy) == (n > 0) && traits::has_covs(proxy) == false, "proxy over " << n << " points");
    traits::resize(proxy, n);
    PBT_CHECK(proxy_covs.size() == n && traits::has_covs(proxy) == (n > 0), "proxy after resize to " << n << ": " << proxy_covs.size() << " covariances");
    std::vector<M4> want(n);
    for (size_t i = 0; i < n; i++) {
      for (int k = 0; k < 16; k++) want[i](k / 4, k % 4) = value(s, r);
      traits::set_cov(proxy, i, want[i]);
    }
    for (size_t i = 0; i < n; i++) {
      PBT_CHECK(M4(traits::cov(proxy, i)) == want[i] && proxy_covs[i] == want[i], "proxy covariance " << i);
      if (pxyz.m[i].hp) PBT_CHECK(V4(traits::point(proxy, i)) == pxyz.m[i].p, "proxy point " << i);
    }
    pxyz.check("pcl PointXYZ under a proxy");
  }
  // matrices as clouds
  if (s.coin(60)) {
    Eigen::MatrixXd M(s.below(30), 3 + s.below(3));
    for (int i = 0; i < M.size(); i++) M.data()[i] = value(s, r);
    PBT_CHECK(traits::size(M) == (size_t)M.rows() && traits::has_points(M) == (M.rows() > 0), "matrix with " << M.rows() << " rows: size " << traits::size(M));
    for (int i = 0; i < M.rows(); i++) PBT_CHECK(V4(traits::point(M, i)) == V4(M(i, 0), M(i, 1), M(i, 2), 1.0), "matrix row " << i << " gives " << gen::str(traits::point(M, i)));
  }
  s.nontrivial = moved > 0;
  s.note(hist);
}
