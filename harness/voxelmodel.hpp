// Sequential model of the incremental voxel maps and the generator of insertion histories.
#pragma once
#define NO_TBB_CONTROL
#include "clouds.hpp"
#include <iostream>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using M4 = Eigen::Matrix4d;
using Key = std::array<int, 3>;

inline std::string kstr(const Key& k) { return "(" + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]) + ")"; }

struct MPoint {
  V4 p, n;
  M4 c;
};
struct MVoxel {
  size_t lru = 0;
  std::vector<MPoint> pts;        // flat: kept points; Gaussian: unused
  long count = 0;                 // points ever added (Gaussian)
  long double sp[4] = {0, 0, 0, 0};
  long double sc[4][4] = {{0}};
  V4 mean() const {
    V4 m;
    for (int i = 0; i < 4; i++) m[i] = sp[i] / count;
    return m;
  }
  M4 cov() const {
    M4 m;
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++) m(i, j) = sc[i][j] / count;
    return m;
  }
};

struct Model {
  double leaf;
  bool gaussian;
  size_t horizon = 100, cycle = 10, counter = 0;
  double min_sq = 0.01;
  size_t max_pts = 10;
  double mag = 1;  // largest coordinate seen (for tolerances)
  long evicted = 0, rejected = 0, full = 0;
  std::map<Key, MVoxel> vox;
  double tol() const { return 1e-11 * mag; }

  bool near_border(const V4& pt, bool exact) const {
    for (int d = 0; d < 3; d++) {
      double t = pt[d] / leaf, r = std::round(t);
      if (std::abs(t - r) < 1e-7 * std::max(1.0, std::abs(t) * 1e-3) && !(exact && t == r)) return true;
    }
    return false;
  }
  Key key(const V4& pt) const { return {(int)std::floor(pt[0] / leaf), (int)std::floor(pt[1] / leaf), (int)std::floor(pt[2] / leaf)}; }

  /// Applies the insertion rule. Returns false (and does nothing) if rounding could decide the outcome.
  bool add(const MPoint& m, bool exact) {
    if (near_border(m.p, exact)) return false;
    Key k = key(m.p);
    auto it = vox.find(k);
    if (!gaussian && it != vox.end() && it->second.pts.size() < max_pts)
      for (auto& x : it->second.pts) {
        double d = (x.p - m.p).squaredNorm();
        if (min_sq > 0 && std::abs(d - min_sq) < 1e-6 * min_sq + 1e-9 * mag * std::sqrt(min_sq)) return false;
      }
    mag = std::max(mag, m.p.head<3>().cwiseAbs().maxCoeff());
    MVoxel& v = vox[k];
    v.lru = counter;
    if (gaussian) {
      v.count++;
      for (int i = 0; i < 4; i++) {
        v.sp[i] += m.p[i];
        for (int j = 0; j < 4; j++) v.sc[i][j] += m.c(i, j);
      }
      return true;
    }
    if (v.pts.size() >= max_pts) {
      full++;
      return true;
    }
    for (auto& x : v.pts)
      if ((x.p - m.p).squaredNorm() < min_sq) {
        rejected++;
        return true;
      }
    v.pts.push_back(m);
    return true;
  }
  void end_insert() {
    counter++;
    if (counter % cycle == 0)
      for (auto it = vox.begin(); it != vox.end();) {
        if (counter - it->second.lru > horizon) {
          it = vox.erase(it);
          evicted++;
        } else
          ++it;
      }
  }
};

struct HistoryCfg {
  double region = 3;  // voxels
  V3 origin = V3::Zero();
  bool pow2 = true;
  int min_batch = 1, max_batch = 40;
  bool stay = false;  // every batch at the same place
  bool dense = false;  // many points in one voxel
};

inline Model make_model(Src& s, bool gaussian, HistoryCfg& cfg) {
  Model m;
  m.gaussian = gaussian;
  cfg.pow2 = s.coin(60);
  m.leaf = cfg.pow2 ? s.one_of<double>({1.0, 0.5, 0.25, 4.0}) : s.real(0.05, 3.0);
  cfg.region = s.one_of<double>({3, 1, 0.6, 8, 20});
  if (s.coin(25)) cfg.origin = V3(std::floor(s.sym(2000)), std::floor(s.sym(2000)), std::floor(s.sym(50)));
  if (s.coin(5)) cfg.origin = V3(std::floor(s.sym(1e6)), std::floor(s.sym(1e6)), std::floor(s.sym(1e4)));
  cfg.max_batch = s.one_of<int>({40, 8, 3, 150});
  if (s.rare(15000)) {
    // more voxels, or more points in a voxel, than 16 bits can number
    cfg.min_batch = 66000;
    cfg.max_batch = 80000;
    cfg.region = 40;
    if (s.coin(50)) cfg.region = 0.3, cfg.origin = V3(0.5, 0.5, 0.5) * m.leaf, cfg.stay = true;  // all in one voxel
    s.label("huge batches");
  }
  if (s.rare(300)) {
    // hundreds of points in one voxel
    cfg.min_batch = 40, cfg.max_batch = 150;
    cfg.region = 0.3, cfg.origin = V3(0.5, 0.5, 0.5) * m.leaf, cfg.stay = cfg.dense = true;
    if (s.coin(10)) cfg.min_batch = 4100, cfg.max_batch = 5000;  // more than 12 bits can number
    s.label("dense voxel");
  }
  return m;
}

template <typename Voxel>
void configure(Src& s, Model& m, IncrementalVoxelMap<Voxel>& map) {
  if (s.coin(75)) {
    m.horizon = s.one_of<size_t>({1, 0, 2, 3, 5, 10, 1, std::numeric_limits<size_t>::max(), 0, 2, 4});
    m.cycle = s.one_of<int>({1, 2, 3, 5, 10});
    map.lru_horizon = m.horizon;
    map.lru_clear_cycle = m.cycle;
  }
}
template <bool N, bool C>
void configure_container(Src& s, Model& m, const HistoryCfg& cfg, IncrementalVoxelMap<FlatContainer<N, C>>& map) {
  if (cfg.dense || s.coin(80)) {
    m.min_sq = std::pow(m.leaf * s.one_of<double>({0.1, 0.0, 0.02, 0.5, 0.3}), 2);
    m.max_pts = s.one_of<int>({10, 1, 2, 3, 20, 100, 400});
    if (cfg.dense) m.min_sq = std::pow(m.leaf * s.one_of<double>({0.0, 0.001}), 2), m.max_pts = cfg.min_batch > 4000 ? 6000 : s.one_of<int>({400, 100, 1000});
    map.voxel_setting.min_sq_dist_in_cell = m.min_sq;
    map.voxel_setting.max_num_points_in_cell = m.max_pts;
  }
}

/// One generated insertion, applied to the model; returns the batch to give to the map.
struct Batch {
  Eigen::Isometry3d T;
  bool identity;
  Pts p;
  std::vector<V4> n;
  std::vector<M4> c;
};
inline Batch step(Src& s, Model& m, const HistoryCfg& cfg) {
  Batch b;
  b.T.setIdentity();
  b.identity = s.coin(30);
  if (!b.identity) b.T = gen::pose(s, 3.14, s.one_of<double>({2.0, 50.0, 0.0}));
  size_t n = s.coin(10) ? 0 : s.size(cfg.min_batch, cfg.max_batch);
  bool from_tape = n <= 6;
  Rng r(from_tape ? 0 : s.seed());
  auto U = [&] { return from_tape ? s.sym(1) : r.real(-1, 1); };
  double region = cfg.region;
  V3 centre = cfg.origin;
  if (!cfg.stay && s.coin(30)) {
    // somewhere else: other voxels age
    for (int d = 0; d < 3; d++) centre[d] += std::floor(s.sym(6)) * m.leaf;
    region *= 0.4;
  }
  bool lattice = s.coin(20);
  for (size_t i = 0; i < n; i++) {
    V4 w;
    w << centre + V3(U(), U(), U()) * region * m.leaf, 1.0;
    if (lattice)
      for (int d = 0; d < 3; d++) w[d] = std::floor(w[d] / (m.leaf / 4)) * (m.leaf / 4);
    MPoint x;
    V4 p = b.identity ? w : V4(b.T.inverse() * w);
    p[3] = 1.0;
    x.p = b.T * p;
    V3 nn(U(), U(), U());
    V4 n4;
    n4 << (nn.norm() > 1e-6 ? V3(nn.normalized()) : V3(0, 0, 1)), 0.0;
    Eigen::Matrix3d A;
    A << U(), U(), U(), U(), U(), U(), U(), U(), U();
    M4 c4 = M4::Zero();
    c4.block<3, 3>(0, 0) = A * A.transpose();
    x.n = V4::Zero();
    x.n.head<3>() = b.T.linear() * n4.head<3>();
    x.c = M4::Zero();
    x.c.block<3, 3>(0, 0) = b.T.linear() * c4.block<3, 3>(0, 0) * b.T.linear().transpose();
    if (!m.add(x, b.identity && cfg.pow2)) continue;  // rounding could decide: left out
    b.p.push_back(p);
    b.n.push_back(n4);
    b.c.push_back(c4);
  }
  m.end_insert();
  return b;
}

/// Sometimes many insertions of nothing age the map (8 or 16 bits could not count them); the model ages with it.
template <typename Map>
void age(Src& s, Model& m, Map& map) {
  size_t n = s.rare(20000) ? 65525 + s.below(12) : s.rare(400) ? 245 + s.below(12) : 0;
  if (!n) return;
  PointCloud none;
  for (size_t i = 0; i < n; i++) {
    map.insert(none);
    m.end_insert();
  }
  s.label("aged");
}

template <typename Map>
void feed(Src& s, Map& map, const Batch& b) {
  if (s.coin(25)) {
    UserCloud u(b.p);
    u.n = b.n;
    u.c = b.c;
    map.insert(u, b.T);
    PBT_CHECK(u.bad == 0, "insert accessed an index out of range");
  } else {
    PointCloud c(b.p);
    c.normals = b.n;
    c.covs = b.c;
    if (b.identity && s.coin(50))
      map.insert(c);
    else
      map.insert(c, b.T);
    for (size_t i = 0; i < b.p.size(); i++) PBT_CHECK(c.points[i] == b.p[i] && c.normals[i] == b.n[i] && c.covs[i] == b.c[i], "insert modified its input");
  }
}

/// every stored point of the map, grouped by the model voxel it belongs to
inline Key group_of(const Model& m, const V4& p) {
  // a stored position lies in its voxel up to rounding; pick the existing voxel whose cell is closest
  Key best{};
  double bd = 1e300;
  for (int c = 0; c < 27; c++) {
    V4 q = p;
    const int o[3] = {c % 3 - 1, c / 3 % 3 - 1, c / 9 - 1};
    for (int d = 0; d < 3; d++) q[d] += o[d] * 4 * m.tol();
    Key k = m.key(q);
    auto it = m.vox.find(k);
    if (it == m.vox.end()) continue;
    double d = 1e300;
    if (m.gaussian)
      d = (it->second.mean() - p).norm();
    else
      for (auto& x : it->second.pts) d = std::min(d, (x.p - p).norm());
    if (d < bd) bd = d, best = k;
  }
  PBT_CHECK(bd < 1e299, "the map stores a point " << gen::str(p) << " where no voxel should exist");
  return best;
}

template <typename Map, bool N, bool C>
void compare_flat(const Map& map, const Model& m, const std::string& at) {
  PBT_CHECK(map.size() == m.vox.size() && traits::size(map) == m.vox.size(), at << ": the map has " << map.size() << " voxels, expected " << m.vox.size());
  auto idx = traits::point_indices(map);
  auto pts = traits::voxel_points(map);
  std::vector<V4> nrm;
  std::vector<M4> cov;
  if constexpr (N) nrm = traits::voxel_normals(map);
  if constexpr (C) cov = traits::voxel_covs(map);
  size_t total = 0;
  for (auto& kv : m.vox) total += kv.second.pts.size();
  PBT_CHECK(idx.size() == total, at << ": the map holds " << idx.size() << " points, expected " << total);
  PBT_CHECK(pts.size() == total && (!N || nrm.size() == total) && (!C || cov.size() == total), at << ": voxel_points/normals/covs have different lengths");
  PBT_CHECK(std::set<size_t>(idx.begin(), idx.end()).size() == idx.size(), at << ": duplicate global point index");
  std::map<Key, std::vector<char>> used;
  for (auto& kv : m.vox) used[kv.first].assign(kv.second.pts.size(), 0);
  const double tol = m.tol();
  for (size_t i = 0; i < idx.size(); i++) {
    V4 p = traits::point(map, idx[i]);
    PBT_CHECK(p == pts[i], at << ": point of global index " << idx[i] << " differs from the enumeration");
    if constexpr (N) PBT_CHECK(traits::normal(map, idx[i]) == nrm[i], at << ": normal of global index " << idx[i] << " differs from the enumeration");
    if constexpr (C) PBT_CHECK(traits::cov(map, idx[i]) == cov[i], at << ": covariance of global index " << idx[i] << " differs from the enumeration");
    Key k = group_of(m, p);
    const MVoxel& v = m.vox.at(k);
    bool ok = false;
    for (size_t j = 0; j < v.pts.size() && !ok; j++) {
      if (used[k][j] || (v.pts[j].p - p).cwiseAbs().maxCoeff() > tol) continue;
      if constexpr (N)
        if ((v.pts[j].n - nrm[i]).cwiseAbs().maxCoeff() > 1e-9) continue;
      if constexpr (C)
        if ((v.pts[j].c - cov[i]).cwiseAbs().maxCoeff() > 1e-9) continue;
      used[k][j] = 1;
      ok = true;
    }
    PBT_CHECK(ok, at << ": stored point " << gen::str(p) << " (voxel " << kstr(k) << ") has no counterpart (position, normal, covariance) under the insertion rule");
  }
}

inline void compare_gaussian(const GaussianVoxelMap& map, const Model& m, const std::string& at) {
  PBT_CHECK(map.size() == m.vox.size() && traits::size(map) == m.vox.size(), at << ": the map has " << map.size() << " voxels, expected " << m.vox.size());
  auto idx = traits::point_indices(map);
  auto pts = traits::voxel_points(map);
  auto cov = traits::voxel_covs(map);
  PBT_CHECK(idx.size() == m.vox.size() && pts.size() == idx.size() && cov.size() == idx.size(), at << ": enumerations have " << idx.size() << ", " << pts.size() << ", " << cov.size() << " entries for " << m.vox.size() << " voxels");
  std::set<Key> seen;
  double tol = 20 * m.tol();
  for (size_t i = 0; i < idx.size(); i++) {
    PBT_CHECK(traits::point(map, idx[i]) == pts[i] && traits::cov(map, idx[i]) == cov[i], at << ": global index " << idx[i] << " differs from the enumeration");
    Key k = group_of(m, pts[i]);
    PBT_CHECK(seen.insert(k).second, at << ": two voxels at " << kstr(k));
    const MVoxel& v = m.vox.at(k);
    PBT_CHECK((v.mean() - pts[i]).cwiseAbs().maxCoeff() <= tol, at << ": voxel " << kstr(k) << " of " << v.count << " points has mean " << gen::str(pts[i]) << ", expected " << gen::str(v.mean()));
    M4 c = v.cov();
    PBT_CHECK((c - cov[i]).cwiseAbs().maxCoeff() <= 1e-9 * (1 + c.cwiseAbs().maxCoeff()), at << ": voxel " << kstr(k) << " of " << v.count << " points has covariance\n" << cov[i] << "\nexpected\n" << c);
  }
}
