// What a downsampled cloud with estimated attributes must look like.
#pragma once
#include "compose.hpp"
#include <small_gicp/util/downsampling.hpp>

inline bool same(const PointCloud& a, const PointCloud& b) {  // bitwise: attributes that were never set may be anything
  auto eq = [](const auto& x, const auto& y) { return x.size() == y.size() && (x.empty() || memcmp(x.data(), y.data(), x.size() * sizeof(x[0])) == 0); };
  return eq(a.points, b.points) && eq(a.normals, b.normals) && eq(a.covs, b.covs);
}

/// The points of `d` are the voxel means of `in`; with `blocks` > 1 a voxel may be split between summation blocks. Returns the number of voxels.
inline size_t check_downsampled(const PointCloud& in, double res, bool split, const Pts& d, const std::string& what) {
  auto ref = voxelgrid_sampling(in, res);
  double mag = 1e-300;
  for (auto& p : in.points) mag = std::max(mag, p.head<3>().cwiseAbs().maxCoeff());
  double tol = 1e-9 * mag + 1e-12;
  auto sorted = [](std::vector<V4> v) {
    std::sort(v.begin(), v.end(), [](const V4& a, const V4& b) { return std::lexicographical_compare(a.data(), a.data() + 3, b.data(), b.data() + 3); });
    return v;
  };
  size_t blocks = (in.size() + 1023) / 1024;
  if (!split || blocks <= 1) {
    PBT_CHECK(d.size() == ref->size(), what << ": " << d.size() << " points after downsampling with resolution " << res << ", expected " << ref->size());
    // (sorting by coordinates that differ by rounding may order points differently: match per voxel instead)
    std::map<std::array<long long, 3>, V4> want;
    auto key = [&](const V4& p) { return std::array<long long, 3>{(long long)std::floor(p[0] / res), (long long)std::floor(p[1] / res), (long long)std::floor(p[2] / res)}; };
    for (auto& p : ref->points) want[key(p)] = p;
    auto a = sorted(d), b = sorted(ref->points);
    for (size_t i = 0; i < a.size(); i++) {
      auto it = want.find(key(a[i]));
      bool ok = (a[i] - b[i]).cwiseAbs().maxCoeff() <= tol || (it != want.end() && (a[i] - it->second).cwiseAbs().maxCoeff() <= tol);
      PBT_CHECK(ok, what << ": point " << gen::str(a[i]) << " should be " << gen::str(b[i]));
    }
  } else {
    PBT_CHECK(d.size() >= ref->size() && d.size() <= ref->size() + blocks - 1, what << ": " << d.size() << " points, serially " << ref->size() << " voxels, " << blocks << " blocks");
  }
  return ref->size();
}

/// `normals` / `covs` (if given) are those of the k-neighbourhoods of `d` in itself. Returns the number of comparable points.
inline size_t check_attributes(const Pts& d, const Pts* normals, const std::vector<M4>* covs, int k, const std::string& what, size_t part = -1) {
  PointCloud e(d);
  // the neighbours are searched among the first `part` points
  KdTree<PointCloud> tree(std::make_shared<PointCloud>(Pts(d.begin(), d.begin() + std::min(part, d.size()))));
  estimate_normals_covariances(e, tree, k);
  size_t compared = 0;
  for (size_t i = 0; i < d.size(); i++) {
    // a tie at the k-th neighbour leaves the neighbourhood open
    std::vector<size_t> idx(k + 1);
    std::vector<double> sq(k + 1);
    size_t m = tree.knn_search(d[i], k + 1, idx.data(), sq.data());
    if (m == (size_t)k + 1 && sq[k] - sq[k - 1] <= 1e-9 * sq[k]) continue;
    // ... and an isotropic neighbourhood the normal's direction
    if (std::min<size_t>(k, m) >= 5) {
      M4 raw = M4::Zero();
      V4 mean = V4::Zero();
      size_t kk = std::min<size_t>(k, m);
      for (size_t j = 0; j < kk; j++) mean += d[idx[j]] / kk;
      for (size_t j = 0; j < kk; j++) raw += (d[idx[j]] - mean) * (d[idx[j]] - mean).transpose() / kk;
      V3 ev = Eigen::SelfAdjointEigenSolver<M3>(raw.block<3, 3>(0, 0)).eigenvalues();
      if (ev[1] - ev[0] < 1e-4 * ev[2]) continue;
    }
    compared++;
    if (covs) PBT_CHECK(((*covs)[i] - e.covs[i]).cwiseAbs().maxCoeff() <= 1e-5, what << ": covariance of point " << i << " is not that of its " << k << " neighbours:\n" << (*covs)[i] << "\nexpected\n" << e.covs[i]);
    if (normals) PBT_CHECK(std::min(((*normals)[i] - e.normals[i]).norm(), ((*normals)[i] + e.normals[i]).norm()) <= 1e-5, what << ": normal of point " << i << " is " << gen::str((*normals)[i]) << ", expected " << gen::str(e.normals[i]));
  }
  return compared;
}

/// The preprocessed cloud: what is stored, where it lies, what its attributes are, and what the tree searches.
inline void check_preprocessed(Src& s, const PointCloud& in, double res, int k, bool split, const std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>>& out, const std::string& what) {
  PBT_CHECK(out.first && out.second, what << ": null result");
  const PointCloud& d = *out.first;
  PBT_CHECK(d.points.size() == d.normals.size() && d.points.size() == d.covs.size(), what << ": attribute sizes differ");
  size_t voxels = check_downsampled(in, res, split, d.points, what);
  size_t compared = check_attributes(d.points, &d.normals, &d.covs, k, what);
  s.trivial_unless(compared > 5 && voxels < in.size());
  double mag = 1e-300;
  for (auto& p : in.points) mag = std::max(mag, p.head<3>().cwiseAbs().maxCoeff());
  // the tree searches exactly these points
  for (int i = 0; i < 3; i++) {
    V4 q = gen::query(s, d.points.empty() ? in.points : d.points, mag);
    size_t kk = 1 + s.below(6);
    knn::Buf b(kk);
    size_t m = out.second->knn_search(q, kk, b.i.data(), b.d.data());
    knn::check_exact(d.points, q, kk, m, b, what + ": returned tree");
  }
}
