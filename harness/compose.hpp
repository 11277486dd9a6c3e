// Composition of the registration building blocks under a RegistrationSetting, and comparison of a result with it.
#pragma once
#include "room.hpp"
#include "knncheck.hpp"
#include <optional>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/registration_helper.hpp>

using Red0 = SerialReduction;
using Red1 = ParallelReductionOMP;

template <typename F, typename Red, typename T, typename Tree>
static RegistrationResult compose(const T& tgt, const PointCloud& src, const Tree& tree, const Iso& init, const RegistrationSetting& st, int threads = 1) {
  Registration<F, Red> reg;
  if constexpr (std::is_same_v<Red, Red1>) reg.reduction.num_threads = threads;
  reg.rejector.max_dist_sq = st.max_correspondence_distance * st.max_correspondence_distance;
  reg.criteria.rotation_eps = st.rotation_eps;
  reg.criteria.translation_eps = st.translation_eps;
  reg.optimizer.max_iterations = st.max_iterations;
  return reg.align(tgt, src, tree, init);
}
/// ... of already preprocessed clouds
static RegistrationResult compose(const PointCloud& tgt, const PointCloud& src, const Iso& init, const RegistrationSetting& st, int threads) {
  bool ser = threads == 1;
  if (st.type == RegistrationSetting::VGICP) {
    GaussianVoxelMap m(st.voxel_resolution);
    m.insert(tgt);
    return ser ? compose<GICPFactor, Red0>(m, src, m, init, st) : compose<GICPFactor, Red1>(m, src, m, init, st, threads);
  }
  KdTree<PointCloud> tree(std::make_shared<PointCloud>(tgt));
  switch (st.type) {
    case RegistrationSetting::ICP: return ser ? compose<ICPFactor, Red0>(tgt, src, tree, init, st) : compose<ICPFactor, Red1>(tgt, src, tree, init, st, threads);
    case RegistrationSetting::PLANE_ICP: return ser ? compose<PointToPlaneICPFactor, Red0>(tgt, src, tree, init, st) : compose<PointToPlaneICPFactor, Red1>(tgt, src, tree, init, st, threads);
    default: return ser ? compose<GICPFactor, Red0>(tgt, src, tree, init, st) : compose<GICPFactor, Red1>(tgt, src, tree, init, st, threads);
  }
}

static PointCloud shuffled(const PointCloud& c, Rng& r) {
  std::vector<size_t> ord(c.size());
  std::iota(ord.begin(), ord.end(), 0);
  for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  PointCloud o;
  o.resize(c.size());
  for (size_t i = 0; i < ord.size(); i++) o.points[i] = c.points[ord[i]], o.normals[i] = c.normals[ord[i]], o.covs[i] = c.covs[ord[i]];
  return o;
}

/// an arbitrary (not rounding-stable) result is compared with the composition and its equivalents
static std::optional<RegistrationResult> compare(Src& s, const PointCloud& tgt, const PointCloud& src, const Iso& init, const RegistrationSetting& st, const RegistrationResult& got, double scale, const std::string& what, double in_tol = 0) {
  auto base = compose(tgt, src, init, st, 1);
  Rng r(s.seed());
  double spread = 0, espread = 0;
  auto diff = [&](const Iso& a, const Iso& b) { return max_gap(moved(a, src.points), moved(b, src.points)); };
  auto jittered = [&](int i) {
    V6 d;
    for (int k = 0; k < 6; k++) d[k] = r.real(-1, 1) * (1e-10 + in_tol / scale) * (k < 3 ? 1 : scale);
    return compose(shuffled(tgt, r), shuffled(src, r), init * exp_ref(d), st, i % 8 == 7 ? 2 : 1);
  };
  bool stable = true;
  for (int i = 0; i < 2; i++) {
    auto x = jittered(i);
    spread = std::max(spread, diff(x.T_target_source, base.T_target_source));
    espread = std::max(espread, std::abs(x.error - base.error));
    stable = stable && x.num_inliers == base.num_inliers;
  }
  if (!stable || spread > 1e-5 * scale) {
    s.label("unstable problem");
    return {};
  }
  std::ostringstream os;
  double gap = diff(got.T_target_source, base.T_target_source);
  os << what << " iterations=" << base.iterations << "/" << got.iterations << " converged=" << base.converged << "/" << got.converged << " inliers=" << base.num_inliers << "/" << got.num_inliers << " error=" << base.error << "/" << got.error << " gap=" << gap << " spread=" << spread;
  s.note(os.str());
  s.trivial_unless(base.num_inliers > 10 && base.iterations > 0);
  PBT_CHECK(gap <= 100 * spread + (2e-6 + 1e3 * in_tol / scale) * scale, os.str() << ": pose differs from the composition\n" << got.T_target_source.matrix() << "\nexpected\n" << base.T_target_source.matrix());
  PBT_CHECK(got.num_inliers == base.num_inliers, os.str() << ": inlier count");
  double etol = 1e-7 * std::abs(base.error) + 100 * espread + 1e-20;
  PBT_CHECK(std::abs(got.error - base.error) <= etol || in_tol > 0, os.str() << ": error");
  if (got.iterations != base.iterations || got.converged != base.converged) {
    // rounding may decide where the iteration ends; then an equivalent run ends there, too
    // (with inputs that are themselves known up to rounding only, the very end is not decided)
    bool attained = in_tol > 0 && std::abs(int(got.iterations) - int(base.iterations)) <= 1;
    for (int i = 0; i < 80 && !attained; i++) {
      auto x = jittered(i);
      attained = x.iterations == got.iterations && x.converged == got.converged;
    }
    PBT_CHECK(attained, os.str() << ": iterations / convergence differ from the composition");
  }
  return base;
}
