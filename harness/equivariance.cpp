// C18: registration commutes with frame changes and point order.
#include <tbb/tbb.h>
#include "room.hpp"
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>

struct Problem {
  PointCloud tgt, src;
  Iso init;
};
/// how the target is searched and which voxels it is put into
struct Search {
  int kind = 0;  // 0 KdTree, 1 GaussianVoxelMap, 2 flat incremental map
  double leaf = 1;
  int offsets = 7;
};
struct Settings {
  double max_d, eps_t, eps_r, kernel;
  int iters, threads;
};
using Run = std::function<RegistrationResult(const Problem&, const Search&, const Settings&)>;

template <typename F>
static void set_kernel(typename F::Setting&, double) {}
template <>
void set_kernel<RobustFactor<Huber, GICPFactor>>(RobustFactor<Huber, GICPFactor>::Setting& s, double c) { s.robust_kernel.c = c; }
template <>
void set_kernel<RobustFactor<Cauchy, ICPFactor>>(RobustFactor<Cauchy, ICPFactor>::Setting& s, double c) { s.robust_kernel.c = c; }

template <typename F, typename Red, typename Opt, int Kind>
static RegistrationResult run(const Problem& p, const Search& se, const Settings& st) {
  Registration<F, Red, NullFactor, DistanceRejector, Opt> reg;
  set_kernel<F>(reg.point_factor, st.kernel);
  if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = st.threads;
  reg.rejector.max_dist_sq = st.max_d * st.max_d;
  reg.optimizer.max_iterations = st.iters;
  reg.criteria.translation_eps = st.eps_t;
  reg.criteria.rotation_eps = st.eps_r;
  if constexpr (Kind == 0) {
    KdTree<PointCloud> tree(std::make_shared<PointCloud>(p.tgt));
    return reg.align(p.tgt, p.src, tree, p.init);
  } else if constexpr (Kind == 1) {
    GaussianVoxelMap m(se.leaf);
    m.set_search_offsets(se.offsets);
    m.insert(p.tgt);
    return reg.align(m, p.src, m, p.init);
  } else {
    IncrementalVoxelMap<FlatContainerNormalCov> m(se.leaf);
    m.set_search_offsets(se.offsets);
    m.voxel_setting.min_sq_dist_in_cell = 0;
    m.voxel_setting.max_num_points_in_cell = 1000;
    m.insert(p.tgt);
    return reg.align(m, p.src, m, p.init);
  }
}

static PointCloud transformed(const PointCloud& c, const Iso& A) {
  PointCloud o = c;
  for (size_t i = 0; i < c.size(); i++) {
    o.points[i] = A * c.points[i];
    o.normals[i] = A.matrix() * c.normals[i];
    o.covs[i] = A.matrix() * c.covs[i] * A.matrix().transpose();
  }
  return o;
}
static PointCloud permuted(const PointCloud& c, Rng& r) {
  std::vector<size_t> ord(c.size());
  std::iota(ord.begin(), ord.end(), 0);
  for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  PointCloud o;
  o.resize(c.size());
  for (size_t i = 0; i < ord.size(); i++) o.points[i] = c.points[ord[i]], o.normals[i] = c.normals[ord[i]], o.covs[i] = c.covs[ord[i]];
  return o;
}
static M3 signed_permutation(Src& s) {
  static const int perms[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
  auto& q = perms[s.below(6)];
  M3 P = M3::Zero();
  for (int i = 0; i < 3; i++) P(i, q[i]) = s.coin(50) ? -1 : 1;
  if (P.determinant() < 0) P.row(0) *= -1;
  return P;
}
/// is every coordinate clear of the voxel borders?
static bool clear_of_borders(const PointCloud& c, double leaf) {
  for (auto& p : c.points)
    for (int k = 0; k < 3; k++) {
      double f = p[k] / leaf - std::floor(p[k] / leaf);
      if (f < 1e-7 || f > 1 - 1e-7) return false;
    }
  return true;
}

PBT_PROPERTY(equivariance) {
  Room R = room(s, s.one_of<int>({160, 120, 250}));
  size_t n = R.p.size();
  if (n < 60) throw Discard();
  Problem b;
  Iso Tt = gen::pose(s, 3.1, 5 * R.scale), place = gen::pose(s, 3.1, 2 * R.scale);
  Pts t = moved(place, R.p);
  Rng r(s.seed());
  // the source: a noisy, incomplete, moved copy (the optimum is not an exact match)
  Pts q;
  double noise = s.one_of<double>({0.05, 0.2, 0.01}) * R.spacing;
  V3 ctr = V3::Zero();
  for (auto& x : t)
    if (r.below(10) < 8) {
      V4 y = x + noise * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
      q.push_back(Tt.inverse() * y);
      ctr += y.head<3>();
    }
  ctr /= q.size();
  b.tgt = PointCloud(t);
  b.src = PointCloud(q);
  estimate_normals_covariances(b.tgt, 10);
  estimate_normals_covariances(b.src, 10);
  if (s.coin(30))
    for (size_t i = 0; i < b.tgt.size(); i++) b.tgt.covs[i] = rand_cov(r, 2, 0.3);
  if (s.coin(30))
    for (size_t i = 0; i < b.src.size(); i++) b.src.covs[i] = rand_cov(r, 2, 0.3);
  double lim = s.one_of<double>({1.0, 0.3, 3.0}) * R.spacing;
  Iso D = gen::pose(s, 0.5 * lim / R.scale, 0.5 * lim);
  b.init = Eigen::Translation3d(ctr) * D * Eigen::Translation3d(-ctr) * Tt;

  Settings st;
  st.max_d = s.one_of<double>({1.0, 3.0 * R.spacing / R.scale, 8.0 * R.spacing / R.scale}) * R.scale;
  st.eps_t = s.one_of<double>({1e-3, 1e-5, 1e-2}) * R.scale;
  st.eps_r = s.one_of<double>({1e-3, 1e-5, 1e-2});
  st.kernel = s.one_of<double>({1.0, 0.1, 0.02}) * R.scale;
  st.iters = s.one_of<int>({20, 20, 3, 1, 50});
  st.threads = s.one_of<int>({4, 1, 2});
  Search se;
  se.leaf = std::pow(2.0, std::ceil(std::log2(R.spacing * s.one_of<double>({2.0, 4.0}))));
  se.offsets = s.one_of<int>({1, 7, 27});

  using LM = LevenbergMarquardtOptimizer;
  using GN = GaussNewtonOptimizer;
  static const std::vector<std::pair<std::string, Run>> runs = {
    {"ICP tree serial LM", run<ICPFactor, SerialReduction, LM, 0>},
    {"PLANE tree serial LM", run<PointToPlaneICPFactor, SerialReduction, LM, 0>},
    {"GICP tree omp LM", run<GICPFactor, ParallelReductionOMP, LM, 0>},
    {"GICP tree tbb GN", run<GICPFactor, ParallelReductionTBB, GN, 0>},
    {"Huber GICP tree serial LM", run<RobustFactor<Huber, GICPFactor>, SerialReduction, LM, 0>},
    {"Cauchy ICP tree serial GN", run<RobustFactor<Cauchy, ICPFactor>, SerialReduction, GN, 0>},
    {"GICP Gaussian voxels serial LM", run<GICPFactor, SerialReduction, LM, 1>},
    {"GICP flat voxels serial GN", run<GICPFactor, SerialReduction, GN, 2>},
    {"PLANE tree omp GN", run<PointToPlaneICPFactor, ParallelReductionOMP, GN, 0>},
  };
  int which = s.below(runs.size());
  bool plane = which == 1 || which == 8, voxels = which == 6 || which == 7;
  auto& [name, fn] = runs[which];

  RegistrationResult base = fn(b, se, st);
  // how sensitive is this problem? (an unstable one - an association or a termination test on a knife's edge - decides nothing)
  double spread = 0, espread = 0;
  bool stable = true;
  for (int i = 0; i < 3; i++) {
    Problem j = b;
    V6 d;
    for (int k = 0; k < 6; k++) d[k] = r.real(-1, 1) * 1e-9 * (k < 3 ? 1 : R.scale);
    j.init = b.init * exp_ref(d);
    auto x = fn(j, se, st);
    spread = std::max(spread, max_gap(moved(base.T_target_source, b.src.points), moved(x.T_target_source, b.src.points)));
    espread = std::max(espread, std::abs(x.error - base.error));
    stable = stable && x.num_inliers == base.num_inliers && x.iterations == base.iterations && x.converged == base.converged;
  }
  if (!stable || spread > 1e-6 * R.scale) {
    s.label("unstable problem");
    return;
  }
  s.label(name);
  // frame changes
  int kind = s.below(4);
  Problem m = b;
  Iso A = Iso::Identity(), B = Iso::Identity();
  bool only_converged = false;
  std::string what;
  if (kind == 0 || kind == 3) {
    what += " target frame";
    if (voxels) {
      A.linear() = signed_permutation(s);
      for (int k = 0; k < 3; k++) A.translation()[k] = se.leaf * (double)s.range(-40, 40);
      if (!clear_of_borders(b.tgt, se.leaf)) throw Discard();
    } else if (plane) {
      A.linear() = signed_permutation(s);
      A.translation() = V3(s.sym(1), s.sym(1), s.sym(1)) * 10 * R.scale;
    } else
      A = gen::pose(s, 3.1, s.one_of<double>({1.0, 10.0, 100.0}) * R.scale);
  }
  if (kind == 1 || kind == 3) {
    what += " source frame";
    if (s.coin(70) || base.iterations + 1 >= (size_t)st.iters || !base.converged)
      B.linear() = gen::pose(s, 3.1, 0).linear();
    else {
      // a translation of the source frame changes what the damping term penalises: only the converged pose is the same
      B = gen::pose(s, 3.1, R.scale);
      only_converged = true;
    }
  }
  if (only_converged && (std::max(st.eps_r, st.eps_t / R.scale) > 1e-4)) {
    B.translation().setZero();
    only_converged = false;
  }
  m.tgt = transformed(b.tgt, A);
  m.src = transformed(b.src, B);
  m.init = A * b.init * B.inverse();
  if (kind >= 2) {
    int which_perm = 1 + s.below(3);
    what += " order";
    if (which_perm & 1) m.tgt = permuted(m.tgt, r);
    if (which_perm & 2) m.src = permuted(m.src, r);
  }
  s.label(what);
  RegistrationResult res = fn(m, se, st);
  Iso want = A * base.T_target_source * B.inverse();
  double far = std::max({A.translation().norm(), B.translation().norm(), R.scale});
  double gap = max_gap(moved(want, m.src.points), moved(res.T_target_source, m.src.points));
  double tol = 100 * spread + 1e-9 * R.scale + 1e-11 * far;
  // Levenberg-Marquardt: once the error decrease of an update reaches rounding level, rounding decides whether it is accepted
  bool lm = name.find("LM") != std::string::npos;
  if (lm) tol += 2e-6 * R.scale;
  std::ostringstream os;
  os << name << what << " n=" << n << "/" << q.size() << " scale=" << R.scale << " spread=" << spread << " gap=" << gap << " iterations=" << base.iterations << "/" << res.iterations << " inliers=" << base.num_inliers << "/" << res.num_inliers << " error=" << base.error << "/" << res.error << (only_converged ? " (converged pose only)" : "");
  s.note(os.str());
  s.nontrivial = base.num_inliers > 20 && base.iterations > 0 && what.size() > 0;
  if (only_converged) {
    if (!res.converged || res.num_inliers != base.num_inliers) return;  // another local optimum or a termination threshold in between
    PBT_CHECK(gap <= 0.02 * R.spacing, os.str() << ": converged poses differ");
    return;
  }
  PBT_CHECK(gap <= tol, os.str() << ": the recovered pose does not follow the frame change (gap " << gap << ", tolerance " << tol << ")\nexpected\n" << want.matrix() << "\ngot\n" << res.T_target_source.matrix());
  PBT_CHECK(res.num_inliers == base.num_inliers, os.str() << ": inlier counts differ");
  if (!lm) PBT_CHECK(res.iterations == base.iterations, os.str() << ": iteration counts differ");
  if (!lm) PBT_CHECK(res.converged == base.converged, os.str() << ": converged flags differ");
  double etol = 1e-7 * std::abs(base.error) + 100 * espread + 1e-18 * far * far;
  PBT_CHECK(std::abs(res.error - base.error) <= etol, os.str() << ": errors differ by " << std::abs(res.error - base.error) << " (tolerance " << etol << ")");
}
