// C33: registration without usable correspondences keeps the initial guess; degenerate scenes give finite, rigid results.
#include <tbb/tbb.h>
#include <pcl/console/print.h>
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/common/transforms.h>
#include <small_gicp/pcl/pcl_registration.hpp>
#include "room.hpp"
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration_helper.hpp>

using LM = LevenbergMarquardtOptimizer;
using GN = GaussNewtonOptimizer;
using HuberGICP = RobustFactor<Huber, GICPFactor>;
using CauchyICP = RobustFactor<Cauchy, ICPFactor>;

static PointCloud with_attr(const Pts& p, Rng& r, int kind) {
  PointCloud c(p);
  for (size_t i = 0; i < p.size(); i++) c.normals[i] = kind == 1 && r.below(4) == 0 ? V4(V4::Zero()) : rand_normal(r), c.covs[i] = rand_cov(r, kind % 3, 0.3);
  return c;
}
static double radius(const Pts& p) {
  double m = 0;
  for (auto& x : p) m = std::max(m, x.head<3>().norm());
  return m;
}
static bool rigid(const Iso& T) {
  return T.matrix().allFinite() && (T.linear().transpose() * T.linear() - M3::Identity()).cwiseAbs().maxCoeff() < 1e-9 && T.linear().determinant() > 0 && T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1);
}
static std::string show(const RegistrationResult& r) {
  std::ostringstream os;
  os << "iterations=" << r.iterations << " inliers=" << r.num_inliers << " error=" << r.error << "\n" << r.T_target_source.matrix();
  return os.str();
}

/// nothing to pull the source anywhere
static void unmoved(const RegistrationResult& r, const Iso& init, int max_it, double lambda, const Eigen::Array<double, 6, 1>& mask, const std::string& what) {
  double tol = 1e-12 * (1 + init.translation().norm());
  PBT_CHECK(r.T_target_source.matrix().allFinite() && (r.T_target_source.matrix() - init.matrix()).cwiseAbs().maxCoeff() <= tol, what << ": no point has a correspondence, but the pose is not the initial guess: " << show(r) << "\ninitial guess\n" << init.matrix());
  PBT_CHECK(r.num_inliers == 0, what << ": no point has a correspondence, but " << r.num_inliers << " inliers are reported");
  PBT_CHECK(max_it > 0 ? (int)r.iterations < max_it : r.iterations == 0, what << ": iteration " << r.iterations << " of at most " << max_it);
  if (max_it == 0) return;
  PBT_CHECK(r.error == 0, what << ": no point has a correspondence, but the error is " << r.error);
  M6 H = (lambda * (1 - mask)).matrix().asDiagonal();
  PBT_CHECK((r.H - H).cwiseAbs().maxCoeff() <= 1e-12 * lambda && r.b.cwiseAbs().maxCoeff() == 0, what << ": no point has a correspondence, but H is\n" << r.H << "\nand b " << r.b.transpose());
}

struct NoCorr {
  PointCloud src;
  Iso init;
  double max_d;
  int max_it;
  std::string what;
};

template <typename F, typename Red, typename Gen, typename Opt, typename Tgt, typename Tree>
static void none(Src& s, const NoCorr& c, const Tgt& tgt, const Tree& tree) {
  Registration<F, Red, Gen, DistanceRejector, Opt> reg;
  if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = s.one_of<int>({4, 1, 2, 8});
  reg.rejector.max_dist_sq = c.max_d * c.max_d;
  reg.optimizer.max_iterations = c.max_it;
  Eigen::Array<double, 6, 1> mask = Eigen::Array<double, 6, 1>::Ones();
  double lambda = 0;
  if constexpr (std::is_same_v<Gen, RestrictDoFFactor>) {
    for (int i = 0; i < 6; i++) mask[i] = s.below(2);
    reg.general_factor.set_rotation_mask(mask.head<3>());
    reg.general_factor.set_translation_mask(mask.tail<3>());
    lambda = reg.general_factor.lambda;
  }
  int rounds = s.coin(30) ? 2 : 1;
  for (int i = 0; i < rounds; i++) unmoved(reg.align(tgt, c.src, tree, c.init), c.init, c.max_it, lambda, mask, c.what);
}
template <typename F, typename Red, typename Tgt, typename Tree>
static void none_opt(Src& s, const NoCorr& c, const Tgt& tgt, const Tree& tree) {
  switch (s.pick({3, 2, 1})) {
    case 0: return none<F, Red, NullFactor, LM>(s, c, tgt, tree);
    case 1: return none<F, Red, NullFactor, GN>(s, c, tgt, tree);
    default: return none<F, Red, RestrictDoFFactor, LM>(s, c, tgt, tree);
  }
}
template <typename F, typename Tgt, typename Tree>
static void none_red(Src& s, const NoCorr& c, const Tgt& tgt, const Tree& tree) {
  switch (s.pick({2, 2, 1})) {
    case 0: return none_opt<F, SerialReduction>(s, c, tgt, tree);
    case 1: return none_opt<F, ParallelReductionOMP>(s, c, tgt, tree);
    default: return none_opt<F, ParallelReductionTBB>(s, c, tgt, tree);
  }
}

PBT_PROPERTY(no_correspondences) {
  static bool quiet = (pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS), true);
  (void)quiet;
  gen::CloudInfo ci, cj;
  gen::Opt o;
  o.max_n = s.one_of<int>({60, 12, 300});
  o.far = false;
  o.floats = true;
  Pts tp = gen::points(s, o, &ci), sp = gen::points(s, o, &cj);
  Rng r(s.seed());
  int cause = s.pick({3, 1, 1});  // far apart, empty target, empty source
  if (cause == 1) tp.clear();
  if (cause == 2) sp.clear();
  NoCorr c;
  c.max_d = s.one_of<double>({1.0, 0.1, 30.0, 0.0});
  c.max_it = s.one_of<int>({20, 1, 3, 50, 0});
  c.init = gen::pose(s, 3.1, 10);
  double reach = radius(tp) + radius(sp) + c.max_d;
  double away = s.one_of<double>({1.5, 1.1, 10, 300}) * (reach + 1e-3);
  V3 dir(r.gauss(), r.gauss(), r.gauss());
  if (cause == 0 || s.coin(30)) c.init.translation() = dir.normalized() * away;
  c.src = with_attr(sp, r, s.below(3));
  auto tgt = std::make_shared<PointCloud>(with_attr(tp, r, s.below(3)));
  int api = s.pick({4, 2, 2, 1, 1});
  static const char* causes[] = {"far apart", "empty target", "empty source"};
  static const char* apis[] = {"KdTree", "voxel map", "align helper", "align helper from points", "PCL"};
  std::ostringstream os;
  os << apis[api] << ", " << causes[cause] << " |target|=" << tp.size() << " |source|=" << sp.size() << " max_d=" << c.max_d << " max_it=" << c.max_it << " away=" << away;
  c.what = os.str();
  s.label(apis[api]);
  s.label(causes[cause]);
  s.note(c.what);
  s.nontrivial = c.max_it > 0 && (cause != 0 || (!tp.empty() && !sp.empty()));
  const Eigen::Array<double, 6, 1> all = Eigen::Array<double, 6, 1>::Ones();
  RegistrationSetting st;
  st.type = s.one_of<RegistrationSetting::RegistrationType>({RegistrationSetting::GICP, RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::VGICP});
  st.max_correspondence_distance = c.max_d;
  st.max_iterations = c.max_it;
  st.num_threads = s.one_of<int>({1, 4, 2});
  st.voxel_resolution = s.one_of<double>({1.0, 0.2}) * ci.scale;
  st.downsampling_resolution = s.one_of<double>({0.1, 0.5}) * ci.scale;
  if (api == 0) {
    KdTree<PointCloud> tree(tgt);
    switch (s.pick({2, 1, 1, 1, 1})) {
      case 0: return none_red<GICPFactor>(s, c, *tgt, tree);
      case 1: return none_red<ICPFactor>(s, c, *tgt, tree);
      case 2: return none_red<PointToPlaneICPFactor>(s, c, *tgt, tree);
      case 3: return none_red<HuberGICP>(s, c, *tgt, tree);
      default: return none_red<CauchyICP>(s, c, *tgt, tree);
    }
  } else if (api == 1) {
    int offs = s.one_of<int>({1, 7, 27});
    if (s.coin(60)) {
      GaussianVoxelMap map(st.voxel_resolution);
      map.set_search_offsets(offs);
      if (s.coin(50) || !tp.empty()) map.insert(*tgt);
      return none_red<GICPFactor>(s, c, map, map);
    }
    IncrementalVoxelMap<FlatContainerNormalCov> map(st.voxel_resolution);
    map.set_search_offsets(offs);
    if (s.coin(50) || !tp.empty()) map.insert(*tgt);
    return none_red<PointToPlaneICPFactor>(s, c, map, map);
  } else if (api == 2) {
    if (st.type == RegistrationSetting::VGICP) {
      auto map = create_gaussian_voxelmap(*tgt, st.voxel_resolution);
      unmoved(align(*map, c.src, c.init, st), c.init, c.max_it, 0, all, c.what);
    } else {
      KdTree<PointCloud> tree(tgt);
      unmoved(align(*tgt, c.src, tree, c.init, st), c.init, c.max_it, 0, all, c.what);
    }
  } else if (api == 3) {
    if (cause == 0 && away < 1.2 * reach) c.init.translation() *= 1.2;
    unmoved(align(tp, sp, c.init, st), c.init, c.max_it, 0, all, c.what);
  } else {
    if (tp.empty() || sp.empty() || cause != 0) return s.trivial_unless(false);  // PCL does not accept empty clouds
    using Cloud = pcl::PointCloud<pcl::PointXYZ>;
    auto to = [](const Pts& p) {
      Cloud::Ptr q(new Cloud);
      for (auto& x : p) q->push_back(pcl::PointXYZ(x[0], x[1], x[2]));
      return q;
    };
    RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> reg;
    reg.setRegistrationType(s.coin(50) ? "GICP" : "VGICP");
    reg.setVoxelResolution(st.voxel_resolution);
    reg.setNumThreads(st.num_threads);
    reg.setMaxCorrespondenceDistance(c.max_d);
    if (c.max_it == 0) c.max_it = 4;
    reg.setMaximumIterations(c.max_it);
    Cloud::Ptr sc = to(sp);
    reg.setInputTarget(to(tp));
    reg.setInputSource(sc);
    Cloud out;
    Eigen::Matrix4f guess = c.init.matrix().cast<float>();
    reg.align(out, guess);
    Iso g(guess.cast<double>());
    unmoved(reg.getRegistrationResult(), g, c.max_it, 0, all, c.what);
    PBT_CHECK((reg.getFinalTransformation() - guess).cwiseAbs().maxCoeff() <= 1e-6 * (1 + away), c.what << ": final transformation\n" << reg.getFinalTransformation() << "\ninitial guess\n" << guess);
    PBT_CHECK(out.size() == sc->size(), c.what << ": aligned cloud of " << out.size() << " points");
    for (size_t i = 0; i < out.size(); i++) {
      V4 want = guess.cast<double>() * V4(sc->at(i).x, sc->at(i).y, sc->at(i).z, 1.0);
      PBT_CHECK((V3(out[i].x, out[i].y, out[i].z) - want.head<3>()).norm() <= 1e-5 * (1 + away + reach), c.what << ": aligned point " << i);
    }
  }
}

// ------------------------------------------------------------------------------------------------ degenerate scenes

template <typename F, typename Red, typename Opt, typename Tgt, typename Tree>
static void solve(Src& s, const Tgt& tgt, const PointCloud& src, const Tree& tree, const Iso& init, bool still, double mag, const std::string& what) {
  Registration<F, Red, NullFactor, DistanceRejector, Opt> reg;
  if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = s.one_of<int>({4, 1, 2});
  reg.rejector.max_dist_sq = s.one_of<double>({1e6, 1.0, 100.0}) * mag * mag;
  reg.optimizer.max_iterations = s.one_of<int>({20, 1, 5, 60});
  auto r = reg.align(tgt, src, tree, init);
  PBT_CHECK(rigid(r.T_target_source), what << ": the result is not a finite rigid transform: " << show(r));
  PBT_CHECK(std::isfinite(r.error) && r.error >= 0 && r.H.allFinite() && r.b.allFinite(), what << ": error, H or b not finite: " << show(r));
  PBT_CHECK(r.num_inliers <= src.size(), what << ": " << r.num_inliers << " inliers of " << src.size());
  // what one correspondence search at the initial guess costs bounds Levenberg-Marquardt's result (re-pairing to nearer points lowers ICP's cost only)
  if (still) {
    double gap = max_gap(moved(init, src.points), moved(r.T_target_source, src.points));
    PBT_CHECK(gap <= 1e-9 * (1 + mag), what << ": the clouds coincide, but the result moves a point by " << gap << ": " << show(r));
    PBT_CHECK(r.num_inliers == src.size(), what << ": the clouds coincide, but only " << r.num_inliers << " of " << src.size() << " points are inliers");
  }
}

PBT_PROPERTY(degenerate_scenes) {
  Rng r(s.seed());
  double mag = s.one_of<double>({1.0, 10.0, 0.1, 100.0});
  static const char* shapes[] = {"one point", "two points", "coincident points", "line", "plane", "lattice plane", "cross of lines", "few points"};
  int shape = s.below(8);
  int n = shape == 0 ? 1 : shape == 1 ? 2 : shape == 7 ? s.range(3, 6) : s.size(3, 40);
  V3 a = V3(r.gauss(), r.gauss(), r.gauss()).normalized(), b = a.unitOrthogonal();
  if (s.coin(40)) a = V3::UnitX(), b = V3::UnitY();
  V3 c0 = V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)) * (s.coin(50) ? mag : 0.0);
  auto make = [&](int n) {
    Pts p;
    for (int i = 0; i < n; i++) {
      double u = r.real(-1, 1), v = r.real(-1, 1);
      V3 x = c0;
      if (shape == 1 || shape == 3) x += u * mag * a;
      if (shape == 4) x += mag * (u * a + v * b);
      if (shape == 5) x += mag * 0.25 * (std::floor(4 * u) * a + std::floor(4 * v) * b);
      if (shape == 6) x += mag * (r.below(2) ? V3(u * a) : V3(v * b));
      if (shape == 7) x += mag * V3(u, v, r.real(-1, 1));
      p.emplace_back(x[0], x[1], x[2], 1.0);
    }
    return p;
  };
  Pts tp = make(n);
  bool still = s.coin(35), same_points = still || s.coin(50);
  Pts sp = same_points ? tp : make(std::max(1, n - (int)r.below(3)));
  Iso init = Iso::Identity();
  if (!still) {
    init = gen::pose(s, s.one_of<double>({0.3, 3.1, 0.01}), s.one_of<double>({0.2, 2.0, 0.0}) * mag);
  } else if (s.coin(50)) {
    // the source lives in another frame; the guess is its true place
    init = gen::pose(s, 3.1, mag);
    sp = moved(init.inverse(), sp);
  }
  auto tgt = std::make_shared<PointCloud>(with_attr(tp, r, s.below(3)));
  PointCloud src = with_attr(sp, r, s.below(3));
  bool estimated = s.coin(50);
  if (estimated) {
    int k = s.one_of<int>({10, 5, 20});
    estimate_normals_covariances(*tgt, k);
    estimate_normals_covariances(src, k);
    for (auto* c : {tgt.get(), &src})
      for (size_t i = 0; i < c->size(); i++) PBT_CHECK(c->normals[i].allFinite() && c->covs[i].allFinite(), shapes[shape] << ": estimated attributes of point " << i << " are not finite");
  }
  std::ostringstream os;
  os << shapes[shape] << " |target|=" << tp.size() << " |source|=" << sp.size() << " mag=" << mag << (estimated ? " estimated" : " random") << " attributes" << (still ? ", clouds coincide" : "");
  std::string what = os.str();
  s.label(shapes[shape]);
  if (still) s.label("coincide");
  s.note(what);
  s.nontrivial = true;
  KdTree<PointCloud> tree(tgt);
  auto& T = *tgt;
  using OMP = ParallelReductionOMP;
  using TBB = ParallelReductionTBB;
  switch (s.below(8)) {
    case 0: return solve<GICPFactor, SerialReduction, LM>(s, T, src, tree, init, still, mag, "GICP LM " + what);
    case 1: return solve<GICPFactor, OMP, GN>(s, T, src, tree, init, still, mag, "GICP GN " + what);
    case 2: return solve<ICPFactor, SerialReduction, GN>(s, T, src, tree, init, still, mag, "ICP GN " + what);
    case 3: return solve<ICPFactor, TBB, LM>(s, T, src, tree, init, still, mag, "ICP LM " + what);
    case 4: return solve<PointToPlaneICPFactor, SerialReduction, LM>(s, T, src, tree, init, still, mag, "PLANE LM " + what);
    case 5: return solve<PointToPlaneICPFactor, OMP, GN>(s, T, src, tree, init, still, mag, "PLANE GN " + what);
    case 6: return solve<HuberGICP, SerialReduction, LM>(s, T, src, tree, init, still, mag, "Huber GICP LM " + what);
    default: {
      GaussianVoxelMap map(mag * s.one_of<double>({0.5, 0.1, 3.0}));
      map.set_search_offsets(s.one_of<int>({1, 7, 27}));
      map.insert(T);
      return solve<GICPFactor, SerialReduction, LM>(s, map, src, map, init, false, mag, "VGICP LM " + what);
    }
  }
}
