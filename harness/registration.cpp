// C17: registration recovers the true transform of overlapping clouds.
#include <tbb/tbb.h>
#include "room.hpp"
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/reduction.hpp>

/// Independent Gauss-Newton registration with exhaustive correspondences; tells whether `init` lies in the basin of the true pose.
static bool reference_recovers(const PointCloud& t, const PointCloud& src, const Iso& Tt, const Iso& init, bool gicp, double max_d, double tol) {
  Iso T = init;
  for (int it = 0; it < 25; it++) {
    M6 H = M6::Identity() * 1e-9;
    V6 b = V6::Zero();
    for (size_t i = 0; i < src.size(); i++) {
      V3 p = src.points[i].head<3>(), x = T * p;
      size_t best = 0;
      double bd = 1e300;
      for (size_t j = 0; j < t.size(); j++) {
        double d = (t.points[j].head<3>() - x).squaredNorm();
        if (d < bd) bd = d, best = j;
      }
      if (bd > max_d * max_d) continue;
      M3 W = M3::Identity();
      if (gicp) W = (t.covs[best].block<3, 3>(0, 0) + T.linear() * src.covs[i].block<3, 3>(0, 0) * T.linear().transpose()).inverse();
      V3 r = t.points[best].head<3>() - x;
      Eigen::Matrix<double, 3, 6> J;
      J.block<3, 3>(0, 0) = T.linear() * skew_ref(p);
      J.block<3, 3>(0, 3) = -T.linear();
      H += J.transpose() * W * J;
      b += J.transpose() * W * r;
    }
    V6 d = H.ldlt().solve(-b);
    T = T * exp_ref(d);
    if (d.norm() < 1e-9) break;
  }
  return max_gap(moved(Tt, src.points), moved(T, src.points)) <= tol;
}

/// The same question for Gaussian voxels (independent voxel means and mean covariances, `offs` neighbourhood).
static bool reference_voxel_recovers(const PointCloud& t, const PointCloud& src, const Iso& Tt, const Iso& init, double leaf, int offs, double max_d, double tol) {
  struct Cell {
    V3 m = V3::Zero();
    M3 c = M3::Zero();
    int n = 0;
  };
  std::map<std::array<long, 3>, Cell> cells;
  auto key = [&](const V3& x) { return std::array<long, 3>{(long)std::floor(x[0] / leaf), (long)std::floor(x[1] / leaf), (long)std::floor(x[2] / leaf)}; };
  for (size_t j = 0; j < t.size(); j++) {
    Cell& c = cells[key(t.points[j].head<3>())];
    c.m += t.points[j].head<3>(), c.c += t.covs[j].block<3, 3>(0, 0), c.n++;
  }
  for (auto& [k, c] : cells) c.m /= c.n, c.c /= c.n;
  static const long d7[7][3] = {{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  Iso T = init;
  for (int it = 0; it < 40; it++) {
    M6 H = M6::Identity() * 1e-9;
    V6 b = V6::Zero();
    for (size_t i = 0; i < src.size(); i++) {
      V3 p = src.points[i].head<3>(), x = T * p;
      auto k = key(x);
      const Cell* best = nullptr;
      double bd = max_d * max_d;
      for (int o = 0; o < offs; o++) {
        auto f = cells.find({k[0] + d7[o][0], k[1] + d7[o][1], k[2] + d7[o][2]});
        if (f == cells.end()) continue;
        double d = (f->second.m - x).squaredNorm();
        if (d < bd) bd = d, best = &f->second;
      }
      if (!best) continue;
      M3 W = (best->c + T.linear() * src.covs[i].block<3, 3>(0, 0) * T.linear().transpose()).inverse();
      V3 r = best->m - x;
      Eigen::Matrix<double, 3, 6> J;
      J.block<3, 3>(0, 0) = T.linear() * skew_ref(p);
      J.block<3, 3>(0, 3) = -T.linear();
      H += J.transpose() * W * J;
      b += J.transpose() * W * r;
    }
    V6 d = H.ldlt().solve(-b);
    T = T * exp_ref(d);
    if (max_gap(moved(Tt, src.points), moved(T, src.points)) > 2 * tol) return false;
  }
  return max_gap(moved(Tt, src.points), moved(T, src.points)) <= tol;
}

struct Case {
  Room R;
  Iso Tt, init;
  std::shared_ptr<PointCloud> tgt;
  PointCloud src;
  double tol;  // allowed displacement of any point
  bool at_solution, voxel = false;
  std::string name;
};

template <typename F, typename Red, typename Opt, typename Tgt, typename Tree>
static void go(Src& s, Case& c, const Tgt& tgt, const Tree& tree, const typename F::Setting& fs = typename F::Setting()) {
  Registration<F, Red, NullFactor, DistanceRejector, Opt> reg;
  reg.point_factor = fs;
  if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = s.one_of<int>({4, 1, 2, 8});
  reg.rejector.max_dist_sq = std::pow(s.one_of<double>({1.0, 0.5, 5.0}) * c.R.scale, 2);
  reg.optimizer.max_iterations = s.one_of<int>({20, 50});
  reg.criteria.translation_eps = 1e-3 * c.R.scale;
  reg.criteria.rotation_eps = 1e-3;
  auto r = reg.align(tgt, c.src, tree, c.init);
  // what the result does to the source points
  Pts ref = moved(c.Tt, c.src.points), got = moved(r.T_target_source, c.src.points);
  double gap = max_gap(ref, got), gap0 = max_gap(ref, moved(c.init, c.src.points));
  std::ostringstream os;
  os << c.name << " n=" << c.R.p.size() << " scale=" << c.R.scale << " spacing=" << c.R.spacing << " initial gap=" << gap0 << " final gap=" << gap << " iterations=" << r.iterations << " inliers=" << r.num_inliers;
  s.note(os.str());
  if (getenv("PBT_STAT")) fprintf(stderr, "%s conv=%d tol=%g\n", os.str().c_str(), (int)r.converged, c.tol);
  // Levenberg-Marquardt cannot report a converged step where rounding already decides whether the error decreases;
  // voxel means may alternate between voxel assignments
  bool lm = std::is_same_v<Opt, LevenbergMarquardtOptimizer>;
  if (!c.voxel && !(lm && gap <= 1e-9 * c.R.scale)) PBT_CHECK(r.converged, os.str() << ": not converged");
  PBT_CHECK(gap <= c.tol, os.str() << ": the recovered transform moves a source point " << gap << " away from its true place (tolerance " << c.tol << "):\n" << r.T_target_source.matrix() << "\ntrue\n" << c.Tt.matrix());
  size_t least = c.voxel ? c.src.size() * 7 / 10 : c.src.size();
  PBT_CHECK(r.num_inliers >= least && r.num_inliers <= c.src.size(), os.str() << ": " << r.num_inliers << " inliers of " << c.src.size());
}

PBT_PROPERTY(registration_recovers) {
  Case c;
  int which = s.below(13);
  c.R = room(s, which >= 11 ? 700 : s.one_of<int>({200, 150, 300}));
  size_t n = c.R.p.size();
  if (n < (which >= 11 ? 300 : 80)) throw Discard();
  // the target lives anywhere, the source is a moved, shuffled copy (or a subset of it)
  c.Tt = gen::pose(s, 3.1, 5 * c.R.scale);
  Iso place = gen::pose(s, 3.1, 2 * c.R.scale);
  Pts t = moved(place, c.R.p);
  std::vector<size_t> ord(n);
  std::iota(ord.begin(), ord.end(), 0);
  Rng r(s.seed());
  for (size_t i = n; i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  size_t keep = s.coin(30) ? n * 7 / 10 : n;
  ord.resize(keep);
  Pts q;
  for (size_t i : ord) q.push_back(t[i]);
  // perturb about the cloud's own centre so that no point starts farther than `lim` from its partner
  V3 ctr = V3::Zero();
  for (auto& x : q) ctr += x.head<3>() / q.size();
  double rad = 0;
  for (auto& x : q) rad = std::max(rad, (x.head<3>() - ctr).norm());
  c.at_solution = s.coin(10);
  bool wide = !c.at_solution && s.coin(40);  // beyond immediate correspondence; judged only inside the basin of attraction
  double lim = c.at_solution ? 0 : wide ? s.real(0.5, 6) * c.R.spacing : s.one_of<double>({0.44, 0.2, 0.4, 0.05}) * c.R.spacing;
  Iso D = gen::pose(s, 0.7 * lim / rad, 1.0);
  V3 dt(s.sym(1), s.sym(1), s.sym(1));
  D.translation() = dt * (0.3 * lim / std::sqrt(3.0));
  Iso P = Eigen::Translation3d(ctr) * D * Eigen::Translation3d(-ctr);
  c.init = P * c.Tt;
  Pts sp = moved(c.Tt.inverse(), q);
  double noise = s.coin(50) ? 2e-3 * c.R.spacing : 0;
  if (noise > 0)
    for (auto& x : sp) x.head<3>() += noise * V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
  c.tgt = std::make_shared<PointCloud>(t);
  c.src = PointCloud(sp);
  estimate_normals_covariances(*c.tgt, 10);
  estimate_normals_covariances(c.src, 10);
  c.tol = 2e-3 * c.R.scale;
  s.label(c.at_solution ? "at the solution" : wide ? "wide" : "near");
  s.nontrivial = !c.at_solution;
  if (wide && which < 11) {
    which = s.one_of<int>({0, 1, 4, 5, 6, 10});
    bool gicp = which > 1;
    Iso P2 = Eigen::Translation3d(ctr) * Iso(D * D) * Eigen::Translation3d(-ctr);
    for (auto& i0 : {c.init, Iso(P2 * c.Tt)})
      if (!reference_recovers(*c.tgt, c.src, c.Tt, i0, gicp, 0.5 * c.R.scale, 2e-4 * c.R.scale)) {
        s.label("outside the basin");
        return;
      }
  }
  static const char* names[] = {"ICP serial LM", "ICP omp GN", "PLANE tbb LM", "PLANE serial GN", "GICP serial LM", "GICP omp LM", "GICP tbb GN", "Huber GICP serial LM", "Cauchy ICP omp LM", "Huber PLANE serial LM", "GICP flat voxel map serial LM", "VGICP omp LM", "VGICP serial GN"};
  c.name = names[which];
  s.label(c.name);
  using LM = LevenbergMarquardtOptimizer;
  using GN = GaussNewtonOptimizer;
  using OMP = ParallelReductionOMP;
  using TBB = ParallelReductionTBB;
  using SER = SerialReduction;
  if (which <= 9) {
    KdTree<PointCloud> tree(c.tgt);
    auto& T = *c.tgt;
    if (which == 0) go<ICPFactor, SER, LM>(s, c, T, tree);
    if (which == 1) go<ICPFactor, OMP, GN>(s, c, T, tree);
    if (which == 2) go<PointToPlaneICPFactor, TBB, LM>(s, c, T, tree);
    if (which == 3) go<PointToPlaneICPFactor, SER, GN>(s, c, T, tree);
    if (which == 4) go<GICPFactor, SER, LM>(s, c, T, tree);
    if (which == 5) go<GICPFactor, OMP, LM>(s, c, T, tree);
    if (which == 6) go<GICPFactor, TBB, GN>(s, c, T, tree);
    if (which == 7) {
      RobustFactor<Huber, GICPFactor>::Setting st;
      st.robust_kernel.c = 0.3 * c.R.scale;
      go<RobustFactor<Huber, GICPFactor>, SER, LM>(s, c, T, tree, st);
    }
    if (which == 8) {
      RobustFactor<Cauchy, ICPFactor>::Setting st;
      st.robust_kernel.c = 0.5 * c.R.scale;
      go<RobustFactor<Cauchy, ICPFactor>, OMP, LM>(s, c, T, tree, st);
    }
    if (which == 9) {
      RobustFactor<Huber, PointToPlaneICPFactor>::Setting st;
      st.robust_kernel.c = 0.3 * c.R.scale;
      go<RobustFactor<Huber, PointToPlaneICPFactor>, SER, LM>(s, c, T, tree, st);
    }
  } else if (which == 10) {
    IncrementalVoxelMap<FlatContainerNormalCov> map(c.R.spacing * (wide ? 8.0 : s.one_of<double>({2.0, 4.0})));
    map.set_search_offsets(27);
    map.voxel_setting.min_sq_dist_in_cell = 0;
    map.voxel_setting.max_num_points_in_cell = 1000;
    map.insert(*c.tgt);
    go<GICPFactor, SER, LM>(s, c, map, map);
  } else {
    // voxel means instead of points: the optimum is only near the true pose
    double leaf = c.R.spacing * s.one_of<double>({4.0, 6.0});
    GaussianVoxelMap map(leaf);
    int offs = s.one_of<int>({1, 7});
    map.set_search_offsets(offs);
    map.insert(*c.tgt);
    c.tol = 0.5 * leaf;
    c.voxel = true;
    Iso P2 = Eigen::Translation3d(ctr) * Iso(D * D) * Eigen::Translation3d(-ctr);
    for (auto& i0 : {c.init, Iso(P2 * c.Tt), c.Tt})
      if (!reference_voxel_recovers(*c.tgt, c.src, c.Tt, i0, leaf, offs, 0.5 * c.R.scale, 0.2 * leaf)) {
        s.label("outside the basin");
        return;
      }
    if (which == 11)
      go<GICPFactor, OMP, LM>(s, c, map, map);
    else
      go<GICPFactor, SER, GN>(s, c, map, map);
  }
}
