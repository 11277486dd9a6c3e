// C19: degree-of-freedom restriction keeps masked degrees of freedom at the initial guess.
#include "factors.hpp"
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration.hpp>
using A6 = Eigen::Array<double, 6, 1>;

struct PoseTrace {
  std::shared_ptr<std::vector<Iso>> poses = std::make_shared<std::vector<Iso>>();
  std::shared_ptr<std::vector<V6>> b = std::make_shared<std::vector<V6>>();
  std::shared_ptr<std::vector<M6>> H = std::make_shared<std::vector<M6>>();
  template <typename A, typename B, typename C, typename D, typename F>
  std::tuple<M6, V6, double> linearize(const A& tgt, const B& src, const C& tree, const D& rej, const Iso& T, std::vector<F>& f) const {
    auto r = SerialReduction().linearize(tgt, src, tree, rej, T, f);
    poses->push_back(T);
    H->push_back(std::get<0>(r));
    b->push_back(std::get<1>(r));
    return r;
  }
  template <typename A, typename B, typename F>
  double error(const A& tgt, const B& src, const Iso& T, std::vector<F>& f) const {
    return SerialReduction().error(tgt, src, T, f);
  }
};

static void algebra(Src& s) {
  RestrictDoFFactor f;
  PBT_CHECK((f.mask == A6::Ones()).all(), "the default mask is not all-free: " << f.mask.transpose());
  A6 mask = A6::Ones();
  double lambda = f.lambda;
  for (int k = s.below(6); k > 0; k--) {
    int what = s.pick({2, 2, 1});
    Eigen::Array3d r(s.one_of<double>({1, 0, 0.5}), s.one_of<double>({1, 0, 0.25}), s.one_of<double>({1, 0}));
    if (s.coin(15)) r = s.coin(50) ? 0.0 : 1.0;
    if (what == 0) f.set_rotation_mask(r), mask.head<3>() = r;
    if (what == 1) f.set_translation_mask(r), mask.tail<3>() = r;
    if (what == 2) f.lambda = lambda = s.logreal(1e-3, 1e12);
    PBT_CHECK((f.mask == mask).all(), "mask is " << f.mask.transpose() << ", set to " << mask.transpose());
    PBT_CHECK(f.lambda == lambda, "lambda is " << f.lambda << ", set to " << lambda << " (mask " << mask.transpose() << ")");
  }
  M6 H0;
  V6 b0;
  for (int i = 0; i < 36; i++) H0(i / 6, i % 6) = (double)s.range(-8, 8);
  for (int i = 0; i < 6; i++) b0[i] = (double)s.range(-8, 8);
  M6 H = H0;
  V6 b = b0;
  double e = 3.5;
  PointCloud pc;
  Iso T = gen::pose(s, 3, 10);
  f.update_linearized_system(pc, pc, pc, T, &H, &b, &e);
  PBT_CHECK(b == b0 && e == 3.5, "the restriction changed b or the error");
  for (int i = 0; i < 6; i++)
    for (int j = 0; j < 6; j++) {
      double want = H0(i, j) + (i == j ? lambda * std::abs(mask[i] - 1) : 0);
      PBT_CHECK(std::abs(H(i, j) - want) <= 1e-12 * std::abs(want), "H(" << i << "," << j << ") = " << H(i, j) << ", expected " << want << " (mask " << mask.transpose() << ", lambda " << f.lambda << ")");
    }
  f.update_error(pc, pc, T, &e);
  PBT_CHECK(e == 3.5, "update_error changed the error");
  NullFactor nf;
  H = H0;
  nf.update_linearized_system(pc, pc, pc, T, &H, &b, &e);
  nf.update_error(pc, pc, T, &e);
  PBT_CHECK(H == H0 && b == b0 && e == 3.5, "the null factor changed the system");
}

template <typename F, typename Opt>
static void align(Src& s) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = 200;
  o.min_n = 20;
  o.far = false;
  o.allow_empty = false;
  Pts p = gen::points(s, o, &ci);
  Rng r(s.seed());
  Iso Tt = gen::pose(s, 0.3, 0.2 * ci.scale);
  Pts q;
  for (auto& x : p) q.push_back(Tt.inverse() * x);
  auto tgt = std::make_shared<PointCloud>(p);
  PointCloud src(q);
  for (size_t i = 0; i < p.size(); i++) tgt->normal(i) = rand_normal(r), tgt->cov(i) = rand_cov(r, 0, 1), src.cov(i) = rand_cov(r, 0, 1);
  KdTree<PointCloud> tree(tgt);
  Iso init = s.coin(60) ? gen::pose(s, s.one_of<double>({0.3, 3.0}), 0.3 * ci.scale) : Iso::Identity();
  A6 mask;
  int mk = s.pick({2, 2, 3, 1, 1});
  if (mk == 0) mask << 0, 0, 0, 1, 1, 1;
  if (mk == 1) mask << 1, 1, 1, 0, 0, 0;
  if (mk == 2)
    for (int i = 0; i < 6; i++) mask[i] = s.below(2);
  if (mk == 3) mask.setOnes();
  if (mk == 4) mask.setZero();
  Registration<F, PoseTrace, RestrictDoFFactor, DistanceRejector, Opt> reg;
  double lambda = s.one_of<double>({1e12, 1e9, 1e13});
  bool first = s.coin(50);
  if (first) reg.general_factor.lambda = lambda;
  reg.general_factor.set_rotation_mask(mask.head<3>());
  reg.general_factor.set_translation_mask(mask.tail<3>());
  if (!first) reg.general_factor.lambda = lambda;
  reg.rejector.max_dist_sq = 4 * ci.scale * ci.scale;
  reg.optimizer.max_iterations = s.one_of<int>({20, 5, 1});
  auto res = reg.align(*tgt, src, tree, init);
  std::string w = "mask " + [&] { std::ostringstream os; os << mask.transpose(); return os.str(); }() + " lambda " + std::to_string(lambda) + " |points|=" + std::to_string(p.size()) + " shape=" + ci.shape;
  s.note(w);
  std::vector<Iso> poses = *reg.reduction.poses;
  poses.push_back(res.T_target_source);
  double drift = 0;
  for (size_t k = 0; k + 1 < poses.size(); k++) {
    // masked components of every update are held by lambda: |d_i| <= (|b| + |H d|) / lambda
    Iso D = poses[k].inverse() * poses[k + 1];
    double hn = reg.reduction.H->at(k).norm(), bn = reg.reduction.b->at(k).norm();
    Eigen::AngleAxisd aa(D.linear());
    // how far the free components can possibly move: |b_free| / smallest eigenvalue of the free block
    std::vector<int> fr;
    for (int i = 0; i < 6; i++)
      if (mask[i] != 0) fr.push_back(i);
    M6 HF = M6::Identity() * (1 + 10 * hn);
    double bf = 0;
    for (int i : fr) {
      bf += std::pow((*reg.reduction.b)[k][i], 2);
      for (int j : fr) HF(i, j) = (*reg.reduction.H)[k](i, j);
    }
    double reach = std::sqrt(bf) / std::max(1e-300, Eigen::SelfAdjointEigenSolver<M6>(HF, Eigen::EigenvaluesOnly).eigenvalues()[0] - 1e-13 * hn);
    std::string bad;
    bool fits = false, weak = false;
    double step_bound = 0, moved = 0;
    for (int turn = 0; turn <= 8 && !fits && !weak; turn++)  // the update may turn by more than half a revolution
      for (int sign = 1; sign >= -1 && !fits; sign -= 2) {
        if (turn == 0 && sign < 0) continue;
        double th = aa.angle() + sign * turn * 2 * M_PI;
        V3 om = th * aa.axis();
        M3 O = skew_ref(aa.axis());
        M3 V = std::abs(th) < 1e-5 ? M3(M3::Identity() + 0.5 * th * O) : M3(M3::Identity() + (1 - std::cos(th)) / th * O + (th - std::sin(th)) / th * O * O);
        V3 v = V.inverse() * D.translation();
        double bound = 1e-9 + 10 * (bn + hn * (om.norm() + v.norm())) / lambda;
        if (turn == 0) step_bound = bound, moved = om.norm() + v.norm();
        if (!(bound < 1e-3)) {
          weak = weak || turn == 0;
          continue;
        }
        bool ok = true;
        for (int i = 0; i < 6; i++) {
          double x = i < 3 ? om[i] : v[i - 3];
          if (mask[i] == 0 && !(std::abs(x) <= bound)) {
            ok = false;
            if (bad.empty()) bad = std::string(i < 3 ? "rotation" : "translation") + " component " + std::to_string(i % 3) + " by " + std::to_string(x);
          }
        }
        if (ok) fits = true, step_bound = bound;
      }
    if (weak || reach > 40) {
      s.label("weak restriction");
      drift = 1e300;
      continue;
    }
    PBT_CHECK(fits, w << ": update " << k << " moves the masked " << bad);
    drift += step_bound;
    s.trivial_unless((mask == 0).any() && moved > 1e-4);
  }
  if (drift < 1e-2 && (mask.head<3>() == 0).all())
    PBT_CHECK((res.T_target_source.linear() - init.linear()).norm() <= 10 * drift + 1e-9, w << ": the rotation was masked but changed from\n" << init.linear() << "\nto\n" << res.T_target_source.linear());
  if (drift < 1e-2 && (mask == 0).all()) PBT_CHECK((res.T_target_source.matrix() - init.matrix()).norm() <= 10 * drift * (1 + ci.scale) + 1e-9, w << ": everything was masked but the pose changed");
  if ((mask == 1).all()) {
    Registration<F, SerialReduction, NullFactor, DistanceRejector, Opt> free;
    free.rejector = reg.rejector;
    free.optimizer.max_iterations = reg.optimizer.max_iterations;
    auto f = free.align(*tgt, src, tree, init);
    PBT_CHECK((f.T_target_source.matrix() - res.T_target_source.matrix()).norm() <= 1e-12 * (1 + ci.scale) && f.iterations == res.iterations && f.converged == res.converged, w << ": all components free, but the result differs from the unrestricted one");
    s.nontrivial = true;
  }
  s.label(mk == 0 ? "translation only" : mk == 1 ? "rotation only" : mk == 2 ? "random mask" : mk == 3 ? "all free" : "all masked");
}

PBT_PROPERTY(dof_restriction) {
  algebra(s);
  switch (s.pick({1, 1, 1})) {
    case 0: align<GICPFactor, LevenbergMarquardtOptimizer>(s); break;
    case 1: align<ICPFactor, LevenbergMarquardtOptimizer>(s); break;
    default: align<ICPFactor, GaussNewtonOptimizer>(s); break;
  }
}
