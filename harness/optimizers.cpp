// C16: optimiser results are self-consistent and honour their limits.
#include "factors.hpp"
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/registration.hpp>

struct Event {
  bool lin;
  Iso T;
  M6 H;
  V6 b;
  double e;       // point factors (lin: at T; eval: error at T)
  size_t inliers;  // after a linearisation
};
struct Trace {
  std::vector<Event> ev;
};
/// A reduction that records what the optimiser asks for and gets.
struct TraceReduction {
  std::shared_ptr<Trace> t = std::make_shared<Trace>();
  template <typename A, typename B, typename C, typename D, typename F>
  std::tuple<M6, V6, double> linearize(const A& tgt, const B& src, const C& tree, const D& rej, const Iso& T, std::vector<F>& f) const {
    auto r = SerialReduction().linearize(tgt, src, tree, rej, T, f);
    size_t in = 0;
    for (auto& x : f) in += x.inlier();
    t->ev.push_back({true, T, std::get<0>(r), std::get<1>(r), std::get<2>(r), in});
    return r;
  }
  template <typename A, typename B, typename F>
  double error(const A& tgt, const B& src, const Iso& T, std::vector<F>& f) const {
    double e = SerialReduction().error(tgt, src, T, f);
    t->ev.push_back({false, T, M6::Zero(), V6::Zero(), e, 0});
    return e;
  }
};

/// A user-supplied general factor: a quadratic pull of the translation towards t0.
struct Pull {
  double w = 0;
  V3 t0 = V3::Zero();
  double cost(const Iso& T) const { return 0.5 * w * (T.translation() - t0).squaredNorm(); }
  template <typename A, typename B, typename C>
  void update_linearized_system(const A&, const B&, const C&, const Iso& T, M6* H, V6* b, double* e) const {
    add(T, *H, *b);
    *e += cost(T);
  }
  template <typename A, typename B>
  void update_error(const A&, const B&, const Iso& T, double* e) const {
    *e += cost(T);
  }
  void add(const Iso& T, M6& H, V6& b) const {
    H.block<3, 3>(3, 3) += w * M3::Identity();
    b.tail<3>() += w * T.linear().transpose() * (T.translation() - t0);
  }
};

/// A factor with an arbitrary (even inconsistent) cost: acceptance must follow the reported numbers alone.
struct WildFactor {
  struct Setting {
    uint64_t salt = 0;
    double step = 1, noise = 1;
  };
  Setting st;
  bool in = false;
  size_t i = 0;
  Iso T0;
  V6 g;
  double e0 = 0;
  WildFactor(const Setting& s) : st(s) {}
  static uint64_t h(const Iso& T, uint64_t salt) {
    uint64_t x = salt;
    for (int k = 0; k < 3; k++) {
      int64_t v = (int64_t)std::llround(T.matrix()(k, 3) * 1e6) + 1000003 * (int64_t)std::llround(T.matrix()(k, (k + 1) % 3) * 1e6);
      x = x * 0x9E3779B97F4A7C15ull + (uint64_t)v;
      splitmix(x);
    }
    return splitmix(x);
  }
  template <typename A, typename B, typename C, typename D>
  bool linearize(const A&, const B&, const C&, const Iso& T, size_t idx, const D&, M6* H, V6* b, double* e) {
    i = idx;
    Rng r(h(T, st.salt + i));
    in = r.below(10) < 8;
    if (!in) return false;
    M6 a;
    for (int k = 0; k < 36; k++) a(k / 6, k % 6) = r.real(-1, 1);
    *H = a * a.transpose() + M6::Identity() * 0.1;
    for (int k = 0; k < 6; k++) (*b)[k] = r.real(-1, 1) * st.step;
    T0 = T, g = *b;
    e0 = *e = 1 + r.unit();
    return true;
  }
  template <typename A, typename B>
  double error(const A&, const B&, const Iso& T) const {
    if (!in) return 0;
    Rng r(h(T, st.salt * 3 + i));
    return std::max(0.0, e0 + st.noise * r.real(-1, 1));
  }
  bool inlier() const { return in; }
};

static V6 log_ref(const Iso& D) {
  Eigen::AngleAxisd aa(D.linear());
  V3 w = aa.angle() * aa.axis();
  M3 O = skew_ref(w), V = M3::Identity(), P = M3::Identity();
  for (int k = 1; k < 30; k++) {
    P = P * O / (k + 1);
    V += P;
  }
  V6 d;
  d.head<3>() = w;
  d.tail<3>() = V.inverse() * D.translation();
  return d;
}

struct Cfg {
  int max_it, max_inner;
  double lambda, factor;
  TerminationCriteria crit;
  Iso init;
  Pull pull;
  bool lm, wild = false, defaults = false;
  double mag;
};

static void judge(Src& s, const Cfg& c, const Trace& tr, const RegistrationResult& r, size_t inliers_now, double final_point_cost, const std::string& w) {
  std::vector<size_t> lin;
  for (size_t i = 0; i < tr.ev.size(); i++)
    if (tr.ev[i].lin) lin.push_back(i);
  auto total = [&](const Event& e) { return e.e + c.pull.cost(e.T); };
  PBT_CHECK((r.T_target_source.linear().transpose() * r.T_target_source.linear() - M3::Identity()).norm() < 1e-9 && r.T_target_source.linear().determinant() > 0, w << ": result is not a rigid transform\n" << r.T_target_source.matrix());
  PBT_CHECK((r.T_target_source.matrix().row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() == 0, w << ": last row of the result\n" << r.T_target_source.matrix());
  PBT_CHECK((int)lin.size() <= std::max(0, c.max_it) && r.iterations <= (size_t)std::max(0, c.max_it), w << ": " << lin.size() << " iterations (reported " << r.iterations << "), maximum " << c.max_it);
  PBT_CHECK(r.num_inliers == inliers_now, w << ": reported inliers " << r.num_inliers << ", factors say " << inliers_now);
  if (lin.empty()) {
    PBT_CHECK(c.max_it <= 0, w << ": nothing was optimised");
    PBT_CHECK(r.T_target_source.matrix() == c.init.matrix() && !r.converged && r.iterations == 0, w << ": zero iterations must return the initial guess");
    s.label("zero iterations");
    return;
  }
  PBT_CHECK(r.iterations + 1 == lin.size() || r.iterations == lin.size(), w << ": reported " << r.iterations << " iterations, performed " << lin.size());
  PBT_CHECK(tr.ev[lin[0]].T.matrix() == c.init.matrix(), w << ": the first linearisation is not at the initial guess");
  const Event& last = tr.ev[lin.back()];
  M6 H = last.H;
  V6 b = last.b;
  c.pull.add(last.T, H, b);
  PBT_CHECK((r.H - H).norm() <= 1e-12 * H.norm() && (r.b - b).norm() <= 1e-12 * (b.norm() + H.norm() * 1e-3), w << ": reported H/b are not those of the last linearisation");
  auto ambiguous = [&](const V6& d) {
    double rn = d.head<3>().norm(), tn = d.tail<3>().norm();
    auto near = [&](double a, double eps) { return std::abs(a - eps) <= 1e-6 * eps + 1e-12 * (1 + c.mag); };
    return near(rn, c.crit.rotation_eps) || near(tn, c.crit.translation_eps);
  };
  auto met = [&](const V6& d) { return d.head<3>().norm() <= c.crit.rotation_eps && d.tail<3>().norm() <= c.crit.translation_eps; };
  Eigen::SelfAdjointEigenSolver<M6> es(H, Eigen::EigenvaluesOnly);
  double emax = es.eigenvalues().cwiseAbs().maxCoeff();
  if (!c.lm) {
    PBT_CHECK(std::abs(r.error - total(last)) <= 1e-12 * total(last), w << ": reported error " << r.error << ", at the last linearisation " << total(last));
    for (size_t k = 0; k < lin.size(); k++) {
      M6 Hk = tr.ev[lin[k]].H;
      V6 bk = tr.ev[lin[k]].b;
      c.pull.add(tr.ev[lin[k]].T, Hk, bk);
      Hk += c.lambda * M6::Identity();
      Eigen::SelfAdjointEigenSolver<M6> ek(Hk);
      if (!(ek.eigenvalues()[0] > 1e-8 * ek.eigenvalues()[5])) continue;  // badly conditioned: the step is not comparable
      V6 d = -(ek.eigenvectors() * ek.eigenvalues().cwiseInverse().asDiagonal() * (ek.eigenvectors().transpose() * bk));
      const Iso& next = k + 1 < lin.size() ? tr.ev[lin[k + 1]].T : r.T_target_source;
      Iso want = tr.ev[lin[k]].T * exp_ref(d);
      double tol = 1e-6 * (d.norm() * (1 + d.norm())) + 1e-11 * (1 + c.mag);
      PBT_CHECK((want.matrix() - next.matrix()).norm() <= tol, w << ": step " << k << " is not the damped Gauss-Newton step: got\n" << next.matrix() << "\nexpected\n" << want.matrix());
      if (k + 1 == lin.size() && !ambiguous(d)) PBT_CHECK(r.converged == met(d), w << ": converged=" << r.converged << " but the last update is " << d.transpose());
      if (k + 1 < lin.size() && !ambiguous(d)) PBT_CHECK(!met(d), w << ": went on although update " << k << " met both thresholds");
    }
    s.label(r.converged ? "converged" : "stopped");
    return;
  }
  // Levenberg-Marquardt
  for (size_t k = 0; k < lin.size(); k++) {
    size_t end = k + 1 < lin.size() ? lin[k + 1] : tr.ev.size();
    const Event& L = tr.ev[lin[k]];
    size_t inner = 0, accepted = 0;
    const Iso& next = k + 1 < lin.size() ? tr.ev[lin[k + 1]].T : r.T_target_source;
    double e_next = -1;
    M6 Hk = L.H;
    V6 bk = L.b;
    c.pull.add(L.T, Hk, bk);
    Eigen::SelfAdjointEigenSolver<M6> ek(Hk);
    // the update can be recovered from the two poses unless its rotation may exceed half a turn
    bool recoverable = bk.norm() < 3 * ek.eigenvalues()[0];
    double lam = k == 0 ? c.lambda : -1;
    bool found_better = false;
    for (size_t i = lin[k] + 1; i < end; i++) {
      inner++;
      const Event& E = tr.ev[i];
      if (total(E) <= total(L) * (1 - 1e-9)) found_better = true;
      if (E.T.matrix() == next.matrix()) {
        accepted++;
        e_next = total(E);
      }
      if (lam > 0) {
        V6 ev = (ek.eigenvalues().array() + lam).matrix();
        if (ev[0] > 1e-8 * ev[5]) {
          V6 d = -(ek.eigenvectors() * ev.cwiseInverse().asDiagonal() * (ek.eigenvectors().transpose() * bk));
          Iso want = L.T * exp_ref(d);
          double tol = 1e-6 * (d.norm() * (1 + d.norm())) + 1e-11 * (1 + c.mag);
          PBT_CHECK((want.matrix() - E.T.matrix()).norm() <= tol, w << ": trial " << inner << " of the first iteration is not the step of damping " << lam << ": got\n" << E.T.matrix() << "\nexpected\n" << want.matrix());
        }
        lam *= c.factor;
      }
    }
    PBT_CHECK((int)inner <= std::max(0, c.max_inner), w << ": " << inner << " inner iterations, maximum " << c.max_inner);
    bool moved = next.matrix() != L.T.matrix();
    if (moved) {
      PBT_CHECK(accepted > 0, w << ": iteration " << k << " moved to a pose whose error was never evaluated");
      PBT_CHECK(e_next <= total(L) * (1 + 1e-12), w << ": iteration " << k << " accepted a step that increases the total cost from " << total(L) << " to " << e_next << " (point factors " << L.e << ", general factor " << c.pull.cost(L.T) << " -> " << c.pull.cost(next) << ")");
    } else
      PBT_CHECK(!found_better || accepted, w << ": iteration " << k << " evaluated a better pose and discarded it");
    if (k + 1 == lin.size()) {
      // a wild factor's cost at its linearisation pose need not be what it reported there
      // (a trial whose step rounds to nothing is evaluated at that very pose and may or may not be accepted)
      bool kept = !moved && c.wild && (accepted == 0 || !(e_next <= total(L)));
      double expect = kept ? total(L) : final_point_cost + c.pull.cost(r.T_target_source);
      PBT_CHECK(std::abs(r.error - expect) <= 1e-9 * expect + 1e-9 * emax * 1e-6, w << ": reported error " << r.error << ", the factors' total cost at the result is " << expect);
      V6 d = log_ref(L.T.inverse() * next);
      if (recoverable && !ambiguous(d)) {
        if (r.converged) PBT_CHECK(met(d) && accepted > 0, w << ": converged is reported although the last update is " << d.transpose());
        if (!r.converged && accepted > 0 && moved) PBT_CHECK(!met(d), w << ": not converged although the last update is " << d.transpose());
      }
      if (!r.converged && (int)lin.size() < c.max_it) PBT_CHECK(!moved, w << ": stopped early after an accepted step without convergence");
    } else {
      V6 d = log_ref(L.T.inverse() * next);
      if (recoverable && !ambiguous(d) && moved) PBT_CHECK(!met(d), w << ": went on although update " << k << " met both thresholds");
    }
  }
  s.label(r.converged ? "converged" : "stopped");
}

/// Printing progress must not change anything; the output itself is swallowed.
struct Verbose {
  struct Null : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
  } null;
  std::streambuf* old = nullptr;
  explicit Verbose(bool on) {
    if (on) old = std::cout.rdbuf(&null);
  }
  ~Verbose() {
    if (old) std::cout.rdbuf(old);
  }
};

template <typename Opt, typename F, typename Tgt, typename Tree, typename Rej>
static void optimise(Src& s, const Cfg& c, const Tgt& tgt, const PointCloud& src, const Tree& tree, const Rej& rej, const typename F::Setting& fset, const std::string& w) {
  Registration<F, TraceReduction, Pull, Rej, Opt> reg;
  reg.rejector = rej;
  // settings left out have their documented defaults
  bool own = !c.defaults;
  if (own) reg.criteria = c.crit;
  reg.point_factor = fset;
  reg.general_factor = c.pull;
  if (own) reg.optimizer.max_iterations = c.max_it;
  if (!own) {
  } else if constexpr (std::is_same_v<Opt, GaussNewtonOptimizer>)
    reg.optimizer.lambda = c.lambda;
  else {
    reg.optimizer.init_lambda = c.lambda;
    reg.optimizer.lambda_factor = c.factor;
    reg.optimizer.max_inner_iterations = c.max_inner;
  }
  int runs = s.pick({4, 1}) + 1;
  reg.optimizer.verbose = s.coin(10);
  Verbose quiet(reg.optimizer.verbose);
  for (int k = 0; k < runs; k++) {
    *reg.reduction.t = Trace();
    std::vector<F> factors(traits::size(src), F(fset));
    RegistrationResult r;
    bool via_reg = s.coin(30);
    if (via_reg) {
      const auto& creg = reg;
      r = creg.align(tgt, src, tree, c.init);
      Trace keep = *reg.reduction.t;
      // rebuild the factors' final state
      size_t in = 0;
      double cost = 0;
      std::vector<size_t> lin;
      for (size_t i = 0; i < keep.ev.size(); i++)
        if (keep.ev[i].lin) lin.push_back(i);
      if (!lin.empty()) {
        SerialReduction().linearize(tgt, src, tree, rej, keep.ev[lin.back()].T, factors);
        cost = SerialReduction().error(tgt, src, r.T_target_source, factors);
      }
      for (auto& f : factors) in += f.inlier();
      judge(s, c, keep, r, in, cost, w + " (Registration)");
    } else {
      r = reg.optimizer.optimize(tgt, src, tree, rej, c.crit, reg.reduction, c.init, factors, reg.general_factor);
      size_t in = 0;
      for (auto& f : factors) in += f.inlier();
      double cost = SerialReduction().error(tgt, src, r.T_target_source, factors);
      judge(s, c, *reg.reduction.t, r, in, cost, w);
    }
    size_t lins = 0;
    for (auto& e : reg.reduction.t->ev) lins += e.lin;
    s.trivial_unless(lins >= 2);
    s.label("linearisations:" + std::to_string(std::min<size_t>(lins, 5)) + (lins >= 5 ? "+" : ""));
  }
}

template <typename Opt>
static void with_opt(Src& s) {
  Cfg c;
  c.lm = std::is_same_v<Opt, LevenbergMarquardtOptimizer>;
  c.max_it = s.coin(3) ? 400 : s.one_of<int>({20, 1, 0, 2, 5, 100});
  c.max_inner = s.one_of<int>({10, 1, 2, 0, 4});
  c.lambda = c.lm ? s.one_of<double>({1e-3, 1.0, 1e-9, 100.0}) : s.one_of<double>({1e-6, 1e-2, 1.0, 1e-3});
  c.factor = s.one_of<double>({10.0, 2.0, 1.5});
  c.crit.translation_eps = s.one_of<double>({1e-3, 1e-6, 0.1, 10.0, 1e-9});
  c.crit.rotation_eps = s.one_of<double>({0.1 * M_PI / 180, 1e-6, 0.1, 10.0, 1e-9});
  if (s.coin(10)) {
    c.defaults = true;
    c.max_it = 20, c.max_inner = 10, c.lambda = c.lm ? 1e-3 : 1e-6, c.factor = 10.0;
    c.crit.translation_eps = 1e-3, c.crit.rotation_eps = 0.1 * M_PI / 180;
    s.label("defaults");
  }
  int problem = s.pick({3, 1, 1, 3});
  static const char* pn[] = {"gicp", "icp", "plane", "wild"};
  s.label(c.lm ? "lm" : "gn");
  s.label(pn[problem]);
  bool pull = s.coin(50);
  std::string w = std::string(c.lm ? "LM " : "GN ") + pn[problem] + " max_iterations=" + std::to_string(c.max_it);
  if (problem == 3) {
    c.wild = true;
    PointCloud src;
    src.resize(s.range(1, 12));
    WildFactor::Setting st;
    st.salt = s.seed();
    st.step = s.one_of<double>({1.0, 0.01, 10.0});
    st.noise = s.one_of<double>({0.5, 0.0, 1.0, 0.01});
    c.init = gen::pose(s, 3, 5);
    c.mag = 100;
    if (pull) c.pull.w = s.one_of<double>({1.0, 10.0, 1000.0}), c.pull.t0 = V3(s.sym(5), s.sym(5), s.sym(5));
    s.label(pull ? "general factor" : "no general factor");
    s.note(w + " factors=" + std::to_string(src.size()) + " noise=" + std::to_string(st.noise) + " pull=" + std::to_string(c.pull.w));
    optimise<Opt, WildFactor>(s, c, src, src, src, NullRejector(), st, w);
    return;
  }
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({100, 300, 30});
  o.far = false;
  o.allow_empty = false;
  Pts p = gen::points(s, o, &ci);
  size_t n = p.size();
  Rng r(s.seed());
  Iso Tt = gen::pose(s, s.one_of<double>({0.1, 0.5}), s.one_of<double>({0.1, 0.5}) * ci.scale);
  Pts q;
  for (auto& x : p)
    if (r.below(10) < 8) q.push_back(Tt.inverse() * x + V4(r.gauss(), r.gauss(), r.gauss(), 0) * 0.01 * ci.scale);
  if (q.empty()) q.push_back(p[0]);
  auto tgt = std::make_shared<PointCloud>(p);
  PointCloud src(q);
  int ck = s.pick({3, 1});
  for (size_t i = 0; i < n; i++) tgt->normal(i) = rand_normal(r), tgt->cov(i) = rand_cov(r, ck, 1);
  for (size_t i = 0; i < q.size(); i++) src.cov(i) = rand_cov(r, ck, 1);
  c.init = s.coin(50) ? Iso::Identity() : gen::pose(s, 0.5, 0.5 * ci.scale);
  c.mag = 10 * ci.scale;
  if (pull) c.pull.w = s.one_of<double>({1.0, 100.0, 1e4, 1e6}), c.pull.t0 = V3(s.sym(1), s.sym(1), s.sym(1)) * ci.scale;
  s.label(pull ? "general factor" : "no general factor");
  s.note(w + " |target|=" + std::to_string(n) + " |source|=" + std::to_string(q.size()) + " pull=" + std::to_string(c.pull.w) + " shape=" + ci.shape);
  KdTree<PointCloud> tree(tgt);
  DistanceRejector rej;
  rej.max_dist_sq = std::pow(ci.scale * s.one_of<double>({1.0, 0.1, 10.0, 1e-3}), 2);
  if (problem == 0) optimise<Opt, GICPFactor>(s, c, *tgt, src, tree, rej, GICPFactor::Setting(), w);
  if (problem == 1) optimise<Opt, ICPFactor>(s, c, *tgt, src, tree, rej, ICPFactor::Setting(), w);
  if (problem == 2) {
    RobustFactor<Huber, PointToPlaneICPFactor>::Setting st;
    st.robust_kernel.c = 0.1 * ci.scale;
    optimise<Opt, RobustFactor<Huber, PointToPlaneICPFactor>>(s, c, *tgt, src, tree, rej, st, w);
  }
}

PBT_PROPERTY(optimizers) {
  if (s.coin(60))
    with_opt<LevenbergMarquardtOptimizer>(s);
  else
    with_opt<GaussNewtonOptimizer>(s);
}
