// C32: user-supplied types plug into registration and estimation and are used by the documented protocol.
#include <tbb/tbb.h>
#include <atomic>
#include <mutex>
#include "room.hpp"
#include <small_gicp/factors/general_factor.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>

/// A user's point cloud in structure-of-arrays form; every attribute is handed out by value.
struct SoA {
  std::vector<double> x, y, z, nx, ny, nz;
  std::vector<std::array<double, 9>> c;
  size_t size() const { return x.size(); }
};
namespace small_gicp::traits {
template <>
struct Traits<SoA> {
  static size_t size(const SoA& s) { return s.x.size(); }
  static bool has_points(const SoA& s) { return !s.x.empty(); }
  static bool has_normals(const SoA& s) { return !s.nx.empty(); }
  static bool has_covs(const SoA& s) { return !s.c.empty(); }
  static Eigen::Vector4d point(const SoA& s, size_t i) { return {s.x.at(i), s.y.at(i), s.z.at(i), 1.0}; }
  static Eigen::Vector4d normal(const SoA& s, size_t i) { return {s.nx.at(i), s.ny.at(i), s.nz.at(i), 0.0}; }
  static Eigen::Matrix4d cov(const SoA& s, size_t i) {
    Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
    for (int k = 0; k < 9; k++) m(k / 3, k % 3) = s.c.at(i)[k];
    return m;
  }
  static void resize(SoA& s, size_t n) {
    for (auto* v : {&s.x, &s.y, &s.z, &s.nx, &s.ny, &s.nz}) v->resize(n);
    s.c.resize(n);
  }
  static void set_point(SoA& s, size_t i, const Eigen::Vector4d& p) { s.x.at(i) = p[0], s.y.at(i) = p[1], s.z.at(i) = p[2]; }
  static void set_normal(SoA& s, size_t i, const Eigen::Vector4d& p) { s.nx.at(i) = p[0], s.ny.at(i) = p[1], s.nz.at(i) = p[2]; }
  static void set_cov(SoA& s, size_t i, const Eigen::Matrix4d& m) {
    for (int k = 0; k < 9; k++) s.c.at(i)[k] = m(k / 3, k % 3);
  }
};
}  // namespace small_gicp::traits

/// What the components of one registration were asked for.
struct Record {
  const void *tgt = nullptr, *src = nullptr, *tree = nullptr;
  Pts tp, sp;                 // the true points
  Iso T;                      // linearisation point of the linearisation in progress
  bool in_lin = false;
  std::vector<std::atomic<int>> rej, fac, missed;
  std::atomic<long> bad{0};
  std::mutex m;
  std::string first;
  double scale = 1;
  explicit Record(size_t n) : rej(n), fac(n), missed(n) {}
  void fail(const std::string& w) {
    std::lock_guard<std::mutex> l(m);
    if (!bad++) first = w;
  }
  void start(const Iso& P) {
    T = P, in_lin = true;
    for (auto* v : {&rej, &fac, &missed})
      for (auto& c : *v) c = 0;
  }
  bool same(const Iso& P) const { return (P.matrix() - T.matrix()).cwiseAbs().maxCoeff() == 0; }
};

/// Exhaustive search offering only a nearest-neighbour entry; optionally blind beyond a radius.
struct NearestOnly {
  const Pts* p;
  double radius_sq = 1e300;
  Record* rec = nullptr;
  size_t knn_search(const V4& q, size_t k, size_t* idx, double* d) const {
    std::vector<std::pair<double, size_t>> v(p->size());
    for (size_t i = 0; i < v.size(); i++) v[i] = {((*p)[i] - q).squaredNorm(), i};
    size_t m = std::min(k, v.size());
    std::partial_sort(v.begin(), v.begin() + m, v.end());
    size_t n = 0;
    for (size_t i = 0; i < m; i++)
      if (v[i].first <= radius_sq) d[i] = v[i].first, idx[i] = v[i].second, n++;
    return n;
  }
};
/// The same search under a type that offers only a k-nearest-neighbour entry.
struct KnnOnly : NearestOnly {};
namespace small_gicp::traits {
template <>
struct Traits<NearestOnly> {
  static size_t nearest_neighbor_search(const NearestOnly& t, const Eigen::Vector4d& q, size_t* i, double* d) { return t.knn_search(q, 1, i, d); }
};
template <>
struct Traits<KnnOnly> {
  static size_t knn_search(const KnnOnly& t, const Eigen::Vector4d& q, size_t k, size_t* i, double* d) { return t.knn_search(q, k, i, d); }
};
}  // namespace small_gicp::traits

/// Rejects by distance and by a per-source decision of the user.
struct UserRejector {
  double max_sq = 1;
  const std::vector<char>* drop = nullptr;
  Record* rec = nullptr;
  template <typename A, typename B>
  bool operator()(const A& t, const B& s, const Iso& T, size_t ti, size_t si, double d) const {
    std::ostringstream os;
    if (&t != rec->tgt || &s != rec->src)
      rec->fail("the rejector was given clouds other than the target and the source");
    else if (!rec->in_lin || !rec->same(T))
      rec->fail("the rejector was given a pose other than the linearisation point");
    else if (ti >= rec->tp.size() || si >= rec->sp.size()) {
      os << "the rejector was given target index " << ti << " of " << rec->tp.size() << ", source index " << si << " of " << rec->sp.size();
      rec->fail(os.str());
    } else {
      rec->rej[si]++;
      V4 q = T * rec->sp[si];
      double own = (rec->tp[ti] - q).squaredNorm(), best = 1e300;
      for (auto& p : rec->tp) best = std::min(best, (p - q).squaredNorm());
      double tol = 1e-9 * (own + best) + 1e-13 * rec->scale * rec->scale;
      if (std::abs(own - d) > tol || std::abs(best - d) > tol) {
        os << "the rejector was given squared distance " << d << " for target " << ti << " and source " << si << "; their squared distance is " << own << ", the nearest target is at " << best;
        rec->fail(os.str());
      }
    }
    return d > max_sq || (drop && si < drop->size() && (*drop)[si]);
  }
};

/// A user's factor around a built-in one.
template <typename F>
struct UserFactor {
  struct Setting {
    int tag = 0;
    Record* rec = nullptr;
    typename F::Setting inner;
  };
  int tag;
  Record* rec;
  F f;
  size_t mine = ~size_t(0);
  UserFactor(const Setting& s) : tag(s.tag), rec(s.rec), f(s.inner) {}
  template <typename A, typename B, typename C, typename D>
  bool linearize(const A& t, const B& s, const C& tree, const Iso& T, size_t i, const D& rej, M6* H, V6* b, double* e) {
    if (tag != 4711 || !rec) throw Failure("a factor was not constructed from the registration's factor setting");
    if (i >= rec->fac.size() || (mine != ~size_t(0) && mine != i))
      rec->fail("a factor was linearised for another source point than before");
    else
      rec->fac[i]++;
    mine = i;
    if (!rec->in_lin || !rec->same(T)) rec->fail("a factor was linearised at a pose other than the one asked of the reduction");
    if (&t != rec->tgt || &s != rec->src || &tree != rec->tree) rec->fail("a factor was given clouds or a tree other than the ones registered");
    return f.linearize(t, s, tree, T, i, rej, H, b, e);
  }
  template <typename A, typename B>
  double error(const A& t, const B& s, const Iso& T) const {
    if (&t != rec->tgt || &s != rec->src) rec->fail("the error of a factor was evaluated with other clouds");
    return f.error(t, s, T);
  }
  bool inlier() const { return f.inlier(); }
};

/// Additional fixed pairs (source, target) entered through a general factor.
struct Pairs {
  std::vector<std::pair<V3, V3>> pairs;
  Record* rec = nullptr;
  mutable std::vector<Iso> at;
  double cost(const Iso& T) const {
    double e = 0;
    for (auto& [p, q] : pairs) e += 0.5 * (q - T * p).squaredNorm();
    return e;
  }
  template <typename A, typename B, typename C>
  void update_linearized_system(const A& t, const B& s, const C& tree, const Iso& T, M6* H, V6* b, double* e) const {
    at.push_back(T);
    if (&t != rec->tgt || &s != rec->src || &tree != rec->tree) rec->fail("the general factor was given clouds or a tree other than the ones registered");
    for (auto& [p, q] : pairs) {
      Eigen::Matrix<double, 3, 6> J;
      J.block<3, 3>(0, 0) = T.linear() * skew_ref(p);
      J.block<3, 3>(0, 3) = -T.linear();
      *H += J.transpose() * J;
      *b += J.transpose() * (q - T * p);
    }
    *e += cost(T);
  }
  template <typename A, typename B>
  void update_error(const A& t, const B& s, const Iso& T, double* e) const {
    if (&t != rec->tgt || &s != rec->src) rec->fail("the general factor was evaluated with other clouds");
    *e += cost(T);
  }
};

/// Forwards to one of the library's reductions and checks what it made of the components.
struct UserReduction {
  int mode = 0, threads = 2;
  Record* rec = nullptr;
  mutable int lin = 0;
  mutable std::vector<Iso> at;
  mutable size_t last_inliers = 0;
  template <typename A, typename B, typename C, typename D, typename F>
  std::tuple<M6, V6, double> linearize(const A& t, const B& s, const C& tree, const D& rej, const Iso& T, std::vector<F>& f) const {
    lin++;
    at.push_back(T);
    if (&t != rec->tgt || &s != rec->src || &tree != rec->tree) rec->fail("the reduction was given clouds or a tree other than the ones registered");
    if (f.size() != rec->sp.size()) throw Failure("the number of factors is not the number of source points");
    rec->start(T);
    std::tuple<M6, V6, double> r;
    if (mode == 0)
      r = SerialReduction().linearize(t, s, tree, rej, T, f);
    else if (mode == 1) {
      ParallelReductionOMP o;
      o.num_threads = threads;
      r = o.linearize(t, s, tree, rej, T, f);
    } else
      r = ParallelReductionTBB().linearize(t, s, tree, rej, T, f);
    rec->in_lin = false;
    last_inliers = 0;
    for (size_t i = 0; i < f.size(); i++) {
      last_inliers += f[i].inlier();
      if (rec->fac[i] != 1) rec->fail("a factor was linearised " + std::to_string(rec->fac[i]) + " times in one linearisation");
      if (rec->rej[i] > 1) rec->fail("the rejector was asked " + std::to_string(rec->rej[i]) + " times about one source point");
      if (f[i].inlier() && rec->rej[i] != 1) rec->fail("a correspondence was accepted without asking the rejector");
    }
    return r;
  }
  template <typename A, typename B, typename F>
  double error(const A& t, const B& s, const Iso& T, std::vector<F>& f) const {
    if (mode == 0) return SerialReduction().error(t, s, T, f);
    if (mode == 1) {
      ParallelReductionOMP o;
      o.num_threads = threads;
      return o.error(t, s, T, f);
    }
    return ParallelReductionTBB().error(t, s, T, f);
  }
};

/// A user's optimizer: forwards to one of the library's.
struct UserOptimizer {
  bool gn = false;
  LevenbergMarquardtOptimizer l;
  GaussNewtonOptimizer g;
  Record* rec = nullptr;
  Iso init;
  mutable int calls = 0;
  template <typename A, typename B, typename C, typename D, typename E, typename R, typename F, typename G>
  RegistrationResult optimize(const A& t, const B& s, const C& tree, const D& rej, const E& crit, R& red, const Iso& T0, std::vector<F>& f, G& gf) const {
    calls++;
    if (&t != rec->tgt || &s != rec->src || &tree != rec->tree) rec->fail("the optimizer was given clouds or a tree other than the ones registered");
    if ((T0.matrix() - init.matrix()).cwiseAbs().maxCoeff() != 0) rec->fail("the optimizer was given another initial guess");
    if (f.size() != rec->sp.size()) throw Failure("the number of factors is not the number of source points");
    return gn ? g.optimize(t, s, tree, rej, crit, red, T0, f, gf) : l.optimize(t, s, tree, rej, crit, red, T0, f, gf);
  }
};

struct Prob {
  PointCloud tgt, src;  // with attributes
  Iso init;
  double scale, max_sq;
  int max_it, mode, threads;
  bool gn, radius;
  TerminationCriteria crit;
  std::vector<char> drop;
  std::vector<std::pair<V3, V3>> pairs;
  std::string name;
};

template <typename C>
static C convert(const PointCloud& p) {
  C c;
  traits::resize(c, p.size());
  for (size_t i = 0; i < p.size(); i++) {
    traits::set_point(c, i, p.point(i));
    traits::set_normal(c, i, p.normal(i));
    traits::set_cov(c, i, p.cov(i));
  }
  return c;
}

/// The built-in components on clouds without the dropped points and with the pairs as ordinary points.
template <typename F>
static RegistrationResult builtin(const Prob& P, double jitter, uint64_t seed) {
  Rng r(seed);
  auto t = std::make_shared<PointCloud>(P.tgt);
  PointCloud s;
  auto push = [](PointCloud& c, const V4& p, const V4& n, const M4& v) {
    c.points.push_back(p), c.normals.push_back(n), c.covs.push_back(v);
  };
  for (size_t i = 0; i < P.src.size(); i++)
    if (!P.drop[i]) push(s, P.src.point(i), P.src.normal(i), P.src.cov(i));
  for (auto& [p, q] : P.pairs) {
    push(s, p.homogeneous(), V4::Zero(), M4::Zero());
    push(*t, q.homogeneous(), V4::Zero(), M4::Zero());
  }
  if (jitter > 0)
    for (auto& x : s.points) x.head<3>() += jitter * P.scale * V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
  KdTree<PointCloud> tree(t);
  auto run = [&](auto& reg) {
    reg.rejector.max_dist_sq = P.max_sq;
    reg.criteria = P.crit;
    reg.optimizer.max_iterations = P.max_it;
    return reg.align(*t, s, tree, P.init);
  };
  if (P.gn) {
    Registration<F, SerialReduction, NullFactor, DistanceRejector, GaussNewtonOptimizer> reg;
    return run(reg);
  }
  Registration<F, SerialReduction> reg;
  return run(reg);
}

template <typename F, typename Tgt, typename Source, typename Tree>
static void go(const Prob& P, const Tgt& tgt, const Source& src, const Tree& tree) {
  Record rec(P.src.size());
  rec.tgt = &tgt, rec.src = &src, rec.tree = &tree, rec.tp = P.tgt.points, rec.sp = P.src.points, rec.scale = P.scale;
  Registration<UserFactor<F>, UserReduction, Pairs, UserRejector, UserOptimizer> reg;
  reg.point_factor.tag = 4711;
  reg.point_factor.rec = reg.general_factor.rec = reg.reduction.rec = reg.optimizer.rec = reg.rejector.rec = &rec;
  reg.general_factor.pairs = P.pairs;
  reg.reduction.mode = P.mode, reg.reduction.threads = P.threads;
  reg.rejector.max_sq = P.radius ? 1e300 : P.max_sq;
  reg.rejector.drop = &P.drop;
  reg.criteria = P.crit;
  reg.optimizer.gn = P.gn;
  reg.optimizer.init = P.init;
  reg.optimizer.l.max_iterations = reg.optimizer.g.max_iterations = P.max_it;
  auto got = reg.align(tgt, src, tree, P.init);
  PBT_CHECK(!rec.bad, P.name << ": " << rec.first << " (" << rec.bad << " times)");
  PBT_CHECK(reg.optimizer.calls == 1, P.name << ": the optimizer was called " << reg.optimizer.calls << " times");
  PBT_CHECK(reg.general_factor.at.size() == reg.reduction.at.size(), P.name << ": " << reg.reduction.lin << " linearisations, the general factor took part in " << reg.general_factor.at.size());
  for (size_t i = 0; i < reg.reduction.at.size(); i++)
    PBT_CHECK((reg.general_factor.at[i].matrix() - reg.reduction.at[i].matrix()).norm() == 0, P.name << ": in linearisation " << i << " the general factor was given another pose than the point factors");
  PBT_CHECK(reg.reduction.lin <= P.max_it, P.name << ": " << reg.reduction.lin << " linearisations with at most " << P.max_it << " iterations");
  PBT_CHECK(got.num_inliers == reg.reduction.last_inliers || reg.reduction.lin == 0, P.name << ": " << got.num_inliers << " inliers reported, " << reg.reduction.last_inliers << " factors hold a correspondence");
  // the built-in components
  auto want = builtin<F>(P, 0, 0);
  Pts ref = moved(want.T_target_source, P.src.points);
  double spread = 0;
  for (int k = 1; k <= 3; k++) spread = std::max(spread, max_gap(ref, moved(builtin<F>(P, 1e-12, k * 77).T_target_source, P.src.points)));
  if (!(spread < 1e-6 * P.scale)) throw Discard();
  double gap = max_gap(ref, moved(got.T_target_source, P.src.points));
  PBT_CHECK(gap <= 1e-9 * P.scale + 300 * spread, P.name << ": user-supplied components end " << gap << " away from the built-in ones (spread " << spread << ")\n" << got.T_target_source.matrix() << "\n" << want.T_target_source.matrix());
  if (P.max_it > 0) {
    double tol = 1e-6 * (std::abs(want.error) + 1e-6 * P.scale * P.scale) + 1e3 * spread * P.scale * (1 + P.src.size());
    PBT_CHECK(std::abs(got.error - want.error) <= tol || got.iterations != want.iterations, P.name << ": error " << got.error << ", built-in " << want.error);
    long in = (long)want.num_inliers - (long)P.pairs.size();  // the pairs are points there
    PBT_CHECK(std::abs((long)got.num_inliers - in) <= (got.iterations == want.iterations ? 0 : 2), P.name << ": " << got.num_inliers << " inliers, built-in " << in);
  }
}

PBT_PROPERTY(user_components) {
  Prob P;
  Room R = room(s, s.one_of<int>({80, 60, 150}));
  if (R.p.size() < 40) throw Discard();
  P.scale = R.scale;
  Iso Tt = gen::pose(s, 3.1, 3 * R.scale);
  Rng r(s.seed());
  Pts sp = moved(Tt.inverse(), R.p);
  std::vector<size_t> ord(sp.size());
  std::iota(ord.begin(), ord.end(), 0);
  for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
  Pts q;
  size_t keep = s.coin(70) ? sp.size() : 12 + r.below(sp.size() - 12);
  double noise = s.one_of<double>({0.1, 0.02, 0.0}) * R.spacing;
  for (size_t i = 0; i < keep; i++) q.push_back(sp[ord[i]] + V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0) * noise);
  Iso D = gen::pose(s, 0.05, 0.2 * R.spacing);
  P.init = Tt * D;
  P.tgt = PointCloud(R.p);
  P.src = PointCloud(q);
  estimate_normals_covariances(P.tgt, 10);
  estimate_normals_covariances(P.src, 10);
  P.max_it = s.one_of<int>({30, 20, 3, 1, 0});
  P.gn = s.coin(30);
  P.crit.rotation_eps = s.one_of<double>({1e-3, 1e-5});
  P.crit.translation_eps = s.one_of<double>({1e-3, 1e-5}) * R.scale;
  P.max_sq = std::pow(s.one_of<double>({1.0, 0.4, 0.15, 5.0}) * R.scale, 2);
  P.mode = s.below(3), P.threads = s.one_of<int>({2, 1, 3, 5});
  P.drop.assign(P.src.size(), 0);
  int drops = s.coin(60) ? 0 : s.one_of<int>({5, 20, 50});
  for (auto& d : P.drop) d = (int)r.below(100) < drops;
  int which = s.below(10);  // factor and tree
  int fk = which == 9 ? 2 : which % 3, tk = which / 3;
  P.radius = tk != 0 && s.coin(40);
  if (fk == 0 && s.coin(50)) {
    int n = 1 + s.below(4);
    for (int i = 0; i < n; i++) {
      V3 w(r.gauss(), r.gauss(), r.gauss());
      w = w.normalized() * R.scale * (4.0 + 3 * i);
      V3 t = Tt * w;
      P.pairs.push_back({w, t + V3(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1)) * 0.05 * R.scale});
    }
    P.max_sq = std::max(P.max_sq, R.scale * R.scale * 2.0);
    // every pair must stay the nearest one: far from the rest and from each other
    for (auto& [w, t] : P.pairs) {
      double own = (t - P.init * w).norm();
      if (own > 0.7 * R.scale) throw Discard();
      for (auto& x : R.p)
        if ((x.head<3>() - t).norm() < 3 * R.scale) throw Discard();
      for (auto& o : P.pairs)
        if (&o.second != &t && (o.second - t).norm() < 2 * R.scale) throw Discard();
    }
  }
  std::ostringstream os;
  static const char* fn[] = {"ICP", "PLANE", "GICP"};
  static const char* tn[] = {"KdTree of a user cloud", "nearest-only search", "knn-only search", "nearest-only search, built-in target cloud"};
  static const char* rn[] = {"serial", "omp", "tbb"};
  os << fn[fk] << " " << tn[tk] << (P.radius ? " with radius" : "") << " " << rn[P.mode] << " " << (P.gn ? "GN" : "LM") << " n=" << P.tgt.size() << "/" << P.src.size() << " dropped=" << drops << "% pairs=" << P.pairs.size() << " max_it=" << P.max_it;
  P.name = os.str();
  s.note(P.name);
  s.label(fn[fk]);
  s.label(tn[tk]);
  s.label(rn[P.mode]);
  s.label(P.gn ? "GN" : "LM");
  if (drops) s.label("user decision");
  if (!P.pairs.empty()) s.label("general factor");
  s.nontrivial = P.max_it > 1;
  SoA t = convert<SoA>(P.tgt), c = convert<SoA>(P.src);
  NearestOnly nn{&P.tgt.points};
  KnnOnly kn;
  kn.p = &P.tgt.points;
  if (P.radius) nn.radius_sq = kn.radius_sq = P.max_sq;
  auto factors = [&](const auto& tree) {
    if (fk == 0) go<ICPFactor>(P, t, c, tree);
    if (fk == 1) go<PointToPlaneICPFactor>(P, t, c, tree);
    if (fk == 2) go<GICPFactor>(P, t, c, tree);
  };
  if (which == 9)
    go<GICPFactor>(P, P.tgt, c, nn);
  else if (tk == 0) {
    UnsafeKdTree<SoA> tree(t);
    factors(tree);
  } else if (tk == 1)
    factors(nn);
  else
    factors(kn);
}

/// Attribute estimation with a user's cloud and search equals the one with the built-in ones.
PBT_PROPERTY(user_search_estimation) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({60, 300});
  Pts p = gen::points(s, o, &ci);
  int k = s.one_of<int>({10, 5, 20, 4, 30});
  int mode = s.below(3), what = s.below(3), th = s.one_of<int>({2, 1, 4});
  SoA a, b;
  for (auto* c : {&a, &b}) {
    traits::resize(*c, p.size());
    for (size_t i = 0; i < p.size(); i++) traits::set_point(*c, i, p[i]);
  }
  std::ostringstream os;
  os << "n=" << p.size() << " shape=" << ci.shape << " k=" << k << " mode=" << mode << " what=" << what;
  s.note(os.str());
  s.label("k:" + std::to_string(k));
  s.nontrivial = p.size() >= 5 && k >= 5;
  NearestOnly nn{&p};
  auto est = [&](SoA& c, auto& tree) {
    if (mode == 0) what == 0 ? estimate_normals(c, tree, k) : what == 1 ? estimate_covariances(c, tree, k) : estimate_normals_covariances(c, tree, k);
    if (mode == 1) what == 0 ? estimate_normals_omp(c, tree, k, th) : what == 1 ? estimate_covariances_omp(c, tree, k, th) : estimate_normals_covariances_omp(c, tree, k, th);
    if (mode == 2) what == 0 ? estimate_normals_tbb(c, tree, k) : what == 1 ? estimate_covariances_tbb(c, tree, k) : estimate_normals_covariances_tbb(c, tree, k);
  };
  // the reference is the same search through the serial entry on a second cloud: the neighbours are the user's in both cases
  est(a, nn);
  mode = 0;
  est(b, nn);
  for (size_t i = 0; i < p.size(); i++) {
    PBT_CHECK((traits::point(a, i) - p[i]).norm() == 0, os.str() << ": point " << i << " changed");
    if (what != 1) PBT_CHECK((traits::normal(a, i) - traits::normal(b, i)).norm() == 0, os.str() << ": normal " << i << " differs from the serial one");
    if (what != 0) PBT_CHECK((traits::cov(a, i) - traits::cov(b, i)).norm() == 0, os.str() << ": covariance " << i << " differs from the serial one");
  }
  // and it is the user's search that decides: a search that finds nothing leaves the documented fallback
  NearestOnly blind{&p, -1.0};
  est(a, blind);
  for (size_t i = 0; i < p.size(); i++) {
    if (what != 1) PBT_CHECK(traits::normal(a, i).norm() == 0, os.str() << ": normal " << i << " although the search found no neighbour");
    if (what != 0) PBT_CHECK((traits::cov(a, i).block<3, 3>(0, 0) - M3::Identity()).norm() == 0, os.str() << ": covariance " << i << " although the search found no neighbour");
  }
}
