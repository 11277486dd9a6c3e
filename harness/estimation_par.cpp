#include <tbb/tbb.h>
#include "estimation.hpp"
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>

#ifdef MINIRT_TSAN
constexpr int kMaxN = 500;
#else
constexpr int kMaxN = 2500;
#endif

template <typename Cloud, typename Tree>
static void estimate(Cloud& c, Tree* tree, int what, int how, int k, int threads) {
#define CALL(sfx, ...)                                                       \
  do {                                                                       \
    if (tree) {                                                              \
      if (what == 0) estimate_normals##sfx(c, *tree, __VA_ARGS__);           \
      if (what == 1) estimate_covariances##sfx(c, *tree, __VA_ARGS__);       \
      if (what == 2) estimate_normals_covariances##sfx(c, *tree, __VA_ARGS__); \
    } else {                                                                 \
      if (what == 0) estimate_normals##sfx(c, __VA_ARGS__);                  \
      if (what == 1) estimate_covariances##sfx(c, __VA_ARGS__);              \
      if (what == 2) estimate_normals_covariances##sfx(c, __VA_ARGS__);      \
    }                                                                        \
  } while (0)
  // arguments left out have their documented defaults
  if (how == 0) CALL(, k);
  if (how == 3) {
    if (tree) {
      if (what == 0) estimate_normals_omp(c, *tree);
      if (what == 1) estimate_covariances_omp(c, *tree);
      if (what == 2) estimate_normals_covariances_omp(c, *tree);
    } else {
      if (what == 0) estimate_normals_omp(c);
      if (what == 1) estimate_covariances_omp(c);
      if (what == 2) estimate_normals_covariances_omp(c);
    }
  }
  if (how == 4) {
    if (tree) {
      if (what == 0) estimate_normals_tbb(c, *tree);
      if (what == 1) estimate_covariances_tbb(c, *tree);
      if (what == 2) estimate_normals_covariances_tbb(c, *tree);
    } else {
      if (what == 0) estimate_normals_tbb(c);
      if (what == 1) estimate_covariances_tbb(c);
      if (what == 2) estimate_normals_covariances_tbb(c);
    }
  }
  if (how == 1) CALL(_omp, k, threads);
  if (how == 2) CALL(_tbb, k);
#undef CALL
}

template <typename Cloud>
static void go(Src& s, const Pts& p, int k, int threads) {
  const V4 n0(0.25, 0.5, 0.75, 0);
  const M4 c0 = M4::Constant(0.125);
  Cloud ser(p), par(p);
  for (size_t i = 0; i < p.size(); i++)
    for (Cloud* c : {&ser, &par}) {
      traits::set_normal(*c, i, n0);
      traits::set_cov(*c, i, c0);
    }
  int what = s.below(3), how = 1 + s.below(2);
  bool given = s.coin(50);
  UnsafeKdTree<Cloud> t1(ser), t2(par);
  auto none = (UnsafeKdTree<Cloud>*)nullptr;
  s.label(how == 1 ? "omp" : "tbb");
  s.label(given ? "given-tree" : "own-tree");
  estimate(par, given ? &t2 : none, what, how + (k == 20 && s.coin(30) ? 2 : 0), k, threads);
  sched::seed(1, 0);
  estimate(ser, given ? &t1 : none, what, 0, k, 1);
  PBT_CHECK(traits::size(par) == p.size(), "cloud size changed");
  bool full = p.size() <= 200;
  Rng r(s.seed());
  int judged = 0;
  for (size_t i = 0; i < p.size(); i++) {
    std::string w = "point " + std::to_string(i) + " of " + std::to_string(p.size()) + " (k=" + std::to_string(k) + ", threads=" + std::to_string(threads) + (how == 1 ? ", omp)" : ", tbb)");
    V4 pt = traits::point(par, i), n = traits::normal(par, i), ns = traits::normal(ser, i);
    M4 c = traits::cov(par, i), cs = traits::cov(ser, i);
    PBT_CHECK(pt == p[i], w << ": position modified");
    if (what == 1) PBT_CHECK(n == n0, w << ": covariance estimation changed the normal");
    if (what == 0) PBT_CHECK(c == c0, w << ": normal estimation changed the covariance");
    bool equal = (n - ns).cwiseAbs().maxCoeff() <= 1e-9 && (c - cs).cwiseAbs().maxCoeff() <= 1e-9;
    if (equal && !(full || r.below(p.size()) < 40)) continue;
    if (p.size() > 20000 && ++judged > 100) continue;  // each costs a pass over the cloud
    // judge by the neighbourhood: where ties or degenerate spread leave the answer open, serial and parallel may differ
    bool unique;
    auto idx = exact_neighbours(p, p[i], k, unique);
    Hood h;
    const Hood* hp = nullptr;
    if (unique && idx.size() >= 5) {
      h = hood(p, idx);
      hp = &h;
    }
    if (what != 1) check_normal(n, p[i], idx.size(), hp, 0, w);
    if (what != 0) check_cov(c, idx.size(), hp, 0, w);
    bool determined = idx.size() < 5 || (hp && (1e-9 * h.eval[2] + h.noise) / std::max(h.eval[1] - h.eval[0], 1e-300) < 1e-6);
    if (!equal && determined && what != 1) {
      // the sign is open when the point lies in its own tangent plane
      double d = std::abs(pt.head<3>().dot(ns.head<3>())) / (1e-300 + pt.head<3>().norm());
      bool sign_open = d < 1e-6;
      double diff = sign_open ? std::min((n - ns).norm(), (n + ns).norm()) : (n - ns).norm();
      PBT_CHECK(diff < 1e-4, w << ": parallel normal " << n.transpose() << " differs from the serial one " << ns.transpose());
    }
    if (!equal && determined && what != 0) PBT_CHECK((c - cs).norm() < 1e-4, w << ": parallel covariance differs from the serial one:\n" << c << "\nserial:\n" << cs);
  }
}

PBT_PROPERTY(local_features_parallel) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = s.one_of<int>({kMaxN, 200, 60});
  gen::maybe_huge(s, o, 5000);
  bool user = s.coin(50);
  Pts p = gen::points(s, o, &ci);
  int k = s.coin(10) ? s.one_of<int>({40, 70, 150, 300}) : s.one_of<int>({10, 20, 5, 4, 8});
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  s.note("n=" + std::to_string(p.size()) + " k=" + std::to_string(k) + " shape=" + ci.shape + " threads=" + std::to_string(threads));
  s.nontrivial = threads > 1 && p.size() > 5 && k >= 5;
  user ? go<UserCloud>(s, p, k, threads) : go<PointCloud>(s, p, k, threads);
}
