// C15: parallel reductions equal the sequential sum of all factors.
#include <tbb/tbb.h>
#include "clouds.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/kdtree.hpp>
#include <small_gicp/factors/icp_factor.hpp>
#include <small_gicp/factors/gicp_factor.hpp>
#include <small_gicp/registration/rejector.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using M4 = Eigen::Matrix4d;
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;
using Iso = Eigen::Isometry3d;

#ifdef MINIRT_TSAN
constexpr int kMaxN = 700;
#else
constexpr int kMaxN = 3000;
#endif

static int64_t small_int(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b;
  return (int64_t)(splitmix(x) % 2001) - 1000;
}

struct World {  // everything a factor may be handed
  uint64_t salt = 0;
  int reject_percent = 0;
};

/// A user-supplied factor with integer contributions, so that any summation order gives the same exact sum.
struct IntFactor {
  struct Setting {};
  long linearized = 0;
  mutable long evaluated = 0;
  size_t source_index = ~0ull;
  uint64_t state = 0;
  bool accepted = false;
  bool bad_args = false;
  static bool rejects(const World& w, uint64_t round, size_t i) { return small_int(w.salt * 31 + round, i * 7 + 1) + 1000 < w.reject_percent * 20; }
  static double h(const World& w, uint64_t round, size_t i, int a, int b) { return small_int(w.salt + round * 131, i * 64 + a * 8 + b); }
  static double g(const World& w, uint64_t round, size_t i, int a) { return small_int(w.salt + round * 137 + 5, i * 64 + a); }
  static double val(const World& w, uint64_t round, size_t i) { return small_int(w.salt + round * 139 + 9, i); }

  template <typename Tgt, typename S_, typename Tree, typename Rej>
  bool linearize(const Tgt& tgt, const S_& src, const Tree& tree, const Iso& T, size_t i, const Rej& rej, M6* H, V6* b, double* e) {
    sched::point();
    linearized++;
    source_index = i;
    const World& w = src;
    bad_args = bad_args || (const void*)&tgt != (const void*)&tree || !rej.ok;
    uint64_t round = (uint64_t)T.translation()[0];
    state = round;
    accepted = !rejects(w, round, i);
    sched::point();
    if (!accepted) {  // whatever a rejected factor leaves behind must not count
      if (i % 3 == 0) H->setConstant(std::nan("")), b->setConstant(1e300), *e = std::nan("");
      return false;
    }
    for (int a = 0; a < 6; a++) {
      for (int c = 0; c < 6; c++) (*H)(a, c) = h(w, round, i, a, c);
      (*b)[a] = g(w, round, i, a);
    }
    *e = val(w, round, i);
    return true;
  }
  template <typename Tgt, typename S_>
  double error(const Tgt&, const S_& src, const Iso& T) const {
    sched::point();
    evaluated++;
    if (!accepted) return 0;
    return val(src, state * 1000 + (uint64_t)T.translation()[0], source_index);
  }
  bool inlier() const { return accepted; }
};
struct IntRejector {
  bool ok = true;
};

template <typename Red>
static void exact(Src& s, Red&& red, const char* name, int threads) {
  World w;
  w.salt = s.seed();
  w.reject_percent = s.one_of<int>({30, 0, 90, 100});
  size_t n = s.coin(5) ? 0 : s.size(1, kMaxN);
#ifndef MINIRT
  if (s.rare(3000)) n = s.range(65500, 200000), s.label("n:huge");
#endif
  s.label(name);
  s.note(std::string(name) + " factors=" + std::to_string(n) + " threads=" + std::to_string(threads) + " rejected=" + std::to_string(w.reject_percent) + "%");
  s.nontrivial = n > 8 && threads > 1;
  World tgt;
  IntRejector rej;
  std::vector<IntFactor> fs(n);
  int rounds = s.range(1, 3);
  long errors = 0;
  for (int r = 1; r <= rounds; r++) {
    Iso T = Iso::Identity();
    T.translation()[0] = r;
    auto [H, b, e] = red.linearize(tgt, w, tgt, rej, T, fs);
    M6 He = M6::Zero();
    V6 be = V6::Zero();
    double ee = 0;
    std::string where = std::string(name) + " round " + std::to_string(r) + " n=" + std::to_string(n) + " threads=" + std::to_string(threads);
    for (size_t i = 0; i < n; i++) {
      PBT_CHECK(fs[i].linearized == r, where << ": factor " << i << " was linearised " << fs[i].linearized << " times in " << r << " rounds");
      PBT_CHECK(fs[i].source_index == i, where << ": factor " << i << " was given source index " << fs[i].source_index);
      PBT_CHECK(!fs[i].bad_args, where << ": factor " << i << " was given other clouds or another rejector");
      PBT_CHECK(fs[i].state == (uint64_t)r, where << ": factor " << i << " was given another pose");
      bool acc = !IntFactor::rejects(w, r, i);
      PBT_CHECK(fs[i].accepted == acc, where << ": factor " << i << " state lost");
      if (!acc) continue;
      for (int a = 0; a < 6; a++) {
        for (int c = 0; c < 6; c++) He(a, c) += IntFactor::h(w, r, i, a, c);
        be[a] += IntFactor::g(w, r, i, a);
      }
      ee += IntFactor::val(w, r, i);
    }
    PBT_CHECK(H == He, where << ": H\n" << H << "\nexpected\n" << He);
    PBT_CHECK(b == be, where << ": b " << b.transpose() << " expected " << be.transpose());
    PBT_CHECK(e == ee, where << ": e " << e << " expected " << ee);
    int evals = s.range(0, 2);
    for (int k = 0; k < evals; k++) {
      Iso P = Iso::Identity();
      P.translation()[0] = 10 + k;
      double got = red.error(tgt, w, P, fs);
      errors++;
      double want = 0;
      for (size_t i = 0; i < n; i++) {
        PBT_CHECK(fs[i].evaluated == errors, where << ": factor " << i << " was evaluated " << fs[i].evaluated << " times, expected " << errors);
        if (fs[i].accepted) want += IntFactor::val(w, r * 1000 + 10 + k, i);
      }
      PBT_CHECK(got == want, where << ": error " << got << " expected " << want);
    }
  }
}

/// Real factors: sums agree with the sum of individually linearised factors up to rounding, factor states are identical.
template <typename F, typename Red>
static void real(Src& s, Red&& red, const char* name, int threads) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = kMaxN / 4;
  o.far = false;
  o.allow_empty = false;
  Pts p = gen::points(s, o, &ci), q;
  for (auto& x : p) q.push_back(x);
  std::reverse(q.begin(), q.end());
  UserCloud tgt(p), src(q);
  Rng r(s.seed());
  for (size_t i = 0; i < p.size(); i++)
    for (UserCloud* c : {&tgt, &src}) {
      V3 n(r.gauss(), r.gauss(), r.gauss());
      n.normalize();
      c->c[i].block<3, 3>(0, 0) = Eigen::Matrix3d::Identity() - 0.99 * n * n.transpose();
    }
  UnsafeKdTree<UserCloud> tree(tgt);
  DistanceRejector rej;
  rej.max_dist_sq = std::pow(ci.scale * s.one_of<double>({0.3, 1.0, 0.02}), 2);
  Iso T = gen::pose(s, 0.2, 0.1 * ci.scale);
  std::vector<F> a(p.size()), b(p.size());
  auto [H, g, e] = red.linearize(tgt, src, tree, rej, T, a);
  sched::seed(1, 0);
  M6 He = M6::Zero();
  V6 ge = V6::Zero();
  double ee = 0, hn = 0, gn = 0;
  long in = 0;
  for (size_t i = 0; i < b.size(); i++) {
    M6 h;
    V6 v;
    double x;
    if (!b[i].linearize(tgt, src, tree, T, i, rej, &h, &v, &x)) continue;
    He += h, ge += v, ee += x, hn += h.norm(), gn += v.norm(), in++;
  }
  std::string where = std::string(name) + " n=" + std::to_string(p.size()) + " threads=" + std::to_string(threads);
  for (size_t i = 0; i < b.size(); i++)
    PBT_CHECK(a[i].inlier() == b[i].inlier() && a[i].target_index == b[i].target_index && a[i].source_index == b[i].source_index, where << ": state of factor " << i << " differs from the individually linearised one");
  PBT_CHECK((H - He).norm() <= 1e-10 * hn && (g - ge).norm() <= 1e-10 * gn && std::abs(e - ee) <= 1e-10 * ee, where << ": sums differ from the individual sums: e=" << e << " expected " << ee);
  for (int k = 0; k < 2; k++) {
    Iso P = gen::pose(s, 0.2, 0.1 * ci.scale);
    double got = red.error(tgt, src, P, a), want = 0;
    for (auto& f : b) want += f.error(tgt, src, P);
    PBT_CHECK(std::abs(got - want) <= 1e-10 * want, where << ": error " << got << " expected " << want);
  }
  PBT_CHECK(tgt.bad == 0 && src.bad == 0, "point index out of range accessed");
  s.label("real factors");
  s.note(where + " inliers=" + std::to_string(in));
  s.nontrivial = p.size() > 8 && threads > 1 && in > 1;
}

PBT_PROPERTY(reductions) {
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  int which = s.pick({3, 3, 1}), kind = s.pick({2, 1, 1});
  ParallelReductionOMP omp;
  omp.num_threads = threads;
  ParallelReductionTBB tbb;
  SerialReduction ser;
#define GO(F, ...)                                                   \
  do {                                                               \
    if (which == 0) F(s, omp, "omp", threads);                       \
    if (which == 1) F(s, tbb, "tbb", threads);                       \
    if (which == 2) F(s, ser, "serial", 1);                          \
  } while (0)
  if (kind == 0) GO(exact);
  if (kind == 1) GO(real<ICPFactor>);
  if (kind == 2) GO(real<GICPFactor>);
}
