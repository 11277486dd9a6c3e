// C34: whole pipelines (downsampling, search structure, attributes, registration) agree across backends and thread counts.
#include <tbb/tbb.h>
#include "sched.hpp"
#include "room.hpp"
#include <small_gicp/ann/kdtree_omp.hpp>
#include <small_gicp/ann/kdtree_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>
#include <small_gicp/registration/reduction.hpp>
#include <small_gicp/registration/reduction_omp.hpp>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/registration/registration.hpp>
#include <small_gicp/registration/registration_helper.hpp>

enum Backend { SERIAL, OMP, TBB };
static const char* kNames = "SOT";

struct Stagewise {
  int down = 0, tree = 0, est = 0, red = 0;
  int threads = 1;
  std::string str() const {
    std::ostringstream os;
    os << "down/tree/est/red=" << kNames[down] << kNames[tree] << kNames[est] << kNames[red] << " threads=" << threads;
    return os.str();
  }
};
struct Problem {
  Pts tgt, src;
  Iso init;
};
struct Settings {
  double leaf = 0;  // 0: no downsampling
  int k = 10;
  int factor = 0;  // 0 ICP, 1 point to plane, 2 GICP, 3 VGICP, 4 Huber GICP
  int opt = 0;     // 0 LM, 1 GN
  double max_d = 1, eps_t = 1e-3, eps_r = 1e-3, voxel = 1;
  int iters = 20;
  bool own_tree = false;  // let the estimation build its own search tree
};
using Tree = KdTree<PointCloud>;
using CloudTree = std::pair<PointCloud::Ptr, std::shared_ptr<Tree>>;

static CloudTree preprocess(const Pts& raw, const Settings& st, const Stagewise& w) {
  PointCloud::Ptr c;
  if (st.leaf > 0) {
    PointCloud in(raw);
    c = w.down == SERIAL ? voxelgrid_sampling(in, st.leaf) : w.down == OMP ? voxelgrid_sampling_omp(in, st.leaf, w.threads) : voxelgrid_sampling_tbb(in, st.leaf);
  } else
    c = std::make_shared<PointCloud>(raw);
  std::shared_ptr<Tree> t;
  if (w.tree == SERIAL) t = std::make_shared<Tree>(c);
  if (w.tree == OMP) t = std::make_shared<Tree>(c, KdTreeBuilderOMP(w.threads));
  if (w.tree == TBB) t = std::make_shared<Tree>(c, KdTreeBuilderTBB());
  if (st.own_tree) {
    if (w.est == SERIAL) estimate_normals_covariances(*c, st.k);
    if (w.est == OMP) estimate_normals_covariances_omp(*c, st.k, w.threads);
    if (w.est == TBB) estimate_normals_covariances_tbb(*c, st.k);
  } else {
    if (w.est == SERIAL) estimate_normals_covariances(*c, *t, st.k);
    if (w.est == OMP) estimate_normals_covariances_omp(*c, *t, st.k, w.threads);
    if (w.est == TBB) estimate_normals_covariances_tbb(*c, *t, st.k);
  }
  return {c, t};
}

template <typename F, typename Red, typename Opt>
static RegistrationResult solve(const Settings& st, const Stagewise& w, const CloudTree& t, const CloudTree& q, const Iso& init) {
  Registration<F, Red, NullFactor, DistanceRejector, Opt> reg;
  if constexpr (std::is_same_v<F, RobustFactor<Huber, GICPFactor>>) reg.point_factor.robust_kernel.c = 0.3 * st.max_d;
  if constexpr (std::is_same_v<Red, ParallelReductionOMP>) reg.reduction.num_threads = w.threads;
  reg.rejector.max_dist_sq = st.max_d * st.max_d;
  reg.optimizer.max_iterations = st.iters;
  reg.criteria.translation_eps = st.eps_t;
  reg.criteria.rotation_eps = st.eps_r;
  if constexpr (std::is_same_v<F, GICPFactor>)
    if (st.factor == 3) {
      GaussianVoxelMap m(st.voxel);
      m.insert(*t.first);
      return reg.align(m, *q.first, m, init);
    }
  return reg.align(*t.first, *q.first, *t.second, init);
}
template <typename F, typename Red>
static RegistrationResult solve(const Settings& st, const Stagewise& w, const CloudTree& t, const CloudTree& q, const Iso& init) {
  return st.opt ? solve<F, Red, GaussNewtonOptimizer>(st, w, t, q, init) : solve<F, Red, LevenbergMarquardtOptimizer>(st, w, t, q, init);
}
template <typename F>
static RegistrationResult solve(const Settings& st, const Stagewise& w, const CloudTree& t, const CloudTree& q, const Iso& init) {
  return w.red == SERIAL ? solve<F, SerialReduction>(st, w, t, q, init) : w.red == OMP ? solve<F, ParallelReductionOMP>(st, w, t, q, init) : solve<F, ParallelReductionTBB>(st, w, t, q, init);
}
struct Outcome {
  RegistrationResult r;
  size_t nt = 0, ns = 0;
};
static Outcome pipeline(const Problem& p, const Settings& st, const Stagewise& w) {
  CloudTree t = preprocess(p.tgt, st, w), q = preprocess(p.src, st, w);
  Outcome o;
  o.nt = t.first->size();
  o.ns = q.first->size();
  switch (st.factor) {
    case 0: o.r = solve<ICPFactor>(st, w, t, q, p.init); break;
    case 1: o.r = solve<PointToPlaneICPFactor>(st, w, t, q, p.init); break;
    case 4: o.r = solve<RobustFactor<Huber, GICPFactor>>(st, w, t, q, p.init); break;
    default: o.r = solve<GICPFactor>(st, w, t, q, p.init);
  }
  return o;
}
/// the same through the simple API (always its own choice of backends; the number of threads is the caller's)
static Outcome simple(const Problem& p, const Settings& st, int threads) {
  RegistrationSetting rs;
  static const RegistrationSetting::RegistrationType types[] = {RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP};
  rs.type = types[st.factor];
  rs.max_correspondence_distance = st.max_d;
  rs.rotation_eps = st.eps_r;
  rs.translation_eps = st.eps_t;
  rs.voxel_resolution = st.voxel;
  rs.max_iterations = st.iters;
  rs.num_threads = threads;
  PointCloud a(p.tgt), b(p.src);
  auto [t, tt] = preprocess_points(a, st.leaf, st.k, threads);
  auto [q, qt] = preprocess_points(b, st.leaf, st.k, threads);
  Outcome o;
  o.nt = t->size();
  o.ns = q->size();
  if (st.factor == 3) {
    auto m = create_gaussian_voxelmap(*t, st.voxel);
    o.r = align(*m, *q, p.init, rs);
  } else
    o.r = align(*t, *q, *tt, p.init, rs);
  return o;
}
/// distances of all coordinates from the grid borders, for every grid the pipeline uses
static bool clear_of_borders(const Pts& c, double leaf) {
  for (auto& p : c)
    for (int k = 0; k < 3; k++) {
      double f = p[k] / leaf - std::floor(p[k] / leaf);
      if (f < 1e-7 || f > 1 - 1e-7) return false;
    }
  return true;
}

PBT_PROPERTY(backends) {
  // parallel downsampling never splits a voxel of a cloud of at most 1024 points
  bool down = s.coin(60);
#ifdef MINIRT
  Room R = room(s, down ? 500 : s.one_of<int>({250, 500, 1200}));
#else
  Room R = room(s, down ? 1000 : s.one_of<int>({300, 1200, 2500}));
#endif
  size_t n = R.p.size();
  if (n < 120) throw Discard();
  Problem b;
  Iso Tt = gen::pose(s, 3.1, 5 * R.scale), place = gen::pose(s, 3.1, 2 * R.scale);
  b.tgt = moved(place, R.p);
  Rng r(s.seed());
  double noise = s.one_of<double>({0.05, 0.2, 0.01}) * R.spacing;
  V3 ctr = V3::Zero();
  for (auto& x : b.tgt)
    if (r.below(10) < 8) {
      V4 y = x + noise * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
      b.src.push_back(Tt.inverse() * y);
      ctr += y.head<3>();
    }
  ctr /= b.src.size();

  Settings st;
  if (down) st.leaf = s.one_of<double>({3.0, 1.5, 5.0, 0.4}) * R.spacing;
  double sp = std::max(R.spacing, st.leaf);
  double lim = s.one_of<double>({1.0, 0.3, 2.0}) * sp;
  Iso D = gen::pose(s, 0.5 * lim / R.scale, 0.5 * lim);
  b.init = Eigen::Translation3d(ctr) * D * Eigen::Translation3d(-ctr) * Tt;
  st.k = s.one_of<int>({10, 5, 20});
  st.factor = s.below(5);
  st.opt = s.coin(40);
  st.max_d = s.one_of<double>({1.0, 3.0 * sp / R.scale, 8.0 * sp / R.scale}) * R.scale;
  st.eps_t = s.one_of<double>({1e-3, 1e-5, 1e-2}) * R.scale;
  st.eps_r = s.one_of<double>({1e-3, 1e-5, 1e-2});
  st.voxel = s.one_of<double>({3.0, 5.0}) * sp;
  st.iters = s.one_of<int>({20, 20, 5, 1, 50});
  st.own_tree = s.coin(20);

  bool api = st.leaf > 0 && st.factor < 4 && s.coin(25);
  Stagewise w;
  w.threads = sched::setup(s);
  sched::TbbThreads limit(std::min(w.threads, 16));
  if (api)
    st.opt = 0;  // what the simple API uses
  else {
    w.down = down ? (int)s.below(3) : 0;
    w.tree = s.below(3);
    w.est = s.below(3);
    w.red = s.below(3);
    if (!w.down && !w.tree && !w.est && !w.red) w.red = OMP;
  }

  Stagewise serial;
  if (down && !(clear_of_borders(b.tgt, st.leaf) && clear_of_borders(b.src, st.leaf))) throw Discard();
  Outcome base = api ? simple(b, st, 1) : pipeline(b, st, serial);
  // how sensitive is this problem? (an unstable one - a tie, an association or a termination test on a knife's edge - decides nothing)
  double spread = 0, espread = 0;
  bool stable = true;
  auto same_shape = [](const Outcome& a, const Outcome& b) { return a.nt == b.nt && a.ns == b.ns && a.r.num_inliers == b.r.num_inliers && a.r.iterations == b.r.iterations && a.r.converged == b.r.converged; };
  for (int i = 0; i < 3 && stable; i++) {
    Problem j = b;
    V6 d;
    for (int k = 0; k < 6; k++) d[k] = r.real(-1, 1) * 1e-9 * (k < 3 ? 1 : R.scale);
    j.init = b.init * exp_ref(d);
    for (auto* c : {&j.tgt, &j.src})
      for (auto& p : *c) p += 1e-10 * R.scale * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
    Outcome x = api ? simple(j, st, 1) : pipeline(j, st, serial);
    spread = std::max(spread, max_gap(moved(base.r.T_target_source, b.src), moved(x.r.T_target_source, b.src)));
    espread = std::max(espread, std::abs(x.r.error - base.r.error));
    stable = stable && same_shape(base, x);
  }
  if (!stable || spread > 1e-6 * R.scale) {
    s.label("unstable problem");
    return;
  }
  static const char* factors[] = {"ICP", "PLANE", "GICP", "VGICP", "Huber GICP"};
  s.label(factors[st.factor]);
  Outcome res = api ? simple(b, st, w.threads) : pipeline(b, st, w);
  double gap = max_gap(moved(base.r.T_target_source, b.src), moved(res.r.T_target_source, b.src));
  double tol = 100 * spread + 1e-9 * R.scale;
  // Levenberg-Marquardt: once the error decrease of an update reaches rounding level, rounding decides whether it is accepted
  if (!st.opt) tol += 2e-6 * R.scale;
  std::ostringstream os;
  os << factors[st.factor] << (st.opt ? " GN " : " LM ") << (api ? "simple API threads=" + std::to_string(w.threads) : w.str()) << " n=" << n << "/" << b.src.size() << " used=" << base.nt << "/" << base.ns << " leaf=" << st.leaf << " k=" << st.k << (st.own_tree ? " own tree" : "")
     << " scale=" << R.scale << " spread=" << spread << " gap=" << gap << " iterations=" << base.r.iterations << "/" << res.r.iterations << " inliers=" << base.r.num_inliers << "/" << res.r.num_inliers << " error=" << base.r.error << "/" << res.r.error;
  s.note(os.str());
  s.nontrivial = base.r.num_inliers > 20 && base.r.iterations > 0;
  PBT_CHECK(res.nt == base.nt && res.ns == base.ns, os.str() << ": the clouds have " << res.nt << " and " << res.ns << " points instead of " << base.nt << " and " << base.ns);
  PBT_CHECK(gap <= tol, os.str() << ": the poses differ by " << gap << " (tolerance " << tol << ")\nserial\n" << base.r.T_target_source.matrix() << "\nparallel\n" << res.r.T_target_source.matrix());
  if (!st.opt && gap > 100 * spread + 1e-9 * R.scale && res.r.num_inliers != base.r.num_inliers) {
    s.label("last LM update decided by rounding");  // and a pair at the distance limit with it
    return;
  }
  PBT_CHECK(res.r.num_inliers == base.r.num_inliers, os.str() << ": inlier counts differ");
  if (st.opt) {
    PBT_CHECK(res.r.iterations == base.r.iterations, os.str() << ": iteration counts differ");
    PBT_CHECK(res.r.converged == base.r.converged, os.str() << ": converged flags differ");
  }
  double etol = 1e-7 * std::abs(base.r.error) + 100 * espread + 1e-16 * R.scale * R.scale;
  PBT_CHECK(std::abs(res.r.error - base.r.error) <= etol, os.str() << ": errors differ by " << std::abs(res.r.error - base.r.error) << " (tolerance " << etol << ")");
}
