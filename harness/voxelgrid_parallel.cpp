#include <tbb/tbb.h>
#include "voxelgrid.hpp"
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>

static void check_parallel(Problem& P, const Pts& out, Src& s) {
  double tol = tol_of(P, 0);
  long extra_max = P.p.size() / 512;
  PBT_CHECK(out.size() >= P.vox.size(), "got " << out.size() << " output points for " << P.vox.size() << " occupied voxels (" << P.desc << ")");
  PBT_CHECK(out.size() <= P.vox.size() + extra_max, "got " << out.size() << " output points for " << P.vox.size() << " occupied voxels, more than block borders explain (" << P.desc << ")");
  assign(P, out, tol);
  for (auto& kv : P.vox) {
    Voxel& x = kv.second;
    size_t m = x.outs.size();
    auto where = [&] { return "voxel (" + std::to_string(kv.first[0]) + "," + std::to_string(kv.first[1]) + "," + std::to_string(kv.first[2]) + ") with " + std::to_string(x.n) + " points, " + std::to_string(m) + " outputs"; };
    PBT_CHECK(m >= 1, where() << ": lost");
    PBT_CHECK((long)m <= x.n, where() << ": more outputs than points");
    if (m == 1) {
      PBT_CHECK(dist_mean(x, x.outs[0]) <= tol, where() << ": mean off by " << dist_mean(x, x.outs[0]) << " (tolerance " << tol << ")");
      continue;
    }
    s.label("split-voxel");
    if (m <= 4) {
      // sum_j n_j o_j = S, sum_j n_j = n with positive integers n_j
      V4 mean(x.s[0] / x.n, x.s[1] / x.n, x.s[2] / x.n, 1);
      // least squares through the 3x3 normal equations (unused columns are replaced by identity)
      Eigen::Matrix3d A = Eigen::Matrix3d::Zero(), G = Eigen::Matrix3d::Identity();
      for (size_t j = 1; j < m; j++) A.col(j - 1) = (x.outs[j] - x.outs[0]).head<3>();
      for (size_t a = 0; a + 1 < m; a++)
        for (size_t b = 0; b + 1 < m; b++) G(a, b) = A.col(a).dot(A.col(b));
      double tr = 0, smax = 0, smin = 0;
      for (size_t a = 0; a + 1 < m; a++) tr += G(a, a);
      smax = std::sqrt(tr);
      smin = std::sqrt(std::max(0.0, m == 2 ? tr : m == 3 ? G.topLeftCorner<2, 2>().determinant() / tr : G.determinant() / (tr * tr)));  // a lower bound
      if (smin > 1e-4 * smax && smin * 1e-3 > tol * x.n) {
        Eigen::Vector3d rhs = A.transpose() * (mean - x.outs[0]).head<3>();
        Eigen::Vector3d w = G.inverse() * rhs * (double)x.n;
        double first = x.n - w.sum();
        double slack = 0.02 + 10 * tol * x.n / smin;
        bool good = std::abs(first - std::round(first)) < slack && first > 0.5;
        for (size_t j = 0; j + 1 < m; j++) good = good && std::abs(w[j] - std::round(w[j])) < slack && w[j] > 0.5;
        double resid = (A * w / (double)x.n - (mean - x.outs[0]).head<3>()).norm();
        good = good && resid <= 20 * tol + 1e-9 * smax;
        PBT_CHECK(good, where() << ": the outputs are not means of a partition of its points (weights " << first << ", " << w.transpose() << "; residual " << resid << ")");
        s.label("split-solved");
      }
    }
    // the voxel mean is a convex combination of the outputs
    V4 lo = x.outs[0], hi = x.outs[0];
    for (auto& o : x.outs) lo = lo.cwiseMin(o), hi = hi.cwiseMax(o);
    for (int d = 0; d < 3; d++) {
      double mean = x.s[d] / x.n;
      PBT_CHECK(mean >= lo[d] - tol && mean <= hi[d] + tol, where() << ": voxel mean " << mean << " outside the outputs' range on axis " << d);
    }
  }
}

#ifdef MINIRT_TSAN
constexpr int kMaxN = 4000;
#else
constexpr int kMaxN = 20000;
#endif

PBT_PROPERTY(voxelgrid_parallel) {
  int max_n = s.one_of<int>({kMaxN, 3000, 1100});
  Problem P = make_problem(s, max_n, false, s.coin(60) ? std::min(max_n, (int)s.one_of<int>({1025, 2040, 1020})) : 1);
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  s.nontrivial = P.p.size() > 1024 && threads > 1 && P.vox.size() > 1;
  s.note(P.desc + " threads=" + std::to_string(threads));
  bool user = s.coin(60);
  int reps = s.range(1, 2);
  for (int rep = 0; rep < reps; rep++) {
    bool tbb = s.coin(50);
    s.label(tbb ? "tbb" : "omp");
    Pts out;
    if (user) {
      UserCloud u(P.p);
      auto r = tbb ? voxelgrid_sampling_tbb(u, P.leaf) : voxelgrid_sampling_omp(u, P.leaf, threads);
      sched::seed(1, 0);
      PBT_CHECK(u.bad == 0 && r->bad == 0, "point index out of range accessed");
      PBT_CHECK(u.p == P.p, "input modified");
      out = r->p;
    } else {
      PointCloud c(P.p);
      auto r = tbb ? voxelgrid_sampling_tbb(c, P.leaf) : voxelgrid_sampling_omp(c, P.leaf, threads);
      out = r->points;
      PBT_CHECK(c.points == P.p, "input modified");
      PBT_CHECK(r->normals.size() == out.size() && r->covs.size() == out.size(), "attribute arrays of the output differ in length");
    }
    check_parallel(P, out, s);
  }
}

