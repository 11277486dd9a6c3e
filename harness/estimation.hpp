// Oracle for normal / covariance estimation.
#pragma once
#include "clouds.hpp"
#include <small_gicp/points/point_cloud.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;
using M3 = Eigen::Matrix3d;
using M4 = Eigen::Matrix4d;

/// Statistics of a neighbourhood, accumulated in long double around its first point.
struct Hood {
  M3 C;          // covariance
  V3 eval;       // ascending
  M3 evec;
  double noise;  // magnitude of rounding noise any double implementation may have in C
};
static Hood hood(const Pts& p, const std::vector<size_t>& idx) {
  Hood h;
  long double m[3] = {0, 0, 0}, c[3][3] = {{0}};
  V4 o = p[idx[0]];
  double mag = 0;
  for (size_t i : idx)
    for (int a = 0; a < 3; a++) m[a] += (long double)p[i][a] - o[a], mag = std::max(mag, std::abs(p[i][a]));
  for (int a = 0; a < 3; a++) m[a] /= idx.size();
  for (size_t i : idx)
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++) c[a][b] += ((long double)p[i][a] - o[a] - m[a]) * ((long double)p[i][b] - o[b] - m[b]);
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) h.C(a, b) = c[a][b] / idx.size();
  Eigen::SelfAdjointEigenSolver<M3> es(h.C);
  h.eval = es.eigenvalues();
  h.evec = es.eigenvectors();
  h.noise = 1e-14 * mag * mag;
  return h;
}

/// exact neighbours; `unique` tells whether the set is determined (no tie at the k-th place)
static std::vector<size_t> exact_neighbours(const Pts& p, const V4& q, size_t k, bool& unique) {
  std::vector<std::pair<double, size_t>> d(p.size());
  double mag = q.head<3>().cwiseAbs().maxCoeff();
  for (size_t i = 0; i < p.size(); i++) d[i] = {gen::sqd(p[i], q), i}, mag = std::max(mag, p[i].head<3>().cwiseAbs().maxCoeff());
  size_t m = std::min(k, d.size()), t = std::min(k + 1, d.size());
  std::partial_sort(d.begin(), d.begin() + t, d.end());
  double dk = m ? d[m - 1].first : 0;
  unique = t == m || d[m].first - dk > 1e-11 * dk + 1e-14 * mag * std::sqrt(dk) + 1e-28 * mag * mag;
  std::vector<size_t> r;
  for (size_t i = 0; i < m; i++) r.push_back(d[i].second);
  return r;
}

/// `ptol` is the precision of the stored attributes (double or float clouds).
static void check_direction(const V3& n, const Hood& h, double ptol, const std::string& what) {
  // variance along the reported direction is (nearly) the least possible
  double var = n.dot(h.C * n);
  double tol = 1e-5 * h.eval[2] * (1 + 1e2 * ptol) + 20 * h.noise + ptol * h.eval[2];
  PBT_CHECK(var <= h.eval[0] + tol, what << ": variance along the reported direction is " << var << ", the least is " << h.eval[0] << " (eigenvalues " << h.eval.transpose() << ")");
  // and the direction itself agrees where it is well determined
  double gap = h.eval[1] - h.eval[0];
  double noise = (1e-9 * h.eval[2] + 20 * h.noise) / std::max(gap, 1e-300);
  if (noise < 1e-3) {
    double sin2 = 1 - std::pow(n.dot(h.evec.col(0)), 2);
    PBT_CHECK(sin2 <= std::pow(1e-3 + 10 * noise + ptol, 2), what << ": direction " << n.transpose() << " deviates from the least-variance direction " << h.evec.col(0).transpose() << " (sin^2 " << sin2 << ")");
  }
}
static void check_normal(const V4& n, const V4& point, size_t found, const Hood* h, double ptol, const std::string& what) {
  PBT_CHECK(n.allFinite(), what << ": normal is not finite: " << n.transpose());
  PBT_CHECK(n[3] == 0, what << ": homogeneous component of the normal is " << n[3]);
  if (found < 5) {
    PBT_CHECK(n.norm() == 0, what << ": " << found << " neighbours only, expected a zero normal, got " << n.transpose());
    return;
  }
  PBT_CHECK(std::abs(n.norm() - 1) < 1e-9 + 10 * ptol, what << ": normal has length " << n.norm());
  double slack = (1e-12 + 10 * ptol) * (1 + point.head<3>().norm());
  PBT_CHECK(point.head<3>().dot(n.head<3>()) <= slack, what << ": normal " << n.transpose() << " points away from the sensor origin");
  if (h) check_direction(n.head<3>().normalized(), *h, ptol, what + " normal");
}
static void check_cov(const M4& c, size_t found, const Hood* h, double ptol, const std::string& what) {
  PBT_CHECK(c.allFinite(), what << ": covariance is not finite:\n" << c);
  for (int i = 0; i < 4; i++) PBT_CHECK(c(i, 3) == 0 && c(3, i) == 0, what << ": homogeneous row/column of the covariance is not zero:\n" << c);
  M3 m = c.block<3, 3>(0, 0);
  if (found < 5) {
    PBT_CHECK(m == M3::Identity(), what << ": " << found << " neighbours only, expected the identity covariance, got\n" << c);
    return;
  }
  PBT_CHECK((m - m.transpose()).cwiseAbs().maxCoeff() < 1e-9 + 10 * ptol, what << ": covariance is not symmetric:\n" << c);
  Eigen::SelfAdjointEigenSolver<M3> es(M3((m + m.transpose()) * 0.5));
  V3 e = es.eigenvalues();
  PBT_CHECK(std::abs(e[0] - 1e-3) < 1e-6 + 10 * ptol && std::abs(e[1] - 1) < 1e-6 + 10 * ptol && std::abs(e[2] - 1) < 1e-6 + 10 * ptol, what << ": eigenvalues of the covariance are " << e.transpose() << ", documented (1e-3, 1, 1)");
  if (h) check_direction(es.eigenvectors().col(0), *h, ptol * 2, what + " covariance");
}
