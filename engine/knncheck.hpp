// Oracle for neighbour queries.
#pragma once
#include "gen.hpp"

namespace knn {
using gen::Pts;
using gen::V4;

constexpr size_t kGuardI = 0xABCDEF0123456789ull;

/// Output buffers of exactly k elements followed by guards.
struct Buf {
  std::vector<size_t> i;
  std::vector<double> d;
  size_t k;
  explicit Buf(size_t k) : i(k + 2, kGuardI), d(k + 2, -12345.5), k(k) {}
  void check_guard() const {
    PBT_CHECK(i[k] == kGuardI && i[k + 1] == kGuardI, "index buffer overrun for k=" << k);
    PBT_CHECK(d[k] == -12345.5 && d[k + 1] == -12345.5, "distance buffer overrun for k=" << k);
  }
};

/// Exact result expected: min(k, n) distinct true neighbours, ascending, equal to exhaustive search.
inline void check_exact(const Pts& p, const V4& q, size_t k, size_t num, const Buf& b, const std::string& what) {
  b.check_guard();
  auto ref = gen::brute_sq_dists(p, q, k);
  PBT_CHECK(num == ref.size(), what << ": returned " << num << " neighbours, expected " << ref.size() << " (n=" << p.size() << ", k=" << k << ", q=" << gen::str(q) << ")");
  std::set<size_t> seen;
  double tol = num ? gen::sq_tol(p, q, ref.back()) : 0;
  for (size_t i = 0; i < num; i++) {
    PBT_CHECK(b.i[i] < p.size(), what << ": neighbour " << i << " has invalid index " << b.i[i] << " (n=" << p.size() << ")");
    PBT_CHECK(seen.insert(b.i[i]).second, what << ": index " << b.i[i] << " returned twice (k=" << k << ", q=" << gen::str(q) << ")");
    double t = gen::sqd(p[b.i[i]], q);
    PBT_CHECK(std::abs(b.d[i] - t) <= tol, what << ": neighbour " << i << " (index " << b.i[i] << ") reported sq. distance " << b.d[i] << ", true " << t);
    PBT_CHECK(i == 0 || b.d[i - 1] <= b.d[i], what << ": distances not ascending at " << i << ": " << b.d[i - 1] << " > " << b.d[i]);
    PBT_CHECK(std::abs(t - ref[i]) <= tol, what << ": neighbour " << i << " has sq. distance " << t << " but the exact one is " << ref[i] << " (n=" << p.size() << ", k=" << k << ", q=" << gen::str(q) << ")");
  }
}

}  // namespace knn
