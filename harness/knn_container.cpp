#include "knncheck.hpp"
#include <small_gicp/ann/knn_result.hpp>
#include <small_gicp/points/point_cloud.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;
using knn::Buf;

struct Push {
  size_t idx;
  size_t base;
  double d;
};

template <int N, typename R>
static void check_container(const R& r, const Buf& b, size_t k, const std::vector<Push>& pushed, bool transformed) {
  b.check_guard();
  std::vector<double> ref;
  for (auto& x : pushed) ref.push_back(x.d);
  std::sort(ref.begin(), ref.end());
  size_t m = std::min(k, ref.size());
  PBT_CHECK(r.num_found() == m, "num_found " << r.num_found() << " after " << pushed.size() << " pushes into a container of " << k);
  PBT_CHECK(r.buffer_size() == k, "buffer_size " << r.buffer_size() << " != " << k);
  std::multiset<std::pair<size_t, double>> avail;
  for (auto& x : pushed) avail.insert({transformed ? x.base + 3 * x.idx : x.idx, x.d});
  for (size_t i = 0; i < m; i++) {
    PBT_CHECK(b.d[i] == ref[i], "slot " << i << " holds distance " << b.d[i] << ", the " << i << "-th smallest pushed one is " << ref[i]);
    auto it = avail.find({b.i[i], b.d[i]});
    PBT_CHECK(it != avail.end(), "slot " << i << " holds (index " << b.i[i] << ", " << b.d[i] << ") which was never pushed (or is stored twice)");
    avail.erase(it);
  }
  for (size_t i = m; i < k; i++) {
    PBT_CHECK(b.i[i] == R::INVALID, "unused slot " << i << " has index " << b.i[i]);
    PBT_CHECK(b.d[i] == std::numeric_limits<double>::max(), "unused slot " << i << " has distance " << b.d[i]);
  }
  PBT_CHECK(r.worst_distance() == (m == k ? ref[k - 1] : std::numeric_limits<double>::max()), "worst_distance " << r.worst_distance() << " with " << m << " of " << k << " stored");
}

template <int N>
static void container_case(Src& s, const std::vector<Push>& pushes, int dyn_k) {
  size_t k = N > 0 ? N : dyn_k;
  bool transformed = s.coin(50);
  bool every = pushes.size() < 40;
  if (!transformed) {
    Buf b(k);
    KnnResult<N> r(b.i.data(), b.d.data(), N > 0 ? -1 : dyn_k);
    std::vector<Push> sofar;
    check_container<N>(r, b, k, sofar, false);
    for (auto& x : pushes) {
      r.push(x.idx, x.d);
      sofar.push_back(x);
      if (every) check_container<N>(r, b, k, sofar, false);
    }
    check_container<N>(r, b, k, sofar, false);
  } else {
    size_t base = 0;
    auto tr = [&](size_t i) { return base + 3 * i; };
    Buf b(k);
    KnnResult<N, decltype(tr)> r(b.i.data(), b.d.data(), N > 0 ? -1 : dyn_k, tr);
    std::vector<Push> sofar;
    for (auto& x : pushes) {
      base = x.base;
      r.push(x.idx, x.d);
      sofar.push_back(x);
      if (every) check_container<N>(r, b, k, sofar, true);
    }
    check_container<N>(r, b, k, sofar, true);
  }
}

PBT_PROPERTY(knn_container) {
  bool big = s.rare(40);
  size_t n = big ? s.range(300, 3000) : s.size(0, 400);
  int dkind = s.pick({3, 3, 1, 1, 1});
  std::vector<Push> pushes;
  Rng rng(n > 30 ? s.seed() : 0);
  for (size_t i = 0; i < n; i++) {
    double u = n > 30 ? rng.unit() : s.unit();
    double d = 0;
    switch (dkind) {
      case 0: d = u * 100; break;
      case 1: d = std::floor(u * 6); break;  // many ties
      case 2: d = (double)i; break;          // ascending
      case 3: d = (double)(n - i); break;    // descending
      case 4: d = std::pow(10.0, 600 * u - 300); break;
    }
    pushes.push_back({i, (size_t)1000 * (i % 7), d});
  }
  int n_sel = big ? 0 : s.pick({3, 2, 2, 2, 2});
  int k = big ? s.range(100, 1000) : s.size(1, 60);
  s.nontrivial = n > 0;
  s.label("kind:" + std::to_string(dkind));
  s.note("pushes=" + std::to_string(n) + " distance-kind=" + std::to_string(dkind) + " capacity=" + (n_sel == 0 ? std::to_string(k) + " (run time)" : std::to_string(std::vector<int>{0, 1, 2, 5, 20}[n_sel]) + " (compile time)"));
  switch (n_sel) {
    case 0: container_case<-1>(s, pushes, k); break;
    case 1: container_case<1>(s, pushes, 0); break;
    case 2: container_case<2>(s, pushes, 0); break;
    case 3: container_case<5>(s, pushes, 0); break;
    case 4: container_case<20>(s, pushes, 0); break;
  }
}

