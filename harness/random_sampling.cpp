#define NO_TBB_CONTROL
#include <numeric>
#include "clouds.hpp"
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/util/downsampling.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;

// ---------------------------------------------------------------- random sampling

struct CountingRng {  // any UniformRandomBitGenerator must do
  using result_type = uint32_t;
  uint64_t st;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
  uint32_t operator()() { return splitmix(st) >> 32; }
};

template <typename RNG>
static void sampling_case(Src& s, RNG rng) {
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = 1500;
  gen::maybe_huge(s, o, 2500);
  Pts p = gen::points(s, o, &ci);
  bool unique = s.coin(70);
  if (unique)
    for (size_t i = 0; i < p.size(); i++) p[i][0] = (double)i + 0.25;
  size_t k;
  switch (s.pick({3, 1, 1, 1, 1})) {
    default: k = s.below(p.size() + 1); break;
    case 1: k = p.size(); break;
    case 2: k = 0; break;
    case 3: k = p.size() + 1 + s.below(100); break;
    case 4: k = std::min<size_t>(p.size(), 1 + s.below(3)); break;
  }
  s.nontrivial = k > 0 && k < p.size();
  s.note("n=" + std::to_string(p.size()) + " k=" + std::to_string(k));
  auto cmp = [](const V4& a, const V4& b) { return std::lexicographical_compare(a.data(), a.data() + 4, b.data(), b.data() + 4); };
  auto eq = [](const V4& a, const V4& b) { return a == b; };
  PointCloud c(p);
  RNG r1 = rng, r2 = rng;
  auto a = random_sampling(c, k, r1);
  auto check = [&](const Pts& out, size_t kk) {
    PBT_CHECK(out.size() == std::min(kk, p.size()), "asked for " << kk << " of " << p.size() << " points, got " << out.size());
    Pts x = p, y = out;
    std::sort(x.begin(), x.end(), cmp);
    std::sort(y.begin(), y.end(), cmp);
    PBT_CHECK(std::includes(x.begin(), x.end(), y.begin(), y.end(), cmp), "the sample is not a sub-multiset of the input (n=" << p.size() << ", k=" << kk << ")");
  };
  check(a->points, k);
  PBT_CHECK(a->normals.size() == a->points.size() && a->covs.size() == a->points.size(), "attribute arrays differ in length");
  // the result is a function of the generator state; it advances the generator it was given
  auto b = random_sampling(c, k, r2);
  PBT_CHECK(a->points.size() == b->points.size(), "different sizes for the same generator state");
  for (size_t i = 0; i < a->points.size(); i++) PBT_CHECK(a->points[i] == b->points[i], "same generator state, different sample at " << i);
  PBT_CHECK(r1() == r2(), "same generator state, but generators differ after sampling");
  if (s.coin(30)) {
    UserCloud u(p);
    RNG r3 = rng;
    auto uo = random_sampling<UserCloud, PointCloud>(u, k, r3);
    PBT_CHECK(u.bad == 0, "index out of range");
    check(uo->points, k);
    for (size_t i = 0; i < a->points.size(); i++) PBT_CHECK(a->points[i] == uo->points[i], "another cloud type gives a different sample");
  }
  for (size_t i = 0; i < p.size(); i++) PBT_CHECK(c.points[i] == p[i], "input modified");
  // every point and every pair is drawn about as often as any other
  if (unique && k > 0 && k < p.size() && s.coin(20)) {
    size_t N = s.range(2, 8);
    Pts q;
    for (size_t i = 0; i < N; i++) q.push_back(V4(i, 0, 0, 1));
    size_t kk = s.range(1, N);
    PointCloud qc(q);
    const int draws = 1200;
    std::vector<std::vector<int>> cnt(N, std::vector<int>(N, 0));
    RNG r = rng;
    for (int d = 0; d < draws; d++) {
      auto x = random_sampling(qc, kk, r);
      for (auto& v : x->points)
        for (auto& w : x->points) cnt[(int)v[0]][(int)w[0]]++;
    }
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) {
        double pr = i == j ? (double)kk / N : (double)kk * (kk - 1) / (double)(N * (N - 1));
        double sd = std::sqrt(draws * pr * (1 - pr));
        PBT_CHECK(std::abs(cnt[i][j] - draws * pr) <= 9 * sd + 6, "sampling " << kk << " of " << N << ": points " << i << " and " << j << " drawn together " << cnt[i][j] << " of " << draws << " times, expected " << draws * pr);
      }
    s.label("uniformity");
  }
  // ... also in larger clouds: every stretch of the input gets its share, and neighbours in the input do not come together or apart
  if (s.rare(1500)) {
    size_t N = s.one_of<int>({100, 700, 2000, 5000, 1300}) + s.below(200);
    size_t kk = std::max<size_t>(2, N * s.one_of<double>({0.5, 0.02, 0.1, 0.3, 0.7, 0.9, 0.98}));
    PointCloud qc;
    for (size_t i = 0; i < N; i++) qc.points.push_back(V4(i, 0, 0, 1));
    qc.normals.assign(N, V4::Zero()), qc.covs.assign(N, Eigen::Matrix4d::Zero());
    const int draws = std::max<int>(60, 400000 / (int)N / 2), bins = 16;
    std::vector<double> cnt(bins, 0), want(bins, 0);
    for (size_t i = 0; i < N; i++) want[i * bins / N] += draws * (double)kk / N;
    double adjacent = 0;
    RNG r = rng;
    std::vector<char> in;
    for (int d = 0; d < draws; d++) {
      auto x = random_sampling(qc, kk, r);
      in.assign(N + 1, 0);
      for (auto& v : x->points) cnt[(size_t)v[0] * bins / N]++, in[(size_t)v[0]] = 1;
      for (size_t i = 0; i + 1 < N; i++) adjacent += in[i] && in[i + 1];
    }
    std::string what = "sampling " + std::to_string(kk) + " of " + std::to_string(N) + " " + std::to_string(draws) + " times: ";
    double pr = (double)kk / N;
    for (int b = 0; b < bins; b++)
      PBT_CHECK(std::abs(cnt[b] - want[b]) <= 9 * std::sqrt(want[b] * (1 - pr)) + 6, what << "stretch " << b << " of " << bins << " was drawn from " << cnt[b] << " times, expected " << want[b]);
    double ea = draws * (double)kk * (kk - 1) / N;
    PBT_CHECK(std::abs(adjacent - ea) <= 12 * std::sqrt(ea) * (1 - pr * pr) + 30, what << "adjacent points were drawn together " << adjacent << " times, expected " << ea);
    s.label("uniformity:large");
  }
}

PBT_PROPERTY(random_sampling_subset) {
  uint64_t seed = s.seed();
  switch (s.pick({2, 1, 1})) {
    default: sampling_case(s, std::mt19937(seed)); break;
    case 1: sampling_case(s, std::mt19937_64(seed)); break;
    case 2: sampling_case(s, CountingRng{seed}); break;
  }
}
