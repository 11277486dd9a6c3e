#include "voxelmodel.hpp"
#include "knncheck.hpp"

template <typename Map>
static void query(Src& s, const Map& map, const Model& m, const HistoryCfg& cfg, int pattern, bool& hit) {
  V4 q;
  int kind = s.pick({3, 3, 1});
  std::vector<V4> all = traits::voxel_points(map);
  if (kind == 0 && !all.empty())
    q = all[s.below(all.size())] + V4(s.sym(1), s.sym(1), s.sym(1), 0) * m.leaf;
  else if (kind == 1 || all.empty())
    q << cfg.origin + V3(s.sym(1.5), s.sym(1.5), s.sym(1.5)) * (cfg.region + 1) * m.leaf, 1.0;
  else
    q = all[s.below(all.size())];
  q[3] = 1;
  bool exact = cfg.pow2;
  for (int it = 0; it < 20 && m.near_border(q, exact); it++) q.head<3>() += V3::Constant(0.0137 * m.leaf);
  if (m.near_border(q, exact)) return;
  Key c = m.key(q);
  Pts cand;
  for (auto& kv : m.vox) {
    int d[3], l1 = 0, linf = 0;
    for (int i = 0; i < 3; i++) d[i] = std::abs(kv.first[i] - c[i]), l1 += d[i], linf = std::max(linf, d[i]);
    if (pattern == 1 ? linf > 0 : pattern == 7 ? l1 > 1 : linf > 1) continue;
    if (m.gaussian)
      cand.push_back(kv.second.mean());
    else
      for (auto& x : kv.second.pts) cand.push_back(x.p);
  }
  hit = hit || cand.size() > 1;
  size_t k = s.one_of<int>({1, 2, 5, 10, 20, 400});
  int entry = s.below(4);
  if (entry % 2) k = 1;
  knn::Buf b(k);
  size_t num;
  switch (entry) {
    case 1: num = map.nearest_neighbor_search(q, b.i.data(), b.d.data()); break;
    case 3: num = traits::nearest_neighbor_search(map, q, b.i.data(), b.d.data()); break;
    case 2: num = traits::knn_search(map, q, k, b.i.data(), b.d.data()); break;
    default: num = map.knn_search(q, k, b.i.data(), b.d.data()); break;
  }
  b.check_guard();
  auto ref = gen::brute_sq_dists(cand, q, k);
  std::string w = "query " + gen::str(q) + " k=" + std::to_string(k) + " pattern=" + std::to_string(pattern) + " entry=" + std::to_string(entry);
  PBT_CHECK(num == ref.size(), w << ": " << num << " neighbours, expected " << ref.size() << " (" << cand.size() << " stored points in the neighbourhood)");
  auto valid = traits::point_indices(map);
  std::set<size_t> ok(valid.begin(), valid.end()), seen;
  for (size_t i = 0; i < num; i++) {
    PBT_CHECK(ok.count(b.i[i]), w << ": neighbour " << i << " has global index " << b.i[i] << " which is not a stored point");
    PBT_CHECK(seen.insert(b.i[i]).second, w << ": stored point " << b.i[i] << " returned twice");
    V4 p = traits::point(map, b.i[i]);
    double t = gen::sqd(p, q), tol = 1e-9 * (t + 1e-12) + 1e-10 * m.mag * std::sqrt(t) + 1e-20 * m.mag * m.mag;
    PBT_CHECK(std::abs(t - b.d[i]) <= tol, w << ": neighbour " << i << " reported sq. distance " << b.d[i] << ", its point is at " << t);
    PBT_CHECK(std::abs(t - ref[i]) <= tol, w << ": neighbour " << i << " at sq. distance " << t << ", the exact one is " << ref[i]);
    PBT_CHECK(i == 0 || b.d[i - 1] <= b.d[i], w << ": distances not ascending");
  }
}

template <typename Map>
static void run(Src& s, bool gaussian) {
  HistoryCfg cfg;
  Model m = make_model(s, gaussian, cfg);
  Map map(m.leaf);
  configure(s, m, map);
  if constexpr (!std::is_same_v<Map, GaussianVoxelMap>) configure_container(s, m, cfg, map);
  int pattern = 1;  // the default
  int steps = s.range(1, cfg.min_batch > 1 ? 2 : 8);
  bool hit = false;
  std::string patterns;
  for (int i = 0; i < steps; i++) {
    Batch b = step(s, m, cfg);
    feed(s, map, b);
    int changes = s.pick({3, 3, 1});
    for (int j = 0; j < changes; j++) {
      int req = s.one_of<int>({27, 7, 1, 27, 7, 5});
      map.set_search_offsets(req);
      pattern = req == 5 ? 1 : req;
      patterns += std::to_string(req) + ",";
    }
    s.label("pattern:" + std::to_string(pattern));
    int nq = s.range(1, 6);
    for (int j = 0; j < nq; j++) query(s, map, m, cfg, pattern, hit);
  }
  s.note("leaf=" + std::to_string(m.leaf) + " steps=" + std::to_string(steps) + " patterns=" + patterns + " voxels=" + std::to_string(m.vox.size()));
  s.nontrivial = hit;
}

PBT_PROPERTY(voxelmap_search) {
  switch (s.pick({3, 2, 1})) {
    case 0: run<IncrementalVoxelMap<FlatContainerPoints>>(s, false); break;
    case 1: run<GaussianVoxelMap>(s, true); break;
    default: run<IncrementalVoxelMap<FlatContainerNormalCov>>(s, false); break;
  }
}
