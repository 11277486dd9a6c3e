#include "voxelmodel.hpp"

template <bool N, bool C>
static void history(Src& s) {
  using Map = IncrementalVoxelMap<FlatContainer<N, C>>;
  HistoryCfg cfg;
  Model m = make_model(s, false, cfg);
  Map map(m.leaf);
  configure(s, m, map);
  configure_container(s, m, cfg, map);
  bool lng = s.coin(8);
  int steps = lng ? s.range(100, 135) : s.range(1, cfg.min_batch > 1 ? 3 : 14);
  if (lng) cfg.min_batch = 1, cfg.max_batch = 3;
  s.note("leaf=" + std::to_string(m.leaf) + " horizon=" + std::to_string(m.horizon) + " cycle=" + std::to_string(m.cycle) + " max=" + std::to_string(m.max_pts) + " min_sq=" + std::to_string(m.min_sq) + " steps=" + std::to_string(steps));
  for (int i = 0; i < steps; i++) {
    if (s.coin(5)) configure_container(s, m, cfg, map);
    age(s, m, map);
    Batch b = step(s, m, cfg);
    feed(s, map, b);
    if (!lng || i % 9 == 0 || i + 1 == steps) compare_flat<Map, N, C>(map, m, "after insertion " + std::to_string(i));
  }
  if (m.evicted) s.label("evicted");
  if (m.rejected) s.label("too-close");
  if (m.full) s.label("voxel-full");
  s.nontrivial = steps >= 2 && m.vox.size() + m.evicted >= 2 && (m.evicted || m.rejected || m.full);
}

PBT_PROPERTY(voxelmap_flat) {
  switch (s.below(4)) {
    case 0: history<true, true>(s); break;
    case 1: history<false, false>(s); break;
    case 2: history<true, false>(s); break;
    default: history<false, true>(s); break;
  }
}
