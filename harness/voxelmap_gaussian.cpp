#include "voxelmodel.hpp"

PBT_PROPERTY(voxelmap_gaussian) {
  HistoryCfg cfg;
  Model m = make_model(s, true, cfg);
  GaussianVoxelMap map(m.leaf);
  configure(s, m, map);
  bool lng = s.coin(8);
  int steps = lng ? s.range(100, 135) : s.range(1, cfg.min_batch > 1 ? 3 : 14);
  if (lng) cfg.min_batch = 1, cfg.max_batch = 3;
  s.note("leaf=" + std::to_string(m.leaf) + " horizon=" + std::to_string(m.horizon) + " cycle=" + std::to_string(m.cycle) + " steps=" + std::to_string(steps));
  long several = 0;
  for (int i = 0; i < steps; i++) {
    age(s, m, map);
    Batch b = step(s, m, cfg);
    feed(s, map, b);
    if (!lng || i % 9 == 0 || i + 1 == steps) compare_gaussian(map, m, "after insertion " + std::to_string(i));
    for (auto& kv : m.vox) several += kv.second.count > 1;
  }
  if (m.evicted) s.label("evicted");
  s.nontrivial = steps >= 2 && several > 0;
}
