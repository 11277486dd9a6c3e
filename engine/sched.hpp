// Schedule perturbation for parallel code: a user-defined point cloud whose accessors are
// scheduling points, and helpers to seed / size the runtime of the current build.
#pragma once
#include <atomic>
#include <thread>
#include "gen.hpp"
#ifdef MINIRT
#include "minirt/minirt.hpp"
#endif
#ifndef NO_TBB_CONTROL
#ifndef MINIRT
#include <tbb/global_control.h>
#endif
#endif

namespace sched {
inline std::atomic<uint64_t> g_noise{0};
inline std::atomic<int> g_permille{0};

inline void seed(uint64_t s, int permille) {
#ifdef MINIRT
  minirt::seed(s, permille);
#endif
  g_noise = s;
  g_permille = permille;
}
/// scheduling point inside user callbacks
inline void point() {
#ifdef MINIRT
  minirt::point();
#else
  if (g_permille.load(std::memory_order_relaxed) == 0) return;
  thread_local uint64_t st = 0;
  if (!st) st = g_noise.load(std::memory_order_relaxed) + std::hash<std::thread::id>()(std::this_thread::get_id());
  uint64_t r = pbt::splitmix(st);
  if ((int)(r % 1000) < g_permille.load(std::memory_order_relaxed)) {
    if (r & 0x10000)
      std::this_thread::yield();
    else
      for (volatile int i = 0; i < (int)((r >> 20) & 255); i++) {
      }
  }
#endif
}
/// Draws a schedule for this case. Returns the thread count to use for OpenMP calls.
inline int setup(pbt::Src& s) {
  int threads = s.coin(3) ? s.one_of<int>({17, 33, 65, 130}) : s.one_of<int>({4, 1, 2, 3, 5, 8, 16});
  int permille = s.one_of<int>({0, 2, 20, 200});
  seed(s.seed() | 1, permille);
#ifdef MINIRT
  minirt::set_default_threads(threads);
#endif
  s.label("threads:" + std::to_string(threads));
  return threads;
}
/// Limits TBB's parallelism for a scope (no effect on the harness's own runtime, which uses setup()'s count).
struct TbbThreads {
#if !defined(MINIRT) && !defined(NO_TBB_CONTROL)
  tbb::global_control c;
  explicit TbbThreads(int n) : c(tbb::global_control::max_allowed_parallelism, n) {}
#else
  explicit TbbThreads(int) {}
#endif
};
}  // namespace sched
