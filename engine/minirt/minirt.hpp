// A small work-sharing runtime the harness owns. It implements the OpenMP entry points that
// gcc emits (minigomp.cpp) and the few TBB templates small_gicp uses (tbb/tbb.h), so that
//  * MINIRT_TSAN builds: every synchronisation is visible to ThreadSanitizer, hence a report is
//    a genuine race of the code under test (libgomp / libtbb are not instrumented);
//  * MINIRT_SCHED builds: exactly one thread runs at a time and the next one is chosen by a
//    pseudo-random generator seeded from the test case at every scheduling point, hence an
//    interleaving is a function of the case and replays exactly.
#pragma once
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>

namespace minirt {

struct Task {
  std::function<void()> fn;
  Task* parent = nullptr;
  int children = 0;  // guarded by the team lock
  int group = 0;
  bool finished = false;
  int refs = 1;
};

struct Loop {
  bool active = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool guided = false;
  int done = 0;
};

struct Team {
  int n = 1;
  std::mutex m;
  std::condition_variable cv;
  std::deque<Task*> queue;
  long pending = 0;  // queued or running explicit tasks
  int arrived = 0;   // barrier
  long generation = 0;
  std::vector<bool> single_taken;
  std::deque<Loop> loops;
  int finished = 0;
  void* copyprivate = nullptr;
};

struct Ctx {
  Team* team = nullptr;
  int tid = 0;
  Task* cur = nullptr;
  size_t single_count = 0;
  size_t loop_count = 0;
  int group_children = 0;
};

Ctx& ctx();
/// Seed the schedule of the current case; `yield_permille`: probability of a switch at a scheduling point.
void seed(uint64_t s, int yield_permille);
uint64_t rnd(uint64_t n);
/// A scheduling point (called by the runtime and by harness-provided accessors).
void point();

void parallel(int n, const std::function<void()>& fn);
void barrier();
void spawn(std::function<void()> fn);
void taskwait();
void release(Task* t);
/// Run fns as tasks of the current team and wait for them; outside a team a new one of `threads` is made.
void run_all(std::vector<std::function<void()>> fns);
void set_default_threads(int n);
int default_threads();

}  // namespace minirt
