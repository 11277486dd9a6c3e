// OpenMP entry points emitted by gcc, on top of minirt.
#include "minirt.hpp"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <memory>
using namespace minirt;

namespace {
std::recursive_mutex* named(void** p) {
  static std::mutex m;
  std::lock_guard<std::mutex> lk(m);
  if (!*p) *p = new std::recursive_mutex;
  return (std::recursive_mutex*)*p;
}
void* g_default_critical = nullptr;
void* g_atomic = nullptr;

void acquire(std::recursive_mutex* m) {
#ifdef MINIRT_SCHED
  while (!m->try_lock()) point();
#else
  m->lock();
#endif
}

Loop* loop_for(Team* t, size_t k) {
  while (t->loops.size() <= k) t->loops.emplace_back();
  return &t->loops[k];
}

bool grab(Loop* l, Team* t, long* is, long* ie) {
  long left = l->incr > 0 ? l->end - l->next : l->next - l->end;
  if (left <= 0) return false;
  long step = std::labs(l->incr);
  long iters = (left + step - 1) / step;
  long c = std::max(1l, l->chunk);
  if (l->guided) c = std::max(c, (iters + t->n - 1) / t->n);
  c = std::min(c, iters);
  *is = l->next;
  l->next += c * l->incr;
  *ie = (c == iters) ? l->end : l->next;
  return true;
}

bool loop_start(bool guided, long start, long end, long incr, long chunk, long* is, long* ie) {
  Ctx& c = ctx();
  point();
  if (!c.team) {
    // orphaned: behave as a team of one (only one such loop at a time per thread)
    if ((incr > 0 && start >= end) || (incr < 0 && start <= end)) return false;
    *is = start;
    *ie = end;
    return true;
  }
#ifndef MINIRT_SCHED
  std::lock_guard<std::mutex> lk(c.team->m);
#endif
  Loop* l = loop_for(c.team, c.loop_count);
  if (!l->active) {
    l->active = true;
    l->next = start;
    l->end = end;
    l->incr = incr;
    l->chunk = chunk;
    l->guided = guided;
  }
  return grab(l, c.team, is, ie);
}
bool loop_next(long* is, long* ie) {
  Ctx& c = ctx();
  point();
  if (!c.team) return false;
#ifndef MINIRT_SCHED
  std::lock_guard<std::mutex> lk(c.team->m);
#endif
  return grab(loop_for(c.team, c.loop_count), c.team, is, ie);
}
void loop_end_nowait() {
  point();
  ctx().loop_count++;
}
void parallel_loop(bool guided, void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk) {
  parallel((int)n, [&] {
    Ctx& c = ctx();
    {
#ifndef MINIRT_SCHED
      std::lock_guard<std::mutex> lk(c.team->m);
#endif
      Loop* l = loop_for(c.team, c.loop_count);
      if (!l->active) {
        l->active = true;
        l->next = start;
        l->end = end;
        l->incr = incr;
        l->chunk = chunk;
        l->guided = guided;
      }
    }
    fn(data);
  });
}
}  // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  parallel((int)n, [&] { fn(data); });
}
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
  Ctx& c = ctx();
  if (!c.team) return true;
  point();
#ifndef MINIRT_SCHED
  std::lock_guard<std::mutex> lk(c.team->m);
#endif
  size_t k = c.single_count++;
  if (c.team->single_taken.size() <= k) c.team->single_taken.resize(k + 1, false);
  if (c.team->single_taken[k]) return false;
  c.team->single_taken[k] = true;
  return true;
}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool if_clause, unsigned, void**, int, void*) {
  size_t al = std::max<long>(align, 16);
  char* raw = (char*)malloc(size + al);
  char* buf = (char*)(((uintptr_t)raw + al - 1) / al * al);
  if (cpyfn)
    cpyfn(buf, data);
  else if (size)
    memcpy(buf, data, size);
  if (!if_clause) {
    // undeferred: gcc passes the data of the encountering task when there is no copy function
    Task* saved = ctx().cur;
    Task* scope = new Task;  // its own children may outlive it: reference counted
    ctx().cur = scope;
    fn(cpyfn ? (void*)buf : data);
    ctx().cur = saved;
    release(scope);
    free(raw);
    return;
  }
  spawn([=] {
    fn(buf);
    free(raw);
  });
}
void GOMP_taskwait() { taskwait(); }
void GOMP_taskyield() { point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { taskwait(); }
void GOMP_critical_start() { acquire(named(&g_default_critical)); }
void GOMP_critical_end() { named(&g_default_critical)->unlock(); }
void GOMP_critical_name_start(void** p) { acquire(named(p)); }
void GOMP_critical_name_end(void** p) { named(p)->unlock(); }
void GOMP_atomic_start() { acquire(named(&g_atomic)); }
void GOMP_atomic_end() { named(&g_atomic)->unlock(); }

#define LOOP(NAME, GUIDED)                                                                                                                                          \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(GUIDED, s, e, i, c, is, ie); }                              \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); }                                                                                    \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { \
    return loop_start(GUIDED, (long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie);                                                                            \
  }                                                                                                                                                                 \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*)is, (long*)ie); }                                      \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { parallel_loop(GUIDED, fn, d, n, s, e, i, c); }
LOOP(static, false)
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#define LOOPR(NAME)                                                                                                                                     \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return loop_start(false, s, e, i, 1, is, ie); }                           \
  bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); }                                                                        \
  bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { \
    return loop_start(false, (long)s, (long)e, (long)i, 1, (long*)is, (long*)ie);                                                                       \
  }                                                                                                                                                     \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*)is, (long*)ie); }                          \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { parallel_loop(false, fn, d, n, s, e, i, 1); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { loop_end_nowait(); }
void GOMP_loop_end() {
  loop_end_nowait();
  barrier();
}

unsigned GOMP_sections_next() {
  long a, b;
  return loop_next(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  return loop_start(false, 1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { parallel_loop(false, fn, d, n, 1, (long)count + 1, 1, 1); }

int omp_get_thread_num() { return ctx().team ? ctx().tid : 0; }
int omp_get_num_threads() { return ctx().team ? ctx().team->n : 1; }
int omp_get_max_threads() { return default_threads(); }
void omp_set_num_threads(int n) { set_default_threads(n); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return ctx().team && ctx().team->n > 1; }
int omp_get_thread_limit() { return 160; }
int omp_get_level() { return ctx().team ? 1 : 0; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct mini_lock {
  void* p;
};
void omp_init_lock(mini_lock* l) { l->p = nullptr; }
void omp_destroy_lock(mini_lock* l) {
  delete (std::recursive_mutex*)l->p;
  l->p = nullptr;
}
void omp_set_lock(mini_lock* l) { acquire(named(&l->p)); }
void omp_unset_lock(mini_lock* l) { named(&l->p)->unlock(); }
int omp_test_lock(mini_lock* l) { return named(&l->p)->try_lock(); }
}
