#include "minirt.hpp"
#include <sched.h>
#include <atomic>
#include <cstdlib>

namespace minirt {

namespace {
thread_local Ctx tls;
int g_threads = 4;
int g_yield = 30;

#ifdef MINIRT_SCHED
// ---- one-thread-at-a-time scheduler
struct Slot {
  std::condition_variable cv;
  bool alive = true;
};
std::mutex g_m;
std::vector<Slot*> g_slots;
Slot* g_running = nullptr;
uint64_t g_state = 1;
thread_local Slot* my_slot = nullptr;

uint64_t draw() {
  uint64_t z = (g_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void give_to(std::unique_lock<std::mutex>& lk, Slot* s) {
  g_running = s;
  s->cv.notify_one();
}
void switch_away() {
  std::unique_lock<std::mutex> lk(g_m);
  if (g_slots.size() <= 1 || !my_slot) return;
  Slot* s = g_slots[draw() % g_slots.size()];
  if (s == my_slot) return;
  give_to(lk, s);
  my_slot->cv.wait(lk, [] { return g_running == my_slot; });
}
#else
std::atomic<uint64_t> g_seed{1};
thread_local uint64_t t_state = 0;
uint64_t draw() {
  if (!t_state) t_state = g_seed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull + (uint64_t)(uintptr_t)&t_state;
  uint64_t z = (t_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  return z ^ (z >> 31);
}
#endif

struct Lock {
#ifdef MINIRT_SCHED
  explicit Lock(Team* t) : t(t) {}
  template <typename P>
  void wait(P pred) {
    while (!pred()) switch_away();
  }
  void notify() {}
  Team* t;
#else
  explicit Lock(Team* t) : t(t), lk(t->m) {}
  template <typename P>
  void wait(P pred) {
    t->cv.wait(lk, pred);
  }
  void notify() { t->cv.notify_all(); }
  Team* t;
  std::unique_lock<std::mutex> lk;
#endif
};

void unref(Task* t) {
  if (--t->refs == 0) delete t;
}

// runs one queued task if there is one; lock not held on entry or exit
bool run_one(Team* team) {
  Task* t = nullptr;
  {
    Lock l(team);
    if (team->queue.empty()) return false;
    size_t i = draw() % team->queue.size();
    t = team->queue[i];
    team->queue.erase(team->queue.begin() + i);
  }
  Task* saved = tls.cur;
  tls.cur = t;
  t->fn();
  t->fn = nullptr;
  tls.cur = saved;
  {
    Lock l(team);
    team->pending--;
    t->finished = true;
    if (t->parent) {
      t->parent->children--;
      unref(t->parent);
    }
    unref(t);
    l.notify();
  }
  point();
  return true;
}

}  // namespace

Ctx& ctx() { return tls; }
void set_default_threads(int n) { g_threads = n; }
int default_threads() { return g_threads; }

void seed(uint64_t s, int yield_permille) {
#ifdef MINIRT_SCHED
  g_state = s;
#else
  g_seed = s;
  t_state = 0;
#endif
  g_yield = yield_permille;
}
uint64_t rnd(uint64_t n) { return draw() % n; }

void point() {
#ifdef MINIRT_SCHED
  if (!my_slot) return;
  if ((int)(draw() % 1000) < g_yield) switch_away();
#else
  if ((int)(draw() % 1000) < g_yield) sched_yield();
#endif
}

void barrier() {
  Team* team = tls.team;
  if (!team || team->n == 1) {
    if (team)
      while (run_one(team)) {
      }
    return;
  }
  long gen;
  {
    Lock l(team);
    gen = team->generation;
    if (++team->arrived == team->n) {
    }
  }
  for (;;) {
    if (run_one(team)) continue;
    Lock l(team);
    if (team->generation != gen) return;
    if (team->arrived == team->n && team->pending == 0) {
      team->arrived = 0;
      team->generation++;
      l.notify();
      return;
    }
    l.wait([&] { return team->generation != gen || !team->queue.empty() || (team->arrived == team->n && team->pending == 0); });
  }
}

void parallel(int n, const std::function<void()>& fn) {
  if (n <= 0) n = g_threads;
  if (n > 160) n = 160;
  if (tls.team) n = 1;  // nested regions are serialised
  Team team;
  team.n = n;
  Ctx saved = tls;
  auto body = [&](int tid) {
    tls = Ctx();
    tls.team = &team;
    tls.tid = tid;
    Task* implicit = new Task;
    tls.cur = implicit;
    point();
    fn();
    barrier();
    unref(implicit);
  };
  std::vector<std::thread> th;
#ifdef MINIRT_SCHED
  Slot main_slot;
  bool own = false;
  if (!my_slot) {
    my_slot = &main_slot;
    g_slots.push_back(my_slot);
    g_running = my_slot;
    own = true;
  }
  std::vector<Slot*> slots;
  for (int i = 1; i < n; i++) {
    Slot* s = new Slot;
    {
      std::unique_lock<std::mutex> lk(g_m);
      g_slots.push_back(s);
    }
    slots.push_back(s);
  }
  for (int i = 1; i < n; i++) {
    Slot* s = slots[i - 1];
    th.emplace_back([&, i, s] {
      my_slot = s;
      {
        std::unique_lock<std::mutex> lk(g_m);
        s->cv.wait(lk, [&] { return g_running == s; });
      }
      body(i);
      team.finished++;
      std::unique_lock<std::mutex> lk(g_m);
      for (size_t k = 0; k < g_slots.size(); k++)
        if (g_slots[k] == s) {
          g_slots.erase(g_slots.begin() + k);
          break;
        }
      my_slot = nullptr;
      give_to(lk, g_slots[draw() % g_slots.size()]);
    });
  }
  body(0);
  while (team.finished < n - 1) switch_away();
  for (auto& t : th) t.join();
  for (auto* s : slots) delete s;
  if (own) {
    g_slots.clear();
    g_running = nullptr;
    my_slot = nullptr;
  }
#else
  for (int i = 1; i < n; i++) th.emplace_back([&, i] { body(i); });
  body(0);
  for (auto& t : th) t.join();
#endif
  tls = saved;
}

void spawn(std::function<void()> fn) {
  Team* team = tls.team;
  if (!team || (team->n == 1 && rnd(2))) {
    fn();
    return;
  }
  Task* t = new Task;
  t->fn = std::move(fn);
  {
    Lock l(team);
    t->parent = tls.cur;
    if (t->parent) {
      t->parent->children++;
      t->parent->refs++;
    }
    team->pending++;
    team->queue.push_back(t);
    l.notify();
  }
  point();
}

void taskwait() {
  Team* team = tls.team;
  if (!team || !tls.cur) return;
  Task* me = tls.cur;
  for (;;) {
    {
      Lock l(team);
      if (me->children == 0) return;
    }
    if (run_one(team)) continue;
    Lock l(team);
    l.wait([&] { return me->children == 0 || !team->queue.empty(); });
  }
}

void release(Task* t) {
  if (!tls.team) return unref(t);
  Lock l(tls.team);
  unref(t);
}

void run_all(std::vector<std::function<void()>> fns) {
  if (!tls.team) {
    int n = g_threads;
    parallel(n, [&] {
      if (tls.tid == 0) run_all(std::move(fns));
    });
    return;
  }
  // the calling task waits for exactly these children: use a fresh scope task as parent
  Task* scope = new Task;
  Task* saved = tls.cur;
  tls.cur = scope;
  for (size_t i = 1; i < fns.size(); i++) spawn(fns[i]);
  if (!fns.empty()) fns[0]();
  taskwait();
  tls.cur = saved;
  Lock l(tls.team);
  unref(scope);
}

}  // namespace minirt
