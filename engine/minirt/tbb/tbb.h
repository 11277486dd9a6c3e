// Stand-in for the parts of TBB small_gicp uses, on top of minirt (see minirt.hpp).
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include <map>
#include "../minirt.hpp"

namespace tbb {
struct split {};

template <typename Value>
class blocked_range {
public:
  using const_iterator = Value;
  using size_type = size_t;
  blocked_range(Value b, Value e, size_type g = 1) : e_(e), b_(b), g_(g ? g : 1) {}
  blocked_range(blocked_range& r, split) : e_(r.e_), b_(r.b_ + (r.e_ - r.b_) / 2u), g_(r.g_) { r.e_ = b_; }
  const_iterator begin() const { return b_; }
  const_iterator end() const { return e_; }
  size_type size() const { return size_type(e_ - b_); }
  size_type grainsize() const { return g_; }
  bool empty() const { return !(b_ < e_); }
  bool is_divisible() const { return g_ < size(); }

private:
  Value e_, b_;
  size_type g_;
};

struct simple_partitioner {};
struct auto_partitioner {};
struct static_partitioner {};
struct affinity_partitioner {};

namespace detail_mini {
template <typename Range, typename Body>
void pfor(Range r, const Body& body, int depth = 0) {
  minirt::point();
  // auto_partitioner may stop splitting early
  if (r.is_divisible() && depth < 7 && minirt::rnd(8) != 0) {
    Range right(r, split());
    minirt::run_all({[&] { pfor(r, body, depth + 1); }, [&] { pfor(right, body, depth + 1); }});
  } else if (!r.empty()) {
    body(r);
  }
}
template <typename Range, typename Body>
void preduce(Range r, Body& body, int depth = 0) {
  minirt::point();
  if (r.is_divisible() && depth < 7 && minirt::rnd(8) != 0) {
    Range right(r, split());
    if (minirt::rnd(2)) {  // right half stolen: its own body, joined afterwards
      Body other(body, split());
      minirt::run_all({[&] { preduce(r, body, depth + 1); }, [&] { preduce(right, other, depth + 1); }});
      body.join(other);
    } else {
      preduce(r, body, depth + 1);
      preduce(right, body, depth + 1);
    }
  } else if (!r.empty()) {
    body(r);
  }
}
template <typename Range, typename T, typename F, typename R>
T pfold(Range r, const T& id, const F& f, const R& red, int depth = 0) {
  minirt::point();
  if (r.is_divisible() && depth < 7 && minirt::rnd(8) != 0) {
    Range right(r, split());
    T a = id, b = id;
    minirt::run_all({[&] { a = pfold(r, id, f, red, depth + 1); }, [&] { b = pfold(right, id, f, red, depth + 1); }});
    return red(a, b);
  }
  return r.empty() ? id : f(r, id);
}
template <typename It, typename Cmp>
void psort(It a, It b, const Cmp& c) {
  minirt::point();
  if (b - a > 500) {
    It m = a + (b - a) / 2;
    std::nth_element(a, m, b, c);
    minirt::run_all({[&] { psort(a, m, c); }, [&] { psort(m, b, c); }});
  } else {
    std::sort(a, b, c);
  }
}
template <typename F>
void in_team(const F& f) {
  if (minirt::ctx().team)
    f();
  else
    minirt::run_all({std::function<void()>(f)});
}
}  // namespace detail_mini

template <typename Range, typename Body>
void parallel_for(const Range& r, const Body& body) {
  detail_mini::in_team([&] { detail_mini::pfor(r, body); });
}
template <typename Range, typename Body, typename Part, typename = decltype(std::declval<Range>().is_divisible())>
void parallel_for(const Range& r, const Body& body, Part&&) {
  parallel_for(r, body);
}
template <typename Index, typename F, typename = std::enable_if_t<std::is_integral_v<Index>>>
void parallel_for(Index a, Index b, const F& f) {
  parallel_for(blocked_range<Index>(a, b), [&](const blocked_range<Index>& r) {
    for (Index i = r.begin(); i != r.end(); ++i) f(i);
  });
}
template <typename Range, typename Body>
void parallel_reduce(const Range& r, Body& body) {
  detail_mini::in_team([&] { detail_mini::preduce(r, body); });
}
template <typename Range, typename T, typename F, typename R>
T parallel_reduce(const Range& r, const T& id, const F& f, const R& red) {
  T out = id;
  detail_mini::in_team([&] { out = detail_mini::pfold(r, id, f, red); });
  return out;
}
template <typename Range, typename Body>
void parallel_deterministic_reduce(const Range& r, Body& body) {
  parallel_reduce(r, body);
}
template <typename... F>
void parallel_invoke(F&&... f) {
  detail_mini::in_team([&] { minirt::run_all({std::function<void()>([&] { f(); })...}); });
}
template <typename It, typename Cmp>
void parallel_sort(It a, It b, const Cmp& c) {
  detail_mini::in_team([&] { detail_mini::psort(a, b, c); });
}
template <typename It, typename = decltype(*std::declval<It>())>
void parallel_sort(It a, It b) {
  parallel_sort(a, b, std::less<>());
}
template <typename Container, typename Cmp, typename = decltype(std::declval<Container&>().begin())>
void parallel_sort(Container& v, const Cmp& c) {
  parallel_sort(std::begin(v), std::end(v), c);
}

class spin_mutex : public std::mutex {
public:
  using scoped_lock = std::unique_lock<std::mutex>;
};

template <typename T>
class enumerable_thread_specific {
public:
  enumerable_thread_specific() : init_([] { return T(); }) {}
  template <typename F, typename = decltype(std::declval<F>()())>
  explicit enumerable_thread_specific(F f) : init_(f) {}
  explicit enumerable_thread_specific(const T& v) : init_([v] { return v; }) {}
  T& local() {
    std::lock_guard<std::mutex> lk(m_);
    auto& p = v_[std::this_thread::get_id()];
    if (!p) {
      p = std::make_unique<T>(init_());
      order_.push_back(p.get());
    }
    return *p;
  }
  template <typename F>
  void combine_each(F f) {
    for (auto* p : order_) f(*p);
  }
  template <typename F>
  T combine(F f) {
    if (order_.empty()) return init_();
    T a = *order_[0];
    for (size_t i = 1; i < order_.size(); i++) a = f(a, *order_[i]);
    return a;
  }
  size_t size() const { return order_.size(); }

private:
  std::function<T()> init_;
  std::mutex m_;
  std::map<std::thread::id, std::unique_ptr<T>> v_;
  std::vector<T*> order_;
};
template <typename T>
using combinable = enumerable_thread_specific<T>;

class global_control {
public:
  enum parameter { max_allowed_parallelism, thread_stack_size };
  global_control(parameter, size_t) {}
};
class task_group {
public:
  template <typename F>
  void run(F f) {
    fns_.push_back(f);
  }
  void wait() {
    auto f = std::move(fns_);
    fns_.clear();
    detail_mini::in_team([&] { minirt::run_all(f); });
  }

private:
  std::vector<std::function<void()>> fns_;
};
}  // namespace tbb
namespace oneapi {
namespace tbb = ::tbb;
}
