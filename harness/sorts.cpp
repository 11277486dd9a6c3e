#include <tbb/tbb.h>
#include "sched.hpp"
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
using namespace small_gicp;
using namespace pbt;

struct Item {
  uint64_t key;
  uint64_t id;
};
static bool same(const Item& a, const Item& b) { return a.key == b.key && a.id == b.id; }

#ifdef MINIRT_TSAN
constexpr int kMaxN = 5000;
#else
constexpr int kMaxN = 30000;
#endif

static std::vector<Item> sequence(Src& s, int max_n) {
  size_t n;
  if (s.coin(50)) {
    n = s.one_of<int>({1024, 1023, 1025, 0, 1, 2, 2047, 2048, 2049, 256, 255, 257, 512, 4096, 8, 7, 9});
    s.label("n:border");
  } else {
    n = s.size(0, max_n);
  }
  n = std::min<size_t>(n, max_n);
#ifndef MINIRT
  if (s.rare(2500)) n = s.range(65500, 200000), s.label("n:huge");
#endif
  int kind = s.pick({3, 2, 1, 1, 1, 1, 1});
  static const char* names[] = {"random", "few-distinct", "sorted", "reversed", "equal", "organ-pipe", "nearly-sorted"};
  s.label(names[kind]);
  uint64_t mask = s.one_of<uint64_t>({~0ull, 0xffffull, 0xffull, 0xffffffffull, 0xff00ff00ff00ff00ull});
  Rng r(s.seed());
  std::vector<Item> v(n);
  for (size_t i = 0; i < n; i++) {
    uint64_t k;
    switch (kind) {
      default:
      case 0: k = r.next() & mask; break;
      case 1: k = (r.below(3) * 0x0101010101010101ull) & mask; break;
      case 2: k = i; break;
      case 3: k = n - i; break;
      case 4: k = 42; break;
      case 5: k = i < n / 2 ? i : n - i; break;
      case 6: k = i + (r.below(20) == 0 ? r.below(100) : 0); break;
    }
    v[i] = {k, i};
  }
  s.note("n=" + std::to_string(n) + " " + names[kind]);
  return v;
}

/// `out` is sorted by comp and a permutation of `in` (ids are distinct).
template <typename Comp>
static void check_sorted_permutation(const std::vector<Item>& in, const std::vector<Item>& out, const Comp& comp, const std::string& what) {
  PBT_CHECK(in.size() == out.size(), what << ": size changed");
  std::vector<char> seen(in.size(), 0);
  for (size_t i = 0; i < out.size(); i++) {
    PBT_CHECK(out[i].id < in.size() && same(out[i], in[out[i].id]), what << ": element " << i << " of " << out.size() << " (key " << out[i].key << ", id " << out[i].id << ") is not an input element");
    PBT_CHECK(!seen[out[i].id], what << ": element " << out[i].id << " appears twice");
    seen[out[i].id] = 1;
    PBT_CHECK(i == 0 || !comp(out[i], out[i - 1]), what << ": not sorted at " << i << " of " << out.size() << " (keys " << out[i - 1].key << ", " << out[i].key << ")");
  }
}

PBT_PROPERTY(omp_sorts) {
  auto in = sequence(s, kMaxN);
  int threads = sched::setup(s);
  bool quick = s.coin(50);
  int order = s.pick({3, 1, 1, 1});
  s.label(quick ? "quick" : "merge");
  s.note("threads=" + std::to_string(threads) + (quick ? " quick" : " merge") + " order=" + std::to_string(order));
  s.nontrivial = in.size() >= 1024 && threads > 1;
  auto go = [&](const auto& comp) {
    // guard elements around the range must stay untouched
    // (or the range is a heap block of its own, where the address sanitizer sees every access beyond it)
    size_t pre = s.below(3), post = s.coin(50) ? 3 : 0;
    if (!post) pre = 0;
    std::vector<Item> buf(pre + in.size() + post, Item{0x5a5a, 0xdead});
    std::copy(in.begin(), in.end(), buf.begin() + pre);
    auto b = buf.begin() + pre, e = b + in.size();
    if (quick)
      quick_sort_omp(b, e, comp, threads);
    else
      merge_sort_omp(b, e, comp, threads);
    sched::seed(1, 0);
    for (size_t i = 0; i < buf.size(); i++)
      if (i < pre || i >= pre + in.size()) PBT_CHECK(buf[i].key == 0x5a5a && buf[i].id == 0xdead, "element outside the range modified");
    check_sorted_permutation(in, std::vector<Item>(b, e), comp, quick ? "quick_sort_omp" : "merge_sort_omp");
  };
  if (order == 0)
    go([](const Item& a, const Item& b) {
      sched::point();
      return a.key < b.key;
    });
  else if (order == 1)
    go([](const Item& a, const Item& b) {
      sched::point();
      return a.key > b.key;
    });
  else if (order == 2)
    go([](const Item& a, const Item& b) { return (a.key >> 4) < (b.key >> 4); });
  else
    go([](const Item& a, const Item& b) { return a.key != b.key ? a.key < b.key : a.id > b.id; });
  if (s.coin(10)) {
    // elements owning memory
    size_t n = std::min<size_t>(in.size(), 4000);
    std::vector<std::string> v, w;
    for (size_t i = 0; i < n; i++) v.push_back("a-key-longer-than-the-small-buffer-" + std::to_string(in[i].key));
    w = v;
    if (quick)
      quick_sort_omp(v.begin(), v.end(), std::less<std::string>(), threads);
    else
      merge_sort_omp(v.begin(), v.end(), std::less<std::string>(), threads);
    std::sort(w.begin(), w.end());
    PBT_CHECK(v == w, "sorting strings differs from std::sort");
    s.label("strings");
  }
}

template <typename Key, int bits, int tile>
static void radix_case(Src& s, const std::vector<std::vector<Item>>& seqs, bool reuse) {
  RadixSortBuffers<Item> bufs;
  const auto key = [](const Item& x) {
    sched::point();
    return static_cast<Key>(x.key);
  };
  for (auto& in : seqs) {
    std::vector<Item> v = in;
    bool guard = s.coin(50);
    v.reserve(in.size() + guard);
    if (guard) v.push_back(Item{0x77, 0xbeef});
    v.shrink_to_fit();
    if (reuse)
      radix_sort_tbb<Item, decltype(key), bits, tile>(v.data(), v.data() + in.size(), key, bufs);
    else {
      RadixSortBuffers<Item> fresh;
      radix_sort_tbb<Item, decltype(key), bits, tile>(v.data(), v.data() + in.size(), key, fresh);
    }
    if (guard) {
      PBT_CHECK(v.back().key == 0x77 && v.back().id == 0xbeef, "element past the range modified");
      v.pop_back();
    }
    std::vector<Item> ref = in;
    std::stable_sort(ref.begin(), ref.end(), [](const Item& a, const Item& b) { return static_cast<Key>(a.key) < static_cast<Key>(b.key); });
    for (size_t i = 0; i < ref.size(); i++)
      PBT_CHECK(same(v[i], ref[i]), "radix sort (" << sizeof(Key) * 8 << "-bit keys, " << bits << " bits per step, tile " << tile << ", n=" << in.size() << ") has element (key " << v[i].key << ", id " << v[i].id << ") at " << i << ", a stable sort has (key " << ref[i].key << ", id " << ref[i].id << ")");
  }
}

PBT_PROPERTY(radix_sort) {
  int threads = sched::setup(s);
  sched::TbbThreads lim(threads);
  int calls = s.range(1, 3);
  std::vector<std::vector<Item>> seqs;
  for (int i = 0; i < calls; i++) seqs.push_back(sequence(s, s.one_of<int>({6000, 600})));
  bool reuse = s.coin(70);
  int v = s.pick({2, 2, 2, 2, 1, 1, 1, 1, 1, 2});
  s.label("variant:" + std::to_string(v));
  s.note("variant=" + std::to_string(v) + " threads=" + std::to_string(threads) + (reuse ? " shared buffers" : ""));
  for (auto& q : seqs) s.nontrivial = s.nontrivial || q.size() > 256;
  switch (v) {
    default:
    case 0: radix_case<uint32_t, 8, 256>(s, seqs, reuse); break;
    case 1: radix_case<uint64_t, 8, 256>(s, seqs, reuse); break;
    case 2: radix_case<uint8_t, 8, 256>(s, seqs, reuse); break;
    case 3: radix_case<uint16_t, 8, 256>(s, seqs, reuse); break;
    case 4: radix_case<uint32_t, 4, 256>(s, seqs, reuse); break;
    case 5: radix_case<uint32_t, 11, 64>(s, seqs, reuse); break;
    case 6: radix_case<uint64_t, 5, 1000>(s, seqs, reuse); break;
    case 7: radix_case<uint8_t, 3, 16>(s, seqs, reuse); break;
    case 8: radix_case<uint16_t, 16, 256>(s, seqs, reuse); break;
    case 9: {
      // the overload without buffers, on plain integers
      for (auto& q : seqs) {
        std::vector<uint64_t> a;
        for (auto& x : q) a.push_back(x.key);
        auto b = a;
        std::sort(b.begin(), b.end());
        radix_sort_tbb(a.data(), a.data() + a.size(), [](uint64_t x) { return x; });
        PBT_CHECK(a == b, "radix_sort_tbb of plain integers is not sorted (n=" << a.size() << ")");
      }
    }
  }
}
