// Tape based property-testing engine.
//
// A property is `void prop(Src& s)`. Every random choice is drawn from `Src`, which
// records the consumed bytes ("tape"). A tape replays the case exactly; shrinking edits
// the tape (deletes / zeroes / lowers bytes) and re-runs it in a forked child, so that
// crashes, sanitizer aborts and hangs shrink just like failed assertions.
// The same properties are driven by libFuzzer when built with -DPBT_LIBFUZZER.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Discard {};

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

/// Bulk generator seeded from one tape draw (for large arrays that need not shrink element-wise).
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { return splitmix(s); }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return next(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double gauss() {
    double u = unit(), v = unit();
    return std::sqrt(-2.0 * std::log(u + 1e-300)) * std::cos(6.283185307179586 * v);
  }
};

constexpr size_t kMaxTape = 1 << 20;

class Src {
public:
  // generating: bytes come from rng and are recorded. replaying: bytes come from the tape, then zeros.
  const uint8_t* in = nullptr;
  size_t in_len = 0, pos = 0;
  bool generating = false;
  uint64_t rng_state = 0;
  uint8_t* rec = nullptr;     // recording area (kMaxTape bytes, may be shared memory)
  uint64_t* rec_len = nullptr;
  uint64_t own_len = 0;
  bool verbose = false;

  // results of the case
  bool nontrivial = false;
  std::map<std::string, int> labels;
  std::string description;

  uint8_t byte() {
    uint8_t b;
    if (generating) {
      if (*rec_len >= kMaxTape) throw Discard();
      b = (uint8_t)(splitmix(rng_state) >> 56);
      rec[(*rec_len)++] = b;
    } else {
      b = pos < in_len ? in[pos] : 0;
      pos++;
    }
    return b;
  }
  uint64_t bits(int nbytes) {
    uint64_t v = 0;
    for (int i = 0; i < nbytes; i++) v |= (uint64_t)byte() << (8 * i);
    return v;
  }
  /// uniform in [0, n)
  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    int nb = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x1000000 ? 3 : n <= 0x100000000ull ? 4 : 8;
    // one spare byte keeps the modulo bias small without costing shrinkability
    uint64_t v = bits(nb == 1 ? 1 : nb);
    return v % n;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool rare(uint64_t n) { return below(n) == n - 1; }  // one case in n; zero tape -> false
  bool coin(int percent) { return below(100) >= (uint64_t)(100 - percent); }  // zero tape -> false
  double unit() { return bits(4) * (1.0 / 4294967296.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  /// symmetric around 0, simple values (0, +-small ints) preferred by shrinking
  double sym(double a) {
    double sign = coin(50) ? -1 : 1;
    return sign * unit() * a;
  }
  /// log-uniform in [lo, hi]
  double logreal(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
  /// skewed size: small sizes are common, up to hi
  int64_t size(int64_t lo, int64_t hi) {
    uint64_t cls = below(4);
    int64_t span = hi - lo;
    if (cls == 0) return lo + (int64_t)below(std::min<int64_t>(span, 8) + 1);
    if (cls == 1) return lo + (int64_t)below(std::min<int64_t>(span, 64) + 1);
    if (cls == 2) return lo + (int64_t)below(std::max<int64_t>(std::min<int64_t>(span, 64), span / 8) + 1);
    return lo + (int64_t)below(span + 1);
  }
  int pick(std::initializer_list<int> weights) {
    int total = 0;
    for (int w : weights) total += w;
    int64_t r = below(total);
    int i = 0;
    for (int w : weights) {
      if (r < w) return i;
      r -= w;
      i++;
    }
    return 0;
  }
  template <typename T>
  T one_of(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  template <typename T>
  const T& from(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  uint64_t seed() { return bits(8); }

  void label(const std::string& l) { labels[l]++; }
  void trivial_unless(bool c) { nontrivial = nontrivial || c; }
  void note(const std::string& d) {
    if (description.size() < 2000) description += (description.empty() ? "" : "; ") + d;
  }
};

#define PBT_FAIL(...)                                                                    \
  do {                                                                                   \
    std::ostringstream pbt_os_;                                                          \
    pbt_os_ << std::setprecision(17) << __VA_ARGS__;                                     \
    throw pbt::Failure(pbt_os_.str());                                                   \
  } while (0)
#define PBT_CHECK(cond, ...)                                                             \
  do {                                                                                   \
    if (!(cond)) PBT_FAIL("[" #cond "] " << __VA_ARGS__);                                \
  } while (0)

/// A recorded defect showed its exact symptom: counted if known_findings.txt lists `key` for this property, a failure otherwise.
inline void known_finding(Src& s, const std::string& key, const std::string& msg) {
  const char* list = getenv("PBT_KNOWN");
  if (!list || (std::string(",") + list + ",").find("," + key + ",") == std::string::npos) throw Failure("[" + key + "] " + msg);
  s.label("known:" + key);
}

using Prop = std::function<void(Src&)>;
inline std::map<std::string, Prop>& registry() {
  static std::map<std::string, Prop> r;
  return r;
}
struct Registrar {
  Registrar(const char* name, Prop p) { registry()[name] = std::move(p); }
};
#define PBT_PROPERTY(name)                                          \
  static void prop_##name(pbt::Src& s);                             \
  static pbt::Registrar registrar_##name(#name, prop_##name);       \
  static void prop_##name(pbt::Src& s)

inline uint64_t hash_bytes(const uint8_t* p, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
  uint64_t x = h;
  return splitmix(x);
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes((const uint8_t*)s.data(), s.size()); }

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

enum { kPass = 0, kFail = 1, kDiscard = 2 };

/// With PBT_CRASH_ONLY a stage decides memory safety alone: only sanitizer reports, signals and hangs count, not the results.
inline bool crash_only() {
  static const bool on = getenv("PBT_CRASH_ONLY") != nullptr;
  return on;
}

inline int run_case(const Prop& p, Src& s, std::string& msg) {
  try {
    p(s);
    return kPass;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const Failure& f) {
    if (crash_only()) return kDiscard;
    msg = f.what();
    return kFail;
  } catch (const std::exception& e) {
    if (crash_only()) return kDiscard;
    msg = std::string("unexpected exception: ") + e.what();
    return kFail;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return kFail;
  }
}

inline std::vector<uint8_t> read_file(const std::string& path) {
  std::vector<uint8_t> v;
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) {
    fprintf(stderr, "cannot open %s\n", path.c_str());
    _exit(3);
  }
  uint8_t buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) v.insert(v.end(), buf, buf + n);
  fclose(f);
  return v;
}
inline void write_file(const std::string& path, const uint8_t* p, size_t n) {
  FILE* f = fopen((path + ".tmp").c_str(), "wb");
  if (f) {
    if (n && fwrite(p, 1, n, f) != n) perror("write");
    fclose(f);
    rename((path + ".tmp").c_str(), path.c_str());
  }
}

/// Execute a tape in a forked child. Returns true if it fails (assertion, signal, sanitizer exit, hang).
struct ForkResult {
  bool failed = false, hang = false;
  int status = 0;
  std::string msg;
};
inline ForkResult run_forked(const Prop& p, const std::vector<uint8_t>& tape, int timeout_s) {
  ForkResult r;
  int fds[2];
  if (pipe(fds)) _exit(3);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 2);
    dup2(devnull, 1);
    Src s;
    s.in = tape.data();
    s.in_len = tape.size();
    std::string msg;
    int rc = run_case(p, s, msg);
    if (rc == kFail && !msg.empty()) (void)!write(fds[1], msg.data(), std::min<size_t>(msg.size(), 4000));
    _exit(rc == kFail ? 1 : 0);
  }
  close(fds[1]);
  auto t0 = std::chrono::steady_clock::now();
  char buf[4096];
  bool done = false;
  while (!done) {
    double left = timeout_s - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (left <= 0) break;
    struct pollfd pf = {fds[0], POLLIN, 0};
    int k = poll(&pf, 1, (int)(left * 1000) + 1);
    if (k > 0) {
      ssize_t n = read(fds[0], buf, sizeof buf);
      if (n <= 0)
        done = true;
      else
        r.msg.append(buf, n);
    }
  }
  if (!done) {
    kill(pid, SIGKILL);
    r.hang = true;
  }
  close(fds[0]);
  waitpid(pid, &r.status, 0);
  if (r.hang) {
    r.failed = true;
    r.msg = "hang: case did not terminate within " + std::to_string(timeout_s) + " s";
  } else if (WIFSIGNALED(r.status)) {
    r.failed = true;
    r.msg = std::string("killed by signal ") + strsignal(WTERMSIG(r.status));
  } else if (WEXITSTATUS(r.status) != 0) {
    r.failed = true;
    if (r.msg.empty()) r.msg = "exit status " + std::to_string(WEXITSTATUS(r.status)) + " (sanitizer report or abort)";
  }
  return r;
}

inline std::vector<uint8_t> shrink(const Prop& p, std::vector<uint8_t> best, double budget_s, int case_timeout, int tries_per, long& execs) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return budget_s - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::set<uint64_t> seen;
  auto fails = [&](const std::vector<uint8_t>& c) {
    uint64_t h = hash_bytes(c.data(), c.size()) ^ c.size();
    if (!seen.insert(h).second) return false;
    for (int i = 0; i < tries_per && left() > 0; i++) {
      execs++;
      if (run_forked(p, c, case_timeout).failed) return true;
    }
    return false;
  };
  // strip trailing zeros: reading past the end yields zeros anyway
  auto strip = [](std::vector<uint8_t>& v) {
    while (!v.empty() && v.back() == 0) v.pop_back();
  };
  strip(best);
  bool improved = true;
  while (improved && left() > 0) {
    improved = false;
    // truncate
    for (size_t keep : {best.size() / 8, best.size() / 4, best.size() / 2, best.size() * 3 / 4, best.size() > 0 ? best.size() - 1 : 0}) {
      if (keep >= best.size() || left() <= 0) continue;
      std::vector<uint8_t> c(best.begin(), best.begin() + keep);
      strip(c);
      if (fails(c)) {
        best = c;
        improved = true;
        break;
      }
    }
    // delete / zero chunks
    for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && left() > 0; chunk /= 2) {
      for (size_t at = 0; at < best.size() && left() > 0;) {
        size_t end = std::min(best.size(), at + chunk);
        std::vector<uint8_t> c(best.begin(), best.begin() + at);
        c.insert(c.end(), best.begin() + end, best.end());
        strip(c);
        if (c.size() < best.size() && fails(c)) {
          best = c;
          improved = true;
          continue;
        }
        bool allzero = true;
        for (size_t i = at; i < end; i++) allzero = allzero && best[i] == 0;
        if (!allzero) {
          c = best;
          std::fill(c.begin() + at, c.begin() + end, 0);
          strip(c);
          if (fails(c)) {
            best = c;
            improved = true;
          }
        }
        at = end;
      }
      if (chunk == 1) break;
    }
    // lower single bytes
    for (size_t i = 0; i < best.size() && best.size() <= 4096 && left() > 0; i++) {
      if (best[i] == 0) continue;
      int lo = 0, hi = best[i];
      while (lo < hi - 1 && left() > 0) {
        int mid = (lo + hi) / 2;
        auto c = best;
        c[i] = mid;
        if (fails(c)) {
          hi = mid;
          best = c;
          improved = true;
        } else
          lo = mid;
      }
    }
  }
  return best;
}

inline const char* arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 0; i + 1 < argc; i++)
    if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}

struct CurHeader {
  uint64_t case_index;
  uint64_t len;
  uint64_t done;
};

inline int main_impl(int argc, char** argv) {
  if (argc < 2 || !strcmp(argv[1], "list")) {
    for (auto& kv : registry()) printf("%s\n", kv.first.c_str());
    return 0;
  }
  std::string cmd = argv[1], name = argc > 2 ? argv[2] : "";
  auto it = registry().find(name);
  if (it == registry().end()) {
    fprintf(stderr, "no such property: %s\n", name.c_str());
    return 3;
  }
  const Prop& p = it->second;
  setvbuf(stdout, nullptr, _IOLBF, 0);

  if (cmd == "replay") {
    auto tape = read_file(argv[3]);
    Src s;
    s.verbose = true;
    s.in = tape.data();
    s.in_len = tape.size();
    std::string msg;
    int rc = run_case(p, s, msg);
    printf("case: %s\n", s.description.c_str());
    printf(rc == kFail ? "FAIL: %s\n" : rc == kDiscard ? "DISCARDED %s\n" : "pass %s\n", msg.c_str());
    fflush(stdout);
    _exit(rc == kFail ? 1 : 0);
  }
  if (cmd == "shrink") {
    auto tape = read_file(argv[3]);
    double budget = atof(arg(argc, argv, "--budget", "60"));
    int timeout = atoi(arg(argc, argv, "--case-timeout", "60"));
    int tries = atoi(arg(argc, argv, "--tries", "1"));
    long execs = 0;
    size_t before = tape.size();
    auto best = shrink(p, tape, budget, timeout, tries, execs);
    write_file(argv[4], best.data(), best.size());
    printf("shrunk %zu -> %zu bytes in %ld executions\n", before, best.size(), execs);
    return 0;
  }
  if (cmd == "run") {
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    uint64_t start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10);
    uint64_t stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
    uint64_t count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    double deadline = atof(arg(argc, argv, "--deadline", "1e9"));
    std::string out = arg(argc, argv, "--out", "/tmp/pbt");
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(CurHeader) + kMaxTape)) return 3;
    uint8_t* m = (uint8_t*)mmap(nullptr, sizeof(CurHeader) + kMaxTape, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 3;
    auto* h = (CurHeader*)m;
    auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    std::vector<uint64_t> hashes;
    long evals = 0, discards = 0;
    bool timed_out = false;
    int rc_final = 0;
    const uint64_t phash = hash_str(name);
    for (uint64_t i = start; i < count; i += stride) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) {
        timed_out = true;
        break;
      }
      Src s;
      s.generating = true;
      uint64_t mix = seed * 0x9E3779B97F4A7C15ull ^ phash ^ (i * 0xD1342543DE82EF95ull);
      s.rng_state = splitmix(mix);
      s.rec = m + sizeof(CurHeader);
      s.rec_len = &h->len;
      h->len = 0;
      h->case_index = i;
      h->done = 0;
      std::string msg;
      int rc = run_case(p, s, msg);
      if (rc == kFail) {
        write_file(out + ".tape", s.rec, h->len);
        write_file(out + ".msg", (const uint8_t*)msg.data(), msg.size());
        rc_final = 1;
        evals++;
        break;
      }
      h->done = 1;
      if (rc == kDiscard) {
        discards++;
        continue;
      }
      evals++;
      for (auto& kv : s.labels) labels[kv.first] += 1;
      if (s.nontrivial) {
        if (hashes.size() < 500000) hashes.push_back(hash_bytes(s.rec, h->len));  // the reported number of distinct cases is a lower bound
        if (samples.size() < 3 && !s.description.empty()) samples.push_back(s.description);
      }
    }
    std::ostringstream os;
    os << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"timed_out\":" << (timed_out ? "true" : "false") << ",\"labels\":{";
    bool first = true;
    for (auto& kv : labels) {
      os << (first ? "" : ",") << "\"" << json_escape(kv.first) << "\":" << kv.second;
      first = false;
    }
    os << "},\"samples\":[";
    first = true;
    for (auto& x : samples) {
      os << (first ? "" : ",") << "\"" << json_escape(x) << "\"";
      first = false;
    }
    os << "],\"hashes\":[";
    first = true;
    for (auto x : hashes) {
      os << (first ? "" : ",") << "\"" << std::hex << x << std::dec << "\"";
      first = false;
    }
    os << "]}";
    std::string js = os.str();
    write_file(out + ".json", (const uint8_t*)js.data(), js.size());
    fflush(stdout);
    _exit(rc_final);
  }
  fprintf(stderr, "unknown command\n");
  return 3;
}

}  // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const pbt::Prop& p = pbt::registry().at(getenv("PBT_PROP"));
  pbt::Src s;
  s.in = data;
  s.in_len = size;
  std::string msg;
  if (pbt::run_case(p, s, msg) == pbt::kFail) {
    fprintf(stderr, "FAIL: %s\n", msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
#endif
