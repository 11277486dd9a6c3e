// C25: point file IO against a model of the file contents. Everything stays in a scratch directory per case.
#include <string>
#include <sstream>
#include <fstream>
#include <vector>
#include <algorithm>
#include <Eigen/Core>
#include <small_gicp/benchmark/read_points.hpp>
#include "pbt.hpp"
using namespace small_gicp;
using namespace pbt;

struct Scratch {
  std::string dir;
  std::vector<std::string> files;
  Scratch() {
    char t[] = "/tmp/pbt_io.XXXXXX";
    if (!mkdtemp(t)) _exit(3);
    dir = t;
  }
  std::string file(const std::string& name) {
    files.push_back(dir + "/" + name);
    return files.back();
  }
  ~Scratch() {
    for (auto& f : files) unlink(f.c_str());
    rmdir(dir.c_str());
  }
};

static std::string slurp(const std::string& f) {
  std::ifstream ifs(f, std::ios::binary);
  std::stringstream ss;
  ss << ifs.rdbuf();
  return ss.str();
}
static void spit(const std::string& f, const std::string& d) {
  std::ofstream ofs(f, std::ios::binary);
  ofs.write(d.data(), d.size());
}

using F4 = Eigen::Vector4f;

static float some_float(Rng& r, int mode) {
  uint32_t b = r.next();
  float f;
  switch (mode) {
    case 0: return (float)r.real(-100, 100);
    case 1: return (float)((int)r.below(7) - 3);
    default: memcpy(&f, &b, 4); return f;  // any bit pattern, NaN and infinities included
    case 3: b = 0x0a0a0a0a; memcpy(&f, &b, 4); return r.below(2) ? f : (float)r.below(20);  // newline and control bytes
  }
}
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0; }

PBT_PROPERTY(point_files) {
  Scratch tmp;
  int rounds = 1 + s.below(3);
  std::string path = tmp.file("points.bin");
  Rng r(s.seed());
  for (int round = 0; round < rounds; round++) {
    size_t n = s.pick({6, 1}) == 0 ? s.size(0, 300) : s.size(0, s.coin(10) ? 60000 : 5000);
    int mode = s.below(4);
    bool any_w = s.coin(40);
    std::vector<F4> pts(n);
    for (auto& p : pts) p = F4(some_float(r, mode), some_float(r, mode), some_float(r, mode), any_w ? some_float(r, 0) : 1.0f);
    std::vector<F4> copy = pts;
    write_points(path, pts);  // overwrites what the previous round left
    PBT_CHECK(n == 0 || memcmp(copy.data(), pts.data(), n * sizeof(F4)) == 0, "write_points modified its input");
    auto compare = [&](const std::vector<F4>& got, size_t want, const char* what) {
      PBT_CHECK(got.size() == want, what << ": " << got.size() << " points, expected " << want << " (wrote " << n << ", round " << round << ")");
      for (size_t i = 0; i < want; i++) {
        for (int j = 0; j < 3; j++) PBT_CHECK(same(got[i][j], pts[i][j]), what << ": point " << i << " of " << want << " component " << j << " is " << got[i][j] << ", wrote " << pts[i][j]);
        PBT_CHECK(got[i][3] == 1.0f, what << ": point " << i << " has homogeneous coordinate " << got[i][3]);
      }
    };
    compare(read_points(path), n, "round trip");
    std::string bytes = slurp(path);
    PBT_CHECK(bytes.size() == 16 * n, "file has " << bytes.size() << " bytes for " << n << " points");
    if (n) PBT_CHECK(memcmp(bytes.data(), pts.data(), bytes.size()) == 0, "the file is not a float4 array");
    if (s.coin(50)) {  // the file as another program left it: truncated anywhere
      size_t cut = s.below(bytes.size() + 1);
      if (s.coin(30)) cut = bytes.size() - std::min<size_t>(bytes.size(), s.below(17));
      spit(path, bytes.substr(0, cut));
      compare(read_points(path), cut / 16, "truncated file");
      s.label(cut % 16 ? "truncated inside a point" : "truncated between points");
    }
    if (n > 1) s.nontrivial = true;
  }
  if (s.coin(30)) {
    PBT_CHECK(read_points(tmp.dir + "/missing.bin").empty(), "a missing file gave points");
    PBT_CHECK(read_points(tmp.dir + "/no/such/dir.bin").empty(), "a missing directory gave points");
    PBT_CHECK(read_ply(tmp.dir + "/missing.ply").empty(), "a missing PLY file gave points");
    write_points(tmp.dir + "/no/such/dir.bin", {F4(1, 2, 3, 1)});  // must be refused quietly
    s.label("missing file");
  }
}

PBT_PROPERTY(ply_files) {
  Scratch tmp;
  std::string path = tmp.file("points.ply");
  Rng r(s.seed());
  int files = 1 + s.below(3);
  for (int fi = 0; fi < files; fi++) {
    size_t n = s.pick({6, 1}) == 0 ? s.size(0, 200) : s.size(0, 4000);
    size_t props = 3 + (s.coin(70) ? s.size(0, 20) : 0);
    int mode = s.below(4);
    // Recorded defects of read_ply (known_findings.txt): it reads 16 bytes per vertex whatever the layout.
    // 0 well-formed, 1 truncated data, 2 too few properties, 3 a non-float property, 4 another element, 5 other names, 6 truncated header, 7 damaged bytes
    int kind = s.pick({8, 4, 1, 2, 1, 1, 1, 3});
    std::vector<std::string> lines = {"ply", s.coin(20) ? "format  binary_little_endian 1.0" : "format binary_little_endian 1.0"};
    auto comments = [&] {
      static const char* c[] = {"comment", "comment made by someone", "comment element vertex 7", "comment property float w", "obj_info x y z", "comment end_header", "comment \t 1e9"};
      while (s.coin(20)) lines.push_back(c[s.below(7)]);
    };
    comments();
    lines.push_back((s.coin(10) ? "element  vertex   " : "element vertex ") + std::to_string(n));
    comments();
    bool upper = s.coin(20);
    size_t keep = kind == 2 ? s.below(3) : props;
    static const char* lower3[] = {"x", "y", "z"};
    static const char* upper3[] = {"X", "Y", "Z"};
    size_t bad_prop = s.below(props), i = 0;
    for (; i < keep; i++) {
      std::string type = "float", name = i < 3 ? (upper ? upper3[i] : lower3[i]) : "p" + std::to_string(i);
      if (i >= 3 && s.coin(20)) name = std::vector<std::string>{"nx", "intensity", "x", "y", "z", "t", "element", "property", "red"}[s.below(9)];
      if (kind == 3 && i == bad_prop) type = std::vector<std::string>{"uchar", "double", "int", "list uchar int", "short", "Float"}[s.below(6)];
      if (kind == 5 && i == bad_prop % 3) name = std::vector<std::string>{"w", "x_coord", "nx", "q"}[s.below(4)];
      lines.push_back("property " + type + " " + name);
      comments();
    }
    if (kind == 4) {
      lines.push_back("element face " + std::to_string(s.below(4)));
      lines.push_back(s.coin(50) ? "property list uchar int vertex_indices" : "property float a");
    }
    std::string header;
    if (kind != 6) lines.push_back("end_header");
    for (auto& l : lines) header += l + "\n";
    std::vector<float> data(n * props);
    for (auto& f : data) f = some_float(r, mode);
    std::string body((const char*)data.data(), data.size() * 4);
    size_t have = body.size();
    if (kind == 1) {
      have = s.below(body.size() + 1);
      if (s.coin(40)) have = body.size() - std::min<size_t>(body.size(), 1 + s.below(4 * props));
      body.resize(have);
    } else if (s.coin(20))
      body += std::string(s.below(200), (char)s.below(256));  // trailing bytes
    std::string file = header + body;
    if (kind == 6) file = header.substr(0, s.coin(50) ? header.size() : s.below(header.size() + 1));
    if (kind == 7) {
      int edits = 1 + s.below(4);
      for (int e = 0; e < edits; e++) {
        size_t at = s.below(std::min(file.size(), header.size() + 3));
        static const char alphabet[] = "\n \0axyz\r\x80" "fe-";
        char c = alphabet[s.below(sizeof alphabet - 1)];
        switch (s.below(3)) {
          case 0: file[at] = c; break;
          case 1: file.erase(at, 1 + s.below(6)); break;
          default: file.insert(at, 1, c);
        }
        if (file.empty()) break;
      }
      // a huge vertex count asks for that much memory, which decides nothing
      std::istringstream is(file);
      std::string l;
      while (std::getline(is, l) && l != "end_header")
        for (size_t p = 0, run = 0; p < l.size() && l.find("element") == 0; p++) {
          run = isdigit((unsigned char)l[p]) ? run + 1 : 0;
          if (run > 6) throw Discard();
        }
    }
    spit(path, file);
    size_t stored = 0;  // properties named in the header
    {
      std::istringstream is(file);
      std::string l;
      while (std::getline(is, l) && l != "end_header" && !l.empty()) stored += l.find("property") == 0;
    }
    // layouts on which read_ply leaves its buffers: only probed in a child process, under AddressSanitizer
    bool overruns = (kind != 3 && stored == 3 && file.size() > header.size() + 12 * n) || (kind == 7 && stored <= 3) || (kind != 3 && stored < 3);
    if (overruns) {
#if defined(__SANITIZE_ADDRESS__)
      if (!s.coin(5)) continue;
      auto res = run_forked([&](Src&) {
        try {
          read_ply(path);
        } catch (const std::exception&) {
        }
      }, {}, 20);
      if (res.failed) {
        PBT_CHECK(!res.hang, "read_ply does not terminate (kind " << kind << ")");
        known_finding(s, stored < 3 ? "ply-fewer-than-3-properties" : "ply-3-properties-overflow", "read_ply died on a file with " + std::to_string(stored) + " properties, n=" + std::to_string(n) + ": " + res.msg);
        continue;
      }
#else
      continue;
#endif
    }
    std::ostringstream os;
    os << "kind " << kind << " n=" << n << " properties=" << props << " mode=" << mode;
    s.note(os.str());
    std::vector<F4> got;
    if (kind >= 6) {  // any clean outcome; std::stol reports an unreadable count by an exception
      try {
        got = read_ply(path);
      } catch (const std::exception&) {
      }
      for (auto& p : got) PBT_CHECK(p[3] == 1.0f && (kind == 7 || p.head<3>().isZero(0)), os.str() << ": point " << p.transpose() << " from a file without data");
      s.label(kind == 6 ? "truncated header" : "damaged header");
      continue;
    }
    got = read_ply(path);
    auto prefix = [&](size_t complete, const char* what) {
      for (size_t i = 0; i < std::min(complete, got.size()); i++)
        for (int j = 0; j < 3; j++)
          if (props > 4 && i * props + j >= 4 * n && !same(got[i][j], data[i * props + j]) && got[i][j] == 0)
            known_finding(s, "ply-5-or-more-properties", os.str() + ": vertices stored beyond 16 bytes per vertex are read as zero");
          else
            PBT_CHECK(same(got[i][j], data[i * props + j]), os.str() << " " << what << ": vertex " << i << " component " << j << " is " << got[i][j] << ", file holds " << data[i * props + j]);
      for (auto& p : got) PBT_CHECK(p[3] == 1.0f, os.str() << " " << what << ": homogeneous coordinate " << p[3]);
    };
    switch (kind) {
      case 0:
        PBT_CHECK(got.size() == n, os.str() << ": " << got.size() << " vertices read");
        prefix(n, "well-formed");
        if (n > 1) s.nontrivial = true;
        s.label(props == 3 ? "3 properties" : props == 4 ? "4 properties" : "5+ properties");
        break;
      case 1: {
        size_t complete = have / (4 * props);
        PBT_CHECK(got.size() <= n, os.str() << ": " << got.size() << " vertices from a truncated file");
        PBT_CHECK(got.empty() || got.size() >= complete, os.str() << ": only " << got.size() << " of " << complete << " complete vertices");
        prefix(complete, "truncated");
        // what is not in the file may be absent or zero, but is never made up
        for (size_t i = complete; i < got.size(); i++)
          for (int j = 0; j < 3; j++) {
            size_t at = (i * props + j) * 4;
            if (at + 4 <= have)
              PBT_CHECK(same(got[i][j], data[i * props + j]) || got[i][j] == 0, os.str() << ": vertex " << i << " component " << j << " is neither in the file nor zero");
            else if (at >= have)
              PBT_CHECK(got[i][j] == 0, os.str() << ": vertex " << i << " component " << j << " = " << got[i][j] << " although the file ends before it");
          }
        s.label("truncated data");
        if (complete > 1) s.nontrivial = true;
        break;
      }
      case 2:
      case 3: PBT_CHECK(got.empty(), os.str() << ": " << got.size() << " points from a file with " << (kind == 2 ? "fewer than three" : "non-float") << " properties"); break;
      case 4:
        if (!got.empty()) {
          PBT_CHECK(got.size() == n, os.str() << ": " << got.size() << " vertices from a file with a second element");
          prefix(n, "second element");
        }
        break;
      case 5:
        if (!got.empty()) {
          PBT_CHECK(got.size() == n, os.str() << ": " << got.size() << " vertices, other names");
          prefix(n, "other names");
        }
        break;
    }
    if (kind >= 2) s.label("non-conforming");
  }
}
