// C24: projective search against a model of the index image.
#include <memory>
#include <cstdint>
#include <limits>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/traits.hpp>
#include <small_gicp/ann/projective_search.hpp>
#include "clouds.hpp"
#include "knncheck.hpp"
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V3;
using gen::V4;

/// continuous pixel coordinates; azimuth from +z towards +x, elevation with -y up... rows grow with -y
static void project_ref(const V4& p, double& u, double& v, bool& seam) {
  V3 x = p.head<3>();
  seam = false;
  if (x.squaredNorm() < 1e-3) {
    u = v = 0.5;
    return;
  }
  long double n = std::sqrt((long double)x[0] * x[0] + (long double)x[1] * x[1] + (long double)x[2] * x[2]);
  long double pi = 3.14159265358979323846264338327950288L;
  u = (double)(std::atan2((long double)x[0], (long double)x[2]) / (2 * pi) + 0.5L);
  v = (double)(-std::asin(std::min(1.0L, std::max(-1.0L, x[1] / n))) / pi + 0.5L);
  seam = x[0] == 0 && x[2] < 0;  // azimuth exactly +-pi: the first and the last column meet here
}

struct Pix {
  int u = 0, v = 0;
  bool ok = true;     // clear of pixel borders
  bool seam = false;  // u is the first or the last column
};
static Pix pixel(const V4& p, int W, int H) {
  double u, v;
  Pix x;
  project_ref(p, u, v, x.seam);
  auto cell = [&](double t, int n, bool exact) {
    double f = t * n, fl = std::floor(f), fr = f - fl;
    if (!exact && (fr < 1e-7 || fr > 1 - 1e-7)) x.ok = false;
    if (exact && fr > 1 - 1e-7) fl += 1;
    return std::min((int)fl, n - 1);  // 1.0 belongs to the last pixel
  };
  V3 q = p.head<3>();
  bool small = q.squaredNorm() < 1e-3;
  if (std::abs(q.squaredNorm() - 1e-3) < 1e-6) x.ok = false;
  // exactly representable cases: straight ahead, horizon, poles, origin
  x.u = cell(u, W, small || x.seam || (q[0] == 0 && q[2] >= 0));
  x.v = cell(v, H, small || q[1] == 0 || (q[0] == 0 && q[2] == 0));
  return x;
}

PBT_PROPERTY(projective_search) {
  int W = s.one_of<int>({64, 128, 36, 100, 16, 7, 1, 360});
  int H = s.one_of<int>({32, 16, 64, 20, 5, 1, 90});
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = 2000;
  Pts raw = gen::points(s, o, &ci), pts;
  // points on pixel borders decide nothing (rounding)
  for (auto& p : raw)
    if (pixel(p, W, H).ok) pts.push_back(p);
  // special directions: seam, poles, straight ahead, origin
  int nspecial = s.coin(50) ? s.below(6) : 0;
  for (int i = 0; i < nspecial; i++) {
    double d = ci.scale * s.real(0.5, 2);
    static const V3 dir[] = {V3(0, 0, -1), V3(0, 1, 0), V3(0, -1, 0), V3(0, 0, 1), V3(0, 0, 0), V3(0, 0.3, -1), V3(0, -0.7, -0.2)};
    V3 x = dir[s.below(7)] * d;
    if (s.coin(20) && x[0] == 0) x[0] = -0.0;
    V4 p(x[0], x[1], x[2], 1);
    if (pixel(p, W, H).ok) pts.insert(pts.begin() + s.below(pts.size() + 1), p);
  }
  auto cloud = std::make_shared<PointCloud>(pts);
  UserCloud user(pts);
  bool safe = s.coin(30);
  int wh = 10, wv = 5;
  UnsafeProjectiveSearch<PointCloud> us(W, H, *cloud);
  UnsafeProjectiveSearch<UserCloud> uu(W, H, user);
  ProjectiveSearch<PointCloud> ss(W, H, cloud);
  if (!safe) {
    wh = s.one_of<int>({10, 3, 0, 1, 25, 70, 200});
    wv = s.one_of<int>({5, 2, 0, 1, 15, 100});
    us.search_window_h = uu.search_window_h = wh;
    us.search_window_v = uu.search_window_v = wv;
  }
  // model of the image; seam points may sit in the first or the last column
  // readings of the seam: by the sign of x (azimuth +pi: last column, -pi: first), all in the first, all in the last column
  auto seam_column = [&](const V4& p, int a) { return a == 0 ? (std::signbit(p[0]) ? 0 : W - 1) : a == 1 ? 0 : W - 1; };
  std::vector<std::vector<int>> image(3, std::vector<int>(W * H, -1));
  bool any_seam = false;
  for (size_t i = 0; i < pts.size(); i++) {
    Pix x = pixel(pts[i], W, H);
    any_seam |= x.seam;
    for (int a = 0; a < 3; a++) image[a][x.v * W + (x.seam ? seam_column(pts[i], a) : x.u)] = i;
  }
  int queries = 2 + s.below(8);
  std::ostringstream base;
  base << "image " << W << "x" << H << " window " << wh << "," << wv << " n=" << pts.size() << (any_seam ? " (seam points)" : "");
  s.note(base.str());
  for (int qi = 0; qi < queries; qi++) {
    V4 q = gen::query(s, pts, ci.scale);
    int special = s.below(12);
    if (special == 1) q = V4(0, 0, -ci.scale, 1);
    if (special == 2) q = V4(0, ci.scale, 0, 1);
    if (special == 3) q = V4(0, -ci.scale, 0, 1);
    if (special == 4) q = V4(s.sym(0.02) * ci.scale, s.sym(0.5) * ci.scale, -ci.scale, 1);
    Pix x = pixel(q, W, H);
    if (!x.ok) continue;
    size_t k = s.pick({3, 2, 1}) == 0 ? 1 : s.below(2) ? s.range(2, 12) : s.range(13, 60);
    bool single = k == 1 && s.coin(70);
    double eps = s.coin(15) ? ci.scale * ci.scale * s.real(0, 0.3) : 0;
    KnnSetting st;
    st.epsilon = eps;
    knn::Buf b(k);
    size_t num;
    size_t* I = b.i.data();
    double* Dd = b.d.data();
    int entry;
    if (eps > 0) {
      entry = 10;
      num = single ? us.nearest_neighbor_search(q, I, Dd, st) : us.knn_search(q, (int)k, I, Dd, st);
      if (safe) num = single ? ss.nearest_neighbor_search(q, I, Dd, st) : ss.knn_search(q, k, I, Dd, st);
    } else {
      entry = s.below(5);
      switch (entry) {
        case 0: num = safe ? (single ? ss.nearest_neighbor_search(q, I, Dd) : ss.knn_search(q, k, I, Dd)) : (single ? us.nearest_neighbor_search(q, I, Dd) : us.knn_search(q, (int)k, I, Dd)); break;
        case 1: num = safe ? (single ? traits::nearest_neighbor_search(ss, q, I, Dd) : traits::knn_search(ss, q, k, I, Dd)) : (single ? traits::nearest_neighbor_search(us, q, I, Dd) : traits::knn_search(us, q, k, I, Dd)); break;
        case 2: num = single ? uu.nearest_neighbor_search(q, I, Dd) : uu.knn_search(q, (int)k, I, Dd); break;
        case 3: {
          if (k != 1 && k != 5 && k != 17) k = 5;
          b = knn::Buf(k);
          I = b.i.data(), Dd = b.d.data();
          num = k == 1 ? us.knn_search<1>(q, I, Dd) : k == 5 ? us.knn_search<5>(q, I, Dd) : us.knn_search<17>(q, I, Dd);
          break;
        }
        default: num = single ? traits::nearest_neighbor_search(uu, q, I, Dd) : traits::knn_search(uu, q, k, I, Dd);
      }
    }
    b.check_guard();
    std::ostringstream os;
    os << base.str() << " q=" << gen::str(q) << " k=" << k << " entry=" << entry << (safe ? " safe" : "") << " eps=" << eps;
    // what was returned must be distinct, true and ascending in any case
    std::set<size_t> seen;
    for (size_t i = 0; i < num; i++) {
      PBT_CHECK(num <= k && b.i[i] < pts.size(), os.str() << ": neighbour " << i << " of " << num << " has index " << b.i[i]);
      PBT_CHECK(seen.insert(b.i[i]).second, os.str() << ": index " << b.i[i] << " returned twice");
      double d = gen::sqd(pts[b.i[i]], q), tol = gen::sq_tol(pts, q, d);
      PBT_CHECK(std::abs(d - b.d[i]) <= tol, os.str() << ": neighbour " << i << " reported sq. distance " << b.d[i] << ", true " << d);
      PBT_CHECK(i == 0 || b.d[i - 1] <= b.d[i], os.str() << ": not ascending at " << i);
    }
    // exactly the nearest of what the window holds, under one consistent reading of the seam
    std::string why;
    bool match = false;
    size_t candidates = 0;
    for (int a = 0; a < 3 && !match; a++)
      for (int c = 0; c < 3 && !match; c++) {
        int qu = x.seam ? seam_column(q, c) : x.u;
        std::set<int> held;
        for (int v = std::max(0, x.v - wv); v <= std::min(H - 1, x.v + wv); v++)
          for (int du = -wh; du <= wh; du++) {
            int u = ((qu + du) % W + W) % W;
            if (image[a][v * W + u] >= 0) held.insert(image[a][v * W + u]);
          }
        std::vector<double> d;
        for (int i : held) d.push_back(gen::sqd(pts[i], q));
        std::sort(d.begin(), d.end());
        d.resize(std::min(d.size(), k));
        candidates = std::max(candidates, held.size());
        if (eps > 0 && num > 0 && b.d[num - 1] <= eps * (1 + 1e-9) && num == d.size()) {  // early termination is allowed; all returned must be held
          match = true;
          for (size_t i = 0; i < num; i++) match = match && held.count(b.i[i]);
          if (match) continue;
        }
        if (d.size() != num) {
          why = "expected " + std::to_string(d.size()) + " neighbours, got " + std::to_string(num);
          continue;
        }
        match = true;
        for (size_t i = 0; i < num; i++)
          if (std::abs(d[i] - b.d[i]) > gen::sq_tol(pts, q, d[i]) || !held.count(b.i[i])) {
            std::ostringstream w;
            w << std::setprecision(17) << "neighbour " << i << " (index " << b.i[i] << ", pixel " << pixel(pts[b.i[i]], W, H).u << "," << pixel(pts[b.i[i]], W, H).v << ") has sq. distance " << b.d[i] << ", expected " << d[i];
            why = w.str();
            match = false;
            break;
          }
      }
    PBT_CHECK(match, os.str() << " (query pixel " << x.u << "," << x.v << "): " << why);
    if (candidates > k) s.nontrivial = true;
    if (2 * wh + 1 > W && candidates) s.label("window wider than the image");
    if (x.u < wh || x.u + wh >= W) s.label("window crosses the seam");
    if (x.seam) s.label("query on the seam");
  }
}
