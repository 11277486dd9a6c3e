// Voxel-grid oracle: expected voxels, their means, and the checks of serial / parallel outputs.
#pragma once
#include "clouds.hpp"
#include <small_gicp/points/point_cloud.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::Pts;
using gen::V4;
using Key = std::array<int64_t, 3>;

struct Voxel {
  long n = 0;
  long double s[3] = {0, 0, 0};
  V4 lo, hi;
  std::vector<V4> outs;
};

struct Problem {
  Pts p;
  double leaf = 1;
  long ignored = 0;
  double mag = 0;  // largest coordinate magnitude of an in-range point
  std::map<Key, Voxel> vox;
  std::string desc;
};

constexpr int64_t kLo = -1048576, kHi = 1048575;

static Problem make_problem(Src& s, int max_n, bool floats, int min_n = 1) {
  Problem P;
  gen::CloudInfo ci;
  gen::Opt o;
  o.max_n = max_n;
  o.min_n = min_n;
  o.floats = floats;
  gen::maybe_huge(s, o, 4000);
  P.p = gen::points(s, o, &ci);
  if (s.coin(8)) {
    // clouds in tiny units (voxels down to 1e-12 units); powers of two keep the coordinates exact
    double f = std::pow(2.0, -s.size(20, 40)) / std::pow(2.0, std::round(std::log2(std::max(ci.scale, 1e-30))));
    for (auto& v : P.p) v.head<3>() *= f;
    ci.scale *= f;
    s.label("tiny-units");
  }
  bool pow2 = s.coin(50);
  double rel = s.one_of<double>({0.5, 0.1, 2.0, 0.02, 10.0, 0.002});
  P.leaf = pow2 ? std::pow(2.0, std::round(std::log2(ci.scale * rel))) : ci.scale * rel * s.real(0.7, 1.3);
  // out-of-range points
  int far_mode = s.pick({6, 3, 1});
  if (far_mode) {
    long k = far_mode == 2 ? P.p.size() : std::min<long>(P.p.size(), s.size(1, 64));
    Rng r(s.seed());
    for (long j = 0; j < k; j++) {
      size_t i = far_mode == 2 ? j : r.below(P.p.size());
      int d = r.below(3);
      static const double edge[] = {-1048576.0, -1048577.0, 1048575.0, 1048576.0, 1048575.5, -1048576.5, 1e6, 3e6, -3e6, 5e8, -5e8};
      double e = edge[(far_mode == 2 ? 7 : 0) + r.below(far_mode == 2 ? 4 : 11)];
      double x = e * P.leaf;
      if (!pow2) x += 0.37 * P.leaf;
      P.p[i][d] = floats ? (float)x : x;
    }
    s.label("far:" + std::to_string(far_mode));
  }
  for (auto& v : P.p) {
    for (int d = 0; d < 3; d++) {
      // keep clear of voxel borders unless the coordinate is exactly representable on both sides of the division
      for (int it = 0; it < 40; it++) {
        double t = v[d] / P.leaf, near = std::round(t);
        bool amb = std::abs(t - near) < 1e-9 * std::max(1.0, std::abs(t)) && !(pow2 && t == near);
        if (!amb) break;
        v[d] += P.leaf * 0.137;
        if (floats) v[d] = (float)v[d];
      }
    }
  }
  for (auto& v : P.p) {
    Key k;
    bool in = true;
    for (int d = 0; d < 3; d++) {
      double f = std::floor(v[d] / P.leaf);
      in = in && f >= kLo && f <= kHi;
      k[d] = in ? (int64_t)f : 0;
    }
    if (!in) {
      P.ignored++;
      continue;
    }
    Voxel& x = P.vox[k];
    if (x.n++ == 0) x.lo = x.hi = v;
    x.lo = x.lo.cwiseMin(v);
    x.hi = x.hi.cwiseMax(v);
    for (int d = 0; d < 3; d++) {
      x.s[d] += v[d];
      P.mag = std::max(P.mag, std::abs(v[d]));
    }
  }
  if (P.ignored) s.label(P.vox.empty() ? "all-ignored" : "some-ignored");
  std::ostringstream os;
  os << "n=" << P.p.size() << " shape=" << ci.shape << " leaf=" << P.leaf << " voxels=" << P.vox.size() << " ignored=" << P.ignored;
  P.desc = os.str();
  return P;
}

/// Assigns every output point to the voxel whose points' bounding box contains it.
static void assign(Problem& P, const Pts& out, double tol) {
  for (auto& kv : P.vox) kv.second.outs.clear();
  for (size_t i = 0; i < out.size(); i++) {
    const V4& v = out[i];
    PBT_CHECK(std::abs(v[3] - 1.0) < 1e-12, "output point " << i << " is not homogeneous: " << gen::str(v));
    Voxel* best = nullptr;
    double bd = 1e300;
    std::set<Key> cand;
    for (int c = 0; c < 27; c++) {
      Key k;
      const int off[3] = {c % 3 - 1, c / 3 % 3 - 1, c / 9 - 1};
      for (int d = 0; d < 3; d++) {
        double t = std::floor((v[d] + off[d] * 4 * tol) / P.leaf);
        k[d] = std::abs(t) < 1e15 ? (int64_t)t : (int64_t)1e15;
      }
      cand.insert(k);
    }
    for (auto& k : cand) {
      auto it = P.vox.find(k);
      if (it == P.vox.end()) continue;
      Voxel& x = it->second;
      double dist = ((x.lo - v).cwiseMax(v - x.hi)).head<3>().maxCoeff();
      if (dist < bd) bd = dist, best = &x;
    }
    PBT_CHECK(best && bd <= tol, "output point " << i << " " << gen::str(v) << " lies in no occupied voxel (leaf " << P.leaf << ", " << P.ignored << " out-of-range inputs)");
    best->outs.push_back(v);
  }
}

static double dist_mean(const Voxel& x, const V4& o) {
  double e = 0;
  for (int d = 0; d < 3; d++) e = std::max(e, std::abs((double)((long double)o[d] - x.s[d] / x.n)));
  return e;
}

static double tol_of(const Problem& P, double out_eps) { return (P.p.size() + 8) * 2.3e-16 * P.mag + out_eps * P.mag; }

static void check_serial(Problem& P, const Pts& out, double out_eps) {
  double tol = tol_of(P, out_eps);
  PBT_CHECK(out.size() == P.vox.size(), "got " << out.size() << " output points for " << P.vox.size() << " occupied voxels (" << P.desc << ")");
  assign(P, out, tol);
  for (auto& kv : P.vox) {
    PBT_CHECK(kv.second.outs.size() == 1, "voxel (" << kv.first[0] << "," << kv.first[1] << "," << kv.first[2] << ") with " << kv.second.n << " points has " << kv.second.outs.size() << " output points");
    double e = dist_mean(kv.second, kv.second.outs[0]);
    PBT_CHECK(e <= tol, "voxel mean of " << kv.second.n << " points is off by " << e << " (tolerance " << tol << "): " << gen::str(kv.second.outs[0]));
  }
}

