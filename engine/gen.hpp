// Generators and slow reference computations shared by the harnesses.
#pragma once
#include <numeric>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <Eigen/Geometry>
#include "pbt.hpp"

namespace gen {
using pbt::Rng;
using pbt::Src;
using V4 = Eigen::Vector4d;
using V3 = Eigen::Vector3d;
using Pts = std::vector<Eigen::Vector4d>;

inline std::string str(const V4& v) {
  std::ostringstream os;
  os << std::setprecision(17) << "(" << v[0] << "," << v[1] << "," << v[2] << "," << v[3] << ")";
  return os.str();
}

struct Opt {
  int min_n = 1, max_n = 3000;
  bool allow_empty = true;
  bool far = true;          // clouds far from the origin
  double min_scale = 0.05, max_scale = 200.0;
  bool floats = false;      // coordinates representable as float
};

struct CloudInfo {
  std::string shape;
  double scale = 1, offset = 0;
  double lattice = 0;  // > 0 if all coordinates are multiples of it (plus offset)
};

/// Generate a cloud; small ones are drawn from the tape point by point, large ones from a seed.
inline Pts points(Src& s, const Opt& o, CloudInfo* info = nullptr) {
  CloudInfo ci;
  size_t n;
  if (o.allow_empty && s.coin(3))
    n = 0;
  else
    n = s.size(std::min(o.min_n, o.max_n), o.max_n);
  static const char* shapes[] = {"box", "lattice", "cluster", "plane", "line", "same", "scan", "dups", "gradient"};
  int shape = s.pick({4, 4, 3, 2, 2, 1, 2, 2, 1});
  ci.shape = shapes[shape];
  ci.scale = s.one_of<double>({1.0, 10.0, 0.1, 100.0});
  ci.scale = std::min(std::max(ci.scale, o.min_scale), o.max_scale);
  V3 off = V3::Zero();
  if (o.far && s.coin(20)) {
    double m = s.one_of<double>({10.0, 1000.0, 1e5});
    for (int i = 0; i < 3; i++) off[i] = std::floor(s.sym(m));
    ci.offset = m;
  }
  Pts p;
  p.reserve(n);
  bool from_tape = n <= 24;
  Rng r(from_tape ? 0 : s.seed());
  auto U = [&]() { return from_tape ? s.sym(1.0) : r.real(-1, 1); };
  auto I = [&](int m) { return from_tape ? (int)s.range(0, 2 * m) - m : (int)r.below(2 * m + 1) - m; };
  double lat = shape == 1 ? ci.scale / 8 : 0;
  int lat_m = 4;
  if (shape == 1) {
    ci.lattice = lat;
    lat_m = s.one_of<int>({4, 1, 2, 16});
  }
  V3 a = V3::Random(), b = V3::Random();  // deterministic: overwritten below
  a = V3(s.sym(1), s.sym(1), s.sym(1) + 1.5).normalized();
  b = a.cross(V3(1, 0, 0)).normalized();
  V3 c = a.cross(b);
  std::vector<V3> centers;
  if (shape == 2)
    for (int k = 0; k < 5; k++) centers.push_back(V3(s.sym(1), s.sym(1), s.sym(1)));
  for (size_t i = 0; i < n; i++) {
    V3 v;
    switch (shape) {
      default:
      case 0: v = V3(U(), U(), U()) * ci.scale; break;
      case 1: v = V3(I(lat_m), I(lat_m), I(lat_m)) * lat; break;
      case 2: v = (centers[std::abs(I(1000)) % 5] + V3(U(), U(), U()) * 0.02) * ci.scale; break;
      case 3: v = (b * U() + c * U() + a * 1e-3 * U()) * ci.scale; break;
      case 4: v = (a * U()) * ci.scale; break;
      case 5: v = V3(0.3, -0.7, 0.1) * ci.scale; break;
      case 6: {
        double az = M_PI * U(), el = 0.4 * std::floor(8 * U()) / 8;
        double rr = 1.0 / std::max({std::abs(std::cos(az)), std::abs(std::sin(az)), 0.2});
        v = V3(std::cos(az) * std::cos(el), std::sin(az) * std::cos(el), std::sin(el)) * rr * ci.scale;
        break;
      }
      case 7: v = (i > 0 && I(2) != 0) ? V3(p[std::abs(I(100000)) % i].head<3>() - off) : V3(V3(U(), U(), U()) * ci.scale); break;
      case 8: v = V3(std::pow(2.0, 10 * U()), U(), U()) * ci.scale * 0.01; break;
    }
    v += off;
    if (o.floats)
      for (int k = 0; k < 3; k++) v[k] = (float)v[k];
    p.emplace_back(v[0], v[1], v[2], 1.0);
  }
  s.label("shape:" + ci.shape);
  if (n == 0)
    s.label("n:0");
  else if (n == 1)
    s.label("n:1");
  else if (n <= 20)
    s.label("n:2-20");
  else if (n <= 512)
    s.label("n:21-512");
  else if (n <= 2048)
    s.label("n:513-2048");
  else
    s.label("n:>2048");
  if (info) *info = ci;
  return p;
}

/// Now and then a size beyond 16-bit ranges (only in builds where the operation is cheap).
inline void maybe_huge(Src& s, Opt& o, uint64_t one_in, int lo = 65500, int hi = 140000) {
#ifndef MINIRT
  if (s.rare(one_in)) o.min_n = o.max_n = (int)s.range(lo, hi), o.allow_empty = false, s.label("n:huge");
#endif
}

/// A query: on a point, between two points, near, in the bounding region, or far away.
inline V4 query(Src& s, const Pts& p, double scale) {
  int kind = p.empty() ? 3 : s.pick({2, 3, 3, 2, 1});
  V4 q(0, 0, 0, 1);
  if (kind == 0) {
    q = p[s.below(p.size())];
  } else if (kind == 1) {
    q = (p[s.below(p.size())] + p[s.below(p.size())]) * 0.5;
  } else if (kind == 2) {
    q = p[s.below(p.size())] + V4(s.sym(0.1), s.sym(0.1), s.sym(0.1), 0) * scale;
  } else if (kind == 3) {
    V4 c = p.empty() ? V4(0, 0, 0, 1) : p[0];
    q = c + V4(s.sym(2), s.sym(2), s.sym(2), 0) * scale;
  } else {
    q = V4(s.sym(1e4), s.sym(1e4), s.sym(1e4), 1);
  }
  q[3] = 1;
  return q;
}

/// Random rigid transform; `big` allows any rotation and large translations.
inline Eigen::Isometry3d pose(Src& s, double max_angle, double max_trans) {
  Eigen::Isometry3d T = Eigen::Isometry3d::Identity();
  V3 ax(s.sym(1), s.sym(1), s.sym(1));
  if (ax.norm() < 1e-3) ax = V3(0, 0, 1);
  double ang = s.sym(max_angle);
  T.linear() = Eigen::AngleAxisd(ang, ax.normalized()).toRotationMatrix();
  T.translation() = V3(s.sym(max_trans), s.sym(max_trans), s.sym(max_trans));
  return T;
}

inline double sqd(const V4& a, const V4& b) { return (a - b).head<3>().squaredNorm(); }

/// Exhaustive k smallest squared distances, ascending.
inline std::vector<double> brute_sq_dists(const Pts& p, const V4& q, size_t k) {
  std::vector<double> d(p.size());
  for (size_t i = 0; i < p.size(); i++) d[i] = sqd(p[i], q);
  size_t m = std::min(k, d.size());
  std::partial_sort(d.begin(), d.begin() + m, d.end());
  d.resize(m);
  return d;
}

/// Largest rounding error to tolerate for a squared distance between points of this magnitude.
inline double sq_tol(const Pts& p, const V4& q, double sqdist) {
  double m = q.head<3>().cwiseAbs().maxCoeff();
  for (auto& v : p) m = std::max(m, v.head<3>().cwiseAbs().maxCoeff());
  // |d(x)| error of a coordinate difference is ~eps * m; squared distance error ~ 2 d eps m
  return 1e-12 * sqdist + 64 * 2.3e-16 * m * std::sqrt(sqdist) + 1e-28 * m * m + 1e-300;
}

}  // namespace gen
