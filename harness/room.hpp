// Structured clouds (points on several surfaces of different orientation, with a minimum spacing) for registration properties.
#pragma once
#include "factors.hpp"
#include <small_gicp/util/normal_estimation.hpp>

struct Room {
  Pts p;
  double spacing = 0;  // no two points are closer than this
  double scale = 1;
};

/// Random boxes, walls and a curved surface; points keep a minimum distance.
inline Room room(Src& s, int max_n) {
  Room R;
  Rng r(s.seed());
  R.scale = s.one_of<double>({1.0, 10.0, 0.2});
  int n = s.range(std::min(120, max_n / 2), max_n);
  // orientation of the structure
  Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  M3 B = s.coin(50) ? M3::Identity() : M3(q.normalized().toRotationMatrix());
  int parts = s.range(3, 6);
  struct Part {
    V3 c, u, v;
    int kind;
  };
  std::vector<Part> ps;
  for (int i = 0; i < parts; i++) {
    Part t;
    int ax = i % 3;
    t.u = V3::Unit((ax + 1) % 3) * r.real(0.6, 1);
    t.v = V3::Unit((ax + 2) % 3) * r.real(0.6, 1);
    t.c = V3(r.real(-0.6, 0.6), r.real(-0.6, 0.6), r.real(-0.6, 0.6)) + V3::Unit(ax) * (i < 3 ? 0.7 : r.real(-0.5, 0.5));
    t.kind = i < 3 ? 0 : (int)r.below(3);
    ps.push_back(t);
  }
  double d = 0.5 * std::sqrt(parts * 2.0 / n) * s.one_of<double>({1.0, 0.7});
  R.spacing = d * R.scale;
  // hash grid for the spacing test
  std::map<std::array<int, 3>, std::vector<V3>> grid;
  auto key = [&](const V3& x) { return std::array<int, 3>{(int)std::floor(x[0] / d), (int)std::floor(x[1] / d), (int)std::floor(x[2] / d)}; };
  for (int tries = 0; (int)R.p.size() < n && tries < 12 * n; tries++) {
    const Part& t = ps[r.below(parts)];
    double a = r.real(-1, 1), b = r.real(-1, 1);
    V3 x = t.c + a * t.u + b * t.v;
    if (t.kind == 1) x += t.u.cross(t.v).normalized() * 0.4 * std::sqrt(std::max(0.0, 1 - a * a));  // half cylinder
    if (t.kind == 2) x += t.u.cross(t.v).normalized() * 0.25 * std::sin(3 * a) * std::cos(2 * b);   // wavy
    x += V3(r.gauss(), r.gauss(), r.gauss()) * 0.003;
    auto k = key(x);
    bool ok = true;
    for (int i = -1; i <= 1 && ok; i++)
      for (int j = -1; j <= 1 && ok; j++)
        for (int l = -1; l <= 1 && ok; l++) {
          auto it = grid.find({k[0] + i, k[1] + j, k[2] + l});
          if (it == grid.end()) continue;
          for (auto& y : it->second)
            if ((x - y).norm() < d) ok = false;
        }
    if (!ok) continue;
    grid[k].push_back(x);
    V3 z = B * x * R.scale;
    R.p.emplace_back(z[0], z[1], z[2], 1.0);
  }
  return R;
}

inline Pts moved(const Iso& T, const Pts& p) {
  Pts q;
  q.reserve(p.size());
  for (auto& x : p) q.push_back(T * x);
  return q;
}
inline double max_gap(const Pts& a, const Pts& b) {
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) m = std::max(m, (a[i] - b[i]).head<3>().norm());
  return m;
}
inline double rot_angle(const M3& R) { return Eigen::AngleAxisd(R).angle(); }
