#define NO_TBB_CONTROL
#include "voxelgrid.hpp"
#include <small_gicp/points/eigen.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/pcl/pcl_point.hpp>
#include <small_gicp/pcl/pcl_point_traits.hpp>

template <typename C>
static Pts extract(const C& c) {
  Pts r;
  for (size_t i = 0; i < traits::size(c); i++) r.push_back(traits::point(c, i));
  return r;
}
template <>
Pts extract(const UserCloud& c) {
  return c.p;
}

PBT_PROPERTY(voxelgrid_serial) {
  int pair = s.pick({4, 2, 2, 2, 2, 2});
  bool pcl_in = pair == 3 || pair == 4;
  Problem P = make_problem(s, s.one_of<int>({400, 3000}), pcl_in);
  static const char* names[] = {"own->own", "user->own", "own->user", "pcl->pcl", "pcl->own", "matrix->own"};
  s.label(names[pair]);
  s.note(P.desc + " " + names[pair]);
  s.nontrivial = P.p.size() > P.vox.size() + P.ignored && P.vox.size() > 1;
  double feps = 0;
  Pts out;
  PointCloud own(P.p);
  switch (pair) {
    default:
    case 0: out = extract(*voxelgrid_sampling(own, P.leaf)); break;
    case 1: {
      UserCloud u(P.p);
      out = extract(*voxelgrid_sampling<UserCloud, PointCloud>(u, P.leaf));
      PBT_CHECK(u.bad == 0, "input index out of range accessed");
      break;
    }
    case 2: {
      auto r = voxelgrid_sampling<PointCloud, UserCloud>(own, P.leaf);
      PBT_CHECK(r->bad == 0, "output index out of range accessed");
      out = extract(*r);
      break;
    }
    case 3:
    case 4: {
      pcl::PointCloud<pcl::PointCovariance> c;
      c.resize(P.p.size());
      for (size_t i = 0; i < P.p.size(); i++) c[i].getVector4fMap() = P.p[i].cast<float>();
      if (pair == 3) {
        out = extract(*voxelgrid_sampling(c, P.leaf));
        feps = 1.3e-7;
        P.mag = std::max(P.mag, 1e-30);
      } else
        out = extract(*voxelgrid_sampling<pcl::PointCloud<pcl::PointCovariance>, PointCloud>(c, P.leaf));
      break;
    }
    case 5: {
      Eigen::MatrixXd m(P.p.size(), 3);
      for (size_t i = 0; i < P.p.size(); i++) m.row(i) = P.p[i].head<3>();
      out = extract(*voxelgrid_sampling<Eigen::MatrixXd, PointCloud>(m, P.leaf));
      break;
    }
  }
  check_serial(P, out, feps);
  for (size_t i = 0; i < P.p.size(); i++) PBT_CHECK(own.points[i] == P.p[i], "input point " << i << " modified");
  if (P.p.size() > 1 && s.coin(30)) {
    // any order of the input gives the same voxels
    Rng r(s.seed());
    Pts q = P.p;
    for (size_t i = q.size() - 1; i > 0; i--) std::swap(q[i], q[r.below(i + 1)]);
    check_serial(P, extract(*voxelgrid_sampling(PointCloud(q), P.leaf)), 0);
  }
}

