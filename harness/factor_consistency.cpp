// C13: linearisation of the per-point factors is consistent with their cost.
#include "factors.hpp"

struct UserRejector {
  int kind = 0;  // 0 none, 1 distance, 2 odd target index, 3 record and accept, 4 reject all
  double max_sq = 1;
  mutable long calls = 0;
  mutable size_t t = 0, s = 0;
  mutable double d = 0;
  mutable Iso T;
  template <typename A, typename B>
  bool operator()(const A&, const B&, const Iso& T_, size_t ti, size_t si, double sq) const {
    calls++;
    t = ti, s = si, d = sq, T = T_;
    return kind == 4 || (kind == 1 && sq > max_sq) || (kind == 2 && ti % 2);
  }
};

/// Restores the matrix of the quadratic cost e = 0.5 r' W r from error() alone (r: residual of the associated pair).
struct Factor {  // one factor of any type on any pair of clouds
  virtual ~Factor() {}
  virtual bool linearize(const Iso& T, size_t si, int rk, const DistanceRejector& dr, const UserRejector& ur, Lin& l) = 0;
  virtual double error(const Iso& T) const = 0;
  virtual bool inlier() const = 0;
  virtual size_t ti() const = 0;
  virtual size_t si() const = 0;
  virtual V4 tpoint(size_t i) const = 0;
  virtual V4 tnormal(size_t i) const = 0;
  virtual M4 tcov(size_t i) const = 0;
};
template <typename F, typename Tgt, typename S_, typename Tree>
struct FactorOn : Factor {
  F f;
  const Tgt& tgt;
  const S_& src;
  const Tree& tree;
  FactorOn(const Tgt& t, const S_& s, const Tree& tr) : tgt(t), src(s), tree(tr) {}
  bool linearize(const Iso& T, size_t si, int rk, const DistanceRejector& dr, const UserRejector& ur, Lin& l) override {
    if (rk <= 1) return f.linearize(tgt, src, tree, T, si, dr, &l.H, &l.b, &l.e);
    if (rk == 2) return f.linearize(tgt, src, tree, T, si, NullRejector(), &l.H, &l.b, &l.e);
    return f.linearize(tgt, src, tree, T, si, ur, &l.H, &l.b, &l.e);
  }
  double error(const Iso& T) const override { return f.error(tgt, src, T); }
  bool inlier() const override { return f.inlier(); }
  size_t ti() const override { return f.target_index; }
  size_t si() const override { return f.source_index; }
  V4 tpoint(size_t i) const override { return traits::point(tgt, i); }
  V4 tnormal(size_t i) const override {
    if constexpr (std::is_same_v<F, PointToPlaneICPFactor>)
      return traits::normal(tgt, i);
    else
      return V4::Zero();
  }
  M4 tcov(size_t i) const override {
    if constexpr (std::is_same_v<F, GICPFactor>)
      return traits::cov(tgt, i);
    else
      return M4::Zero();
  }
};
static M3 cost_matrix(const Factor& f, const Iso& T, const V4& q, const V4& p, double L) {
  auto at = [&](const V3& r) { return f.error(moving_to(T, p, q.head<3>() - r)); };
  M3 W;
  for (int i = 0; i < 3; i++) {
    V3 a = V3::Zero();
    a[i] = L;
    W(i, i) = 2 * at(a) / (L * L);
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < i; j++) {
      V3 a = V3::Zero(), b = V3::Zero();
      a[i] = L, a[j] = L, b[i] = L, b[j] = -L;
      W(i, j) = W(j, i) = (at(a) - at(b)) / (2 * L * L);
    }
  return W;
}

enum Kind { ICP, PLANE, GICP };

static void drive_impl(Src& s, Kind kind, const Scene& sc, Factor* fs[2], const std::function<double(const V4&)>& nearest) {
  // several factors, each re-linearised several times, so that nothing of an earlier state may survive
  int steps = s.range(1, 5);
  long linearised = 0, rejected = 0;
  for (int st = 0; st < steps; st++) {
    Factor& f = *fs[s.below(2)];
    size_t si = s.below(sc.src.size());
    Iso T = Iso::Identity();
    int tk = s.pick({2, 4, 3, 1});
    if (tk == 1) T = gen::pose(s, 0.3, 0.3 * sc.scale);
    if (tk == 2) T = gen::pose(s, 3.2, 2 * sc.scale);
    if (tk == 3) T.translation() = V3(s.sym(1e4), s.sym(1e4), s.sym(1e4));
    V4 p = sc.src[si], x = T * p;
    double mag = std::max(sc.mag, x.head<3>().cwiseAbs().maxCoeff());
    double dmin = nearest(x);  // exact squared distance of the nearest target point, < 0 if none
    // the rejection rule
    int rk = s.pick({3, 1, 2, 2, 1});
    double limit = s.one_of<double>({1.0, 0.25, 4.0, 0.0, 100.0}) * sc.scale * sc.scale;
    if (s.coin(20) && dmin >= 0) limit = dmin;  // exactly on the limit: not rejected
    DistanceRejector dr;
    if (rk <= 1 && s.coin(15))
      limit = 1.0;  // left as constructed: correspondences up to a distance of 1
    else
      dr.max_dist_sq = limit;
    UserRejector ur;
    ur.kind = s.one_of<int>({3, 1, 2, 4});
    ur.max_sq = limit;
    Lin l;
    std::string w = "step " + std::to_string(st) + " source " + std::to_string(si) + " " + gen::str(p) + " |target|=" + std::to_string(sc.tgt.size());
    double before = f.error(T);
    PBT_CHECK(std::isfinite(before), w << ": error() before linearisation is " << before);
    l.in = f.linearize(T, si, rk, dr, ur, l);
    PBT_CHECK(l.in == f.inlier(), w << ": linearize() returned " << l.in << " but inlier() is " << f.inlier());
    if (dmin < 0) {
      PBT_CHECK(!l.in, w << ": associated although there is no target point in reach");
      PBT_CHECK(f.error(T) == 0, w << ": a factor without correspondence reports an error");
      s.label("no-target");
      continue;
    }
    double tol = 1e-12 * dmin + 1e-13 * mag * std::sqrt(dmin) + 1e-26 * mag * mag;
    if (sc.exact && tk == 0 && (p * 1024).array().round().matrix() == p * 1024) tol = 0;
    bool user = rk >= 3;
    if (user) {
      PBT_CHECK(ur.calls == 1, w << ": the rejector was asked " << ur.calls << " times");
      PBT_CHECK(ur.s == si && ur.T.matrix() == T.matrix(), w << ": the rejector was given source " << ur.s << " or a different pose");
      PBT_CHECK(std::abs(ur.d - dmin) <= tol, w << ": the rejector was given squared distance " << ur.d << ", the nearest target point is at " << dmin);
      double dt = gen::sqd(f.tpoint(ur.t), x);
      PBT_CHECK(std::abs(dt - dmin) <= tol, w << ": the rejector was given target " << ur.t << " at " << dt << ", the nearest is at " << dmin);
    }
    int expect = -1;  // open
    if (rk <= 1 || (user && ur.kind == 1)) expect = dmin > limit + tol ? 0 : dmin <= limit - tol ? 1 : -1;
    if (rk == 2 || (user && ur.kind == 3)) expect = 1;
    if (user && ur.kind == 2) expect = ur.t % 2 ? 0 : 1;
    if (user && ur.kind == 4) expect = 0;
    PBT_CHECK(expect < 0 || l.in == (expect == 1), w << ": nearest target point at squared distance " << dmin << ", limit " << limit << ": " << (l.in ? "accepted" : "rejected"));
    if (!l.in) {
      rejected++;
      PBT_CHECK(f.error(T) == 0 && f.error(Iso::Identity()) == 0, w << ": a rejected factor reports an error");
      s.label("rejected");
      continue;
    }
    linearised++;
    size_t ti = f.ti();
    PBT_CHECK(f.si() == si, w << ": source index " << f.si());
    V4 q = f.tpoint(ti);
    double dq = gen::sqd(q, x);
    PBT_CHECK(std::abs(dq - dmin) <= tol, w << ": associated target point " << ti << " at squared distance " << dq << ", the nearest is at " << dmin);
    V3 r = (q - x).head<3>();
    // 1. the value
    double e_at = f.error(T);
    // rounding of the residual is about 1e-16 * mag
    PBT_CHECK(std::isfinite(l.e) && l.H.allFinite() && l.b.allFinite(), w << ": not finite");
    double L = std::max(1.0, mag * 1e-2);
    M3 W = cost_matrix(f, T, q, p, L);
    double wn = W.norm();
    double re = 1e-14 * mag;  // rounding of one residual component
    double tole = 1e-9 * std::abs(l.e) + wn * (re * r.norm() + re * re);
    PBT_CHECK(std::abs(e_at - l.e) <= tole, w << ": linearised error " << l.e << ", error() at the same pose " << e_at);
    // 2. the cost matrix
    if (kind == ICP) PBT_CHECK((W - M3::Identity()).norm() < 1e-8, w << ": point-to-point cost matrix\n" << W);
    if (kind == PLANE) {
      V3 n = f.tnormal(ti).head<3>();
      PBT_CHECK(std::abs(W.trace() - n.squaredNorm()) < 1e-8, w << ": point-to-plane cost matrix\n" << W << "\nnormal " << n.transpose());
    }
    if (kind == GICP) {
      M3 C = f.tcov(ti).block<3, 3>(0, 0) + T.linear() * sc.sc[si].block<3, 3>(0, 0) * T.linear().transpose();
      PBT_CHECK((C * W - M3::Identity()).norm() < 1e-6 * C.norm() * wn, w << ": GICP cost matrix\n" << W << "\nis not the inverse of the fused covariance\n" << C);
    }
    // 3. gradient and Gauss-Newton matrix of 0.5 r' W r with r = q - T exp(d) p
    Eigen::Matrix<double, 3, 6> J;
    J.block<3, 3>(0, 0) = T.linear() * skew_ref(p.head<3>());
    J.block<3, 3>(0, 3) = -T.linear();
    M6 H = J.transpose() * W * J;
    V6 b = J.transpose() * W * r;
    double jn = 1 + p.head<3>().norm();
    double relW = 1e-8;
    PBT_CHECK((l.H - l.H.transpose()).cwiseAbs().maxCoeff() <= 1e-11 * jn * jn * wn, w << ": H is not symmetric");
    PBT_CHECK((l.H - H).cwiseAbs().maxCoeff() <= relW * jn * jn * wn, w << ": H\n" << l.H << "\nis not the Gauss-Newton matrix\n" << H);
    PBT_CHECK((l.b - b).cwiseAbs().maxCoeff() <= relW * jn * wn * (r.norm() + re) + jn * wn * re, w << ": b " << l.b.transpose() << " is not the gradient " << b.transpose());
    for (int t = 0; t < 2; t++) {
      V6 z;
      for (int i = 0; i < 6; i++) z[i] = s.sym(1);
      PBT_CHECK(z.dot(l.H * z) >= -1e-11 * jn * jn * wn * z.squaredNorm(), w << ": H has a direction of negative curvature");
    }
    // 4. the same through finite differences of error() under a right-multiplied perturbation
    double h = 1e-4;
    V6 fd;
    for (int i = 0; i < 6; i++) {
      V6 d = V6::Zero();
      d[i] = h;
      double ep = f.error(T * exp_ref(d)), em = f.error(T * exp_ref(-d));
      fd[i] = (ep - em) / (2 * h);
      double noise = (1e-14 * e_at + wn * re * (r.norm() + jn * h)) / h + wn * h * h * jn * (r.norm() + jn);
      PBT_CHECK(std::abs(fd[i] - l.b[i]) <= 1e-6 * wn * jn * r.norm() + 10 * noise, w << ": component " << i << " of b is " << l.b[i] << ", the error changes by " << fd[i]);
    }
    // 5. error at unrelated poses is the same cost
    Iso T2 = gen::pose(s, 3.2, sc.scale);
    V3 r2 = (q - T2 * p).head<3>();
    double e2 = 0.5 * r2.dot(W * r2), g2 = f.error(T2);
    PBT_CHECK(std::abs(e2 - g2) <= 1e-7 * wn * (r2.squaredNorm() + re * re) + wn * re * r2.norm(), w << ": error() at another pose is " << g2 << ", expected " << e2);
    s.label(tk == 0 ? "identity" : tk == 1 ? "small motion" : tk == 2 ? "any rotation" : "far away");
  }
  s.nontrivial = linearised > 0;
}

template <typename F, typename Tgt, typename S_, typename Tree>
static void drive(Src& s, Kind kind, const Scene& sc, const Tgt& tgt, const S_& src, const Tree& tree, const std::function<double(const V4&)>& nearest) {
  FactorOn<F, Tgt, S_, Tree> a(tgt, src, tree), b(tgt, src, tree);
  Factor* fs[2] = {&a, &b};
  drive_impl(s, kind, sc, fs, nearest);
}

template <typename F>
static void with_factor(Src& s, Kind kind) {
  int type = s.pick({4, 2, 2, 2, 2, 2});
  Scene sc = scene(s, s.one_of<int>({60, 20, 300}));
  static const char* names[] = {"kdtree", "user-search", "unsafe-kdtree", "user-cloud", "flat-voxelmap", "gaussian-voxelmap"};
  s.label(names[type]);
  static const char* kn[] = {"icp", "plane", "gicp"};
  s.label(kn[kind]);
  s.note(std::string(kn[kind]) + " " + names[type] + " |target|=" + std::to_string(sc.tgt.size()) + " |source|=" + std::to_string(sc.src.size()));
  auto nearest = [&](const V4& x) {
    double m = -1;
    for (auto& t : sc.tgt) {
      double d = gen::sqd(t, x);
      if (m < 0 || d < m) m = d;
    }
    return m;
  };
  if (type == 3) {
    UserCloud t(sc.tgt), u(sc.src);
    set_attr(t, sc.tn, sc.tc);
    set_attr(u, sc.sn, sc.sc);
    UnsafeKdTree<UserCloud> tree(t);
    drive<F>(s, kind, sc, t, u, tree, nearest);
    PBT_CHECK(t.bad == 0 && u.bad == 0, "point index out of range accessed");
    return;
  }
  auto t = std::make_shared<PointCloud>(sc.tgt);
  PointCloud u(sc.src);
  set_attr(*t, sc.tn, sc.tc);
  set_attr(u, sc.sn, sc.sc);
  if (type == 0) {
    KdTree<PointCloud> tree(t);
    drive<F>(s, kind, sc, *t, u, tree, nearest);
#ifndef __SANITIZE_ADDRESS__  // fewer instantiations where compilation is slow
  } else if (type == 1) {
    UserSearch tree{&sc.tgt};
    drive<F>(s, kind, sc, *t, u, tree, nearest);
  } else if (type == 2) {
    UnsafeKdTree<PointCloud, NormalProjection> tree(*t);
    drive<F>(s, kind, sc, *t, u, tree, nearest);
#endif
  } else if (type <= 4) {
    IncrementalVoxelMap<FlatContainerNormalCov> map(sc.scale * s.one_of<double>({0.5, 0.1, 2.0}));
    map.set_search_offsets(s.one_of<int>({1, 7, 27}));
    map.insert(*t);
    drive<F>(s, kind, sc, map, u, map, [&](const V4& x) {
      size_t i;
      double d;
      return traits::nearest_neighbor_search(map, x, &i, &d) ? gen::sqd(traits::point(map, i), x) : -1.0;
    });
  } else {
    if constexpr (!std::is_same_v<F, PointToPlaneICPFactor>) {
      sc.exact = false;
      GaussianVoxelMap map(sc.scale * s.one_of<double>({0.5, 0.1, 2.0}));
      map.set_search_offsets(s.one_of<int>({1, 7, 27}));
      map.insert(*t);
      drive<F>(s, kind, sc, map, u, map, [&](const V4& x) {
        size_t i;
        double d;
        return traits::nearest_neighbor_search(map, x, &i, &d) ? gen::sqd(traits::point(map, i), x) : -1.0;
      });
    } else
      throw Discard();
  }
}

PBT_PROPERTY(factor_consistency) {
  switch (s.pick({1, 1, 1})) {
    case 0: with_factor<ICPFactor>(s, ICP); break;
    case 1: with_factor<PointToPlaneICPFactor>(s, PLANE); break;
    default: with_factor<GICPFactor>(s, GICP); break;
  }
}
