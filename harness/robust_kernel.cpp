// C14: robust kernels scale a factor consistently.
#include "factors.hpp"

template <typename K>
static double doc_weight(double c, double r) {
  if constexpr (std::is_same_v<K, Huber>)
    return r < c ? 1.0 : c / r;
  else
    return c / (c + r * r);
}

template <typename K>
static void kernel_laws(Src& s, double c) {
  typename K::Setting st;
  st.c = c;
  K k(st);
  double prev_r = 0, prev_w = 1;
  PBT_CHECK(k.weight(0.0) == 1.0, "weight at zero residual is " << k.weight(0.0) << " (c=" << c << ")");
  std::vector<double> rs;
  for (int i = 0; i < 12; i++) rs.push_back(c * s.one_of<double>({1, 1, 1e-3, 1e3, 0.999999, 1.000001}) * (s.coin(50) ? s.logreal(1e-3, 1e3) : 1.0));
  std::sort(rs.begin(), rs.end());
  for (double r : rs) {
    double w = k.weight(r), d = doc_weight<K>(c, r);
    PBT_CHECK(w > 0 && w <= 1, "weight(" << r << ") = " << w << " outside (0, 1] (c=" << c << ")");
    PBT_CHECK(std::abs(w - d) <= 1e-12 * d, "weight(" << r << ") = " << w << ", documented " << d << " (c=" << c << ")");
    PBT_CHECK(w <= prev_w * (1 + 1e-12), "weight increases from " << prev_w << " at " << prev_r << " to " << w << " at " << r << " (c=" << c << ")");
    PBT_CHECK(std::abs(k.weight(-r) - w) <= 1e-15, "weight is not symmetric at " << r);
    prev_r = r, prev_w = w;
  }
}

/// A user's factor with a setting of its own.
struct GainFactor {
  struct Setting {
    double gain = 1;
  };
  double gain;
  GICPFactor f;
  size_t target_index = ~size_t(0), source_index = ~size_t(0);
  GainFactor() : gain(1) {}
  explicit GainFactor(const Setting& s) : gain(s.gain) {}
  template <typename A, typename B, typename C, typename D>
  bool linearize(const A& t, const B& s, const C& tree, const Iso& T, size_t i, const D& rej, M6* H, V6* b, double* e) {
    if (!f.linearize(t, s, tree, T, i, rej, H, b, e)) return false;
    *H *= gain, *b *= gain, *e *= gain;
    return true;
  }
  template <typename A, typename B>
  double error(const A& t, const B& s, const Iso& T) const {
    return gain * f.error(t, s, T);
  }
  bool inlier() const { return f.inlier(); }
};
template <typename F>
static void own_setting(Src&, typename F::Setting&) {}
template <>
void own_setting<GainFactor>(Src& s, GainFactor::Setting& st) {
  st.gain = s.one_of<double>({0.01, 1.0, 4.0, 250.0});
}
template <>
void own_setting<RobustFactor<Cauchy, ICPFactor>>(Src& s, RobustFactor<Cauchy, ICPFactor>::Setting& st) {
  st.robust_kernel.c = s.one_of<double>({0.05, 1.0, 5.0});
}
template <typename F>
static std::pair<size_t, size_t> indices_of(const F& f) {
  return {f.target_index, f.source_index};
}
template <typename K, typename F>
static std::pair<size_t, size_t> indices_of(const RobustFactor<K, F>& f) {
  return indices_of(f.factor);
}

template <typename K, typename F, typename Tgt, typename Tree>
static void drive(Src& s, const Scene& sc, double c, const Tgt& tgt, const PointCloud& src, const Tree& tree) {
  using RF = RobustFactor<K, F>;
  typename RF::Setting st;
  if (c != 1.0 || s.coin(50)) st.robust_kernel.c = c;  // 1.0 is the default
  own_setting<F>(s, st.factor);
  std::vector<RF> rf(2, RF(st));
  std::vector<F> f(2, F(st.factor));
  int steps = s.range(1, 4);
  bool weighted = false;
  for (int i = 0; i < steps; i++) {
    int w = s.below(2);
    size_t si = s.below(sc.src.size());
    Iso T = s.coin(70) ? gen::pose(s, 0.5, 0.5 * sc.scale) : Iso::Identity();
    DistanceRejector rej;
    rej.max_dist_sq = s.one_of<double>({100.0, 0.1, 1.0, 1e9}) * sc.scale * sc.scale;
    Lin a, b;
    a.in = f[w].linearize(tgt, src, tree, T, si, rej, &a.H, &a.b, &a.e);
    b.in = rf[w].linearize(tgt, src, tree, T, si, rej, &b.H, &b.b, &b.e);
    std::string msg = "step " + std::to_string(i) + " source " + std::to_string(si) + " c=" + std::to_string(c);
    PBT_CHECK(a.in == b.in && rf[w].inlier() == f[w].inlier() && b.in == rf[w].inlier(), msg << ": inlier decision differs: plain " << a.in << "/" << f[w].inlier() << ", robust " << b.in << "/" << rf[w].inlier());
    Iso T2 = gen::pose(s, 3, sc.scale);
    for (const Iso& P : {T, T2}) {
      double e = f[w].error(tgt, src, P), re = rf[w].error(tgt, src, P);
      double expect = doc_weight<K>(c, std::sqrt(e)) * e;
      PBT_CHECK(std::abs(re - expect) <= 1e-11 * expect + 1e-300, msg << ": robust error " << re << ", expected weight * error = " << expect);
    }
    if (!a.in) {
      s.label("rejected");
      continue;
    }
    PBT_CHECK(indices_of(rf[w].factor) == indices_of(f[w]), msg << ": correspondence differs");
    double wt = doc_weight<K>(c, std::sqrt(a.e));
    if (wt < 1) weighted = true;
    PBT_CHECK((b.H - wt * a.H).norm() <= 1e-11 * wt * a.H.norm(), msg << ": H is not weight (" << wt << ") times the plain H");
    PBT_CHECK((b.b - wt * a.b).norm() <= 1e-11 * wt * a.b.norm(), msg << ": b is not weight (" << wt << ") times the plain b");
    PBT_CHECK(std::abs(b.e - wt * a.e) <= 1e-11 * wt * a.e, msg << ": error is not weight (" << wt << ") times the plain error");
    double re = rf[w].error(tgt, src, T);
    // rounding of the residual itself may differ between linearisation and evaluation
    double slack = 1e-9 * b.e + 1e-12 * a.H.norm() * sc.mag * 1e-2 * std::sqrt(b.e) + 1e-26 * a.H.norm() * sc.mag * sc.mag;
    PBT_CHECK(std::abs(re - b.e) <= slack, msg << ": error() " << re << " differs from the linearised error " << b.e);
    s.label(wt < 1 ? "weight<1" : "weight=1");
  }
  s.nontrivial = weighted;
}

template <typename K, typename F>
static void with(Src& s) {
  double c = s.coin(5) ? 1.0 : s.one_of<double>({1.0, 0.1, 0.01, 10.0}) * s.logreal(0.1, 10);
  kernel_laws<K>(s, c);
  Scene sc = scene(s, 60, false);
  if (sc.tgt.empty()) sc.tgt.push_back(V4(0, 0, 0, 1)), sc.tn.push_back(V4(0, 0, 1, 0)), sc.tc.push_back(M4::Zero()), sc.tc[0].block<3, 3>(0, 0).setIdentity();
  auto t = std::make_shared<PointCloud>(sc.tgt);
  PointCloud u(sc.src);
  set_attr(*t, sc.tn, sc.tc);
  set_attr(u, sc.sn, sc.sc);
  s.note("c=" + std::to_string(c) + " |target|=" + std::to_string(sc.tgt.size()) + " |source|=" + std::to_string(sc.src.size()));
  KdTree<PointCloud> tree(t);
  drive<K, F>(s, sc, c, *t, u, tree);
}

PBT_PROPERTY(robust_kernels) {
  int k = s.below(2), f = s.below(5);
  static const char* names[] = {"icp", "plane", "gicp", "user", "nested"};
  s.label(std::string(k ? "cauchy-" : "huber-") + names[f]);
  if (k == 0) {
    if (f == 0) with<Huber, ICPFactor>(s);
    if (f == 1) with<Huber, PointToPlaneICPFactor>(s);
    if (f == 2) with<Huber, GICPFactor>(s);
    if (f == 3) with<Huber, GainFactor>(s);
    if (f == 4) with<Huber, RobustFactor<Cauchy, ICPFactor>>(s);
  } else {
    if (f == 0) with<Cauchy, ICPFactor>(s);
    if (f == 1) with<Cauchy, PointToPlaneICPFactor>(s);
    if (f == 2) with<Cauchy, GICPFactor>(s);
    if (f == 3) with<Cauchy, GainFactor>(s);
    if (f == 4) with<Cauchy, RobustFactor<Cauchy, ICPFactor>>(s);
  }
}
