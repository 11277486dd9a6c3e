// C27: the Python preprocessing and registration functions honour their arguments.
#include "py.hpp"
#include "preprocessed.hpp"
#include <small_gicp/ann/kdtree_omp.hpp>
#include <cstdio>

static py::object cloud_of(const Pts& p) { return P().sg.attr("PointCloud")(rows(p, 4)); }
static std::string astr(const char* n, double v) {
  std::ostringstream os;
  os << " " << n << "=" << v;
  return os.str();
}

/// Chooses how a call is written: leading positional arguments, the rest as keywords in any order, defaults possibly left out.
struct Call {
  Src& s;
  py::list pos;
  std::vector<std::pair<const char*, py::object>> kw;
  bool positional = true;
  std::string text;
  explicit Call(Src& s) : s(s) {}
  void required(const char* name, py::object v) {
    if (positional && !s.coin(15))
      pos.append(v);
    else
      positional = false, kw.push_back({name, v});
  }
  /// an optional argument; `leave_out` if its value is the documented default
  void optional(const char* name, py::object v, bool leave_out) {
    if (leave_out) {
      positional = false;
      text += std::string(" (default ") + name + ")";
      return;
    }
    if (positional && s.coin(50))
      pos.append(v);
    else
      positional = false, kw.push_back({name, v});
  }
  py::object operator()(const char* f) {
    py::dict d;
    size_t at = kw.empty() ? 0 : s.below(kw.size());
    for (size_t i = 0; i < kw.size(); i++) d[kw[(i + at) % kw.size()].first] = kw[(i + at) % kw.size()].second;
    return P().sg.attr(f)(*py::tuple(pos), **d);
  }
};

static void attributes(const py::object& pc, Pts* n, std::vector<M4>* c) {
  if (n) {
    Eigen::MatrixXd N = mat(pc.attr("normals")());
    n->clear();
    for (int i = 0; i < N.rows(); i++) n->push_back(N.row(i));
  }
  if (c) *c = pc.attr("covs")().cast<std::vector<M4>>();
}
static Pts points_of(const py::object& pc) {
  Pts p;
  if (pc.attr("size")().cast<size_t>() == 0) return p;
  Eigen::MatrixXd m = mat(pc.attr("points")());
  for (int i = 0; i < m.rows(); i++) p.push_back(m.row(i));
  return p;
}

struct Dense {
  Room R;
  Pts p;
};
static Dense dense_cloud(Src& s, int max_n) {
  Dense d;
  d.R = room(s, max_n);
  Rng r(s.seed());
  for (auto& x : d.R.p)
    for (int j = r.below(3); j >= 0; j--) d.p.push_back(x + 0.2 * d.R.spacing * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0));
  return d;
}

static void preprocessing(Src& s) {
  Dense d = dense_cloud(s, s.one_of<int>({150, 100, 200, 60, 900}));
  if (s.coin(5)) d.p.resize(std::min<size_t>(d.p.size(), s.below(12)));
  bool as_array = s.coin(50);
  int cols = s.coin(50) ? 3 : 4;
  Arg a = array(s, d.p, cols, 50);
  double res = d.R.spacing * s.one_of<double>({0.8, 1.5, 0.5, 3.0});
  if (a.kind[0] == 'i') res = 1.5;
  int threads = s.one_of<int>({1, 2, 1, 4, 3}), k = s.one_of<int>({10, 5, 20, 7, 12});
  std::ostringstream os;
  os << (as_array ? "array " + a.kind : std::string("PointCloud")) << " n=" << d.p.size() << "x" << cols << " res=" << res << " k=" << k << " threads=" << threads;
  std::string what = os.str();
  py::object src = as_array ? a.obj : cloud_of(d.p);
  PointCloud in(d.p);
  auto untouched = [&](const std::string& w) {
    if (as_array)
      a.unchanged(w);
    else
      PBT_CHECK(points_of(src) == d.p, w << ": the input cloud was modified");
  };
  int op = s.below(3);
  if (op == 0) {
    what = "voxelgrid_sampling " + what;
    s.label("voxelgrid_sampling");
    Call c(s);
    c.required("points", src), c.required("downsampling_resolution", py::float_(res)), c.optional("num_threads", py::int_(threads), threads == 1 && s.coin(50));
    py::object out = c("voxelgrid_sampling");
    s.note(what);
    untouched(what);
    Pts q = points_of(out);
    size_t voxels = check_downsampled(in, res, threads != 1, q, what);
    s.trivial_unless(voxels < in.size() && voxels > 1);
  } else if (op == 1) {
    what = "preprocess_points " + what;
    s.label("preprocess_points");
    Call c(s);
    bool def_res = s.coin(25), def_k = s.coin(25);
    if (def_res) res = 0.25;
    if (def_k) k = 10;
    c.required("points", src), c.optional("downsampling_resolution", py::float_(res), def_res), c.optional("num_neighbors", py::int_(k), def_k), c.optional("num_threads", py::int_(threads), threads == 1 && s.coin(50));
    py::object out = c("preprocess_points");
    what += c.text;
    s.note(what);
    untouched(what);
    auto t = out.cast<py::tuple>();
    PBT_CHECK(t.size() == 2, what << ": " << t.size() << " values returned");
    if (d.p.empty() && t[0].is_none() && t[1].is_none()) return;
    check_preprocessed(s, in, res, k, true, {t[0].cast<PointCloud::Ptr>(), t[1].cast<std::shared_ptr<KdTree<PointCloud>>>()}, what);
  } else {
    py::object pc = as_array ? P().sg.attr("PointCloud")(a.obj) : src;
    Pts n0;
    std::vector<M4> c0;
    bool have_n = false, have_c = false;
    for (int step = 0, steps = s.range(1, 3); step < steps; step++) {
      int kind = s.below(3);
      static const char* names[] = {"estimate_normals", "estimate_covariances", "estimate_normals_covariances"};
      k = s.one_of<int>({10, 5, 20, 7, 12});
      bool def_k = s.coin(25);
      if (def_k) k = 20;
      std::string w = std::string(names[kind]) + " step " + std::to_string(step) + " " + what + " k=" + std::to_string(k);
      s.label(names[kind]);
      Call c(s);
      c.required("points", pc);
      int tree_kind = s.below(3);
      py::object tree = py::none();
      if (tree_kind == 1) tree = P().sg.attr("KdTree")(pc);
      if (tree_kind == 2) tree = P().sg.attr("KdTree")(rows(d.p, 3), "num_threads"_a = 2);
      // a tree of a part of the cloud: only that part provides neighbours
      size_t part = d.p.size();
      if (tree_kind == 2 && d.p.size() > 30 && s.coin(40)) {
        part = d.p.size() / 2 + s.below(d.p.size() / 4);
        tree = P().sg.attr("KdTree")(rows(Pts(d.p.begin(), d.p.begin() + part), 3), "num_threads"_a = 1);
        w += " tree of the first " + std::to_string(part);
      }
      c.optional("tree", tree, tree_kind == 0 && s.coin(50)), c.optional("num_neighbors", py::int_(k), def_k), c.optional("num_threads", py::int_(threads), threads == 1 && s.coin(50));
      c(names[kind]);
      w += c.text;
      s.note(w);
      PBT_CHECK(points_of(pc) == d.p, w << ": the points were modified");
      if (d.p.empty()) continue;
      Pts n;
      std::vector<M4> cv;
      attributes(pc, &n, &cv);
      PBT_CHECK(n.size() == d.p.size() && cv.size() == d.p.size(), w << ": attribute sizes");
      bool set_n = kind != 1, set_c = kind != 0;
      size_t compared = check_attributes(d.p, set_n ? &n : nullptr, set_c ? &cv : nullptr, k, w, part);
      if (!set_n && have_n) PBT_CHECK(n == n0, w << ": the normals changed");
      if (!set_c && have_c) PBT_CHECK(cv == c0, w << ": the covariances changed");
      if (set_n) n0 = n, have_n = true;
      if (set_c) c0 = cv, have_c = true;
      s.trivial_unless(compared > 5);
    }
  }
}

static RegistrationResult result_of(const py::object& r, const std::string& what) {
  RegistrationResult x(Iso(r.attr("T_target_source").cast<M4>()));
  x.converged = r.attr("converged").cast<bool>();
  x.iterations = r.attr("iterations").cast<size_t>();
  x.num_inliers = r.attr("num_inliers").cast<size_t>();
  x.H = r.attr("H").cast<M6>();
  x.b = r.attr("b").cast<V6>();
  x.error = r.attr("error").cast<double>();
  PBT_CHECK(M4(r.attr("T_target_source").cast<M4>()).row(3) == Eigen::RowVector4d(0, 0, 0, 1), what << ": last row of T_target_source");
  return x;
}

static void registration(Src& s) {
  Room R = room(s, s.one_of<int>({150, 100, 120, 250, 100, 200, 120, 500}));
  Rng r(s.seed());
  Iso Tt = gen::pose(s, 3.1, 5 * R.scale), place = gen::pose(s, 3.1, 2 * R.scale);
  if (s.coin(25)) Tt = gen::pose(s, 0.02, 0.01 * R.scale);  // near the default initial guess
  auto dense = [&](const Iso& T, int keep) {
    Pts p;
    for (auto& x : R.p)
      if ((int)r.below(100) < keep)
        for (int j = r.below(3); j >= 0; j--) {
          V4 y = x + 0.2 * R.spacing * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
          p.push_back(T * y);
        }
    return p;
  };
  Pts tp = dense(place, 100), sp = dense(Tt.inverse() * place, 80);
  V3 ctr = V3::Zero();
  for (auto& x : sp) ctr += (Tt * x).head<3>() / sp.size();
  double lim = s.one_of<double>({1.0, 0.3, 3.0}) * R.spacing;
  Iso D = gen::pose(s, 0.5 * lim / R.scale, 0.5 * lim);
  Iso init = Eigen::Translation3d(ctr) * D * Eigen::Translation3d(-ctr) * Tt;
  bool def_init = s.coin(15);
  if (def_init) init = Iso::Identity();

  RegistrationSetting st;
  st.type = s.one_of<RegistrationSetting::RegistrationType>({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
  st.voxel_resolution = R.spacing * s.one_of<double>({3.0, 6.0, 2.0});
  st.downsampling_resolution = R.spacing * s.one_of<double>({0.8, 1.5, 0.5});
  st.max_correspondence_distance = s.one_of<double>({1.0, 1.5 * R.spacing / R.scale, 0.7 * R.spacing / R.scale, 5.0}) * R.scale;
  st.translation_eps = s.one_of<double>({1e-3, 1e-6, 1e-1, 1e-2}) * R.scale;
  st.rotation_eps = s.one_of<double>({1e-3, 1e-6, 1e-1, 1e-2});
  st.num_threads = s.one_of<int>({1, 2, 1, 2, 4, 1, 2, 8});
  st.max_iterations = s.one_of<int>({20, 1, 2, 4, 50, 0});
  static const char* types[] = {"ICP", "PLANE_ICP", "GICP", "VGICP"};
  int overload = s.below(3);
  if (overload == 1 && st.type == RegistrationSetting::VGICP) st.type = RegistrationSetting::GICP;
  if (overload == 2) st.type = RegistrationSetting::VGICP;
  // arguments left out have their documented defaults
  bool def_type = st.type == RegistrationSetting::GICP && s.coin(50), def_vox = s.coin(25), def_down = s.coin(25), def_dist = s.coin(20), def_it = s.coin(20), def_rot = s.coin(20), def_tr = s.coin(20), def_thr = st.num_threads == 1 && s.coin(50);
  if (def_vox && overload == 0) st.voxel_resolution = 1.0;
  if (def_down && overload == 0) st.downsampling_resolution = 0.25;
  if (def_dist) st.max_correspondence_distance = 1.0;
  if (def_it) st.max_iterations = 20;
  if (def_rot) st.rotation_eps = 0.1 * M_PI / 180.0;
  if (def_tr) st.translation_eps = 1e-3;
  std::ostringstream os;
  os << types[st.type] << " n=" << tp.size() << "/" << sp.size() << " scale=" << R.scale << " spacing=" << R.spacing << " voxel=" << st.voxel_resolution << " down=" << st.downsampling_resolution << " max_d=" << st.max_correspondence_distance << " eps=" << st.translation_eps << "," << st.rotation_eps << " iters=" << st.max_iterations << " threads=" << st.num_threads;

  Call c(s);
  auto tail = [&]() {
    c.optional("num_threads", py::int_(st.num_threads), def_thr);
    c.optional("max_iterations", py::int_(st.max_iterations), def_it);
    c.optional("rotation_epsilon", py::float_(st.rotation_eps), def_rot);
    c.optional("translation_epsilon", py::float_(st.translation_eps), def_tr);
    if (s.coin(20)) c.optional("verbose", py::bool_(false), false);
  };
  py::object T = pose_arg(s, init.matrix()), Tcopy = P().np.attr("array")(T, "copy"_a = true);
  std::string what;
  RegistrationResult got(Iso::Identity());
  std::optional<RegistrationResult> base;
  if (overload == 0) {
    what = "align(arrays) " + os.str();
    s.label(std::string("arrays ") + types[st.type]);
    Pts t2 = tp, s2 = sp;
    Arg ta = array(s, t2, s.coin(50) ? 3 : 4, 60), sa = array(s, s2, s.coin(50) ? 3 : 4, 60);
    if (ta.kind[0] == 'i' || sa.kind[0] == 'i') {  // rounding to integers leaves nothing to align
      t2 = tp, s2 = sp;
      ta = array(s, t2, 3, 100), sa = array(s, s2, 3, 100);
    }
    if (std::max(tp.size(), sp.size()) > 1024) st.num_threads = 1;
    c.required("target_points", ta.obj), c.required("source_points", sa.obj);
    c.optional("init_T_target_source", T, def_init);
    c.optional("registration_type", py::str(types[st.type]), def_type);
    c.optional("voxel_resolution", py::float_(st.voxel_resolution), def_vox);
    c.optional("downsampling_resolution", py::float_(st.downsampling_resolution), def_down);
    c.optional("max_correspondence_distance", py::float_(st.max_correspondence_distance), def_dist);
    def_thr = def_thr && st.num_threads == 1;
    tail();
    what += c.text;
    got = result_of(c("align"), what);
    ta.unchanged(what), sa.unchanged(what);
    auto prep = [&](const Pts& v) {
      auto d = voxelgrid_sampling(PointCloud(v), st.downsampling_resolution);
      estimate_normals_covariances(*d, 10);
      return d;
    };
    auto a = prep(t2), b = prep(s2);
    base = compare(s, *a, *b, init, st, got, R.scale, what, st.num_threads == 1 ? 0 : 1e-10 * R.scale);
  } else {
    py::object tgt = cloud_of(tp), src = cloud_of(sp);
    P().sg.attr("estimate_normals_covariances")(tgt, "num_neighbors"_a = 10);
    P().sg.attr("estimate_normals_covariances")(src, "num_neighbors"_a = 10);
    PointCloud tc = tgt.cast<const PointCloud&>(), sc = src.cast<const PointCloud&>();
    if (overload == 1) {
      what = "align(clouds) " + os.str();
      s.label(std::string("clouds ") + types[st.type]);
      int tree_kind = s.below(3);
      py::object tree = tree_kind ? P().sg.attr("KdTree")(tgt, "num_threads"_a = tree_kind) : py::object(py::none());
      c.required("target", tgt), c.required("source", src);
      c.optional("target_tree", tree, tree_kind == 0 && s.coin(50));
      c.optional("init_T_target_source", T, def_init);
      c.optional("registration_type", py::str(types[st.type]), def_type);
      c.optional("max_correspondence_distance", py::float_(st.max_correspondence_distance), def_dist);
      tail();
    } else {
      what = "align(voxel map) " + os.str();
      s.label("voxel map");
      py::object map = P().sg.attr("GaussianVoxelMap")(st.voxel_resolution);
      map.attr("insert")(tgt);
      c.required("target_voxelmap", map), c.required("source", src);
      c.optional("init_T_target_source", T, def_init);
      c.optional("max_correspondence_distance", py::float_(st.max_correspondence_distance), def_dist);
      tail();
    }
    what += c.text;
    got = result_of(c("align"), what);
    if (s.coin(20)) {  // once more with the same arguments
      auto again = result_of(c("align"), what);
      if (st.num_threads == 1) PBT_CHECK(again.T_target_source.matrix() == got.T_target_source.matrix() && again.iterations == got.iterations && again.error == got.error, what << ": a second call gave another result");
    }
    base = compare(s, tc, sc, init, st, got, R.scale, what);
    PBT_CHECK(same(tc, tgt.cast<const PointCloud&>()) && same(sc, src.cast<const PointCloud&>()), what << ": an input cloud was modified");
  }
  PBT_CHECK(P().same(T, Tcopy).cast<bool>(), what << ": the initial guess was modified");
  if (base && base->iterations == got.iterations) {
    double ht = 1e-3 * base->H.cwiseAbs().maxCoeff();
    PBT_CHECK((base->H - got.H).cwiseAbs().maxCoeff() <= ht, what << ": H differs\n" << got.H << "\nexpected\n" << base->H);
    double bt = 1e-3 * (base->b.cwiseAbs().maxCoeff() + 1e-3 * ht * R.scale);
    (void)bt;
    if (base->iterations == 0 || st.max_iterations <= 2) PBT_CHECK((base->b - got.b).cwiseAbs().maxCoeff() <= 1e-6 * base->H.cwiseAbs().maxCoeff() * R.scale + 1e-6 * base->b.cwiseAbs().maxCoeff(), what << ": b differs\n" << got.b.transpose() << "\nexpected\n" << base->b.transpose());
  }
}

static void factors(Src& s) {
  Room R = room(s, 120);
  Iso Tt = gen::pose(s, 3.1, 2 * R.scale);
  Rng r(s.seed());
  Pts sp = moved(Tt.inverse(), R.p);
  for (auto& x : sp) x += 0.3 * R.spacing * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
  py::object tgt = cloud_of(R.p), src = cloud_of(sp);
  P().sg.attr("estimate_normals_covariances")(tgt, "num_neighbors"_a = 10);
  P().sg.attr("estimate_normals_covariances")(src, "num_neighbors"_a = 10);
  py::object tree = P().sg.attr("KdTree")(tgt);
  const PointCloud &t = tgt.cast<const PointCloud&>(), &c = src.cast<const PointCloud&>();
  KdTree<PointCloud> ref_tree(std::make_shared<PointCloud>(t));
  py::object rejector = P().sg.attr("DistanceRejector")();
  DistanceRejector ref_rejector;
  std::ostringstream os;
  int accepted = 0;
  auto run = [&](auto factor, const char* name) {
    os << name;
    s.label(name);
    py::object f = P().sg.attr(name)();
    for (int step = 0, steps = s.range(2, 10); step < steps; step++) {
      if (s.coin(30)) {
        double d = R.spacing * s.one_of<double>({1.0, 0.2, 0.4, 10.0, 0.7});
        if (s.coin(50))
          rejector.attr("set_max_distance")(d);
        else
          rejector.attr("set_max_distance")("dist"_a = d);
        ref_rejector.max_dist_sq = d * d;
        os << " max_d=" << d;
      }
      Iso T = Tt * gen::pose(s, 0.3, 0.3 * R.spacing);
      size_t i = s.below(c.size());
      py::object out = s.coin(50) ? f.attr("linearize")(tgt, src, tree, pose_arg(s, T.matrix()), i, rejector)
                                  : f.attr("linearize")("rejector"_a = rejector, "source_index"_a = i, "T"_a = pose_arg(s, T.matrix()), "kdtree"_a = tree, "source"_a = src, "target"_a = tgt);
      auto o = out.cast<std::tuple<bool, M6, V6, double>>();
      M6 H = M6::Zero();
      V6 b = V6::Zero();
      double e = 0;
      bool ok = factor.linearize(t, c, ref_tree, T, i, ref_rejector, &H, &b, &e);
      // a point at equal distance of two targets, or at the border of the rejection radius, may go either way
      size_t idx[2];
      double sq[2];
      size_t m = ref_tree.knn_search(T * c.point(i), 2, idx, sq);
      if (m < 2 || sq[1] - sq[0] < 1e-9 * sq[1] || std::abs(sq[0] - ref_rejector.max_dist_sq) < 1e-9 * sq[0]) continue;
      std::string w = os.str() + " point " + std::to_string(i) + " step " + std::to_string(step);
      PBT_CHECK(std::get<0>(o) == ok, w << ": success=" << std::get<0>(o) << ", in C++ " << ok << " (distance " << std::sqrt(sq[0]) << ")");
      if (!ok) continue;
      accepted++;
      auto close = [](const auto& a, const auto& b) { return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * b.cwiseAbs().maxCoeff() + 1e-12; };
      PBT_CHECK(close(std::get<1>(o), H), w << ": H\n" << std::get<1>(o) << "\nexpected\n" << H);
      PBT_CHECK(close(std::get<2>(o), b), w << ": b " << std::get<2>(o).transpose() << " expected " << b.transpose());
      PBT_CHECK(std::abs(std::get<3>(o) - e) <= 1e-9 * e + 1e-15, w << ": e " << std::get<3>(o) << " expected " << e);
    }
  };
  switch (s.below(3)) {
    case 0: run(ICPFactor(), "ICPFactor"); break;
    case 1: run(PointToPlaneICPFactor(), "PointToPlaneICPFactor"); break;
    default: run(GICPFactor(), "GICPFactor"); break;
  }
  s.note(os.str());
  s.trivial_unless(accepted > 0);
}

/// Python code must raise TypeError / ValueError, or report the problem through an empty result
static void malformed(Src& s) {
  Pts p;
  Rng r(s.seed());
  for (int i = 0; i < 40; i++) p.emplace_back(r.gauss(), r.gauss(), r.gauss(), 1.0);
  auto& g = P().g;
  g["a"] = rows(p, 3);
  g["pc"] = cloud_of(p);
  P().sg.attr("estimate_normals_covariances")(g["pc"]);
  static const char* bads[] = {"np.zeros((5, 2))", "np.zeros((7, 5))", "np.zeros(6)", "np.zeros((2, 3, 4))", "None", "'x'", "np.zeros((3, 0))"};
  std::string b = bads[s.below(7)];
  g["bad"] = py::eval(b, g);
  static const char* calls[] = {"sg.voxelgrid_sampling(bad, 0.5)", "sg.voxelgrid_sampling(bad, 0.5, num_threads=2)", "sg.preprocess_points(bad, 0.5)", "sg.align(bad, a)", "sg.align(a, bad)", "sg.align(bad, bad)", "sg.align(a, a, registration_type='XICP')",
                                "sg.align(pc, pc, registration_type='VICP')", "sg.align(pc, bad)", "sg.align(bad, pc)", "sg.estimate_normals(bad)", "sg.estimate_covariances(bad)", "sg.estimate_normals_covariances(bad)", "sg.align(a, a, np.zeros((3, 3)))",
                                "sg.GaussianVoxelMap(1.0).insert(bad)", "sg.align(sg.GaussianVoxelMap(1.0), bad)", "sg.align(*sg.preprocess_points(sg.PointCloud(np.zeros((0, 3)))))"};
  for (int i = 0; i < 5; i++) {
    std::string c = calls[s.below(sizeof(calls) / sizeof(*calls))];
    s.note(c + " with " + b);
    s.label("malformed");
    g["guess"] = py::none();
    try {
      py::object o = py::eval(c, g);
      if (o.is_none()) continue;
      if (py::hasattr(o, "T_target_source")) {
        PBT_CHECK(M4(o.attr("T_target_source").cast<M4>()) == M4::Identity(), c << " with " << b << ": returned a pose other than the identity");
        PBT_CHECK(!o.attr("converged").cast<bool>(), c << " with " << b << ": claims to have converged");
        continue;
      }
      if (py::isinstance<py::tuple>(o)) {
        for (auto x : o.cast<py::tuple>()) PBT_CHECK(x.is_none(), c << " with " << b << ": returned " << py::repr(o).cast<std::string>());
        continue;
      }
      PBT_FAIL(c << " with " << b << ": returned " << py::repr(o).cast<std::string>());
    } catch (py::error_already_set& e) {
      PBT_CHECK(e.matches(PyExc_TypeError) || e.matches(PyExc_ValueError), c << " with " << b << ": raised " << e.what());
    }
  }
  s.trivial_unless(true);
}

static void ply(Src& s) {
  size_t n = s.size(1, 2000);
  bool intensity = s.coin(50);
  Rng r(s.seed());
  std::vector<float> data;
  for (size_t i = 0; i < n * (intensity ? 4 : 3); i++) data.push_back((float)(r.gauss() * 10));
  std::ostringstream os;
  os << "ply\nformat binary_little_endian 1.0\nelement vertex " << n << "\nproperty float x\nproperty float y\nproperty float z\n" << (intensity ? "property float intensity\n" : "") << "end_header\n";
  std::string path = "/tmp/pbt_c27_" + std::to_string(getpid()) + ".ply", head = os.str();
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) throw Discard();
  fwrite(head.data(), 1, head.size(), f);
  fwrite(data.data(), 4, data.size(), f);
  fclose(f);
  std::string what = "read_ply n=" + std::to_string(n) + (intensity ? " with intensity" : "");
  s.note(what);
  s.label("read_ply");
  py::object pc = s.coin(50) ? P().sg.attr("read_ply")(path) : P().sg.attr("read_ply")("filename"_a = path);
  unlink(path.c_str());
  Pts got = points_of(pc);
  PBT_CHECK(got.size() == n, what << ": " << got.size() << " points");
  for (size_t i = 0; i < n; i++) {
    const float* v = data.data() + i * (intensity ? 4 : 3);
    PBT_CHECK(got[i] == V4(v[0], v[1], v[2], 1), what << ": point " << i << " is " << gen::str(got[i]));
  }
  s.trivial_unless(n > 1);
}

PBT_PROPERTY(python_registration) {
  P();
  switch (s.pick({8, 12, 6, 2, 1})) {
    case 0: return preprocessing(s);
    case 1: return registration(s);
    case 2: return factors(s);
    case 3: return malformed(s);
    default: return ply(s);
  }
}
