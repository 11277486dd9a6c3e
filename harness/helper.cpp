// C21: the simple preprocess/align API equals the composition of its building blocks under the given settings.
#include "preprocessed.hpp"

template <typename T, int D>
static std::vector<Eigen::Matrix<T, D, 1>> as(const Pts& p) {
  std::vector<Eigen::Matrix<T, D, 1>> v;
  for (auto& x : p) v.push_back(x.head<D>().template cast<T>());
  return v;
}
template <typename V>
static PointCloud as_cloud(const V& v) {
  Pts p;
  for (auto& x : v) p.emplace_back(x[0], x[1], x[2], 1.0);
  return PointCloud(p);
}

PBT_PROPERTY(helper) {
  Room R = room(s, s.one_of<int>({150, 100, 120, 250, 100, 200, 120, 600}));
  Rng r(s.seed());
  Iso Tt = gen::pose(s, 3.1, 5 * R.scale), place = gen::pose(s, 3.1, 2 * R.scale);
  if (s.coin(20)) Tt = gen::pose(s, 0.02, 0.01 * R.scale);  // near the default initial guess
  auto dense = [&](const Iso& T, int keep) {
    Pts p;
    for (auto& x : R.p)
      if ((int)r.below(100) < keep)
        for (int j = r.below(3); j >= 0; j--) {
          V4 y = x + 0.2 * R.spacing * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
          p.push_back(T * y);
        }
    return p;
  };
  Pts tp = dense(place, 100), sp = dense(Tt.inverse() * place, 80);
  if (s.coin(3)) tp.resize(std::min<size_t>(tp.size(), s.below(12)));
  if (s.coin(3)) sp.resize(std::min<size_t>(sp.size(), s.below(12)));
  V3 ctr = V3::Zero();
  for (auto& x : sp) ctr += (Tt * x).head<3>() / sp.size();
  double lim = s.one_of<double>({1.0, 0.3, 3.0}) * R.spacing;
  Iso D = gen::pose(s, 0.5 * lim / R.scale, 0.5 * lim);
  Iso init = Eigen::Translation3d(ctr) * D * Eigen::Translation3d(-ctr) * Tt;

  RegistrationSetting st;
  st.type = s.one_of<RegistrationSetting::RegistrationType>({RegistrationSetting::ICP, RegistrationSetting::PLANE_ICP, RegistrationSetting::GICP, RegistrationSetting::VGICP});
  st.voxel_resolution = R.spacing * s.one_of<double>({3.0, 6.0, 2.0});
  st.downsampling_resolution = R.spacing * s.one_of<double>({0.8, 1.5, 0.5});
  st.max_correspondence_distance = s.one_of<double>({1.0, 1.5 * R.spacing / R.scale, 0.7 * R.spacing / R.scale, 5.0}) * R.scale;
  st.translation_eps = s.one_of<double>({1e-3, 1e-6, 1e-1, 1e-2}) * R.scale;
  st.rotation_eps = s.one_of<double>({1e-3, 1e-6, 1e-1, 1e-2});
  st.num_threads = s.one_of<int>({1, 2, 1, 2, 4, 1, 2, 8});
  st.max_iterations = s.one_of<int>({20, 1, 2, 4, 50, 0});
  static const char* types[] = {"ICP", "PLANE", "GICP", "VGICP"};
  // settings and arguments left out have their documented defaults
  bool some_default = s.coin(25), all = some_default && s.coin(20);
  auto left_out = [&] { return all || (some_default && s.coin(40)); };
  bool def_type = left_out(), def_vox = left_out(), def_down = left_out(), def_dist = left_out(), def_it = left_out(), def_rot = left_out(), def_tr = left_out(), def_thr = left_out(), def_init = left_out();
  if (def_type) st.type = RegistrationSetting::GICP;
  if (def_vox) st.voxel_resolution = 1.0;
  if (def_down) st.downsampling_resolution = 0.25;
  if (def_dist) st.max_correspondence_distance = 1.0;
  if (def_it) st.max_iterations = 20;
  if (def_rot) st.rotation_eps = 0.1 * M_PI / 180.0;
  if (def_tr) st.translation_eps = 1e-3;
  if (def_thr) st.num_threads = 4;
  if (def_init) init = Iso::Identity();
  if (some_default) s.label("defaults");
  auto user_setting = [&] {
    RegistrationSetting u;
    if (!(def_type && st.type == RegistrationSetting::GICP)) u.type = st.type;
    if (!def_vox) u.voxel_resolution = st.voxel_resolution;
    if (!def_down) u.downsampling_resolution = st.downsampling_resolution;
    if (!def_dist) u.max_correspondence_distance = st.max_correspondence_distance;
    if (!def_it) u.max_iterations = st.max_iterations;
    if (!def_rot) u.rotation_eps = st.rotation_eps;
    if (!def_tr) u.translation_eps = st.translation_eps;
    if (!(def_thr && st.num_threads == 4)) u.num_threads = st.num_threads;
    return u;
  };
  bool all_default = def_init && def_type && def_vox && def_down && def_dist && def_it && def_rot && def_tr && def_thr;
  std::ostringstream os;
  os << types[st.type] << " n=" << tp.size() << "/" << sp.size() << " scale=" << R.scale << " spacing=" << R.spacing << " voxel=" << st.voxel_resolution << " down=" << st.downsampling_resolution << " max_d=" << st.max_correspondence_distance << " eps=" << st.translation_eps << "," << st.rotation_eps << " iters=" << st.max_iterations << " threads=" << st.num_threads;
  int kind = s.pick({2, 3, 3, 2});
  if (kind == 0) {
    int k = s.one_of<int>({10, 5, 20, 7, 30, 50, 10, 24});
    std::string what = "preprocess_points k=" + std::to_string(k) + " " + os.str();
    double res = st.downsampling_resolution;
    int form = s.below(5);
    int omit = s.coin(20) ? 1 + s.below(2) : 0;
    if (omit) k = 10;
    if (omit == 2) st.num_threads = 4;
    s.label("preprocess");
    s.note(what);
    if (form == 0) {
      PointCloud in(tp), copy = in;
      auto out = omit == 2 ? preprocess_points(in, res) : omit ? preprocess_points(in, res, 10, st.num_threads) : preprocess_points(in, res, k, st.num_threads);
      PBT_CHECK(same(in, copy), what << ": the input was modified");
      check_preprocessed(s, copy, res, k, st.num_threads != 1, out, what);
    } else {
      auto both = [&](const auto& v) { check_preprocessed(s, as_cloud(v), res, k, st.num_threads != 1, omit == 2 ? preprocess_points(v, res) : preprocess_points(v, res, k, st.num_threads), what); };
      if (form == 1) both(as<float, 3>(tp));
      if (form == 2) both(as<float, 4>(tp));
      if (form == 3) both(as<double, 3>(tp));
      if (form == 4) both(as<double, 4>(tp));
    }
    return;
  }
  if (kind == 1) {  // from raw points; one thread, where downsampling has no freedom (or one block only)
    s.label(std::string("raw ") + types[st.type]);
    auto both = [&](const auto& tv, const auto& sv) {
      if (std::max(tv.size(), sv.size()) > 1024) st.num_threads = 1;
      RegistrationSetting u = user_setting();
      bool plain = def_init && def_type && def_vox && def_down && def_dist && def_it && def_rot && def_tr && st.num_threads == 4;
      auto got = plain ? align(tv, sv) : align(tv, sv, init, u);
      auto prep = [&](const auto& v) {
        auto d = voxelgrid_sampling(as_cloud(v), st.downsampling_resolution);
        estimate_normals_covariances(*d, 10);
        return d;
      };
      auto a = prep(tv), b = prep(sv);
      // several threads may sum voxels in another order
      compare(s, *a, *b, init, st, got, R.scale, "align(points) " + os.str(), st.num_threads == 1 ? 0 : 1e-10 * R.scale);
    };
    int form = s.below(4);
    if (form == 0) both(as<float, 3>(tp), as<float, 3>(sp));
    if (form == 1) both(as<float, 4>(tp), as<float, 4>(sp));
    if (form == 2) both(as<double, 3>(tp), as<double, 3>(sp));
    if (form == 3) both(as<double, 4>(tp), as<double, 4>(sp));
    return;
  }
  auto tgt = std::make_shared<PointCloud>(tp);
  PointCloud src(sp);
  estimate_normals_covariances(*tgt, 10);
  estimate_normals_covariances(src, 10);
  PointCloud tcopy = *tgt, scopy = src;
  if (kind == 2) {
    if (st.type == RegistrationSetting::VGICP) st.type = RegistrationSetting::GICP;
    s.label(std::string("clouds ") + types[st.type]);
    KdTree<PointCloud> tree(tgt);
    auto got = all_default ? align(*tgt, src, tree) : align(*tgt, src, tree, init, user_setting());
    compare(s, *tgt, src, init, st, got, R.scale, "align(clouds) " + os.str());
  } else {
    st.type = RegistrationSetting::VGICP;
    s.label("voxel map");
    auto map = create_gaussian_voxelmap(*tgt, st.voxel_resolution);
    GaussianVoxelMap ref(st.voxel_resolution);
    ref.insert(*tgt);
    auto pts = [](const GaussianVoxelMap& m) {
      std::vector<std::pair<V4, M4>> v;
      for (size_t i = 0; i < m.flat_voxels.size(); i++) v.push_back({traits::point(m, (i << m.point_id_bits)), traits::cov(m, (i << m.point_id_bits))});
      std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::lexicographical_compare(a.first.data(), a.first.data() + 3, b.first.data(), b.first.data() + 3); });
      return v;
    };
    auto a = pts(*map), b = pts(ref);
    PBT_CHECK(a.size() == b.size(), os.str() << ": voxel map has " << a.size() << " voxels, expected " << b.size());
    for (size_t i = 0; i < a.size(); i++)
      PBT_CHECK((a[i].first - b[i].first).cwiseAbs().maxCoeff() <= 1e-9 * R.scale && (a[i].second - b[i].second).cwiseAbs().maxCoeff() <= 1e-9, os.str() << ": voxel " << i << " differs");
    auto queries = [&](const GaussianVoxelMap& x, const GaussianVoxelMap& y, const Pts& around, double step, const std::string& what) {
      for (int i = 0; i < 200; i++) {
        V4 q = around[r.below(around.size())] + step * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0);
        size_t k[2] = {0, 0};
        double d[2] = {-1, -1};
        size_t f0 = traits::nearest_neighbor_search(x, q, &k[0], &d[0]), f1 = traits::nearest_neighbor_search(y, q, &k[1], &d[1]);
        PBT_CHECK(f0 == f1 && (!f0 || std::abs(d[0] - d[1]) <= 1e-9 * (d[1] + R.scale * R.scale)), what << ": a query at " << gen::str(q) << " finds " << f0 << " at " << d[0] << ", in an equal map " << f1 << " at " << d[1]);
      }
    };
    if (!tp.empty()) queries(*map, ref, tp, 1.5 * st.voxel_resolution, "voxel map " + os.str());
    if (s.rare(25)) {
      // many voxels
      s.label("large voxel map");
      PointCloud big;
      int n = 1500 + (int)r.below(10500);
      double ext = st.voxel_resolution * r.real(4, 20);
      for (int i = 0; i < n; i++) big.points.push_back(V4(ext * r.real(-1, 1), ext * r.real(-1, 1), ext * r.real(-1, 1), 1));
      big.covs.assign(n, Eigen::Vector4d(1, 1, 1, 0).asDiagonal());
      big.normals.assign(n, V4(0, 0, 1, 0));
      GaussianVoxelMap bref(st.voxel_resolution);
      bref.insert(big);
      auto bmap = create_gaussian_voxelmap(big, st.voxel_resolution);
      auto c = pts(*bmap), d = pts(bref);
      PBT_CHECK(c.size() == d.size(), "large voxel map: " << c.size() << " voxels, expected " << d.size());
      for (size_t i = 0; i < c.size(); i++)
        PBT_CHECK((c[i].first - d[i].first).cwiseAbs().maxCoeff() <= 1e-9 * (R.scale + ext) && (c[i].second - d[i].second).cwiseAbs().maxCoeff() <= 1e-9, "large voxel map: voxel " << i << " differs");
      queries(*bmap, bref, big.points, 1.5 * st.voxel_resolution, "large voxel map of " + std::to_string(c.size()) + " voxels");
    }
    auto got = all_default ? align(*map, src) : align(*map, src, init, user_setting());
    compare(s, *tgt, src, init, st, got, R.scale, "align(voxel map) " + os.str());
  }
  PBT_CHECK(same(*tgt, tcopy) && same(src, scopy), os.str() << ": an input was modified");
}
