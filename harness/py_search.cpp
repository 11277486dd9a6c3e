// C26: Python point clouds, trees and voxel maps expose exactly their data, and queries are exact.
#include "py.hpp"
#include "knncheck.hpp"
#include <limits>
#include <small_gicp/points/point_cloud.hpp>
#include <small_gicp/ann/gaussian_voxelmap.hpp>
#include <small_gicp/ann/incremental_voxelmap.hpp>
#include <small_gicp/ann/flat_container.hpp>
#include <small_gicp/util/normal_estimation.hpp>
using namespace small_gicp;

static constexpr double kMax = std::numeric_limits<double>::max();


/// one row of a result: `k` slots, the first min(k, n) of them the exact neighbours, the others -1 / the largest number
static void check_row(const Pts& p, const V4& q, size_t k, const std::vector<long long>& idx, const std::vector<double>& sq, const std::string& what) {
  PBT_CHECK(idx.size() == k && sq.size() == k, what << ": " << idx.size() << "/" << sq.size() << " slots for k=" << k);
  size_t m = std::min(k, p.size());
  knn::Buf b(k);
  for (size_t i = 0; i < m; i++) {
    PBT_CHECK(idx[i] >= 0, what << ": slot " << i << " of " << m << " neighbours holds index " << idx[i]);
    b.i[i] = idx[i], b.d[i] = sq[i];
  }
  for (size_t i = m; i < k; i++) PBT_CHECK(idx[i] == -1 && sq[i] == kMax, what << ": slot " << i << " without a neighbour holds " << idx[i] << ", " << sq[i]);
  knn::check_exact(p, q, k, m, b, what);
}
static long long as_index(const py::handle& h) {
  // (an index beyond the int64 range cannot be cast: a failure)
  PBT_CHECK(py::isinstance<py::int_>(h), "index of type " << py::str(h.get_type()).cast<std::string>());
  int over = 0;
  long long v = PyLong_AsLongLongAndOverflow(h.ptr(), &over);
  PBT_CHECK(!over, "index " << py::str(h).cast<std::string>() << " is neither an index nor -1");
  return v;
}

static void kdtree(Src& s) {
  gen::Opt o;
  o.max_n = s.one_of<int>({120, 700, 40, 1500});
  gen::CloudInfo ci;
  Pts p = gen::points(s, o, &ci);
  int cols = s.coin(50) ? 3 : 4, threads = s.one_of<int>({1, 2, 4, 1, 3});
  Arg a = array(s, p, cols);
  bool from_cloud = s.coin(50);
  std::ostringstream os;
  os << "KdTree of " << (from_cloud ? "PointCloud" : "array") << " " << a.kind << " " << p.size() << "x" << cols << " " << ci.shape << " threads=" << threads;
  std::string what = os.str();
  s.note(what);
  s.label(a.kind);
  py::object cls = P().sg.attr("KdTree"), tree;
  {
    py::object src = a.obj;
    if (from_cloud) src = P().sg.attr("PointCloud")(a.obj);
    switch (s.below(4)) {
      case 0: tree = threads == 1 ? cls(src) : cls(src, threads); break;
      case 1: tree = cls(src, "num_threads"_a = threads); break;
      case 2: tree = cls("points"_a = src, "num_threads"_a = threads); break;
      default: tree = cls(src, threads); break;
    }
  }  // the cloud object is gone; the tree must keep what it needs
  a.unchanged(what);
  if (s.coin(30) && !py::isinstance<py::list>(a.obj) && a.kind != "readonly") {  // later changes of the array must not matter
    a.obj.attr("fill")(1);
    a.copy = P().np.attr("array")(a.obj, "copy"_a = true);
  }
  py::list junk;  // let freed memory be re-used
  for (int i = 0; i < 3; i++) junk.append(P().np.attr("ones")(py::make_tuple(p.size() + 1, 4)));

  for (int round = 0; round < 2; round++) {
    Pts qs;
    int nq = s.one_of<int>({5, 0, 1, 30, 300, 9});
    bool from_tape = nq <= 9;
    Rng r(from_tape ? 0 : s.seed());
    for (int i = 0; i < nq; i++) {
      if (from_tape)
        qs.push_back(gen::query(s, p, ci.scale));
      else
        qs.push_back(p.empty() ? V4(r.gauss(), r.gauss(), r.gauss(), 1) : V4(p[r.below(p.size())] + V4(r.gauss(), r.gauss(), r.gauss(), 0) * ci.scale * 0.1));
    }
    int qcols = s.coin(50) ? 3 : 4, k = s.one_of<int>({1, 5, 2, 20, 10, 3}), qt = s.one_of<int>({1, 2, 4, 3, 8});
    if (s.coin(5)) k = (int)p.size() + s.below(4) + (p.empty());
    Arg qa = array(s, qs, qcols);
    std::string w = what + " queries " + qa.kind + " " + std::to_string(nq) + "x" + std::to_string(qcols) + " k=" + std::to_string(k) + " query threads=" + std::to_string(qt);
    // batch
    py::object nn = s.coin(30) && qt == 1 ? tree.attr("batch_nearest_neighbor_search")(qa.obj) : s.coin(50) ? tree.attr("batch_nearest_neighbor_search")(qa.obj, qt) : tree.attr("batch_nearest_neighbor_search")("pts"_a = qa.obj, "num_threads"_a = qt);
    py::object kn = s.coin(50) ? tree.attr("batch_knn_search")(qa.obj, k, qt) : s.coin(50) ? tree.attr("batch_knn_search")(qa.obj, k, "num_threads"_a = qt) : tree.attr("batch_knn_search")("pts"_a = qa.obj, "k"_a = k, "num_threads"_a = qt);
    qa.unchanged(w);
    py::sequence nni = nn.cast<py::tuple>()[0], nnd = nn.cast<py::tuple>()[1];
    PBT_CHECK((int)nni.size() == nq && (int)nnd.size() == nq, w << ": batch_nearest_neighbor_search returned " << nni.size() << " rows");
    py::object ki = kn.cast<py::tuple>()[0], kd = kn.cast<py::tuple>()[1];
    auto shape = [](const py::object& x) { return x.attr("shape").cast<std::vector<long>>(); };
    PBT_CHECK(shape(ki) == (std::vector<long>{nq, k}) && shape(kd) == shape(ki), w << ": batch_knn_search shapes " << py::str(ki.attr("shape")).cast<std::string>() << " " << py::str(kd.attr("shape")).cast<std::string>());
    auto kil = ki.attr("tolist")().cast<py::list>();
    auto kdl = kd.attr("tolist")().cast<std::vector<std::vector<double>>>();
    for (int i = 0; i < nq; i++) {
      std::string wi = w + " row " + std::to_string(i);
      std::vector<long long> row;
      for (auto h : kil[i].cast<py::list>()) row.push_back(as_index(h));
      check_row(p, qs[i], k, row, kdl[i], wi + " batch_knn_search");
      check_row(p, qs[i], 1, {as_index(nni[i])}, {nnd[i].cast<double>()}, wi + " batch_nearest_neighbor_search");
      if (i >= 6) continue;
      // single queries
      py::object pt = py::cast(V3(qs[i].head<3>()));
      if (s.coin(20)) pt = pt.attr("tolist")();
      auto t = (s.coin(50) ? tree.attr("nearest_neighbor_search")(pt) : tree.attr("nearest_neighbor_search")("pt"_a = pt)).cast<py::tuple>();
      PBT_CHECK(t.size() == 3 && t[0].cast<long>() == (p.empty() ? 0 : 1), wi << " nearest_neighbor_search: found=" << py::str(t[0]).cast<std::string>());
      check_row(p, qs[i], 1, {as_index(t[1])}, {t[2].cast<double>()}, wi + " nearest_neighbor_search");
      auto u = (s.coin(50) ? tree.attr("knn_search")(pt, k) : tree.attr("knn_search")("pt"_a = pt, "k"_a = k)).cast<py::tuple>();
      std::vector<long long> row1;
      for (auto h : u[0].cast<py::sequence>()) row1.push_back(as_index(h));
      auto sq1 = u[1].cast<std::vector<double>>();
      check_row(p, qs[i], k, row1, sq1, wi + " knn_search");
      PBT_CHECK(sq1 == kdl[i], wi << ": batch and single k-neighbour distances differ");
    }
    s.trivial_unless(p.size() > 20 && nq > 0);
  }
}

static std::string bad_shape(Src& s, py::object& out) {
  static const char* exprs[] = {"np.zeros((5, 2))", "np.zeros((7, 5))", "np.zeros((4, 1))", "np.zeros(6)", "np.zeros((2, 3, 4))", "np.zeros((3, 0))", "np.zeros((6, 16))", "np.zeros((3, 100))", "'points'", "None", "np.zeros((2, 2, 3))", "[[1, 2, 3], [1, 2]]", "np.array(1.0)", "{}"};
  std::string e = exprs[s.below(sizeof(exprs) / sizeof(*exprs))];
  out = py::eval(e, P().g);
  return e;
}
/// Python code that must raise TypeError or ValueError
static void must_raise(const char* code, const std::string& what) {
  bool raised = false;
  try {
    py::eval(code, P().g);
  } catch (py::error_already_set& e) {
    raised = e.matches(PyExc_TypeError) || e.matches(PyExc_ValueError);
    PBT_CHECK(raised, what << ": " << code << " raised " << e.what());
  }
  PBT_CHECK(raised, what << ": " << code << " did not raise");
}

static void clouds(Src& s) {
  gen::Opt o;
  o.max_n = 200;
  Pts p = gen::points(s, o);
  int cols = s.coin(50) ? 3 : 4;
  Arg a = array(s, p, cols);
  std::string what = "PointCloud of " + a.kind + " " + std::to_string(p.size()) + "x" + std::to_string(cols);
  s.note(what);
  s.label(a.kind);
  py::object pc = s.coin(50) ? P().sg.attr("PointCloud")(a.obj) : P().sg.attr("PointCloud")("points"_a = a.obj);
  a.unchanged(what);
  if (s.coin(30) && !py::isinstance<py::list>(a.obj) && a.kind != "readonly") a.obj.attr("fill")(3);
  PointCloud ref(p);
  bool nrm = false, cov = false;
  for (int op = 0, n = s.range(1, 8); op < n; op++) {
    PBT_CHECK(pc.attr("size")().cast<size_t>() == p.size() && py::len(pc) == p.size() && pc.attr("empty")().cast<bool>() == p.empty(), what << ": size()/len()/empty()");
    (void)py::repr(pc);
    switch (s.below(6)) {
      case 0: {  // attributes; accessors must reflect them
        int k = s.one_of<int>({5, 10, 20});
        if (p.size() == 0) break;
        if (s.coin(50))
          P().sg.attr("estimate_normals")(pc, py::none(), k), estimate_normals(ref, k), nrm = true;
        else
          P().sg.attr("estimate_covariances")(pc, "num_neighbors"_a = k), estimate_covariances(ref, k), cov = true;
        break;
      }
      case 1: {  // scribbling over returned arrays must not reach the cloud
        if (p.empty()) break;
        for (const char* f : {"points", "normals"}) pc.attr(f)().attr("fill")(99.0);
        pc.attr("point")(0).attr("fill")(99.0);
        if (cov) pc.attr("covs")().cast<py::list>()[0].attr("fill")(99.0), pc.attr("cov")(0).attr("fill")(99.0);
        if (nrm) pc.attr("normal")(0).attr("fill")(99.0);
        break;
      }
      default: break;
    }
    Eigen::MatrixXd m = mat(pc.attr("points")());
    PBT_CHECK((size_t)m.rows() == p.size() && m.cols() == 4, what << ": points() is " << m.rows() << "x" << m.cols());
    for (size_t i = 0; i < p.size(); i++) PBT_CHECK(V4(m.row(i)) == p[i], what << ": points()[" << i << "] = " << gen::str(m.row(i)) << ", given " << gen::str(p[i]));
    if (!p.empty()) {
      size_t i = s.below(p.size());
      PBT_CHECK(pc.attr("point")(i).cast<V4>() == p[i], what << ": point(" << i << ")");
      if (nrm) {
        Eigen::MatrixXd N = mat(pc.attr("normals")());
        PBT_CHECK((size_t)N.rows() == p.size() && N.cols() == 4, what << ": normals() is " << N.rows() << "x" << N.cols());
        for (size_t j = 0; j < p.size(); j++) PBT_CHECK(std::min((V4(N.row(j)) - ref.normals[j]).norm(), (V4(N.row(j)) + ref.normals[j]).norm()) < 1e-6 || (pc.attr("normal")(j).cast<V4>() == V4(N.row(j)) && p.size() > 5), what << ": normals()[" << j << "]");
        PBT_CHECK(pc.attr("normal")(i).cast<V4>() == V4(N.row(i)), what << ": normal(" << i << ") differs from normals()[" << i << "]");
      }
      if (cov) {
        auto C = pc.attr("covs")().cast<std::vector<M4>>();
        PBT_CHECK(C.size() == p.size(), what << ": covs() has " << C.size() << " entries");
        PBT_CHECK(pc.attr("cov")(i).cast<M4>() == C[i], what << ": cov(" << i << ") differs from covs()[" << i << "]");
        M4 x = C[i];
        PBT_CHECK(x == x.transpose() || (x - x.transpose()).norm() < 1e-9, what << ": asymmetric covariance");
      }
    }
  }
  s.trivial_unless(p.size() > 1);
}

static void rejected(Src& s) {
  gen::Opt o;
  o.max_n = 60;
  o.allow_empty = false;
  Pts p = gen::points(s, o);
  py::object good = py::cast(rows(p, 3));
  P().g["good"] = good;
  P().g["tree"] = P().sg.attr("KdTree")(good);
  P().g["cloud"] = P().sg.attr("PointCloud")(good);
  s.label("malformed");
  for (int i = 0; i < 3; i++) {
    py::object x;
    std::string what = bad_shape(s, x);
    s.note(what);
    P().g["bad"] = x;
    bool columns = what.rfind("np.zeros((", 0) == 0 && what.find("2, 2, 3") == std::string::npos && what.find("2, 3, 4") == std::string::npos;  // two-dimensional
    must_raise("sg.KdTree(bad)", what == "None" ? "None" : what);
    must_raise("tree.batch_nearest_neighbor_search(bad)", what);
    must_raise("tree.batch_knn_search(bad, 3, num_threads=2)", what);
    must_raise("tree.nearest_neighbor_search(bad)", what);
    must_raise("tree.knn_search(bad, 2)", what);
    // the cloud constructor may also report the shape and return an empty cloud
    try {
      py::object c = P().sg.attr("PointCloud")(x);
      PBT_CHECK(py::len(c) == 0, what << ": PointCloud of a wrong shape has " << py::len(c) << " points");
    } catch (py::error_already_set& e) {
      PBT_CHECK(e.matches(PyExc_TypeError) || e.matches(PyExc_ValueError), what << ": PointCloud raised " << e.what());
    }
    (void)columns;
  }
  // everything still works
  knn::Buf b(1);
  auto t = P().g["tree"].attr("nearest_neighbor_search")(py::cast(V3(p[0].head<3>()))).cast<py::tuple>();
  check_row(p, p[0], 1, {as_index(t[1])}, {t[2].cast<double>()}, "after rejected calls");
  PBT_CHECK(P().g["cloud"].attr("size")().cast<size_t>() == p.size(), "after rejected calls: cloud size");
  s.trivial_unless(true);
}

// ---- voxel maps

template <typename Map, bool N, bool C>
static void voxelmap(Src& s, const char* name) {
  double leaf = s.one_of<double>({0.5, 1.0, 0.25, 2.0, 0.3});
  Map ref(leaf);
  py::object map = s.coin(50) ? P().sg.attr(name)(leaf) : P().sg.attr(name)("leaf_size"_a = leaf);
  std::ostringstream os;
  os << name << "(" << leaf << ")";
  s.label(name);
  int n_ops = s.range(1, 12), merged = 0;
  for (int op = 0; op < n_ops; op++) {
    if (s.coin(15)) {
      size_t h = s.one_of<int>({100, 1, 2, 5}), c = s.one_of<int>({10, 1, 2, 3});
      int form = s.below(4);
      if (form == 0) map.attr("set_lru")(), h = 100, c = 10;
      if (form == 1) map.attr("set_lru")(h, c);
      if (form == 2) map.attr("set_lru")("clear_cycle"_a = c, "horizon"_a = h);
      if (form == 3) map.attr("set_lru")("horizon"_a = h), c = 10;
      ref.lru_horizon = h, ref.lru_clear_cycle = c;
      // let the map age: the limits decide which voxels are still there
      if (s.coin(40)) {
        int age = s.one_of<int>({3, 12, 40, 99, 100, 101, 110, 125});
        Pts one = {V4(0.1, 0.1, 0.1, 1.0)};
        py::object pc = P().sg.attr("PointCloud")(rows(one, 3));
        P().sg.attr("estimate_normals_covariances")(pc, "num_neighbors"_a = 6);
        const PointCloud& oc = pc.cast<const PointCloud&>();
        for (int i = 0; i < age; i++) map.attr("insert")(pc), ref.insert(oc);
        os << " age(" << age << ")";
      }
      os << " lru(" << h << "," << c << ")";
      continue;
    }
    Pts p;
    size_t n = s.size(0, 60);
    Rng r(s.seed());
    double ext = s.one_of<double>({2.0, 6.0, 0.6});
    V3 off = s.coin(30) ? V3(s.sym(20), s.sym(20), s.sym(20)) : V3::Zero();
    for (size_t i = 0; i < n; i++) p.emplace_back(off[0] + r.real(-ext, ext), off[1] + r.real(-ext, ext), off[2] + r.real(-ext, ext), 1.0);
    py::object pc = P().sg.attr("PointCloud")(rows(p, 3));
    if (N || C) P().sg.attr("estimate_normals_covariances")(pc, "num_neighbors"_a = 6);
    const PointCloud& c = pc.cast<const PointCloud&>();
    M4 T = s.coin(60) ? M4(gen::pose(s, 3.1, 5).matrix()) : M4(M4::Identity());
    if (T == M4::Identity() && s.coin(50))
      map.attr("insert")(pc);
    else if (s.coin(50))
      map.attr("insert")(pc, pose_arg(s, T));
    else
      map.attr("insert")("T"_a = pose_arg(s, T), "points"_a = pc);
    ref.insert(c, Eigen::Isometry3d(T));
    os << " insert(" << n << ")";
    if (s.coin(50) && op + 1 < n_ops) continue;
    // compare
    PBT_CHECK(map.attr("size")().template cast<size_t>() == ref.size() && py::len(map) == ref.size(), os.str() << ": " << py::len(map) << " voxels, in C++ " << ref.size());
    (void)py::repr(map);
    auto sorted = [](std::vector<std::vector<double>> v) {
      std::sort(v.begin(), v.end());
      return v;
    };
    std::vector<std::vector<double>> want, got;
    auto vp = traits::voxel_points(ref);
    if (vp.size() < (size_t)n) merged++;
    Eigen::MatrixXd gp = mat(map.attr("voxel_points")()), gn, gc;
    PBT_CHECK((size_t)gp.rows() == vp.size() && gp.cols() == 4, os.str() << ": voxel_points() is " << gp.rows() << "x" << gp.cols() << ", in C++ " << vp.size() << " points");
    want.resize(vp.size()), got.resize(vp.size());
    for (size_t i = 0; i < vp.size(); i++) {
      want[i].assign(vp[i].data(), vp[i].data() + 4);
      for (int j = 0; j < 4; j++) got[i].push_back(gp(i, j));
    }
    if constexpr (N) {
      gn = mat(map.attr("voxel_normals")());
      auto vn = traits::voxel_normals(ref);
      PBT_CHECK((size_t)gn.rows() == vn.size() && gn.cols() == 4, os.str() << ": voxel_normals() is " << gn.rows() << "x" << gn.cols());
      for (size_t i = 0; i < vp.size(); i++) {
        want[i].insert(want[i].end(), vn[i].data(), vn[i].data() + 4);
        for (int j = 0; j < 4; j++) got[i].push_back(gn(i, j));
      }
    }
    if constexpr (C) {
      // one row (or matrix) of sixteen numbers per voxel
      gc = mat(map.attr("voxel_covs")().attr("reshape")(vp.size(), 16));
      auto vc = traits::voxel_covs(ref);
      for (size_t i = 0; i < vp.size(); i++) {
        want[i].insert(want[i].end(), vc[i].data(), vc[i].data() + 16);
        for (int j = 0; j < 16; j++) got[i].push_back(gc(i, j));
      }
    }
    want = sorted(want), got = sorted(got);
    for (size_t i = 0; i < want.size(); i++)
      for (size_t j = 0; j < want[i].size(); j++)
        PBT_CHECK(std::abs(want[i][j] - got[i][j]) <= 1e-9 * (1 + std::abs(want[i][j])), os.str() << ": element " << j << " of stored point " << i << " is " << got[i][j] << ", in C++ " << want[i][j]);
  }
  s.note(os.str());
  s.trivial_unless(ref.size() > 1 && merged);
}

PBT_PROPERTY(python_search) {
  P();
  switch (s.pick({5, 2, 1, 4})) {
    case 0: return kdtree(s);
    case 1: return clouds(s);
    case 2: return rejected(s);
    default:
      switch (s.below(5)) {
        case 0: return voxelmap<GaussianVoxelMap, false, true>(s, "GaussianVoxelMap");
        case 1: return voxelmap<IncrementalVoxelMap<FlatContainerPoints>, false, false>(s, "IncrementalVoxelMap");
        case 2: return voxelmap<IncrementalVoxelMap<FlatContainerNormal>, true, false>(s, "IncrementalVoxelMapNormal");
        case 3: return voxelmap<IncrementalVoxelMap<FlatContainerCov>, false, true>(s, "IncrementalVoxelMapCov");
        default: return voxelmap<IncrementalVoxelMap<FlatContainerNormalCov>, true, true>(s, "IncrementalVoxelMapNormalCov");
      }
  }
}
