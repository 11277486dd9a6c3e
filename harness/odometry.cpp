// C30: odometry pipelines put together from the library's parts follow the true trajectory.
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/console/print.h>
#include <small_gicp/pcl/pcl_registration.hpp>
#include "compose.hpp"
#include <tbb/tbb.h>
#include <small_gicp/registration/reduction_tbb.hpp>
#include <small_gicp/util/downsampling.hpp>
#include <small_gicp/util/downsampling_omp.hpp>
#include <small_gicp/util/downsampling_tbb.hpp>
#include <small_gicp/util/normal_estimation.hpp>
#include <small_gicp/util/normal_estimation_omp.hpp>
#include <small_gicp/util/normal_estimation_tbb.hpp>

/// A room with boxes in it, sampled anew for every scan.
struct World {
  struct Face {
    V3 c, u, v, n;
    double area;
  };
  std::vector<Face> faces;
  V3 half;
  double total = 0;
  void box(const V3& c, const V3& h) {
    for (int a = 0; a < 3; a++)
      for (int sgn : {-1, 1}) {
        V3 u = V3::Unit((a + 1) % 3) * h[(a + 1) % 3], v = V3::Unit((a + 2) % 3) * h[(a + 2) % 3];
        faces.push_back({c + sgn * V3::Unit(a) * h[a], u, v, V3::Unit(a) * sgn, u.norm() * v.norm()});
        total += faces.back().area;
      }
  }
};

struct Odometry {
  int method = 0, nt = 2, k = 10, parallel = 0;
  double res = 0.3, voxel = 1.0, reach = 1.0;
  Iso world = Iso::Identity(), last = Iso::Identity();  // T_world_sensor, motion of the last step
  RegistrationSetting st;
  bool started = false, prior = true;
  PointCloud::Ptr target;
  std::shared_ptr<KdTree<PointCloud>> tree;
  GaussianVoxelMap::Ptr gmap;
  std::shared_ptr<IncrementalVoxelMap<FlatContainerNormalCov>> fmap;
  int horizon = 100, cycle = 10, offsets = 1;
  RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ> pcl_reg;
  std::vector<Eigen::Vector3f> raw;

  std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> prepare(const PointCloud& scan) {
    if (parallel == 0) return preprocess_points(scan, res, k, nt);
    auto d = parallel == 1 ? voxelgrid_sampling(scan, res) : parallel == 2 ? voxelgrid_sampling_omp(scan, res, nt) : voxelgrid_sampling_tbb(scan, res);
    auto t = std::make_shared<KdTree<PointCloud>>(d);
    if (parallel == 1)
      estimate_normals_covariances(*d, *t, k);
    else if (parallel == 2)
      estimate_normals_covariances_omp(*d, *t, k, nt);
    else
      estimate_normals_covariances_tbb(*d, *t, k);
    return {d, t};
  }
  template <typename F, typename Tgt, typename Tree>
  RegistrationResult solve(const Tgt& tgt, const PointCloud& src, const Tree& t, const Iso& init) {
    auto go = [&](auto reg) {
      reg.rejector.max_dist_sq = reach * reach;
      reg.criteria.translation_eps = st.translation_eps;
      return reg.align(tgt, src, t, init);
    };
    if (parallel == 1) return go(Registration<F, SerialReduction>());
    if (parallel == 3) return go(Registration<F, ParallelReductionTBB>());
    Registration<F, ParallelReductionOMP> r;
    r.reduction.num_threads = nt;
    return go(r);
  }

  void feed(const PointCloud& scan) {
    Iso guess = prior ? last : Iso::Identity(), T = Iso::Identity();
    st.num_threads = nt;
    st.max_correspondence_distance = reach;
    st.downsampling_resolution = res;
    st.voxel_resolution = voxel;
    bool first = !started;
    started = true;
    bool scan_to_scan = true;
    switch (method) {
      case 0:    // scan to scan, preprocessed clouds
      case 1: {
        auto [d, t] = prepare(scan);
        if (!first) {
          st.type = RegistrationSetting::GICP;
          T = method == 0 ? align(*target, *d, *tree, guess, st).T_target_source : solve<PointToPlaneICPFactor>(*target, *d, *tree, guess).T_target_source;
        }
        target = d, tree = t;
        break;
      }
      case 2: {  // scan to scan, raw points
        std::vector<Eigen::Vector3f> now;
        for (auto& p : scan.points) now.push_back(p.head<3>().cast<float>());
        st.type = RegistrationSetting::GICP;
        if (!first) T = align(raw, now, guess, st).T_target_source;
        raw = now;
        break;
      }
      case 3: {  // PCL interface, the source of one step being the target of the next
        pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>), out(new pcl::PointCloud<pcl::PointXYZ>);
        auto d = voxelgrid_sampling(scan, res);
        for (auto& p : d->points) c->push_back({(float)p[0], (float)p[1], (float)p[2]});
        if (first) {
          pcl_reg.setNumThreads(nt);
          pcl_reg.setCorrespondenceRandomness(k);
          pcl_reg.setMaxCorrespondenceDistance(reach);
          pcl_reg.setRegistrationType("GICP");
          pcl_reg.setInputTarget(c);
        } else {
          pcl_reg.setInputSource(c);
          pcl_reg.align(*out, guess.matrix().cast<float>());
          T = Iso(pcl_reg.getFinalTransformation().cast<double>());
          pcl_reg.swapSourceAndTarget();
        }
        break;
      }
      case 4:    // scan to Gaussian voxel map
      case 5: {  // ... through the simple interface
        scan_to_scan = false;
        auto [d, t] = prepare(scan);
        Iso before = world;
        if (first) {
          if (method == 5 && world.matrix().isIdentity())
            gmap = create_gaussian_voxelmap(*d, voxel);
          else
            gmap = std::make_shared<GaussianVoxelMap>(voxel), gmap->insert(*d, world);
          gmap->lru_horizon = horizon, gmap->lru_clear_cycle = cycle;
          gmap->set_search_offsets(offsets);
        } else {
          st.type = RegistrationSetting::VGICP;
          world = method == 5 ? align(*gmap, *d, world * guess, st).T_target_source : solve<GICPFactor>(*gmap, *d, *gmap, world * guess).T_target_source;
          gmap->insert(*d, world);
        }
        last = before.inverse() * world;
        break;
      }
      default: {  // scan to flat voxel map
        scan_to_scan = false;
        auto [d, t] = prepare(scan);
        Iso before = world;
        if (first) {
          fmap = std::make_shared<IncrementalVoxelMap<FlatContainerNormalCov>>(voxel);
          fmap->voxel_setting.min_sq_dist_in_cell = std::pow(0.4 * res, 2);
          fmap->lru_horizon = horizon, fmap->lru_clear_cycle = cycle;
          fmap->set_search_offsets(7);
          fmap->insert(*d, world);
        } else {
          world = method == 6 ? solve<GICPFactor>(*fmap, *d, *fmap, world * guess).T_target_source : solve<PointToPlaneICPFactor>(*fmap, *d, *fmap, world * guess).T_target_source;
          fmap->insert(*d, world);
        }
        last = before.inverse() * world;
        break;
      }
    }
    if (scan_to_scan && !first) last = T, world = world * T;
  }
};


/// Everything about a case except the points sampled on the surfaces.
struct Plan {
  World w;
  double unit = 1, noise = 0.005, max_step = 0.15, max_turn = 0.05;
  int n = 2000, frames = 5, method = 0, nt = 2, parallel = 0, k = 10, offsets = 7, horizon = 100, cycle = 10;
  double res = 0.3, voxel = 1, reach = 1;
  bool prior = true;
  Iso place = Iso::Identity();
  uint64_t path = 0;
};
static const char* kNames[] = {"scan-to-scan GICP", "scan-to-scan PLANE", "raw arrays", "PCL", "VGICP model", "VGICP model (helper)", "flat model GICP", "flat model PLANE"};

/// Runs the sequence with scans sampled from `seed`; returns what went wrong, or nothing.
static std::string follow(const Plan& c, uint64_t seed, double& worst_t, double& worst_r) {
  Odometry o;
  o.method = c.method, o.nt = c.nt, o.parallel = c.parallel, o.k = c.k, o.prior = c.prior;
  o.res = c.res * c.unit, o.voxel = c.voxel * c.unit, o.reach = c.reach * c.unit;
  o.offsets = c.offsets, o.horizon = c.horizon, o.cycle = c.cycle;
  o.st.translation_eps = 1e-3 * c.unit;
  Rng r(c.path), sample(seed);
  const World& w = c.w;
  Iso pose = Iso::Identity(), prev = Iso::Identity();
  pose.translation() = V3(r.real(-0.3, 0.3), r.real(-0.3, 0.3), r.real(-0.3, 0.3));
  V3 vel = V3(r.real(-1, 1), r.real(-1, 1), r.real(-0.2, 0.2)).normalized() * c.max_step;
  bool scan_to_model = o.method >= 4;
  // point-to-plane and voxel means constrain a pose less tightly than point pairs
  static const double tol[8][2] = {{0.04, 0.02}, {0.08, 0.05}, {0.04, 0.02}, {0.04, 0.02}, {0.08, 0.04}, {0.08, 0.04}, {0.04, 0.03}, {0.15, 0.08}};
  double tol_t = tol[o.method][0], tol_r = tol[o.method][1];
  auto scaled = [&](Iso T) {
    T.translation() *= c.unit;
    return T;
  };
  for (int f = 0; f < c.frames; f++) {
    if (f) {
      for (int d = 0; d < 2; d++)
        if (std::abs(pose.translation()[d] + vel[d]) > 0.5 * w.half[d]) vel[d] = -vel[d];
      if (std::abs(pose.translation()[2] + vel[2]) > 0.3) vel[2] = -vel[2];
      Iso next = pose;
      next.translation() += vel;
      next.linear() = pose.linear() * Eigen::AngleAxisd(r.real(-1, 1) * c.max_turn, V3(r.real(-0.3, 0.3), r.real(-0.3, 0.3), 1).normalized()).toRotationMatrix();
      vel = (vel + 0.2 * c.max_step * V3(r.real(-1, 1), r.real(-1, 1), r.real(-0.1, 0.1))).normalized() * c.max_step;
      pose = next;
    }
    Pts scan;
    Iso inv = pose.inverse();
    for (int i = 0; i < c.n; i++) {
      double x = sample.real(0, w.total);
      size_t k = 0;
      while (k + 1 < w.faces.size() && x > w.faces[k].area) x -= w.faces[k++].area;
      auto& F = w.faces[k];
      V3 p = F.c + sample.real(-1, 1) * F.u + sample.real(-1, 1) * F.v + F.n * c.noise * sample.gauss();
      p = (inv * p) * c.unit;
      scan.emplace_back(p[0], p[1], p[2], 1.0);
    }
    Iso truth = c.place * pose;
    if (f == 0 && scan_to_model) o.world = scaled(truth);
    Iso before = o.world;
    o.feed(PointCloud(scan));
    // scan-to-scan: the motion of this step; scan-to-model: the pose in the world
    Iso est = scan_to_model ? o.world : Iso(before.inverse() * o.world), want = scaled(scan_to_model ? truth : f ? Iso(prev.inverse() * truth) : Iso(Iso::Identity()));
    Iso err = want.inverse() * est;
    double et = err.translation().norm() / c.unit, er = rot_angle(err.linear());
    worst_t = std::max(worst_t, et), worst_r = std::max(worst_r, er);
    prev = truth;
    if (!(et < tol_t && er < tol_r)) {
      std::ostringstream os;
      os << kNames[o.method] << ": frame " << f << " is off by " << et << " (unit " << c.unit << ") and " << er << " rad";
      return os.str();
    }
  }
  return "";
}

PBT_PROPERTY(odometry) {
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  Rng r(s.seed());
  Plan c;
  c.unit = s.one_of<double>({1.0, 10.0, 0.1});  // every other length is in this unit
  c.w.half = V3(r.real(3, 6), r.real(3, 5), r.real(1.5, 2.5));
  c.w.box(V3::Zero(), c.w.half);
  int boxes = s.range(2, 8);
  for (int i = 0; i < boxes; i++) {
    V3 h(r.real(0.3, 0.8), r.real(0.3, 0.8), r.real(0.4, 1.2)), p;
    // along the walls, so that the way through the middle stays free
    for (int d = 0; d < 2; d++) p[d] = (r.below(2) ? 1 : -1) * r.real(0.75, 0.95) * c.w.half[d];
    p[2] = -c.w.half[2] + h[2];
    c.w.box(p, h);
  }
  c.method = s.below(8);
  c.nt = s.one_of<int>({2, 1, 4});
  c.parallel = s.below(4);
  c.k = s.one_of<int>({10, 15, 20});
  c.res = s.one_of<double>({0.25, 0.3, 0.2});
  c.voxel = s.one_of<double>({1.0, 0.7});
  c.reach = s.one_of<double>({1.0, 0.7});
  c.prior = s.coin(70);
  c.horizon = s.one_of<int>({100, 2, 5});
  c.cycle = s.one_of<int>({10, 1, 3});
  s.label(kNames[c.method]);
  c.n = s.one_of<int>({2000, 2500});
  c.noise = s.one_of<double>({0.005, 0.003, 0.01});
  c.frames = s.range(2, 12);
  if (c.method < 4 && s.rare(30)) c.frames = 40, s.label("long");
  c.max_step = s.one_of<double>({0.15, 0.05, 0.25});
  c.max_turn = s.one_of<double>({0.05, 0.02, 0.08});
  if (!c.prior) c.max_step = std::min(c.max_step, 0.15);
  if (s.coin(60)) c.place = gen::pose(s, 3.1, 3);  // how the world lies in its coordinate frame
  c.path = s.seed();
  uint64_t seed = s.seed();
  double wt = 0, wr = 0;
  std::string bad = follow(c, seed, wt, wr);
  std::ostringstream os;
  os << kNames[c.method] << " frames=" << c.frames << " threads=" << c.nt << " worst " << wt << " units, " << wr << " rad, unit=" << c.unit << " noise=" << c.noise << " n=" << c.n << " step=" << c.max_step << " turn=" << c.max_turn << " res=" << c.res << " voxel=" << c.voxel << " reach=" << c.reach << " horizon=" << c.horizon << "/" << c.cycle << " prior=" << c.prior << " par=" << c.parallel << " boxes=" << boxes;
  s.note(os.str());
  if (getenv("PBT_STAT")) fprintf(stderr, "STAT %s\n", os.str().c_str());
  s.nontrivial = c.frames >= 3;
  if (bad.empty()) return;
  // registration may fail on an unlucky sample of the surfaces, but not on most of them
  int fails = 1;
  for (int i = 1; i < 5; i++) fails += !follow(c, seed + i * 7919, wt, wr).empty();
  s.label("unlucky sample");
  PBT_CHECK(fails < 3, bad << "; so it is for " << fails << " of 5 samplings of the surfaces; " << os.str());
}
