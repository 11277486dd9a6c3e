// C22: the PCL interface after any call history equals a computation from its current inputs and parameters.
#include <pcl/point_types.h>
#include <pcl/point_cloud.h>
#include <pcl/common/transforms.h>
#include <pcl/console/print.h>
#include <small_gicp/pcl/pcl_registration.hpp>
#include "compose.hpp"
#include <small_gicp/util/normal_estimation.hpp>

using Reg = RegistrationPCL<pcl::PointXYZ, pcl::PointXYZ>;
using Cloud = pcl::PointCloud<pcl::PointXYZ>;

struct Side {  // what the model knows about one input
  Cloud::ConstPtr cloud;
  Iso pose;                             // cloud = pose * scene
  std::optional<std::vector<M4>> covs;  // user-supplied
};

static Pts points_of(const Cloud& c) {
  Pts p;
  for (auto& x : c) p.emplace_back(x.x, x.y, x.z, 1.0);
  return p;
}
static std::vector<M4> random_covs(Rng& r, size_t n, int kind) {
  std::vector<M4> v;
  for (size_t i = 0; i < n; i++) v.push_back(rand_cov(r, kind, 0.3));
  return v;
}

PBT_PROPERTY(pcl_registration) {
  static bool quiet = (pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS), true);
  (void)quiet;
  Room R = room(s, s.one_of<int>({110, 90, 150}));
  Rng r(s.seed());
  if (R.p.size() < 50) throw Discard();
  // a pool of clouds: incomplete, noisy views of one scene from nearby places
  struct View {
    Cloud::Ptr c;
    Iso pose;
  };
  std::vector<View> pool;
  double lim = s.one_of<double>({1.0, 0.4, 2.0}) * R.spacing;
  for (int i = 0; i < 4; i++) {
    View v;
    v.pose = gen::pose(s, 0.4 * lim / R.scale, 0.4 * lim);
    v.c.reset(new Cloud);
    bool tiny = s.coin(2);
    for (auto& x : R.p)
      if (r.below(100) < 80 && (!tiny || v.c->size() < 8)) {
        V4 y = v.pose * V4(x + 0.05 * R.spacing * V4(r.real(-1, 1), r.real(-1, 1), r.real(-1, 1), 0));
        v.c->push_back(pcl::PointXYZ(y[0], y[1], y[2]));
      }
    pool.push_back(v);
  }
  Reg reg;
  Side src, tgt;
  RegistrationSetting st;  // the documented defaults
  st.type = RegistrationSetting::GICP;
  st.voxel_resolution = 1.0;
  st.max_correspondence_distance = 1000.0;
  st.rotation_eps = 2e-3;
  st.translation_eps = 5e-4;
  st.max_iterations = 10;
  int k = 20;
  int aligned = 0, changed_after = 0;
  std::string hist;
  auto op = [&](const std::string& o) { hist += (hist.empty() ? "" : " ") + o; };

  auto set_input = [&](bool target, int i) {
    Side& m = target ? tgt : src;
    auto& v = pool[i];
    if (m.cloud == v.c && m.covs) return;  // whether re-setting the same cloud keeps covariances is left open
    op((target ? "target=" : "source=") + std::to_string(i));
    if (target)
      reg.setInputTarget(v.c);
    else
      reg.setInputSource(v.c);
    if (m.cloud != v.c) m.covs.reset();
    m.cloud = v.c, m.pose = v.pose;
  };
  auto attributes = [&](const Side& m) {
    PointCloud c(points_of(*m.cloud));
    if (m.covs)
      c.covs = *m.covs;
    else
      estimate_covariances(c, k);
    return c;
  };
  auto do_align = [&]() {
    op("align");
    Iso truth = Iso::Identity();
    Eigen::Matrix4f guess = Eigen::Matrix4f::Identity();
    if (src.cloud && tgt.cloud && s.coin(50)) {
      truth = tgt.pose * src.pose.inverse();
      guess = (truth * gen::pose(s, 0.2 * lim / R.scale, 0.2 * lim)).matrix().cast<float>();
    }
    Cloud out;
    if (guess.isIdentity(0))
      reg.align(out);
    else
      reg.align(out, guess);
    if (!src.cloud || !tgt.cloud) return;
    PointCloud T = attributes(tgt), S = attributes(src);
    auto& got = reg.getRegistrationResult();
    std::string what = std::string(st.type == RegistrationSetting::GICP ? "GICP" : "VGICP") + " after [" + hist + "]";
    // covariances in use
    auto check_covs = [&](const std::vector<M4>& have, const Side& m, const PointCloud& ref, const char* which) {
      PBT_CHECK(have.size() == ref.size(), what << ": " << have.size() << " " << which << " covariances for " << ref.size() << " points");
      int off = 0;
      for (size_t i = 0; i < have.size(); i++) {
        double d = (have[i] - ref.covs[i]).cwiseAbs().maxCoeff();
        if (m.covs)
          PBT_CHECK(d == 0, what << ": " << which << " covariance " << i << " is not the one supplied");
        else
          off += d > 1e-6;
      }
      // a tie or an isotropic neighbourhood leaves single ones open
      PBT_CHECK(off <= (int)have.size() / 20, what << ": " << off << " of " << have.size() << " " << which << " covariances are not those of " << k << " neighbours");
      return off == 0;
    };
    bool exact = check_covs(reg.getTargetCovariances(), tgt, T, "target");
    exact = check_covs(reg.getSourceCovariances(), src, S, "source") && exact;
    if (!exact) return;
    auto base = compare(s, T, S, Iso(Eigen::Isometry3d(guess.cast<double>())), st, got, R.scale, what, 0);
    Eigen::Matrix4f Tf = got.T_target_source.matrix().cast<float>();
    PBT_CHECK(reg.getFinalTransformation() == Tf, what << ": final transformation\n" << reg.getFinalTransformation() << "\nbut the result holds\n" << Tf);
    PBT_CHECK(reg.hasConverged() == got.converged, what << ": converged flag " << reg.hasConverged() << " but the result holds " << got.converged);
    PBT_CHECK(reg.getFinalHessian() == got.H, what << ": final Hessian is not the result's");
    if (base) PBT_CHECK((got.H - base->H).norm() <= 2e-3 * base->H.norm(), what << ": Hessian differs from the composition by " << (got.H - base->H).norm() / base->H.norm());
    // the aligned cloud is the transformed source
    PBT_CHECK(out.size() == src.cloud->size(), what << ": aligned cloud has " << out.size() << " points");
    double fit = 0;
    Pts tp = points_of(*tgt.cloud);
    double tol = 1e-5 * R.scale;
    for (size_t i = 0; i < out.size(); i++) {
      V4 want = got.T_target_source * V4((*src.cloud)[i].x, (*src.cloud)[i].y, (*src.cloud)[i].z, 1);
      V4 have(out[i].x, out[i].y, out[i].z, 1);
      PBT_CHECK((want - have).norm() <= tol, what << ": aligned point " << i << " is " << gen::str(have) << ", expected " << gen::str(want));
      fit += gen::brute_sq_dists(tp, have, 1)[0];
    }
    fit /= out.size();
    double f = reg.getFitnessScore();
    PBT_CHECK(std::abs(f - fit) <= 1e-3 * fit + 1e-9 * R.scale * R.scale, what << ": fitness score " << f << ", mean squared nearest distance to the current target " << fit);
    aligned++;
    if (changed_after) s.nontrivial = true;
    changed_after = 0;
  };
  auto setting = [&]() {
    switch (s.below(8)) {
      case 0:
        st.voxel_resolution = R.spacing * s.one_of<double>({3.0, 6.0, 2.0});
        if (s.coin(5)) st.voxel_resolution = -1;
        op("res=" + std::to_string(st.voxel_resolution));
        reg.setVoxelResolution(st.voxel_resolution);
        if (st.voxel_resolution <= 0) st.voxel_resolution = 1.0;  // documented nowhere: rejected, replaced by the default
        break;
      case 1:
        k = s.one_of<int>({10, 20, 7, 3, 60});
        op("k=" + std::to_string(k));
        if (s.coin(50))
          reg.setNumNeighborsForCovariance(k);
        else
          reg.setCorrespondenceRandomness(k);
        k = std::max(k, 5);
        break;
      case 2: {
        bool v = s.coin(60);
        op(v ? "VGICP" : "GICP");
        reg.setRegistrationType(v ? "VGICP" : "GICP");
        st.type = v ? RegistrationSetting::VGICP : RegistrationSetting::GICP;
        if (s.coin(10)) reg.setRegistrationType("gicp"), op("bad-type");
        break;
      }
      case 3:
        st.max_correspondence_distance = s.one_of<double>({1.0, 2.0 * R.spacing / R.scale, 1.2 * R.spacing / R.scale, 1000.0}) * R.scale;
        op("maxd");
        reg.setMaxCorrespondenceDistance(st.max_correspondence_distance);
        break;
      case 4:
        st.max_iterations = s.one_of<int>({10, 1, 2, 30});
        op("iters=" + std::to_string(st.max_iterations));
        reg.setMaximumIterations(st.max_iterations);
        break;
      case 5:
        st.translation_eps = s.one_of<double>({1e-3, 1e-1, 1e-5}) * R.scale;
        op("eps_t");
        reg.setTransformationEpsilon(st.translation_eps);
        break;
      case 6:
        st.rotation_eps = s.one_of<double>({2e-3, 1e-1, 1e-5});
        op("eps_r");
        reg.setRotationEpsilon(st.rotation_eps);
        break;
      case 7: {
        int n = s.one_of<int>({1, 2, 4, 0});
        op("threads=" + std::to_string(n));
        reg.setNumThreads(n);
        break;
      }
    }
  };
  reg.setNumThreads(1);
  if (s.coin(80)) {
    set_input(true, 0), set_input(false, 1);
    if (s.coin(70)) st.voxel_resolution = 3 * R.spacing, reg.setVoxelResolution(st.voxel_resolution);
    if (s.coin(50)) st.type = RegistrationSetting::VGICP, reg.setRegistrationType("VGICP"), op("VGICP");
    do_align();
  }
  int ops = 2 + s.below(12);
  for (int i = 0; i < ops; i++) {
    int o = s.pick({5, 3, 3, 4, 3, 1, 2, 1});
    if (o != 0 && aligned) changed_after++;
    switch (o) {
      case 0: do_align(); break;
      case 1: set_input(true, s.below(4)); break;
      case 2: set_input(false, s.below(4)); break;
      case 3: setting(); break;
      case 4: {  // covariances
        bool target = s.coin(50);
        Side& m = target ? tgt : src;
        size_t n = m.cloud ? m.cloud->size() : 10;
        bool wrong = s.coin(10);
        auto c = random_covs(r, wrong ? n + 1 : n, s.below(3));
        op(std::string(target ? "target" : "source") + (wrong ? "-covs(wrong size)" : "-covs"));
        if (target)
          reg.setTargetCovariances(c);
        else
          reg.setSourceCovariances(c);
        if (m.cloud && !wrong) m.covs = c;
        break;
      }
      case 5:
        if (s.coin(50)) {
          op("clear-target");
          reg.clearTarget(), tgt = Side();
        } else {
          op("clear-source");
          reg.clearSource(), src = Side();
        }
        break;
      case 6:
        op("swap");
        reg.swapSourceAndTarget();
        std::swap(src, tgt);
        break;
      case 7: {  // an empty cloud is rejected with an error message and changes nothing
        Cloud::Ptr e(new Cloud);
        bool target = s.coin(50);
        op(target ? "target=empty" : "source=empty");
        if (target)
          reg.setInputTarget(e);
        else
          reg.setInputSource(e);
        break;
      }
    }
  }
  do_align();
  s.note(hist);
}
