// C20: SO(3)/SE(3) exponential maps against a long double matrix exponential.
#include "gen.hpp"
#include <small_gicp/util/lie.hpp>
using namespace small_gicp;
using namespace pbt;
using gen::V3;
using V6 = Eigen::Matrix<double, 6, 1>;
using M3 = Eigen::Matrix3d;
using Iso = Eigen::Isometry3d;
using L4 = Eigen::Matrix<long double, 4, 4>;

static L4 expm(const V6& d) {
  L4 A = L4::Zero();
  A(0, 1) = -(long double)d[2], A(0, 2) = d[1], A(1, 0) = d[2], A(1, 2) = -(long double)d[0], A(2, 0) = -(long double)d[1], A(2, 1) = d[0];
  A(0, 3) = d[3], A(1, 3) = d[4], A(2, 3) = d[5];
  // exact scaling of the translation keeps small and large components accurate
  int sq = 0;
  long double nrm = d.head<3>().norm();
  while (nrm > 0.25L) nrm /= 2, sq++;
  A = A * std::pow(0.5L, sq);
  L4 E = L4::Identity(), P = L4::Identity();
  for (int k = 1; k < 24; k++) {
    P = (P * A) / (long double)k;
    E += P;
  }
  for (int k = 0; k < sq; k++) E = E * E;
  return E;
}

static V3 omega(Src& s) {
  V3 ax(s.sym(1), s.sym(1), s.sym(1));
  int axis = s.below(5);
  if (axis < 3) ax = V3::Unit(axis) * (s.coin(50) ? 1 : -1);
  if (ax.norm() < 1e-3) ax = V3(1, 0, 0);
  ax.normalize();
  double a = 0;
  switch (s.pick({3, 3, 2, 2, 2, 1})) {
    case 0: a = s.real(0, M_PI); break;
    case 1: a = s.logreal(1e-12, 1); break;
    case 2: a = M_PI + s.sym(1e-3) * s.one_of<double>({1, 1e-3, 1e-6, 0}); break;
    case 3: a = s.real(0, s.one_of<double>({40, 40, 1000, 1e6})); break;
    case 4: a = std::sqrt(1e-10) * (1 + s.sym(1e-2)); break;  // around the small-angle switch
    case 5: a = s.one_of<double>({0.0, 1e-300, 1e-160, 1e-20, 1e-10, 2e-10, 1e-8}); break;
  }
  s.label(a == 0 ? "zero" : a < 1e-5 ? "tiny" : a < 0.1 ? "small" : a < 3.1 ? "medium" : a < 3.2 ? "around pi" : "beyond pi");
  return ax * a;
}

PBT_PROPERTY(lie) {
  V3 w = omega(s);
  double th = w.norm();
  double tscale = s.one_of<double>({1.0, 1000.0, 1e-3, 0.0, 1e-9});
  V3 t = V3(s.sym(1), s.sym(1), s.sym(1)) * tscale;
  V6 a;
  a << w, t;
  std::ostringstream os;
  os << std::setprecision(17) << "a=" << a.transpose();
  s.note(os.str());
  s.nontrivial = th > 0;
  // skew
  V3 b(s.sym(10), s.sym(10), s.sym(10)), x(s.sym(10), s.sym(10), s.sym(10));
  PBT_CHECK((skew(x) * b - x.cross(b)).norm() <= 1e-14 * (x.norm() * b.norm()), "skew(" << x.transpose() << ") * " << b.transpose() << " = " << (skew(x) * b).transpose());
  PBT_CHECK(skew(x) == -skew(x).transpose(), "skew(" << x.transpose() << ") is not skew-symmetric");
  PBT_CHECK(skew(x).diagonal().norm() == 0, "skew(" << x.transpose() << ") has a non-zero diagonal");
  // rotation
  L4 E = expm(a);
  M3 R = E.cast<double>().block<3, 3>(0, 0);
  double rt = 1e-14 * (10 + th);
  Eigen::Quaterniond q = so3_exp(w);
  PBT_CHECK(std::abs(q.norm() - 1) <= 1e-13, "so3_exp(" << w.transpose() << ") has norm " << q.norm());
  PBT_CHECK((q.toRotationMatrix() - R).norm() <= rt, "so3_exp(" << w.transpose() << ") =\n" << q.toRotationMatrix() << "\nexpected\n" << R);
  // rigid motion
  Iso T = se3_exp(a);
  PBT_CHECK((T.linear() - R).norm() <= rt, "rotation of se3_exp(" << a.transpose() << ")\n" << T.linear() << "\nexpected\n" << R);
  PBT_CHECK(T.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "last row of se3_exp:\n" << T.matrix());
  PBT_CHECK((T.linear().transpose() * T.linear() - M3::Identity()).norm() <= 1e-13 && T.linear().determinant() > 0, "se3_exp(" << a.transpose() << ") is not rigid");
  V3 te = E.cast<double>().block<3, 1>(0, 3);
  // the closed form loses about eps / angle to cancellation, never more than 2e-8
  double tt = t.norm() * (1e-14 * (10 + th) + std::min(1.5e-16 * 4 / std::max(th, 1e-300), 2e-8));
  PBT_CHECK((T.translation() - te).norm() <= tt + 1e-300, "translation of se3_exp(" << a.transpose() << ") is " << T.translation().transpose() << ", expected " << te.transpose());
  // group laws
  Iso I = T * se3_exp(-a);
  PBT_CHECK((I.linear() - M3::Identity()).norm() <= 4 * rt && I.translation().norm() <= 4 * tt + 1e-300, "exp(a) exp(-a) is not the identity for a=" << a.transpose() << "\n" << I.matrix());
  double c1 = s.real(-1, 1), c2 = s.real(-1, 1);
  Iso A = se3_exp(c1 * a) * se3_exp(c2 * a), B = se3_exp((c1 + c2) * a);
  double slack = t.norm() * (1e-13 * (10 + th) + 6e-8 * (th < 1e-3) + (th >= 1e-3 && std::abs(c1 + c2) * th < 1e-5 || std::abs(c1) * th < 1e-5 || std::abs(c2) * th < 1e-5 ? 6e-8 : 1e-10));
  PBT_CHECK((A.linear() - B.linear()).norm() <= 1e-13 * (10 + th) && (A.translation() - B.translation()).norm() <= slack + 1e-300, "exp(sa) exp(ta) != exp((s+t)a) for a=" << a.transpose() << " s=" << c1 << " t=" << c2);
  Eigen::Quaterniond q2 = so3_exp(c1 * w) * so3_exp(c2 * w), q3 = so3_exp((c1 + c2) * w);
  PBT_CHECK((q2.coeffs() - q3.coeffs()).norm() <= 1e-13 * (10 + th), "so3_exp(sw) so3_exp(tw) != so3_exp((s+t)w) for w=" << w.transpose() << " s=" << c1 << " t=" << c2);
}
