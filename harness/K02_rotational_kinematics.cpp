// K02: the rate matrix of every rotation parameterisation is its derivative.
#include <num.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
using namespace num;
using namespace sm::kinematics;

static void kinematics(pbt::Case& c, const RotationalKinematics& par, const Vector3d& p, double h) {
  Vector3d v = vecAny(c, 3, 4);
  c << "p " << str(p) << " pdot " << str(v);
  c.nontrivial(p.norm() > 0 && v.norm() > 0);
  Matrix3d R = par.parametersToRotationMatrix(p);
  Matrix3d S = par.parametersToSMatrix(p), S2;
  // R(p + d) R(p)' = 1 - (S d)^x, to first order
  checkJacobian(c, S, [&](const VectorXd& d) -> VectorXd {
    Matrix3d D = par.parametersToRotationMatrix(p + Vector3d(d)) * R.transpose();
    return -0.5 * Vector3d(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)); }, h, 1e-8, 1e-9, "S matrix");
  par.parametersToRotationMatrix(p, &S2);
  c.nearMat(S2, S, 1e-15, 0, "S matrix returned with the rotation");
  Eigen::Matrix<double, 3, 6> J;
  J.setConstant(7);
  Vector3d w = par.angularVelocityAndJacobian(p, v, &J);
  c.nearMat(w, S * v, 1e-14, 1e-14, "angular velocity");
  c.nearMat(par.angularVelocityAndJacobian(p, v, 0), w, 0, 0, "angular velocity without a Jacobian");
  checkJacobian(c, J, [&](const VectorXd& d) -> VectorXd {
    return par.parametersToSMatrix(p + Vector3d(d.head(3))) * (v + Vector3d(d.tail(3))); }, h, 1e-7, 1e-9, "angular velocity Jacobian");
}
PBT_CLAIM(yaw_pitch_roll, 1500) { kinematics(c, EulerAnglesYawPitchRoll(), vecAny(c, 3, 4), 0.05); }
PBT_CLAIM(zxy, 1500) { kinematics(c, EulerAnglesZXY(), vecAny(c, 3, 4), 0.05); }
PBT_CLAIM(zyx, 1500) { kinematics(c, EulerAnglesZYX(), vecAny(c, 3, 4), 0.05); }
PBT_CLAIM(rodriguez, 1500) { kinematics(c, EulerRodriguez(), c.boolean() ? vecAny(c, 3, 1) : vecAny(c, 3, 4), 0.05); }
PBT_CLAIM(rotation_vector, 2500) {
  RotationVector r;
  double a = angle(c, c.oneIn(4) ? 6. : M_PI);
  Vector3d p = a * unit3(c);
  c.label(a == 0 ? "zero" : a < 1e-6 ? "tiny" : "generic");
  kinematics(c, r, p, 0.05);
  if (a < 6.2 && a > 1e-4 || a == 0)
    c.nearMat(r.parametersToInverseSMatrix(p) * r.parametersToSMatrix(p), Matrix3d::Identity(), a == 0 ? 1e-15 : 1e-13 / (a * a) + 1e-9, 0,
              "inverse S matrix");
}
PBT_CLAIM(same_motion, 1500) {
  // one motion, seen through two parameterisations, has one angular velocity
  Vector3d aa = c.real(0.1, 2) * unit3(c), w = vec(c, 3, 2);
  Matrix3d R = expSO3(aa);
  c << "rotation " << str(aa) << " omega " << str(w);
  std::vector<std::pair<std::string, std::shared_ptr<RotationalKinematics>>> P = {
      {"yaw pitch roll", std::make_shared<EulerAnglesYawPitchRoll>()}, {"zxy", std::make_shared<EulerAnglesZXY>()},
      {"zyx", std::make_shared<EulerAnglesZYX>()}, {"rodriguez", std::make_shared<EulerRodriguez>()},
      {"rotation vector", std::make_shared<RotationVector>()}};
  for (auto& x : P) {
    Vector3d p = x.second->rotationMatrixToParameters(R);
    Matrix3d S = x.second->parametersToSMatrix(p);
    if (std::fabs(S.determinant()) < 0.05) { c.label("near a singularity of " + x.first); continue; }
    Vector3d pd = S.inverse() * w;
    double h = 1e-5;
    Matrix3d D = x.second->parametersToRotationMatrix(p + h * pd) * x.second->parametersToRotationMatrix(p - h * pd).transpose();
    Vector3d got = -0.5 * Vector3d(D(2, 1) - D(1, 2), D(0, 2) - D(2, 0), D(1, 0) - D(0, 1)) / (2 * h);
    c.nearMat(got, w, 1e-5, 1e-5, "angular velocity through " + x.first);
    c.nontrivial();
  }
}
PBT_MAIN("K02",
         "Random parameters and rates of the five rotation parameterisations (with zero, tiny and generic rotations); the "
         "rate matrix and the angular velocity Jacobian are compared with Ridders' numerical derivative of the rotation "
         "matrix; non-trivial: parameters and rates are not zero.")
