// Cameras of every model, built from one description, and independent
// reference models of what they should do.
#pragma once
#include "../lib/num.hpp"
#include <aslam_cameras/cameras/CameraGeometryBase.hpp>
namespace sm { class PropertyTree; }
namespace aslam { namespace cameras { class GridCalibrationTargetObservation; } }
#include <opencv2/core/core.hpp>

namespace cam {
using Eigen::Vector2d; using Eigen::Vector3d; using Eigen::Vector4d; using Eigen::VectorXd; using Eigen::MatrixXd;
using Eigen::Matrix2d;
enum Model { PINHOLE, OMNI, EUCM, DS };
enum Dist { NONE, RADTAN, EQUI, FOV };

struct Spec {
  int model = PINHOLE, dist = NONE;
  bool rs = false, masked = false;
  double fu = 1, fv = 1, cu = 0, cv = 0, a = 0, b = 0;  // a, b: xi | alpha,beta | xi,alpha
  int ru = 0, rv = 0;
  std::vector<double> d;
  double lineDelay = 0;
  cv::Mat mask;
  double maskScale = 1;

  int nExtra() const { return model == PINHOLE ? 0 : model == OMNI ? 1 : 2; }
  int nProj() const { return 4 + nExtra(); }
  int nDist() const { return (int)d.size(); }
  int nShut() const { return rs ? 1 : 0; }
  VectorXd params(bool p, bool di, bool s) const {
    std::vector<double> v;
    if (p) {
      if (nExtra() > 0) v.push_back(a);
      if (nExtra() > 1) v.push_back(b);
      v.insert(v.end(), {fu, fv, cu, cv});
    }
    if (di) v.insert(v.end(), d.begin(), d.end());
    if (s && rs) v.push_back(lineDelay);
    return Eigen::Map<VectorXd>(v.data(), v.size());
  }
  void setParams(const VectorXd& x, bool p, bool di, bool s) {
    int i = 0;
    if (p) {
      if (nExtra() > 0) a = x[i++];
      if (nExtra() > 1) b = x[i++];
      fu = x[i++]; fv = x[i++]; cu = x[i++]; cv = x[i++];
    }
    if (di) for (auto& e : d) e = x[i++];
    if (s && rs) lineDelay = x[i++];
  }
  std::string str() const;
};

using Base = aslam::cameras::CameraGeometryBase;
using Ptr = boost::shared_ptr<Base>;

// The fixed-size template interface of a camera, which error terms use.
struct Fixed {
  virtual ~Fixed() {}
  virtual bool e2k(const Vector3d&, Vector2d&) const = 0;
  virtual bool e2k(const Vector3d&, Vector2d&, Eigen::Matrix<double, 2, 3>&) const = 0;
  virtual bool h2k(const Vector4d&, Vector2d&) const = 0;
  virtual bool h2k(const Vector4d&, Vector2d&, Eigen::Matrix<double, 2, 4>&) const = 0;
  virtual bool k2e(const Vector2d&, Vector3d&) const = 0;
  virtual bool k2e(const Vector2d&, Vector3d&, Eigen::Matrix<double, 3, 2>&) const = 0;
  virtual bool k2h(const Vector2d&, Vector4d&) const = 0;
  virtual bool k2h(const Vector2d&, Vector4d&, Eigen::Matrix<double, 4, 2>&) const = 0;
  virtual MatrixXd projectionJacobian(const Vector3d&) const = 0;
  virtual MatrixXd distortionJacobian(const Vector3d&) const = 0;
  virtual MatrixXd projectionJacobianH(const Vector4d&) const = 0;
  virtual MatrixXd distortionJacobianH(const Vector4d&) const = 0;
  virtual void resize(double scale) = 0;
  virtual bool equal(const Base& other) const = 0;
  virtual std::string save(int archive) const = 0;    // 0 text, 1 xml, 2 binary, 3 portable binary
  virtual Ptr load(int archive, const std::string&) const = 0;
  virtual Ptr fromTree(const sm::PropertyTree&) const = 0;
  virtual size_t reprojectionError(const aslam::cameras::GridCalibrationTargetObservation&, const Eigen::Matrix4d& T_t_c, double&) const = 0;
  virtual Ptr copy() const = 0;
  virtual boost::shared_ptr<Fixed> of(const Ptr&) const = 0;  // the same view of another camera of this type
};
struct Made { Ptr cam; boost::shared_ptr<Fixed> fixed; };
Made make(const Spec&);              // supports what existing typedefs support
inline Ptr makeCamera(const Spec& s) { return make(s).cam; }
Made makePinhole(const Spec&); Made makeOmni(const Spec&); Made makeSphere(const Spec&);
Made makePinholeMasked(const Spec&); Made makeOmniMasked(const Spec&);

// ---- reference models
Vector2d refDistort(const Spec&, const Vector2d& y);
Matrix2d refDistortJacobian(const Spec&, const Vector2d& y);
// every point between the centre and y is in the region where the lens model is one to one
bool invertible(const Spec&, const Vector2d& y, double margin = 0.25);
// normalized image point before distortion; margin < 0 outside the domain
Vector2d refNormalize(const Spec&, const Vector3d& p, double& margin);
bool refLift(const Spec&, const Vector2d& y, Vector3d& p);   // a ray that normalizes to y
inline Vector2d refPixel(const Spec& s, const Vector2d& y) {
  const Vector2d z = refDistort(s, y);
  return Vector2d(s.fu * z[0] + s.cu, s.fv * z[1] + s.cv);
}
bool inImage(const Spec&, const Vector2d& k);
bool maskAllows(const Spec&, const Vector2d& k);

// ---- generators
struct Want { int model = -1, dist = -1; bool shutters = true, masks = true; };
Spec anySpec(pbt::Case&, Want w = Want());
Vector3d anyPoint(pbt::Case&, const Spec&);       // in front, behind, on the axis
// a point the camera sees: its ray leaves through a pixel chosen near the image
bool visiblePoint(pbt::Case&, const Spec&, Vector3d&, Vector2d* normalized = nullptr, double border = 0);
}  // namespace cam
