#include "cameras.hpp"
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetObservation.hpp>
#include <boost/make_shared.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sm_boost/portable_binary_oarchive.hpp>
#include <sm_boost/portable_binary_iarchive.hpp>
#include <sm_property_tree/PropertyTree.hpp>
#include <sstream>
namespace cam {
using namespace aslam::cameras;
namespace {   // CAM_MASKED changes what these mean
template <class D> struct MakeD;
template <> struct MakeD<NoDistortion> { static NoDistortion make(const Spec&) { return NoDistortion(); } };
template <> struct MakeD<RadialTangentialDistortion> {
  static RadialTangentialDistortion make(const Spec& s) { return RadialTangentialDistortion(s.d[0], s.d[1], s.d[2], s.d[3]); } };
template <> struct MakeD<EquidistantDistortion> {
  static EquidistantDistortion make(const Spec& s) { return EquidistantDistortion(s.d[0], s.d[1], s.d[2], s.d[3]); } };
template <> struct MakeD<FovDistortion> { static FovDistortion make(const Spec& s) { return FovDistortion(s.d[0]); } };

template <class G> struct FixedT : Fixed {
  boost::shared_ptr<G> g;
  explicit FixedT(boost::shared_ptr<G> x) : g(x) {}
  bool e2k(const Vector3d& p, Vector2d& k) const override { return g->euclideanToKeypoint(p, k); }
  bool e2k(const Vector3d& p, Vector2d& k, Eigen::Matrix<double, 2, 3>& J) const override { return g->euclideanToKeypoint(p, k, J); }
  bool h2k(const Vector4d& p, Vector2d& k) const override { return g->homogeneousToKeypoint(p, k); }
  bool h2k(const Vector4d& p, Vector2d& k, Eigen::Matrix<double, 2, 4>& J) const override { return g->homogeneousToKeypoint(p, k, J); }
  bool k2e(const Vector2d& k, Vector3d& p) const override { return g->keypointToEuclidean(k, p); }
  bool k2e(const Vector2d& k, Vector3d& p, Eigen::Matrix<double, 3, 2>& J) const override { return g->keypointToEuclidean(k, p, J); }
  bool k2h(const Vector2d& k, Vector4d& p) const override { return g->keypointToHomogeneous(k, p); }
  bool k2h(const Vector2d& k, Vector4d& p, Eigen::Matrix<double, 4, 2>& J) const override { return g->keypointToHomogeneous(k, p, J); }
  MatrixXd projectionJacobian(const Vector3d& p) const override { MatrixXd J; g->euclideanToKeypointIntrinsicsJacobian(p, J); return J; }
  MatrixXd distortionJacobian(const Vector3d& p) const override { MatrixXd J; g->euclideanToKeypointDistortionJacobian(p, J); return J; }
  MatrixXd projectionJacobianH(const Vector4d& p) const override { MatrixXd J; g->homogeneousToKeypointIntrinsicsJacobian(p, J); return J; }
  MatrixXd distortionJacobianH(const Vector4d& p) const override { MatrixXd J; g->homogeneousToKeypointDistortionJacobian(p, J); return J; }
  void resize(double scale) override { g->projection().resizeIntrinsics(scale); }
  bool equal(const Base& o) const override { auto* p = dynamic_cast<const G*>(&o); return p && g->isBinaryEqual(*p); }
  template <class A> std::string out() const {
    std::ostringstream o(std::ios::binary);
    { A a(o); const G& cam = *g; a << boost::serialization::make_nvp("cam", cam); }
    return o.str();
  }
  template <class A> Ptr in(const std::string& t) const {
    std::istringstream i(t, std::ios::binary);
    A a(i);
    auto r = boost::make_shared<G>();
    a >> boost::serialization::make_nvp("cam", *r);
    return r;
  }
  std::string save(int k) const override {
    switch (k) {
      case 0: return out<boost::archive::text_oarchive>();
      case 1: return out<boost::archive::xml_oarchive>();
      case 2: return out<boost::archive::binary_oarchive>();
      default: return out<boost::archive::portable_binary_oarchive>();
    }
  }
  Ptr load(int k, const std::string& t) const override {
    switch (k) {
      case 0: return in<boost::archive::text_iarchive>(t);
      case 1: return in<boost::archive::xml_iarchive>(t);
      case 2: return in<boost::archive::binary_iarchive>(t);
      default: return in<boost::archive::portable_binary_iarchive>(t);
    }
  }
  Ptr fromTree(const sm::PropertyTree& t) const override { return boost::make_shared<G>(t); }
  size_t reprojectionError(const GridCalibrationTargetObservation& o, const Eigen::Matrix4d& T, double& e) const override {
    return g->projection().computeReprojectionError(o, sm::kinematics::Transformation(T), e); }
  Ptr copy() const override { return boost::make_shared<G>(*g); }
  boost::shared_ptr<Fixed> of(const Ptr& p) const override { return boost::make_shared<FixedT<G>>(boost::dynamic_pointer_cast<G>(p)); }
};

template <class P> P projection(const Spec& s);
template <class P, class S> Made finish(const Spec& s, const P& proj, const S& sh) {
  Made m;
#ifdef CAM_MASKED
  typedef CameraGeometry<P, S, ImageMask> G;
  auto g = boost::make_shared<G>(proj, sh, ImageMask(s.mask, s.maskScale));
#else
  typedef CameraGeometry<P, S, NoMask> G;
  auto g = boost::make_shared<G>(proj, sh, NoMask());
#endif
  m.cam = g;
  m.fixed = boost::make_shared<FixedT<G>>(g);
  return m;
}
template <template <class> class P, class D> Made withD(const Spec& s) {
  D d = MakeD<D>::make(s);
  P<D> proj = projection<P<D>>(s);
  proj.setDistortion(d);
  return s.rs ? finish(s, proj, RollingShutter(s.lineDelay)) : finish(s, proj, GlobalShutter());
}
template <template <class> class P> Made allD(const Spec& s) {
  switch (s.dist) {
    case NONE: return withD<P, NoDistortion>(s);
    case RADTAN: return withD<P, RadialTangentialDistortion>(s);
    case EQUI: return withD<P, EquidistantDistortion>(s);
    default: return withD<P, FovDistortion>(s);
  }
}
template <class P> P pinhole(const Spec& s) { return P(s.fu, s.fv, s.cu, s.cv, s.ru, s.rv); }
template <class P> P omni(const Spec& s) { return P(s.a, s.fu, s.fv, s.cu, s.cv, s.ru, s.rv); }
template <class P> P two(const Spec& s) { return P(s.a, s.b, s.fu, s.fv, s.cu, s.cv, s.ru, s.rv); }
}
}  // namespace cam
