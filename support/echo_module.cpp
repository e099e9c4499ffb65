// Functions that hand back what they are given, for every matrix type that
// sm_numpy_eigen converts.
#include <sm_numpy_eigen/boost_python_headers.hpp>
#include <boost/cstdint.hpp>
#include <Eigen/Core>
#include <string>

namespace bp = boost::python;

namespace {

template <typename M> M byReference(const M& m) { return m; }
template <typename M> M byValue(M m) { return m; }

std::string dimension(int n) { return n == Eigen::Dynamic ? "D" : std::to_string(n); }

template <typename T, int R, int C>
void one(const std::string& type) {
  typedef Eigen::Matrix<T, R, C> M;
  const std::string name = type + "_" + dimension(R) + "_" + dimension(C);
  bp::def(("echo_" + name).c_str(), &byReference<M>);
  bp::def(("value_" + name).c_str(), &byValue<M>);
}

template <typename T, int R>
void row(const std::string& type) {
  one<T, R, 1>(type);
  one<T, R, 2>(type);
  one<T, R, 3>(type);
  one<T, R, 4>(type);
  one<T, R, 5>(type);
  one<T, R, 6>(type);
  one<T, R, Eigen::Dynamic>(type);
}

template <typename T>
void all(const std::string& type) {
  row<T, 1>(type);
  row<T, 2>(type);
  row<T, 3>(type);
  row<T, 4>(type);
  row<T, 5>(type);
  row<T, 6>(type);
  row<T, Eigen::Dynamic>(type);
}

// several arguments at once: each needs aligned storage of its own
bp::tuple several(const Eigen::Vector4d& a, double x, const Eigen::Matrix2d& b, const Eigen::Vector3d& c, bool flag,
                  const Eigen::MatrixXd& d, const Eigen::Vector2d& e, const Eigen::Matrix4d& f) {
  return bp::make_tuple(a, x, b, c, flag, d, e, f);
}
bp::tuple severalValues(Eigen::Vector2d a, char, Eigen::Matrix4d b, Eigen::VectorXd c, Eigen::Matrix<float, 4, 1> d) {
  return bp::make_tuple(a, b, c, d);
}
std::string overloadedScalar(double) { return "scalar"; }
std::string overloadedVector(const Eigen::VectorXd&) { return "vector"; }
std::string overloadedInt(const Eigen::VectorXi&) { return "int"; }
std::string overloadedDouble(const Eigen::MatrixXd&) { return "double"; }

struct Holder {
  Eigen::Vector4d v;
  Eigen::MatrixXd m;
  Holder(const Eigen::Vector4d& v, const Eigen::MatrixXd& m) : v(v), m(m) {}
  Eigen::Vector4d getV() const { return v; }
  void setV(const Eigen::Vector4d& x) { v = x; }
  const Eigen::MatrixXd& getM() const { return m; }
  void setM(const Eigen::MatrixXd& x) { m = x; }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};

}  // namespace

BOOST_PYTHON_MODULE(pbt_echo) {
  all<int>("int");
  all<boost::int64_t>("long");
  all<unsigned char>("uchar");
  all<float>("float");
  all<double>("double");
  bp::def("several", &several);
  bp::def("severalValues", &severalValues);
  bp::def("scalarOrVector", &overloadedScalar);
  bp::def("scalarOrVector", &overloadedVector);
  bp::def("intOrDouble", &overloadedDouble);
  bp::def("intOrDouble", &overloadedInt);
  bp::class_<Holder>("Holder", bp::init<const Eigen::Vector4d&, const Eigen::MatrixXd&>())
      .add_property("v", &Holder::getV, &Holder::setV)
      .add_property("m", bp::make_function(&Holder::getM, bp::return_value_policy<bp::copy_const_reference>()), &Holder::setM);
}
