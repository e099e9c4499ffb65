#include "make.ipp"
namespace cam {
Made makeSphere(const Spec& s) {
  if (s.model == EUCM) return finish(s, two<ExtendedUnifiedProjection<NoDistortion>>(s), GlobalShutter());
  return finish(s, two<DoubleSphereProjection<NoDistortion>>(s), GlobalShutter());
}
}
