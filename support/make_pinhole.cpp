
#include "make.ipp"
namespace cam {
namespace {
#define PROJ(P, D, f) template <> P<D> projection<P<D>>(const Spec& s) { return f<P<D>>(s); }
PROJ(PinholeProjection, NoDistortion, pinhole) PROJ(PinholeProjection, RadialTangentialDistortion, pinhole) PROJ(PinholeProjection, EquidistantDistortion, pinhole) PROJ(PinholeProjection, FovDistortion, pinhole)
}
Made makePinhole(const Spec& s) { return allD<PinholeProjection>(s); }
}
