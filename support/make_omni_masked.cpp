#define CAM_MASKED
#include "make.ipp"
namespace cam {
namespace {
#define PROJ(P, D, f) template <> P<D> projection<P<D>>(const Spec& s) { return f<P<D>>(s); }
PROJ(OmniProjection, NoDistortion, omni) PROJ(OmniProjection, RadialTangentialDistortion, omni) PROJ(OmniProjection, EquidistantDistortion, omni) PROJ(OmniProjection, FovDistortion, omni)
}
Made makeOmniMasked(const Spec& s) { return allD<OmniProjection>(s); }
}
