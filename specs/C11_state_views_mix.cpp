// contract: Load, Store, Shrink, AsConst, AsCons, Begin, Advance and the SIMD variants Load, LoadN, Store, StoreN move the components of exactly the addressed cells between views and states
// contract: IndexMapping, CopyFromBuffer and CopyToBuffer number the components of a state consecutively
// assumption: the mixture has three species and one passive scalar (buffers: up to three of each)
#define VF_SECOND_PART
#include "C11_state_views.cpp"
ALL(conservative_3d, Conservative<PerfectGas<3>>)
ALL(mix_complete_2d, Complete<PerfectGasMix<2>>)
ALL(mix_conservative_1d, Conservative<PerfectGasMix<1>>)
