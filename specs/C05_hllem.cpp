// vf: sources = src/equations/PerfectGas.cpp src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp
// vf: per = 120
// vf: budget = 450
// assumption: HLLEM: left and right states with positive density and pressure for which the Roe-averaged sound speed is real and positive
// assumption: HLLEM chunked: the lanes other than the checked (arbitrary) one hold a fixed admissible state
// HLLEM flux of the perfect gas: scalar, chunked and masked, with and without Larrouturou upwinding of the passively transported quantities.
#include "hllem_ref.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
using namespace fub;
#define EQ PerfectGas<D>
#define NSCAL 0
template <int D> PerfectGas<D> gas() {
  PerfectGas<D> eq;
  const double gm1 = vf_pos("gamma-1");
  eq.gamma = 1.0 + gm1;
  eq.gamma_minus_1_inv = 1.0 / gm1;
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
template <class Eq> double msq(const Eq&) { return 1.0; }
template <class Q, class S> void set_scalars(Q&, const S&) {}
template <class Q, class S> void set_scalars(Q&, const S&, int) {}
template <class Q, class F> void check_scalars(const Q&, const F&) {}
template <class Q, class F> void check_scalars(const Q&, const F&, int) {}
template <class Q> void garbage_scalars(Q&) {}
#include "hllem_harness.hpp"
extern "C" void vf_harness_scalar_1d() { scalar<1, false>(0); }
extern "C" void vf_harness_scalar_2d_x() { scalar<2, false>(0); }
extern "C" void vf_harness_scalar_2d_y() { scalar<2, false>(1); }
extern "C" void vf_harness_scalar_3d_x() { scalar<3, false>(0); }
extern "C" void vf_harness_scalar_3d_y() { scalar<3, false>(1); }
extern "C" void vf_harness_scalar_3d_z() { scalar<3, false>(2); }
extern "C" void vf_harness_scalar_larrouturou_1d() { scalar<1, true>(0); }
extern "C" void vf_harness_scalar_larrouturou_2d_x() { scalar<2, true>(0); }
extern "C" void vf_harness_scalar_larrouturou_2d_y() { scalar<2, true>(1); }
extern "C" void vf_harness_scalar_larrouturou_3d_x() { scalar<3, true>(0); }
extern "C" void vf_harness_scalar_larrouturou_3d_y() { scalar<3, true>(1); }
extern "C" void vf_harness_scalar_larrouturou_3d_z() { scalar<3, true>(2); }
extern "C" void vf_harness_array_1d() { array<1, false>(0); }
extern "C" void vf_harness_array_2d_x() { array<2, false>(0); }
extern "C" void vf_harness_array_2d_y() { array<2, false>(1); }
extern "C" void vf_harness_array_3d_x() { array<3, false>(0); }
extern "C" void vf_harness_array_3d_y() { array<3, false>(1); }
extern "C" void vf_harness_array_3d_z() { array<3, false>(2); }
extern "C" void vf_harness_array_larrouturou_1d() { array<1, true>(0); }
extern "C" void vf_harness_array_larrouturou_2d_x() { array<2, true>(0); }
extern "C" void vf_harness_array_larrouturou_2d_y() { array<2, true>(1); }
extern "C" void vf_harness_array_larrouturou_3d_x() { array<3, true>(0); }
extern "C" void vf_harness_array_larrouturou_3d_y() { array<3, true>(1); }
extern "C" void vf_harness_array_larrouturou_3d_z() { array<3, true>(2); }
extern "C" void vf_harness_masked_2d_x() { masked<2, true>(0); }
extern "C" void vf_harness_masked_2d_y() { masked<2, false>(1); }
extern "C" void vf_harness_consistent_1d() { consistent<1, false>(0); }
extern "C" void vf_harness_consistent_2d_y() { consistent<2, false>(1); }
extern "C" void vf_harness_consistent_larrouturou_2d_x() { consistent<2, true>(0); }
extern "C" void vf_harness_contact_1d() { contact<1, false>(0); }
extern "C" void vf_harness_contact_2d_y() { contact<2, false>(1); }
extern "C" void vf_harness_contact_larrouturou_2d_x() { contact<2, true>(0); }
extern "C" void vf_harness_solution_1d() { solution<1, false>(0); }
extern "C" void vf_harness_solution_2d_x() { solution<2, false>(0); }
extern "C" void vf_harness_solution_2d_y() { solution<2, false>(1); }
extern "C" void vf_harness_solution_3d_z() { solution<3, false>(2); }
extern "C" void vf_harness_solution_larrouturou_2d_x() { solution<2, true>(0); }
extern "C" void vf_harness_solution_larrouturou_2d_y() { solution<2, true>(1); }
