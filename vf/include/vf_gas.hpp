// thermodynamic cell states of perfect gases and perfect gas mixtures
#ifndef VF_GAS_HPP
#define VF_GAS_HPP
#include "vf_eigen.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
using namespace fub;
template <int D> PerfectGas<D> gas(PerfectGas<D>*) {
  PerfectGas<D> eq;
  const double gm1 = vf_pos("gamma-1");
  eq.gamma = 1.0 + gm1;
  eq.gamma_minus_1_inv = 1.0 / gm1;
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
template <int D> PerfectGasMix<D> gas(PerfectGasMix<D>*) {
  PerfectGasMix<D> eq;
  eq.n_species = 2;
  eq.n_passive_scalars = 1;
  eq.SetConstants(vf_pos("Rspec"), 1.0 + vf_pos("gamma-1"));
  eq.Msq = vf_pos("Msq");
  eq.Msqinv = 1.0 / eq.Msq;
  return eq;
}
// cell states as plain numbers: rho, u[3], p, c, E, Y[3]
struct Cell {
  double rho, u[3], p, c, E, y[3];
};
static const char* const CN[3][10] = {{"rhoL", "uL", "vL", "wL", "pL", "cL", "EL", "y0L", "y1L", "y2L"},
                                      {"rhoM", "uM", "vM", "wM", "pM", "cM", "EM", "y0M", "y1M", "y2M"},
                                      {"rhoR", "uR", "vR", "wR", "pR", "cR", "ER", "y0R", "y1R", "y2R"}};
static Cell cell(int k) {
  const char* const* n = CN[k];
  return Cell{vf_pos(n[0]), {vf_real(n[1]), vf_real(n[2]), vf_real(n[3])}, vf_pos(n[4]), vf_pos(n[5]), vf_real(n[6]), {vf_real(n[7]), vf_real(n[8]), vf_real(n[9])}};
}
static Cell other() {
  return Cell{vf_pos("rhoX"), {vf_real("uX"), vf_real("uX"), vf_real("uX")}, vf_pos("pX"), vf_pos("cX"), vf_real("EX"), {vf_real("yX"), vf_real("yX"), vf_real("yX")}};
}
template <class E> constexpr bool mix = euler::state_with_species<Complete<E>>();
template <class E> void put(Complete<E>& q, const Cell& z) {
  q.density = z.rho;
  for (int d = 0; d < E::Rank(); ++d) q.momentum[d] = z.rho * z.u[d];
  q.energy = z.E;
  q.pressure = z.p;
  q.speed_of_sound = z.c;
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) q.species[s] = z.rho * z.y[s];
    q.passive_scalars[0] = z.rho * z.y[2];
  }
}
template <class E> void put(CompleteArray<E>& q, const Cell& z, int k) {
  q.density[k] = z.rho;
  for (int d = 0; d < E::Rank(); ++d) q.momentum(d, k) = z.rho * z.u[d];
  q.energy[k] = z.E;
  q.pressure[k] = z.p;
  q.speed_of_sound[k] = z.c;
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) q.species(s, k) = z.rho * z.y[s];
    q.passive_scalars(0, k) = z.rho * z.y[2];
  }
}
template <class E> void put_all(CompleteArray<E>& q, const Cell& z, const Cell& x, int k) {
  for (int i = 0; i < kDefaultChunkSize; ++i) put<E>(q, i == k ? z : x, i);
}
#endif
