// vf: sources = src/equations/PerfectGas.cpp src/equations/PerfectGasMix.cpp
// assumption: PerfectGasMix is instantiated with two species and one passive scalar (the loops over them are uniform)
// assumption: density and pressure of the reconstructed states are positive (the code checks neither)
// assumption: reconstructions of arrays use arbitrary values in the checked lane and one other arbitrary state in all remaining lanes
// Half time step reconstruction at cell faces: conservative, primitive and characteristic variables.
#include "vf_evolve.hpp"
#include "vf_lanes.hpp"
#include "fub/Duration.hpp"
#include "fub/Equation.hpp"
#include "fub/flux_method/Reconstruct.hpp"

template <class E> double kinetic(const Cell& r) {
  double s = 0.0;
  for (int d = 0; d < E::Rank(); ++d) s += r.u[d] * r.u[d];
  return 0.5 * r.rho * s;
}
template <class E> void post(const E& eq, const Complete<E>& q, const Cell& r) {
  vf_cover("reconstructed");
  vf_check_eq("density", q.density, r.rho);
  vf_check_eq("pressure", q.pressure, r.p);
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", q.momentum[d], r.rho * r.u[d]);
  vf_check_eq("energy", q.energy, r.p / (eq.gamma - 1.0) + euler::MaSq(eq) * kinetic<E>(r));
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) vf_check_eq("species", q.species[s], r.rho * r.y[s]);
    vf_check_eq("passive scalar", q.passive_scalars[0], r.rho * r.y[2]);
  }
}
template <class E> void post(const E& eq, const CompleteArray<E>& q, const Cell& r, int k) {
  vf_check_eq("density", q.density[k], r.rho);
  vf_check_eq("pressure", q.pressure[k], r.p);
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", q.momentum(d, k), r.rho * r.u[d]);
  vf_check_eq("energy", q.energy[k], r.p / (eq.gamma - 1.0) + euler::MaSq(eq) * kinetic<E>(r));
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) vf_check_eq("species", q.species(s, k), r.rho * r.y[s]);
    vf_check_eq("passive scalar", q.passive_scalars(0, k), r.rho * r.y[2]);
  }
}
// the slopes in the variables of the method
template <class E> void put(const E&, Primitive<E>& g, const Slope& s, const Cell&, int) {
  g.density = s.rho;
  for (int d = 0; d < E::Rank(); ++d) g.velocity[d] = s.u[d];
  g.pressure = s.p;
  if constexpr (mix<E>) {
    for (int k = 0; k < 2; ++k) g.species[k] = s.y[k];
    g.passive_scalars[0] = s.y[2];
  }
}
template <class E> void put(const E& eq, Characteristics<E>& g, const Slope& s, const Cell& z, int ix) {
  const double M = std::sqrt(euler::MaSq(eq));
  g.minus = s.p - M * z.rho * z.c * s.u[ix];
  g.plus = s.p + M * z.rho * z.c * s.u[ix];
  g.zero[0] = s.rho - s.p / (z.c * z.c);
  for (int i = 1; i < E::Rank(); ++i) g.zero[i] = s.u[(ix + i) % E::Rank()];
  if constexpr (mix<E>) {
    for (int k = 0; k < 2; ++k) g.species[k] = s.y[k];
    g.passive_scalars[0] = s.y[2];
  }
}
template <class E> void put(const E&, PrimitiveArray<E>& g, const Slope& s, const Cell&, int, int i) {
  g.density[i] = s.rho;
  for (int d = 0; d < E::Rank(); ++d) g.velocity(d, i) = s.u[d];
  g.pressure[i] = s.p;
  if constexpr (mix<E>) {
    for (int k = 0; k < 2; ++k) g.species(k, i) = s.y[k];
    g.passive_scalars(0, i) = s.y[2];
  }
}
template <class E> void put(const E& eq, CharacteristicsArray<E>& g, const Slope& s, const Cell& z, int ix, int k) {
  const double M = std::sqrt(euler::MaSq(eq));
  g.minus[k] = s.p - M * z.rho * z.c * s.u[ix];
  g.plus[k] = s.p + M * z.rho * z.c * s.u[ix];
  g.zero(0, k) = s.rho - s.p / (z.c * z.c);
  for (int i = 1; i < E::Rank(); ++i) g.zero(i, k) = s.u[(ix + i) % E::Rank()];
  if constexpr (mix<E>) {
    for (int j = 0; j < 2; ++j) g.species(j, k) = s.y[j];
    g.passive_scalars(0, k) = s.y[2];
  }
}
template <template <class> class Method, class E> void scalar(Direction dir, Side side) {
  E eq = gas((E*)nullptr);
  const int ix = int(dir);
  const Cell z = cell(1);
  const Slope s = slope();
  const double dx = vf_pos("dx"), dt = vf_real("dt");
  vf_assume(dt >= 0);
  const Cell r = evolve(z, s, euler::MaSq(eq), dt, dx, ix, E::Rank(), side);
  vf_assume(r.rho > 0 && r.p > 0);
  Complete<E> q(eq), rec(eq);
  put<E>(q, z);
  Method<E> m(eq);
  typename Method<E>::Gradient g(eq);
  put(eq, g, s, z, ix);
  m.Reconstruct(rec, q, g, Duration(dt), dx, dir, side);
  post(eq, rec, r);
}
template <template <class> class Method, class E> void array(Direction dir, Side side) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    E eq = gas((E*)nullptr);
    const int ix = int(dir);
    const Cell z = cell(1), x = other();
    const Slope s = slope();
    const double dx = vf_pos("dx"), dt = vf_real("dt");
    vf_assume(dt >= 0);
    const Cell r = evolve(z, s, euler::MaSq(eq), dt, dx, ix, E::Rank(), side);
    vf_assume(r.rho > 0 && r.p > 0);
    CompleteArray<E> q(eq), rec(eq);
    put_all<E>(q, z, x, k);
    Method<E> m(eq);
    typename Method<E>::GradientArray g(eq);
    for (int i = 0; i < kDefaultChunkSize; ++i) put(eq, g, i == k ? s : flat, i == k ? z : x, ix, i);
    m.Reconstruct(rec, q, g, Duration(dt), dx, dir, side);
    post(eq, rec, r, k);
  });
}
#define BOTH(name, method, eq, dir)                                                                        \
  extern "C" void vf_harness_##name##_lower() { scalar<method, eq>(dir, Side::Lower); }                    \
  extern "C" void vf_harness_##name##_upper() { scalar<method, eq>(dir, Side::Upper); }                    \
  extern "C" void vf_harness_##name##_array_lower() { array<method, eq>(dir, Side::Lower); }               \
  extern "C" void vf_harness_##name##_array_upper() { array<method, eq>(dir, Side::Upper); }
BOTH(prim_1d, PrimitiveReconstruction, PerfectGas<1>, Direction::X)
BOTH(prim_2d, PrimitiveReconstruction, PerfectGas<2>, Direction::Y)
BOTH(prim_mix, PrimitiveReconstruction, PerfectGasMix<1>, Direction::X)
BOTH(chars_1d, CharacteristicsReconstruction, PerfectGas<1>, Direction::X)
BOTH(chars_2d, CharacteristicsReconstruction, PerfectGas<2>, Direction::Y)
BOTH(chars_mix, CharacteristicsReconstruction, PerfectGasMix<1>, Direction::X)
extern "C" void vf_harness_prim_3d_lower() { scalar<PrimitiveReconstruction, PerfectGas<3>>(Direction::Y, Side::Lower); }
extern "C" void vf_harness_chars_3d_upper() { scalar<CharacteristicsReconstruction, PerfectGas<3>>(Direction::Z, Side::Upper); }
extern "C" void vf_harness_prim_array_3d_upper() { array<PrimitiveReconstruction, PerfectGas<3>>(Direction::Y, Side::Upper); }
extern "C" void vf_harness_chars_array_3d_lower() { array<CharacteristicsReconstruction, PerfectGas<3>>(Direction::Z, Side::Lower); }
extern "C" void vf_harness_chars_array_mix_3d() { array<CharacteristicsReconstruction, PerfectGasMix<3>>(Direction::Y, Side::Upper); }
