// vf: sources = src/equations/PerfectGasMix.cpp
// assumption: PerfectGasMix is instantiated with two species and one passive scalar (the loops over them are uniform)
// Perfect gas mixture: flux, equation of state, transported species and passive scalars.
#include "vf_eigen.hpp"
#include "fub/equations/PerfectGasMix.hpp"
using namespace fub;

// free_ma: the squared reference Mach number of the non-dimensionalisation is arbitrary
template <int D> PerfectGasMix<D> gas(bool free_ma) {
  PerfectGasMix<D> eq;
  eq.n_species = 2;
  eq.n_passive_scalars = 1;
  eq.SetConstants(vf_pos("Rspec"), 1.0 + vf_pos("gamma-1"));
  if (free_ma) {
    eq.Msq = vf_pos("Msq");
    eq.Msqinv = 1.0 / eq.Msq;
  }
  return eq;
}
template <int L = 0, class F> void for_lane(int lane, F f) {
  if constexpr (L < kDefaultChunkSize) {
    if (lane == L) f(std::integral_constant<int, L>());
    else for_lane<L + 1>(lane, f);
  }
}
inline void any_mask(MaskArray& mask, int lane) {
  const bool rest = vf_bool("rest");
  for (int i = 0; i < kDefaultChunkSize; ++i)
    mask[i] = i == lane || i == (lane + 1) % kDefaultChunkSize ? vf_bool("mask") : rest;
}
template <int D> double sq(const Array<double, D, 1>& m) {
  double s = 0.0;
  for (int d = 0; d < D; ++d) s += m[d] * m[d];
  return s;
}
template <int D> Complete<PerfectGasMix<D>> state(const PerfectGasMix<D>& eq) {
  Complete<PerfectGasMix<D>> q(eq);
  q.density = vf_pos("rho");
  q.momentum = vf::vec<D>("m");
  q.energy = vf_real("E");
  q.pressure = vf_real("p");
  q.speed_of_sound = vf_pos("c");
  for (int s = 0; s < 2; ++s) q.species[s] = vf_real("species");
  q.passive_scalars[0] = vf_real("passive");
  return q;
}

extern "C" void vf_harness_pgm_constants() {
  const double R = vf_pos("Rspec"), g = 1.0 + vf_pos("gamma-1");
  PerfectGasMix<1> eq;
  eq.SetConstants(R, g);
  vf_check_eq("Rspec", eq.Rspec, R);
  vf_check_eq("gamma", eq.gamma, g);
  vf_check_eq("1 / Rspec", eq.ooRspec * R, 1.0);
  vf_check_eq("1 / gamma", eq.gamma_inv * g, 1.0);
  vf_check_eq("gamma - 1", eq.gamma_minus_one, g - 1.0);
  vf_check_eq("1 / (gamma - 1)", eq.gamma_minus_one_inv * (g - 1.0), 1.0);
  vf_check_eq("(gamma - 1) / gamma", eq.gamma_minus_one_over_gamma * g, g - 1.0);
  vf_check_eq("gamma / (gamma - 1)", eq.gamma_over_gamma_minus_one * (g - 1.0), g);
  vf_check_eq("c_p - c_v = 1", eq.heat_capacity_at_constant_pressure - eq.heat_capacity_at_constant_volume, 1.0);
  vf_check_eq("reference Mach number is one", eq.Msq, 1.0);
  vf_check_eq("reference Mach number is one", eq.Msqinv, 1.0);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    vf_check_eq("gamma in every lane", eq.gamma_array_[i], g);
    vf_check_eq("1 / (gamma - 1) in every lane", eq.gamma_minus_one_inv_array_[i] * (g - 1.0), 1.0);
  }
}

template <int D> void flux_scalar() {
  PerfectGasMix<D> eq = gas<D>(true);
  const auto q = state<D>(eq);
  for (int dir = 0; dir < D; ++dir) {
    Conservative<PerfectGasMix<D>> f(eq);
    eq.Flux(f, q, Direction(dir));
    const double u = q.momentum[dir] / q.density;
    vf_check_eq("mass flux is the momentum", f.density, q.momentum[dir]);
    for (int d = 0; d < D; ++d)
      vf_check_eq("momentum flux", f.momentum[d],
                  u * q.momentum[d] + (d == dir ? q.pressure / eq.Msq : 0.0));
    vf_check_eq("energy flux is u (E + p)", f.energy, u * (q.energy + q.pressure));
    for (int s = 0; s < 2; ++s) vf_check_eq("species are advected", f.species[s], u * q.species[s]);
    vf_check_eq("passive scalars are advected", f.passive_scalars[0], u * q.passive_scalars[0]);
  }
}
template <int D> void check_flux_lane(const PerfectGasMix<D>& eq, const ConservativeArray<PerfectGasMix<D>>& f, const CompleteArray<PerfectGasMix<D>>& q, int dir, int i) {
  const double u = q.momentum(dir, i) / q.density[i];
  vf_check_eq("mass flux is the momentum", f.density[i], q.momentum(dir, i));
  for (int d = 0; d < D; ++d)
    vf_check_eq("momentum flux", f.momentum(d, i),
                u * q.momentum(d, i) + (d == dir ? q.pressure[i] / eq.Msq : 0.0));
  vf_check_eq("energy flux is u (E + p)", f.energy[i], u * (q.energy[i] + q.pressure[i]));
  for (int s = 0; s < 2; ++s) vf_check_eq("species are advected", f.species(s, i), u * q.species(s, i));
  vf_check_eq("passive scalars are advected", f.passive_scalars(0, i), u * q.passive_scalars(0, i));
}
template <int D> CompleteArray<PerfectGasMix<D>> array_state(const PerfectGasMix<D>& eq, bool pos) {
  CompleteArray<PerfectGasMix<D>> q(eq);
  q.density = pos ? vf::positives("rho") : vf::reals("rho");
  q.momentum = vf::vectors<D>("m");
  q.energy = vf::reals("E");
  q.pressure = vf::reals("p");
  q.speed_of_sound = vf::reals("c");
  for (int s = 0; s < 2; ++s) q.species.row(s) = vf::reals("species");
  q.passive_scalars.row(0) = vf::reals("passive");
  return q;
}
template <int D> void flux_array() {
  PerfectGasMix<D> eq = gas<D>(true);
  const auto q = array_state<D>(eq, true);
  for (int dir = 0; dir < D; ++dir) {
    ConservativeArray<PerfectGasMix<D>> f(eq);
    eq.Flux(f, q, Direction(dir));
    for (int i = 0; i < kDefaultChunkSize; ++i) check_flux_lane<D>(eq, f, q, dir, i);
  }
}
template <int D> void flux_masked() {
  PerfectGasMix<D> eq = gas<D>(true);
  for_lane((int)vf_int("lane", 0, kDefaultChunkSize - 1), [&](auto L) {
    auto q = array_state<D>(eq, false);
    MaskArray mask;
    any_mask(mask, L());
    mask[L()] = true;
    q.density[L()] = vf_pos("rho");
    vf_cover("an active lane");
    for (int dir = 0; dir < D; ++dir) {
      ConservativeArray<PerfectGasMix<D>> f(eq);
      eq.Flux(f, q, mask, Direction(dir));
      check_flux_lane<D>(eq, f, q, dir, L());
    }
  });
}

template <int D> void cons_scalar() {
  PerfectGasMix<D> eq = gas<D>(true);
  Conservative<PerfectGasMix<D>> u(eq);
  u.density = vf_pos("rho");
  u.momentum = vf::vec<D>("m");
  const double eint = vf_pos("eint");
  u.energy = eint + eq.Msq * sq<D>(u.momentum) / (2 * u.density);
  for (int s = 0; s < 2; ++s) u.species[s] = vf_real("species");
  u.passive_scalars[0] = vf_real("passive");
  Complete<PerfectGasMix<D>> q(eq);
  eq.CompleteFromCons(q, u);
  vf_check_eq("density kept", q.density, u.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum kept", q.momentum[d], u.momentum[d]);
  vf_check_eq("energy kept", q.energy, u.energy);
  for (int s = 0; s < 2; ++s) vf_check_eq("species kept", q.species[s], u.species[s]);
  vf_check_eq("passive scalars kept", q.passive_scalars[0], u.passive_scalars[0]);
  vf_check_eq("equation of state", q.pressure, (eq.gamma - 1.0) * eint);
  vf_check_eq("speed of sound", q.speed_of_sound * q.speed_of_sound * q.density, eq.gamma * q.pressure);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound);
  vf_check_eq("specific internal energy", euler::InternalEnergy(eq, u) * u.density, eint);
  vf_check_eq("temperature obeys the ideal gas law", eq.Temperature(q) * q.density, q.pressure);
}
template <int D> void cons_array(int masked) {
  PerfectGasMix<D> eq = gas<D>(true);
  auto body = [&](auto L) {
    ConservativeArray<PerfectGasMix<D>> u(eq);
    u.density = vf::reals("rho");
    u.momentum = vf::vectors<D>("m");
    u.energy = vf::reals("E");
    for (int s = 0; s < 2; ++s) u.species.row(s) = vf::reals("species");
    u.passive_scalars.row(0) = vf::reals("passive");
    MaskArray mask;
    any_mask(mask, L());
    const int i = L();
    CompleteArray<PerfectGasMix<D>> q(eq);
    double eint = 0.0;
    if (masked < 2) {
      mask[i] = true;
      double s = 0.0;
      for (int d = 0; d < D; ++d) s += u.momentum(d, i) * u.momentum(d, i);
      eint = vf_pos("eint");
      u.density[i] = vf_pos("rho");
      u.energy[i] = eint + eq.Msq * s / (2 * u.density[i]);
    } else if (mask[i]) {
      u.density[i] = -vf_real_in("minus rho", 0, 1000);
    }
    if (masked) eq.CompleteFromCons(q, u, mask);
    else eq.CompleteFromCons(q, u);
    if (masked < 2) {
      vf_cover("an active lane");
      vf_check_eq("density kept", q.density[i], u.density[i]);
      for (int d = 0; d < D; ++d) vf_check_eq("momentum kept", q.momentum(d, i), u.momentum(d, i));
      vf_check_eq("energy kept", q.energy[i], u.energy[i]);
      for (int s = 0; s < 2; ++s) vf_check_eq("species kept", q.species(s, i), u.species(s, i));
      vf_check_eq("passive scalars kept", q.passive_scalars(0, i), u.passive_scalars(0, i));
      vf_check_eq("equation of state", q.pressure[i], (eq.gamma - 1.0) * eint);
      vf_check_eq("speed of sound", q.speed_of_sound[i] * q.speed_of_sound[i] * q.density[i], eq.gamma * q.pressure[i]);
      vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound[i]);
    } else {
      vf_cover("an inactive lane");
      vf_check_eq("inactive lanes are zero", q.density[i], 0.0);
      vf_check_eq("inactive lanes are zero", q.energy[i], 0.0);
      vf_check_eq("inactive lanes are zero", q.pressure[i], 0.0);
      vf_check_eq("inactive lanes are zero", q.speed_of_sound[i], 0.0);
      for (int d = 0; d < D; ++d) vf_check_eq("inactive lanes are zero", q.momentum(d, i), 0.0);
      for (int s = 0; s < 2; ++s) vf_check_eq("inactive lanes are zero", q.species(s, i), 0.0);
      vf_check_eq("inactive lanes are zero", q.passive_scalars(0, i), 0.0);
    }
  };
  for_lane((int)vf_int("lane", 0, kDefaultChunkSize - 1), body);
}

template <int D> void prim_scalar() {
  PerfectGasMix<D> eq = gas<D>(true);
  Primitive<PerfectGasMix<D>> w(eq), back(eq);
  w.density = vf_pos("rho");
  w.velocity = vf::vec<D>("u");
  w.pressure = vf_pos("p");
  for (int s = 0; s < 2; ++s) w.species[s] = vf_real("Y");
  w.passive_scalars[0] = vf_real("phi");
  Complete<PerfectGasMix<D>> q(eq), r(eq);
  CompleteFromPrim(eq, q, w);
  vf_check_eq("density", q.density, w.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum", q.momentum[d], w.density * w.velocity[d]);
  for (int s = 0; s < 2; ++s) vf_check_eq("partial densities", q.species[s], w.density * w.species[s]);
  vf_check_eq("passive scalar densities", q.passive_scalars[0], w.density * w.passive_scalars[0]);
  vf_check_eq("total energy", q.energy, w.pressure / (eq.gamma - 1.0) + 0.5 * eq.Msq * w.density * sq<D>(w.velocity));
  vf_check_eq("pressure", q.pressure, w.pressure);
  vf_check_eq("speed of sound", q.speed_of_sound * q.speed_of_sound * q.density, eq.gamma * q.pressure);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound);
  PrimFromComplete(eq, back, q);
  vf_check_eq("primitives come back", back.density, w.density);
  for (int d = 0; d < D; ++d) vf_check_eq("primitives come back", back.velocity[d], w.velocity[d]);
  vf_check_eq("primitives come back", back.pressure, w.pressure);
  for (int s = 0; s < 2; ++s) vf_check_eq("primitives come back", back.species[s], w.species[s]);
  vf_check_eq("primitives come back", back.passive_scalars[0], w.passive_scalars[0]);
  eq.CompleteFromCons(r, AsCons(q));
  vf_check_eq("completion is idempotent", r.pressure, q.pressure);
  const auto v = eq.Velocity(q);
  for (int d = 0; d < D; ++d) vf_check_eq("velocity", v[d], w.velocity[d]);
  const double M = eq.Machnumber(q);
  vf_check_eq("Mach number", M * M * q.speed_of_sound * q.speed_of_sound, sq<D>(w.velocity));
}
// changing the velocity keeps density, species and internal energy
template <int D> void set_velocity() {
  PerfectGasMix<D> eq = gas<D>(false);
  auto q = state<D>(eq);
  const auto old = q;
  const auto v = vf::vec<D>("v");
  euler::SetVelocity(eq, q, v);
  vf_check_eq("density kept", q.density, old.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum is rho v", q.momentum[d], old.density * v[d]);
  vf_check_eq("internal energy kept", q.energy - 0.5 * q.density * sq<D>(v),
              old.energy - 0.5 * sq<D>(old.momentum) / old.density);
  Conservative<PerfectGasMix<D>> cons(eq);
  AsCons(cons) = AsCons(q);
  vf_check_eq("pressure of the conservative state", euler::Pressure(eq, cons), (eq.gamma - 1.0) * (q.energy - 0.5 * sq<D>(q.momentum) / q.density));
}
// kinetic states: density, temperature and composition survive the round trip
template <int D> void kinetic() {
  PerfectGasMix<D> eq = gas<D>(false);
  KineticState<PerfectGasMix<D>> k(eq), back(eq);
  k.density = vf_pos("rho");
  k.temperature = vf_pos("T");
  const double y0 = vf_real_in("Y0", 0, 1), y1 = vf_real_in("Y1", 0, 1);
  vf_assume(y0 + y1 <= 1);
  k.mole_fractions[0] = y0;
  k.mole_fractions[1] = y1;
  k.mole_fractions[2] = 1 - y0 - y1;
  k.passive_scalars[0] = vf_real("phi");
  Complete<PerfectGasMix<D>> q(eq), r(eq);
  const auto u = vf::vec<D>("u");
  euler::CompleteFromKineticState(eq, q, k, u);
  vf_cover("a composition");
  vf_check_eq("density", q.density, k.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum", q.momentum[d], k.density * u[d]);
  vf_check_eq("ideal gas law", q.pressure, k.density * k.temperature);
  vf_check_eq("total energy", q.energy, q.pressure / (eq.gamma - 1.0) + 0.5 * k.density * sq<D>(u));
  vf_check_eq("speed of sound", q.speed_of_sound * q.speed_of_sound * q.density, eq.gamma * q.pressure);
  euler::KineticStateFromComplete(eq, back, q);
  vf_check_eq("round trip", back.density, k.density);
  vf_check_eq("round trip", back.temperature, k.temperature);
  for (int s = 0; s < 3; ++s) vf_check_eq("round trip", back.mole_fractions[s], k.mole_fractions[s]);
  vf_check_eq("round trip", back.passive_scalars[0], k.passive_scalars[0]);
}
#define H(D)                                                                   \
  extern "C" void vf_harness_pgm_flux_##D##d() { flux_scalar<D>(); }           \
  extern "C" void vf_harness_pgm_flux_array_##D##d() { flux_array<D>(); }      \
  extern "C" void vf_harness_pgm_flux_masked_##D##d() { flux_masked<D>(); }    \
  extern "C" void vf_harness_pgm_cons_##D##d() { cons_scalar<D>(); }           \
  extern "C" void vf_harness_pgm_cons_array_##D##d() { cons_array<D>(0); }     \
  extern "C" void vf_harness_pgm_cons_masked_##D##d() { cons_array<D>(1); }    \
  extern "C" void vf_harness_pgm_cons_inactive_##D##d() { cons_array<D>(2); }  \
  extern "C" void vf_harness_pgm_prim_##D##d() { prim_scalar<D>(); }           \
  extern "C" void vf_harness_pgm_set_velocity_##D##d() { set_velocity<D>(); }  \
  extern "C" void vf_harness_pgm_kinetic_##D##d() { kinetic<D>(); }
H(1) H(2) H(3)
