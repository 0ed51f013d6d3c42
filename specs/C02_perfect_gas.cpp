// vf: sources = src/equations/PerfectGas.cpp
// Perfect gas Euler equations: physical flux and equation of state, scalar, chunked and
// masked overloads, in 1, 2 and 3 dimensions, for every gamma > 1.
#include "vf_eigen.hpp"
#include "fub/equations/PerfectGas.hpp"
using namespace fub;

template <int D> PerfectGas<D> gas() {
  PerfectGas<D> eq;
  const double gm1 = vf_pos("gamma-1");
  eq.Rspec = vf_pos("Rspec");
  eq.gamma = 1.0 + gm1;
  eq.gamma_minus_1_inv = 1.0 / gm1;
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
// assumption: chunked masked overloads: all 2^7 masks of the other lanes in 1D; in 2D and 3D one neighbour lane and the remaining lanes as a block
template <int D> void any_mask(MaskArray& mask, int lane) {
  const bool rest = D == 1 ? false : vf_bool("rest");
  for (int i = 0; i < kDefaultChunkSize; ++i)
    mask[i] = D == 1 || i == lane || i == (lane + 1) % kDefaultChunkSize ? vf_bool("mask") : rest;
}
// one path per lane
template <int L = 0, class F> void for_lane(int lane, F f) {
  if constexpr (L < kDefaultChunkSize) {
    if (lane == L) f(std::integral_constant<int, L>());
    else for_lane<L + 1>(lane, f);
  }
}
template <int D> double sq(const Array<double, D, 1>& m) {
  double s = 0.0;
  for (int d = 0; d < D; ++d) s += m[d] * m[d];
  return s;
}

template <int D> void flux_scalar() {
  PerfectGas<D> eq = gas<D>();
  Complete<PerfectGas<D>> q(eq);
  q.density = vf_pos("rho");
  q.momentum = vf::vec<D>("m");
  q.energy = vf_real("E");
  q.pressure = vf_real("p");
  q.speed_of_sound = vf_real("c");
  for (int dir = 0; dir < D; ++dir) {
    Conservative<PerfectGas<D>> f(eq);
    eq.Flux(f, q, Direction(dir));
    const double u = q.momentum[dir] / q.density;
    vf_check_eq("mass flux is the momentum", f.density, q.momentum[dir]);
    for (int d = 0; d < D; ++d)
      vf_check_eq("momentum flux", f.momentum[d],
                  u * q.momentum[d] + (d == dir ? q.pressure : 0.0));
    vf_check_eq("energy flux is u (E + p)", f.energy, u * (q.energy + q.pressure));
  }
}
template <int D> CompleteArray<PerfectGas<D>> array_state(const PerfectGas<D>& eq, bool pos) {
  CompleteArray<PerfectGas<D>> q(eq);
  q.density = pos ? vf::positives("rho") : vf::reals("rho");
  q.momentum = vf::vectors<D>("m");
  q.energy = vf::reals("E");
  q.pressure = vf::reals("p");
  q.speed_of_sound = vf::reals("c");
  return q;
}
template <int D> void check_flux_lane(const ConservativeArray<PerfectGas<D>>& f, const CompleteArray<PerfectGas<D>>& q, int dir, int i) {
  const double u = q.momentum(dir, i) / q.density[i];
  vf_check_eq("mass flux is the momentum", f.density[i], q.momentum(dir, i));
  for (int d = 0; d < D; ++d)
    vf_check_eq("momentum flux", f.momentum(d, i),
                u * q.momentum(d, i) + (d == dir ? q.pressure[i] : 0.0));
  vf_check_eq("energy flux is u (E + p)", f.energy[i], u * (q.energy[i] + q.pressure[i]));
}
template <int D> void flux_array() {
  PerfectGas<D> eq = gas<D>();
  const auto q = array_state<D>(eq, true);
  for (int dir = 0; dir < D; ++dir) {
    ConservativeArray<PerfectGas<D>> f(eq);
    eq.Flux(f, q, Direction(dir));
    for (int i = 0; i < kDefaultChunkSize; ++i) check_flux_lane<D>(f, q, dir, i);
  }
}
// lanes with a positive density and a set mask carry the flux, whatever the others hold
template <int D> void flux_masked() {
  PerfectGas<D> eq = gas<D>();
  for_lane((int)vf_int("lane", 0, kDefaultChunkSize - 1), [&](auto L) {
    auto q = array_state<D>(eq, false);
    MaskArray mask;
    any_mask<D>(mask, L());
    mask[L()] = true;
    q.density[L()] = vf_pos("rho");
    vf_cover("an active lane");
    for (int dir = 0; dir < D; ++dir) {
      ConservativeArray<PerfectGas<D>> f(eq);
      eq.Flux(f, q, mask, Direction(dir));
      check_flux_lane<D>(f, q, dir, L());
      for (int i = 0; i < kDefaultChunkSize; ++i) vf_defined("no lane divides by a zero density", f.energy[i]);
    }
  });
}

// CompleteFromCons: p = (gamma - 1) (E - |m|^2 / (2 rho)), c^2 = gamma p / rho
template <int D> void cons_scalar() {
  PerfectGas<D> eq = gas<D>();
  Conservative<PerfectGas<D>> u(eq);
  u.density = vf_pos("rho");
  u.momentum = vf::vec<D>("m");
  const double eint = vf_pos("eint");
  u.energy = eint + sq<D>(u.momentum) / (2 * u.density);
  Complete<PerfectGas<D>> q(eq);
  eq.CompleteFromCons(q, u);
  vf_check_eq("density kept", q.density, u.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum kept", q.momentum[d], u.momentum[d]);
  vf_check_eq("energy kept", q.energy, u.energy);
  vf_check_eq("equation of state", q.pressure, (eq.gamma - 1.0) * eint);
  vf_check_eq("speed of sound", q.speed_of_sound * q.speed_of_sound * q.density, eq.gamma * q.pressure);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound);
  vf_check_lt("pressure is positive", 0.0, q.pressure);
}
template <int D> void check_cons_lane(const PerfectGas<D>& eq, const CompleteArray<PerfectGas<D>>& q, const ConservativeArray<PerfectGas<D>>& u, double eint, int i) {
  vf_check_eq("density kept", q.density[i], u.density[i]);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum kept", q.momentum(d, i), u.momentum(d, i));
  vf_check_eq("energy kept", q.energy[i], u.energy[i]);
  vf_check_eq("equation of state", q.pressure[i], (eq.gamma - 1.0) * eint);
  vf_check_eq("speed of sound", q.speed_of_sound[i] * q.speed_of_sound[i] * q.density[i], eq.gamma * q.pressure[i]);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound[i]);
}
template <int D> double set_lane(ConservativeArray<PerfectGas<D>>& u, int i) {
  double s = 0.0;
  for (int d = 0; d < D; ++d) s += u.momentum(d, i) * u.momentum(d, i);
  const double eint = vf_pos("eint");
  u.density[i] = vf_pos("rho");
  u.energy[i] = eint + s / (2 * u.density[i]);
  return eint;
}
template <int D> void cons_array() {
  PerfectGas<D> eq = gas<D>();
  ConservativeArray<PerfectGas<D>> u(eq);
  u.momentum = vf::vectors<D>("m");
  Array1d eint;
  for (int i = 0; i < kDefaultChunkSize; ++i) eint[i] = set_lane<D>(u, i);
  CompleteArray<PerfectGas<D>> q(eq);
  eq.CompleteFromCons(q, u);
  for (int i = 0; i < kDefaultChunkSize; ++i) check_cons_lane<D>(eq, q, u, eint[i], i);
}
template <int D> void cons_masked(bool active) {
  PerfectGas<D> eq = gas<D>();
  for_lane((int)vf_int("lane", 0, kDefaultChunkSize - 1), [&](auto L) {
    ConservativeArray<PerfectGas<D>> u(eq);
    u.density = vf::reals("rho");
    u.momentum = vf::vectors<D>("m");
    u.energy = vf::reals("E");
    MaskArray mask;
    any_mask<D>(mask, L());
    CompleteArray<PerfectGas<D>> q(eq);
    const int i = L();
    if (active) {
      mask[i] = true;
      const double eint = set_lane<D>(u, i);
      eq.CompleteFromCons(q, u, mask);
      vf_cover("an active lane");
      check_cons_lane<D>(eq, q, u, eint, i);
      return;
    }
    if (mask[i]) u.density[i] = -vf_real_in("minus rho", 0, 1000);
    eq.CompleteFromCons(q, u, mask);
    vf_cover("an inactive lane");
    vf_check_eq("inactive lanes are zero", q.density[i], 0.0);
    vf_check_eq("inactive lanes are zero", q.energy[i], 0.0);
    vf_check_eq("inactive lanes are zero", q.pressure[i], 0.0);
    vf_check_eq("inactive lanes are zero", q.speed_of_sound[i], 0.0);
    for (int d = 0; d < D; ++d) vf_check_eq("inactive lanes are zero", q.momentum(d, i), 0.0);
  });
}

// primitive -> complete: consistent energy, and back to the same primitives
template <int D> void prim_scalar() {
  PerfectGas<D> eq = gas<D>();
  Primitive<PerfectGas<D>> w(eq), back(eq);
  w.density = vf_pos("rho");
  w.velocity = vf::vec<D>("u");
  w.pressure = vf_pos("p");
  Complete<PerfectGas<D>> q(eq), r(eq);
  CompleteFromPrim(eq, q, w);
  vf_check_eq("density", q.density, w.density);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum", q.momentum[d], w.density * w.velocity[d]);
  vf_check_eq("total energy", q.energy, w.pressure / (eq.gamma - 1.0) + 0.5 * w.density * sq<D>(w.velocity));
  vf_check_eq("pressure", q.pressure, w.pressure);
  vf_check_eq("speed of sound", q.speed_of_sound * q.speed_of_sound * q.density, eq.gamma * q.pressure);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound);
  PrimFromComplete(eq, back, q);
  vf_check_eq("primitives come back", back.density, w.density);
  for (int d = 0; d < D; ++d) vf_check_eq("primitives come back", back.velocity[d], w.velocity[d]);
  vf_check_eq("primitives come back", back.pressure, w.pressure);
  eq.CompleteFromCons(r, AsCons(q));
  vf_check_eq("completion is idempotent", r.pressure, q.pressure);
  vf_check_eq("completion is idempotent", r.speed_of_sound * r.speed_of_sound, q.speed_of_sound * q.speed_of_sound);
  const auto v = eq.Velocity(q);
  for (int d = 0; d < D; ++d) vf_check_eq("velocity", v[d], w.velocity[d]);
  vf_check_eq("temperature obeys the ideal gas law", eq.Temperature(q) * eq.Rspec * q.density, q.pressure);
  const double M = eq.Machnumber(q);
  vf_check_eq("Mach number", M * M * q.speed_of_sound * q.speed_of_sound, sq<D>(w.velocity));
  vf_check_le("Mach number is not negative", 0.0, M);
  vf_check_eq("euler accessors: density", euler::Density(eq, q), q.density);
  vf_check_eq("euler accessors: pressure", euler::Pressure(eq, q), q.pressure);
  vf_check_eq("euler accessors: energy", euler::Energy(eq, q), q.energy);
  vf_check_eq("euler accessors: speed of sound", euler::SpeedOfSound(eq, q), q.speed_of_sound);
  for (int d = 0; d < D; ++d) {
    vf_check_eq("euler accessors: momentum", euler::Momentum(eq, q, d), q.momentum[d]);
    vf_check_eq("euler accessors: velocity", euler::Velocity(eq, q, d), w.velocity[d]);
  }
}
template <int D> void check_prim_lane(const PerfectGas<D>& eq, const CompleteArray<PerfectGas<D>>& q, const PrimitiveArray<PerfectGas<D>>& w, int i) {
  double s = 0.0;
  for (int d = 0; d < D; ++d) s += w.velocity(d, i) * w.velocity(d, i);
  vf_check_eq("density", q.density[i], w.density[i]);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum", q.momentum(d, i), w.density[i] * w.velocity(d, i));
  vf_check_eq("total energy", q.energy[i], w.pressure[i] / (eq.gamma - 1.0) + 0.5 * w.density[i] * s);
  vf_check_eq("pressure", q.pressure[i], w.pressure[i]);
  vf_check_eq("speed of sound", q.speed_of_sound[i] * q.speed_of_sound[i] * q.density[i], eq.gamma * q.pressure[i]);
  vf_check_le("speed of sound is not negative", 0.0, q.speed_of_sound[i]);
}
template <int D> void prim_array() {
  PerfectGas<D> eq = gas<D>();
  PrimitiveArray<PerfectGas<D>> w(eq), back(eq);
  w.density = vf::positives("rho");
  w.velocity = vf::vectors<D>("u");
  w.pressure = vf::positives("p");
  CompleteArray<PerfectGas<D>> q(eq);
  CompleteFromPrim(eq, q, w);
  PrimFromComplete(eq, back, q);
  const auto v = eq.Velocity(q);
  const auto T = eq.Temperature(q);
  for (int i = 0; i < kDefaultChunkSize; ++i) {
    check_prim_lane<D>(eq, q, w, i);
    vf_check_eq("primitives come back", back.density[i], w.density[i]);
    for (int d = 0; d < D; ++d) vf_check_eq("primitives come back", back.velocity(d, i), w.velocity(d, i));
    vf_check_eq("primitives come back", back.pressure[i], w.pressure[i]);
    for (int d = 0; d < D; ++d) vf_check_eq("velocity", v(d, i), w.velocity(d, i));
    vf_check_eq("temperature obeys the ideal gas law", T[i] * eq.Rspec * q.density[i], q.pressure[i]);
  }
}
template <int D> void prim_masked() {
  PerfectGas<D> eq = gas<D>();
  for_lane((int)vf_int("lane", 0, kDefaultChunkSize - 1), [&](auto L) {
    PrimitiveArray<PerfectGas<D>> w(eq);
    w.density = vf::reals("rho");
    w.velocity = vf::vectors<D>("u");
    w.pressure = vf::reals("p");
    MaskArray mask;
    any_mask<D>(mask, L());
    mask[L()] = true;
    w.density[L()] = vf_pos("rho");
    w.pressure[L()] = vf_pos("p");
    const CompleteArray<PerfectGas<D>> q = eq.CompleteFromPrim(w.density, w.velocity, w.pressure, mask);
    vf_cover("an active lane");
    check_prim_lane<D>(eq, q, w, L());
  });
}
#define H(D)                                                                   \
  extern "C" void vf_harness_pg_flux_##D##d() { flux_scalar<D>(); }            \
  extern "C" void vf_harness_pg_flux_array_##D##d() { flux_array<D>(); }       \
  extern "C" void vf_harness_pg_flux_masked_##D##d() { flux_masked<D>(); }     \
  extern "C" void vf_harness_pg_cons_##D##d() { cons_scalar<D>(); }            \
  extern "C" void vf_harness_pg_cons_array_##D##d() { cons_array<D>(); }      \
  extern "C" void vf_harness_pg_cons_masked_##D##d() { cons_masked<D>(true); }   \
  extern "C" void vf_harness_pg_cons_inactive_##D##d() { cons_masked<D>(false); }     \
  extern "C" void vf_harness_pg_prim_##D##d() { prim_scalar<D>(); }            \
  extern "C" void vf_harness_pg_prim_array_##D##d() { prim_array<D>(); }      \
  extern "C" void vf_harness_pg_prim_masked_##D##d() { prim_masked<D>(); }
H(1) H(2) H(3)
