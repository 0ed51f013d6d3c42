// vf: sources = src/equations/PerfectGas.cpp src/equations/PerfectGasMix.cpp
// assumption: PerfectGasMix is instantiated with two species and one passive scalar (the loops over them are uniform)
// assumption: gradients of arrays use arbitrary values in the checked lane and one other arbitrary value set in all remaining lanes
// Slope limiters and limited gradients of conservative, primitive and characteristic variables.
#include "vf_gas.hpp"
#include "vf_lanes.hpp"
#include "fub/flux_method/Gradient.hpp"
using namespace fub;

static double minmod(double a, double b) { return a * b <= 0 ? 0.0 : a > 0 ? std::min(a, b) : std::max(a, b); }
static double lim(const NoLimiter2&, double a, double b) { return a * b <= 0 ? 0.0 : 0.5 * (a + b); }
static double lim(const UpwindLimiter&, double, double) { return 0.0; }
static double lim(const MinModLimiter&, double a, double b) { return minmod(a, b); }
static double lim(const VanLeerLimiter&, double a, double b) { return a * b <= 0 ? 0.0 : 2.0 * a * b / (a + b); }

template <class L> void slope() {
  const double a = vf_real("a"), b = vf_real("b");
  CentralDifferenceGradient<L> m;
  const double s = m.ComputeGradient(a, b);
  vf_check_eq("limited slope", s, lim(L(), a, b));
  vf_check_eq("left and right are interchangeable", m.ComputeGradient(b, a), s);
  vf_check_eq("mirroring the data mirrors the slope", m.ComputeGradient(-a, -b), -s);
  if (a * b > 0) vf_cover("monotone data");
  const double x = std::abs(a), y = std::abs(b), z = std::abs(s);
  vf_check("no slope at an extremum", a * b > 0 || s == 0);
  vf_check("no new extremum: the slope has the sign of the data", s * a >= 0 && s * b >= 0);
  vf_check_le("no new extremum: at most twice the left slope", z, std::is_same_v<L, NoLimiter2> ? x + y : 2.0 * x);
  vf_check_le("no new extremum: at most twice the right slope", z, std::is_same_v<L, NoLimiter2> ? x + y : 2.0 * y);
}
extern "C" void vf_harness_slope_none() { slope<NoLimiter2>(); }
extern "C" void vf_harness_slope_upwind() { slope<UpwindLimiter>(); }
extern "C" void vf_harness_slope_minmod() { slope<MinModLimiter>(); }
extern "C" void vf_harness_slope_vanleer() { slope<VanLeerLimiter>(); }

template <class L> void slope_array() {
  const Array1d a = vf::reals("a"), b = vf::reals("b");
  CentralDifferenceGradient<L> m;
  const Array1d s = m.ComputeGradient(a, b);
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    vf_check_eq("limited slope in every lane", s[K()], lim(L(), a[K()], b[K()]));
  });
}
extern "C" void vf_harness_slope_array_none() { slope_array<NoLimiter2>(); }
extern "C" void vf_harness_slope_array_upwind() { slope_array<UpwindLimiter>(); }
extern "C" void vf_harness_slope_array_minmod() { slope_array<MinModLimiter>(); }
extern "C" void vf_harness_slope_array_vanleer() { slope_array<VanLeerLimiter>(); }

static double diff(double L, double M, double R, double dx) { return minmod((M - L) / dx, (R - M) / dx); }

// conservative variables
template <class E> void cons(Direction dir) {
  E eq = gas((E*)nullptr);
  std::array<Complete<E>, 3> q{Complete<E>(eq), Complete<E>(eq), Complete<E>(eq)};
  Cell z[3];
  for (int k = 0; k < 3; ++k) put<E>(q[k], z[k] = cell(k));
  const double dx = vf_pos("dx");
  ConservativeGradient<E> m(eq);
  Conservative<E> g(eq);
  m.ComputeGradient(g, q, dx, dir);
  const auto D = [&](auto f) { return diff(f(z[0]), f(z[1]), f(z[2]), dx); };
  vf_check_eq("density", g.density, D([](const Cell& a) { return a.rho; }));
  vf_check_eq("energy", g.energy, D([](const Cell& a) { return a.E; }));
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", g.momentum[d], D([d](const Cell& a) { return a.rho * a.u[d]; }));
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species[s], D([s](const Cell& a) { return a.rho * a.y[s]; }));
    vf_check_eq("passive scalar", g.passive_scalars[0], D([](const Cell& a) { return a.rho * a.y[2]; }));
  }
}
// GetEquation() of ConservativeGradient(eq, method) is default constructed, so mixtures are checked with the one argument constructor
extern "C" void vf_harness_cons_1d() { cons<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_cons_2d() { cons<PerfectGas<2>>(Direction::Y); }
extern "C" void vf_harness_cons_mix() { cons<PerfectGasMix<1>>(Direction::X); }

template <class E> void cons_array(Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    E eq = gas((E*)nullptr);
    std::array<CompleteArray<E>, 3> q{CompleteArray<E>(eq), CompleteArray<E>(eq), CompleteArray<E>(eq)};
    Cell z[3];
    const Cell x = other();
    for (int i = 0; i < 3; ++i) put_all<E>(q[i], z[i] = cell(i), x, k);
    const double dx = vf_pos("dx");
    ConservativeGradient<E> m(eq);
    ConservativeArray<E> g(eq);
    m.ComputeGradient(g, q, dx, dir);
    const auto D = [&](auto f) { return diff(f(z[0]), f(z[1]), f(z[2]), dx); };
    vf_check_eq("density", g.density[k], D([](const Cell& a) { return a.rho; }));
    vf_check_eq("energy", g.energy[k], D([](const Cell& a) { return a.E; }));
    for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", g.momentum(d, k), D([d](const Cell& a) { return a.rho * a.u[d]; }));
    if constexpr (mix<E>) {
      for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species(s, k), D([s](const Cell& a) { return a.rho * a.y[s]; }));
      vf_check_eq("passive scalar", g.passive_scalars(0, k), D([](const Cell& a) { return a.rho * a.y[2]; }));
    }
  });
}
extern "C" void vf_harness_cons_array_1d() { cons_array<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_cons_array_2d() { cons_array<PerfectGas<2>>(Direction::X); }
extern "C" void vf_harness_cons_array_mix() { cons_array<PerfectGasMix<1>>(Direction::X); }

// primitive variables
template <class E> void prim(Direction dir) {
  E eq = gas((E*)nullptr);
  std::array<Complete<E>, 3> q{Complete<E>(eq), Complete<E>(eq), Complete<E>(eq)};
  Cell z[3];
  for (int k = 0; k < 3; ++k) put<E>(q[k], z[k] = cell(k));
  const double dx = vf_pos("dx");
  PrimitiveGradient<E> m(eq);
  Primitive<E> g(eq);
  m.ComputeGradient(g, q, dx, dir);
  const auto D = [&](auto f) { return diff(f(z[0]), f(z[1]), f(z[2]), dx); };
  vf_check_eq("density", g.density, D([](const Cell& a) { return a.rho; }));
  vf_check_eq("pressure", g.pressure, D([](const Cell& a) { return a.p; }));
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("velocity", g.velocity[d], D([d](const Cell& a) { return a.u[d]; }));
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species[s], D([s](const Cell& a) { return a.y[s]; }));
    vf_check_eq("passive scalar", g.passive_scalars[0], D([](const Cell& a) { return a.y[2]; }));
  }
}
extern "C" void vf_harness_prim_1d() { prim<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_prim_3d() { prim<PerfectGas<3>>(Direction::Z); }
extern "C" void vf_harness_prim_mix() { prim<PerfectGasMix<1>>(Direction::X); }

template <class E> void prim_array(Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    E eq = gas((E*)nullptr);
    std::array<CompleteArray<E>, 3> q{CompleteArray<E>(eq), CompleteArray<E>(eq), CompleteArray<E>(eq)};
    Cell z[3];
    const Cell x = other();
    for (int i = 0; i < 3; ++i) put_all<E>(q[i], z[i] = cell(i), x, k);
    const double dx = vf_pos("dx");
    PrimitiveGradient<E> m(eq);
    PrimitiveArray<E> g(eq);
    m.ComputeGradient(g, q, dx, dir);
    const auto D = [&](auto f) { return diff(f(z[0]), f(z[1]), f(z[2]), dx); };
    vf_check_eq("density", g.density[k], D([](const Cell& a) { return a.rho; }));
    vf_check_eq("pressure", g.pressure[k], D([](const Cell& a) { return a.p; }));
    for (int d = 0; d < E::Rank(); ++d) vf_check_eq("velocity", g.velocity(d, k), D([d](const Cell& a) { return a.u[d]; }));
    if constexpr (mix<E>) {
      for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species(s, k), D([s](const Cell& a) { return a.y[s]; }));
      vf_check_eq("passive scalar", g.passive_scalars(0, k), D([](const Cell& a) { return a.y[2]; }));
    }
  });
}
extern "C" void vf_harness_prim_array_1d() { prim_array<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_prim_array_2d() { prim_array<PerfectGas<2>>(Direction::Y); }
extern "C" void vf_harness_prim_array_mix() { prim_array<PerfectGasMix<1>>(Direction::X); }

// characteristic variables: dp -+ M rho c du, drho - dp / c^2, d(transversal velocity), dY
template <class F> double jump(const Cell& a, const Cell& b, double dx, F f) { return (f(b) - f(a)) / dx; }
struct Chars { double minus, plus, zero[3], y[3]; };
static Chars amplitudes(const Cell& a, const Cell& b, const Cell& m, double Ma, double dx, int ix, int D) {
  const double dp = (b.p - a.p) / dx, du = (b.u[ix] - a.u[ix]) / dx;
  Chars k;
  k.minus = dp - Ma * m.rho * m.c * du;
  k.plus = dp + Ma * m.rho * m.c * du;
  k.zero[0] = (b.rho - a.rho) / dx - dp / (m.c * m.c);
  for (int i = 1; i < D; ++i) k.zero[i] = (b.u[(ix + i) % D] - a.u[(ix + i) % D]) / dx;
  for (int i = 0; i < 3; ++i) k.y[i] = (b.y[i] - a.y[i]) / dx;
  return k;
}
template <class E> double mach(const E& eq) { return std::sqrt(euler::MaSq(eq)); }
template <class E> void chars(Direction dir) {
  E eq = gas((E*)nullptr);
  std::array<Complete<E>, 3> q{Complete<E>(eq), Complete<E>(eq), Complete<E>(eq)};
  Cell z[3];
  for (int k = 0; k < 3; ++k) put<E>(q[k], z[k] = cell(k));
  const double dx = vf_pos("dx");
  CharacteristicsGradient<E> m(eq);
  Characteristics<E> g(eq);
  m.ComputeGradient(g, q, dx, dir);
  const Chars L = amplitudes(z[0], z[1], z[1], mach(eq), dx, int(dir), E::Rank());
  const Chars R = amplitudes(z[1], z[2], z[1], mach(eq), dx, int(dir), E::Rank());
  vf_check_eq("left running acoustic wave", g.minus, minmod(L.minus, R.minus));
  vf_check_eq("right running acoustic wave", g.plus, minmod(L.plus, R.plus));
  for (int i = 0; i < E::Rank(); ++i) vf_check_eq("entropy and shear waves", g.zero[i], minmod(L.zero[i], R.zero[i]));
  if constexpr (mix<E>) {
    for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species[s], minmod(L.y[s], R.y[s]));
    vf_check_eq("passive scalar", g.passive_scalars[0], minmod(L.y[2], R.y[2]));
  }
}
extern "C" void vf_harness_chars_1d() { chars<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_chars_2d() { chars<PerfectGas<2>>(Direction::Y); }
extern "C" void vf_harness_chars_3d() { chars<PerfectGas<3>>(Direction::Y); }
extern "C" void vf_harness_chars_mix() { chars<PerfectGasMix<1>>(Direction::X); }

template <class E> void chars_array(Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    E eq = gas((E*)nullptr);
    std::array<CompleteArray<E>, 3> q{CompleteArray<E>(eq), CompleteArray<E>(eq), CompleteArray<E>(eq)};
    Cell z[3];
    const Cell x = other();
    for (int i = 0; i < 3; ++i) put_all<E>(q[i], z[i] = cell(i), x, k);
    const double dx = vf_pos("dx");
    CharacteristicsGradient<E> m(eq);
    CharacteristicsArray<E> g(eq);
    m.ComputeGradient(g, q, dx, dir);
    const Chars L = amplitudes(z[0], z[1], z[1], mach(eq), dx, int(dir), E::Rank());
    const Chars R = amplitudes(z[1], z[2], z[1], mach(eq), dx, int(dir), E::Rank());
    vf_check_eq("left running acoustic wave", g.minus[k], minmod(L.minus, R.minus));
    vf_check_eq("right running acoustic wave", g.plus[k], minmod(L.plus, R.plus));
    for (int i = 0; i < E::Rank(); ++i) vf_check_eq("entropy and shear waves", g.zero(i, k), minmod(L.zero[i], R.zero[i]));
    if constexpr (mix<E>) {
      for (int s = 0; s < 2; ++s) vf_check_eq("species", g.species(s, k), minmod(L.y[s], R.y[s]));
      vf_check_eq("passive scalar", g.passive_scalars(0, k), minmod(L.y[2], R.y[2]));
    }
  });
}
extern "C" void vf_harness_chars_array_1d() { chars_array<PerfectGas<1>>(Direction::X); }
extern "C" void vf_harness_chars_array_2d() { chars_array<PerfectGas<2>>(Direction::Y); }
extern "C" void vf_harness_chars_array_mix() { chars_array<PerfectGasMix<1>>(Direction::X); }
extern "C" void vf_harness_chars_array_3d() { chars_array<PerfectGas<3>>(Direction::Y); }
extern "C" void vf_harness_chars_array_3d_z() { chars_array<PerfectGas<3>>(Direction::Z); }
extern "C" void vf_harness_chars_array_mix_3d() { chars_array<PerfectGasMix<3>>(Direction::X); }
extern "C" void vf_harness_chars_mix_3d() { chars<PerfectGasMix<3>>(Direction::Z); }
