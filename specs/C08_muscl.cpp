// assumption: the equation has one conserved and one auxiliary scalar; flux, auxiliary variable and the first order numerical flux are arbitrary functions of the states
// assumption: arrays use arbitrary values in the checked lane and one other arbitrary set of values in all remaining lanes
// MUSCL-Hancock fluxes of conservative variables: limited slopes, half time step evolution, first order flux.
#include "vf_flux.hpp"
#include "vf_lanes.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
using namespace vft;
using E = Eq<2>;
struct Base : Method<2, 1> {
  Base() = default;
  explicit Base(const E&) {}
  using Method<2, 1>::ComputeNumericFlux;
  using Method<2, 1>::ComputeStableDt;
  // faces of vanishing area get arbitrary values
  void ComputeNumericFlux(ConservativeArray<E>& f, Array1d face, span<const CompleteArray<E>, 2> s, span<const Array1d, 2> vol, Duration dt, double dx, Direction dir) {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      const double u[2] = {s[0].u[k], s[1].u[k]}, c[2] = {s[0].c[k], s[1].c[k]};
      f.u[k] = face[k] > 0 ? F(u, c, dt.count() / dx, int(dir)) : vf_uf2("closed", vol[0][k], vol[1][k]);
    }
  }
};
static double minmod(double a, double b) { return a * b <= 0 ? 0.0 : a > 0 ? std::min(a, b) : std::max(a, b); }
static double vanleer(double a, double b) { return a * b <= 0 ? 0.0 : 2.0 * a * b / (a + b); }
static double central(double a, double b) { return 0.5 * (a + b); }
static double upwind(double, double) { return 0.0; }
// state at the lower (-1) or upper (+1) face of a cell of half width slope s after half a time step
static double evolved(double u, double s, double lambda, int d, int side) {
  const double l = u - 0.5 * s, r = u + 0.5 * s;
  return (side > 0 ? r : l) + 0.5 * lambda * (E::f(l, E::aux(l), d) - E::f(r, E::aux(r), d));
}
static double reference(const double* u, double sl, double sr, double lambda, int d) {
  const double w[2] = {evolved(u[1], sl, lambda, d, +1), evolved(u[2], sr, lambda, d, -1)};
  const double c[2] = {E::aux(w[0]), E::aux(w[1])};
  return Base::F(w, c, lambda, d);
}
static const char* const UN[] = {"u0", "u1", "u2", "u3"};
static const char* const CN[] = {"c0", "c1", "c2", "c3"};
struct Stencil {
  double u[4], c[4], x[4], dt, dx;
  std::array<Complete<E>, 4> q;
  std::array<CompleteArray<E>, 4> a;
  explicit Stencil(int lane = -1) {
    for (int i = 0; i < 4; ++i) { u[i] = vf_real(UN[i]); c[i] = vf_real(CN[i]); }
    dt = vf_real("dt");
    dx = vf_pos("dx");
    vf_assume(dt >= 0);
    for (int i = 0; i < 4; ++i) { q[i].u = u[i]; q[i].c = c[i]; }
    if (lane < 0) return;
    for (int i = 0; i < 4; ++i) {
      x[i] = vf_real("x");
      a[i].u = Array1d::Constant(x[i]);
      a[i].c = Array1d::Constant(vf_real("xc"));
      a[i].u[lane] = u[i];
      a[i].c[lane] = c[i];
    }
  }
  double sl(double (*lim)(double, double)) const { return lim(u[1] - u[0], u[2] - u[1]); }
  double sr(double (*lim)(double, double)) const { return lim(u[2] - u[1], u[3] - u[2]); }
};
template <class M> void scalar(double (*lim)(double, double), Direction dir) {
  M m{E(), Base()};
  Stencil s;
  Conservative<E> f;
  m.ComputeNumericFlux(f, s.q, Duration(s.dt), s.dx, dir);
  const double lambda = s.dt / s.dx;
  vf_check_eq("flux of the reconstructed states", f.u, reference(s.u, s.sl(lim), s.sr(lim), lambda, int(dir)));
  if (s.u[0] == s.u[1] && s.u[1] == s.u[2] && s.u[2] == s.u[3]) {
    vf_cover("constant data");
    const double c[2] = {E::aux(s.u[0]), E::aux(s.u[0])};
    vf_check_eq("constant data: first order flux", f.u, Base::F(s.u, c, lambda, int(dir)));
  }
}
template <class M> void array(double (*lim)(double, double), Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    M m{E(), Base()};
    Stencil s(K());
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, s.a, Duration(s.dt), s.dx, dir);
    vf_check_eq("flux of the reconstructed states in every lane", f.u[K()], reference(s.u, s.sl(lim), s.sr(lim), s.dt / s.dx, int(dir)));
  });
}
// cut cells: a cell whose stencil contains a covered cell is reconstructed as constant
template <class M> void masked(double (*lim)(double, double), Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    M m{E(), Base()};
    Stencil s(k);
    const double open = vf_pos("open"), other = vf_bool("other faces are open") ? 1.0 : 0.0;
    Array1d face = Array1d::Constant(other);
    face[k] = open;
    std::array<Array1d, 4> vol;
    double v[4];
    for (int i = 0; i < 4; ++i) {
      // the cells at an open face are not covered
      v[i] = i == 1 || i == 2 ? vf_pos("v") : vf_real("v");
      vf_assume(v[i] >= 0);
      vol[i] = Array1d::Constant(other);
      vol[i][k] = v[i];
    }
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, face, s.a, vol, Duration(s.dt), s.dx, dir);
    const double sl = v[0] > 0 ? s.sl(lim) : 0.0, sr = v[3] > 0 ? s.sr(lim) : 0.0;
    vf_check_eq("flux of the reconstructed states on every open face", f.u[k], reference(s.u, sl, sr, s.dt / s.dx, int(dir)));
  });
}
template <class L> using Old = MusclHancock<E, Base, L>;
template <class L> using New = MusclHancock2<E, ConservativeGradient<E, CentralDifferenceGradient<L>>, ConservativeReconstruction<E>, Base>;
static double central2(double a, double b) { return a * b <= 0 ? 0.0 : 0.5 * (a + b); }
#define ALL(name, M, lim)                                                                \
  extern "C" void vf_harness_##name() { scalar<M>(lim, Direction::X); }                  \
  extern "C" void vf_harness_##name##_array() { array<M>(lim, Direction::Y); }           \
  extern "C" void vf_harness_##name##_masked() { masked<M>(lim, Direction::X); }
ALL(old_minmod, Old<MinMod>, minmod)
ALL(old_vanleer, Old<VanLeer>, vanleer)
ALL(old_central, Old<NoLimiter>, central)
ALL(old_constant, Old<NoGradient>, upwind)
ALL(new_minmod, New<MinModLimiter>, minmod)
ALL(new_vanleer, New<VanLeerLimiter>, vanleer)
ALL(new_central, New<NoLimiter2>, central2)
ALL(new_constant, New<UpwindLimiter>, upwind)

// fluxes from given gradients
template <class M> void given(Direction dir) {
  M m{E(), Base()};
  Stencil s;
  std::array<Complete<E>, 2> q{s.q[1], s.q[2]};
  std::array<Conservative<E>, 2> g;
  g[0].u = vf_real("g0");
  g[1].u = vf_real("g1");
  Conservative<E> f;
  m.ComputeNumericFlux(f, q, g, Duration(s.dt), s.dx, dir);
  vf_check_eq("flux for given gradients", f.u, reference(s.u, s.dx * g[0].u, s.dx * g[1].u, s.dt / s.dx, int(dir)));
}
extern "C" void vf_harness_old_given() { given<Old<MinMod>>(Direction::Y); }
extern "C" void vf_harness_new_given() { given<New<MinModLimiter>>(Direction::Y); }

// the reconstruction on its own
extern "C" void vf_harness_reconstruct_cons() {
  const double u = vf_real("u"), g = vf_real("g"), dt = vf_real("dt"), dx = vf_pos("dx");
  vf_assume(dt >= 0);
  Conservative<E> q, s;
  Complete<E> z;
  q.u = u;
  s.u = g;
  z.u = u;
  z.c = vf_real("c");
  ConservativeReconstruction<E> m{E()};
  for (int side = -1; side < 2; side += 2) {
    const double ref = evolved(u, dx * g, dt / dx, 0, side);
    Conservative<E> r;
    m.Reconstruct(r, q, s, Duration(dt), dx, Direction::X, side < 0 ? Side::Lower : Side::Upper);
    vf_check_eq("conservative variables at the face", r.u, ref);
    Complete<E> w;
    m.Reconstruct(w, z, s, Duration(dt), dx, Direction::X, side < 0 ? Side::Lower : Side::Upper);
    vf_check_eq("state at the face", w.u, ref);
    vf_check_eq("the state at the face is complete", w.c, E::aux(ref));
  }
}
