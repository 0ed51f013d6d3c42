// vf: sources = src/equations/Advection.cpp src/equations/Burgers.cpp
// Linear advection and Burgers equation: physical flux and exact solution of the Riemann problem on the face.
#include "vf_eigen.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
using namespace fub;
static constexpr int N = kDefaultChunkSize;

extern "C" void vf_harness_advection_flux() {
  const std::array<double, 2> a{vf_real("a0"), vf_real("a1")};
  Advection2d eq(a);
  Complete<Advection2d> q;
  q.mass = vf_real("q");
  CompleteArray<Advection2d> qs;
  qs.mass = vf::reals("qs");
  for (int d = 0; d < 2; ++d) {
    Conservative<Advection2d> f;
    eq.Flux(f, q, Direction(d));
    vf_check_eq("flux is a q", f.mass, a[d] * q.mass);
    ConservativeArray<Advection2d> fs;
    eq.Flux(fs, qs, Direction(d));
    for (int i = 0; i < N; ++i) vf_check_eq("flux is a q in every lane", fs.mass[i], a[d] * qs.mass[i]);
  }
}

extern "C" void vf_harness_advection_riemann() {
  const std::array<double, 2> a{vf_real("a0"), vf_real("a1")};
  Advection2d eq(a);
  ExactRiemannSolver<Advection2d> solver(eq);
  Complete<Advection2d> l, r;
  l.mass = vf_real("l");
  r.mass = vf_real("r");
  CompleteArray<Advection2d> ls, rs;
  ls.mass = vf::reals("ls");
  rs.mass = vf::reals("rs");
  for (int d = 0; d < 2; ++d) {
    Complete<Advection2d> q;
    solver.SolveRiemannProblem(q, l, r, Direction(d));
    // a == 0: the flux a q does not depend on the choice
    if (a[d] > 0) vf_check_eq("upwind state", q.mass, l.mass);
    if (a[d] < 0) vf_check_eq("upwind state", q.mass, r.mass);
    if (a[d] == 0) vf_check("a side is chosen", q.mass == l.mass || q.mass == r.mass);
    vf_check_eq("signal speed", solver.ComputeSignals(l, r, Direction(d))[0], a[d]);
    CompleteArray<Advection2d> qs;
    solver.SolveRiemannProblem(qs, ls, rs, Direction(d));
    auto s = solver.ComputeSignals(ls, rs, Direction(d));
    for (int i = 0; i < N; ++i) {
      if (a[d] > 0) vf_check_eq("upwind state in every lane", qs.mass[i], ls.mass[i]);
      if (a[d] < 0) vf_check_eq("upwind state in every lane", qs.mass[i], rs.mass[i]);
      vf_check_eq("signal speed in every lane", s[0][i], a[d]);
    }
  }
}

extern "C" void vf_harness_burgers_flux() {
  Burgers1d eq;
  Complete<Burgers1d> q;
  q.u = vf_real("u");
  CompleteArray<Burgers1d> qs;
  qs.u = vf::reals("us");
  vf_check_eq("flux is u^2/2", eq.Flux(q, Direction::X).u, q.u * q.u / 2);
  ConservativeArray<Burgers1d> f = eq.Flux(qs, Direction::X);
  for (int i = 0; i < N; ++i) vf_check_eq("flux is u^2/2 in every lane", f.u[i], qs.u[i] * qs.u[i] / 2);
}

// The Godunov flux of a convex law: min of f over [l, r] if l <= r, max of f over [r, l] otherwise.
static void godunov(const char* what, double l, double r, double u) {
  const double f = u * u / 2;
  const double k = vf_real("k");
  if (l <= r) {
    vf_check(what, l <= u && u <= r);
    if (l <= k && k <= r) vf_check_le("flux is minimal between the states of a rarefaction", f, k * k / 2);
  } else {
    vf_check(what, u == l || u == r);
    if (r <= k && k <= l) vf_check_le("flux is maximal between the states of a shock", k * k / 2, f);
  }
}
static void signal(double l, double r, double s) {
  if (l > r) vf_check_eq("Rankine-Hugoniot shock speed", s * (l - r), l * l / 2 - r * r / 2);
  else {
    vf_check_le("rarefaction speeds are bounded", std::abs(l), s);
    vf_check_le("rarefaction speeds are bounded", std::abs(r), s);
    vf_check("rarefaction speed is attained", s == std::abs(l) || s == std::abs(r));
  }
}
extern "C" void vf_harness_burgers_riemann() {
  ExactRiemannSolver<Burgers1d> solver{Burgers1d()};
  Complete<Burgers1d> l, r, q;
  l.u = vf_real("l");
  r.u = vf_real("r");
  solver.SolveRiemannProblem(q, l, r, Direction::X);
  vf_cover("a Riemann problem");
  godunov("Riemann solution", l.u, r.u, q.u);
  signal(l.u, r.u, solver.ComputeSignals(l, r, Direction::X)[0]);
}
extern "C" void vf_harness_burgers_riemann_array() {
  ExactRiemannSolver<Burgers1d> solver{Burgers1d()};
  CompleteArray<Burgers1d> l, r, q;
  l.u = vf::reals("l");
  r.u = vf::reals("r");
  solver.SolveRiemannProblem(q, l, r, Direction::X);
  auto s = solver.ComputeSignals(l, r, Direction::X);
  for (int i = 0; i < N; ++i) {
    const double ll = l.u[i], rr = r.u[i], u = q.u[i];
    const double f = u * u / 2, k = vf_real("k");
    vf_check("Riemann solution in every lane", ll <= rr ? (ll <= u && u <= rr) : (u == ll || u == rr));
    vf_check("Godunov flux in every lane",
             ll <= rr ? (!(ll <= k && k <= rr) || f <= k * k / 2) : (!(rr <= k && k <= ll) || k * k / 2 <= f));
    vf_check("signal speed in every lane",
             ll > rr ? s[0][i] == (ll + rr) / 2 : s[0][i] == std::max(std::abs(ll), std::abs(rr)));
  }
}
