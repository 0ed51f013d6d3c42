// vf: sources = src/equations/ShallowWater.cpp
// Shallow water equations: flux, signal speeds, middle state of the Riemann problem.
#include "vf_eigen.hpp"
#include "swe_curves.hpp"
#include "fub/equations/ShallowWater.hpp"
using namespace fub;
static constexpr int N = kDefaultChunkSize;
static Complete<ShallowWater> state() {
  Complete<ShallowWater> q;
  q.height = vf_pos("h");
  q.momentum[0] = vf_real("m0");
  q.momentum[1] = vf_real("m1");
  return q;
}
static CompleteArray<ShallowWater> states() {
  CompleteArray<ShallowWater> q;
  q.height = vf::positives("h");
  q.momentum = vf::vectors<2>("m");
  return q;
}
static ShallowWater equation() {
  ShallowWater eq;
  eq.gravity_ = vf_pos("g");
  return eq;
}

extern "C" void vf_harness_swe_flux() {
  const ShallowWater eq = equation();
  const auto q = state();
  const auto qs = states();
  for (int d = 0; d < 2; ++d) {
    const double p = eq.gravity_ * q.height * q.height / 2;
    Conservative<ShallowWater> f;
    eq.Flux(f, q, Direction(d));
    vf_check_eq("mass flux", f.height, q.momentum[d]);
    vf_check_eq("normal momentum flux h u^2 + g h^2 / 2", q.height * f.momentum[d], q.momentum[d] * q.momentum[d] + q.height * p);
    vf_check_eq("transversal momentum flux h u v", q.height * f.momentum[1 - d], q.momentum[d] * q.momentum[1 - d]);
    ConservativeArray<ShallowWater> fs;
    eq.Flux(fs, qs, Direction(d));
    for (int i = 0; i < N; ++i) {
      const double h = qs.height[i], m = qs.momentum(d, i), n = qs.momentum(1 - d, i);
      vf_check_eq("mass flux in every lane", fs.height[i], m);
      vf_check_eq("normal momentum flux in every lane", h * fs.momentum(d, i), m * m + h * (eq.gravity_ * h * h / 2));
      vf_check_eq("transversal momentum flux in every lane", h * fs.momentum(1 - d, i), m * n);
    }
  }
}

static void enclose(double g, double hL, double mL, double hR, double mR, double sL, double sR) {
  const double uL = mL / hL, uR = mR / hR, cL = std::sqrt(g * hL), cR = std::sqrt(g * hR);
  vf_check_le("left signal is not larger than u - c", sL, uL - cL);
  vf_check_le("left signal is not larger than u - c", sL, uR - cR);
  vf_check_le("left signal is not positive", sL, 0);
  vf_check_le("right signal is not smaller than u + c", uL + cL, sR);
  vf_check_le("right signal is not smaller than u + c", uR + cR, sR);
  vf_check_le("right signal is not negative", 0, sR);
  vf_check("left signal is one of the wave speeds", sL == 0 || sL == uL - cL || sL == uR - cR);
  vf_check("right signal is one of the wave speeds", sR == 0 || sR == uL + cL || sR == uR + cR);
  vf_check_lt("the signals are separated", sL, sR);
}
extern "C" void vf_harness_swe_signals() {
  const ShallowWater eq = equation();
  const auto l = state(), r = state();
  for (int d = 0; d < 2; ++d) {
    auto s = ShallowWaterSignalVelocities()(eq, l, r, Direction(d));
    enclose(eq.gravity_, l.height, l.momentum[d], r.height, r.momentum[d], s[0], s[1]);
  }
}
extern "C" void vf_harness_swe_signals_array() {
  const ShallowWater eq = equation();
  const auto l = states(), r = states();
  for (int d = 0; d < 2; ++d) {
    auto s = ShallowWaterSignalVelocities()(eq, l, r, Direction(d));
    for (int i = 0; i < N; ++i)
      enclose(eq.gravity_, l.height[i], l.momentum(d, i), r.height[i], r.momentum(d, i), s[0][i], s[1][i]);
  }
}
// whenever it returns, the middle state is on both wave curves (right one: up to the tolerance)
template <int d> void middle() {
  const ShallowWater eq = equation();
  const auto l = state(), r = state();
  ExactRiemannSolver<ShallowWater> solver(eq);
  vf_throws();
  const auto m = solver.ComputeMiddleState(l, r, Direction(d));
  vf_cover("the iteration converged");
  const double h = m.height;
  vf_assume(h > 0);
  const double u = left_curve(eq.gravity_, l.height, l.momentum[d] / l.height, h);
  const double w = right_curve(eq.gravity_, r.height, r.momentum[d] / r.height, h);
  vf_check("the middle state is on the left wave curve", m.momentum[d] == h * u);
  vf_check("the middle state is on the right wave curve", w - u <= 1.0001e-7 && u - w <= 1.0001e-7);
  vf_check("no transversal momentum", m.momentum[1 - d] == 0.0);
}
extern "C" void vf_harness_swe_middle_x() { middle<0>(); }
extern "C" void vf_harness_swe_middle_y() { middle<1>(); }
