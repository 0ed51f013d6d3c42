// vf: sources = src/equations/ShallowWater.cpp
// vf: stubs = stubs/C03_swe_stub.cpp
// contract: ExactRiemannSolver<ShallowWater>::ComputeMiddleState is replaced by its contract (proved in C03_swe.cpp); that its height is positive and its wave speed exceeds the Newton tolerance is assumed
// Shallow water equations: the self-similar solution of the Riemann problem sampled on the face.
#include "vf_eigen.hpp"
#include "fub/equations/ShallowWater.hpp"
using namespace fub;
static constexpr int N = kDefaultChunkSize;
static Complete<ShallowWater> state() {
  Complete<ShallowWater> q;
  q.height = vf_pos("h");
  q.momentum[0] = vf_real("m0");
  q.momentum[1] = vf_real("m1");
  return q;
}
template <int d> void sample() {
  ShallowWater eq;
  const double g = eq.gravity_ = vf_pos("g");
  const auto l = state(), r = state();
  ExactRiemannSolver<ShallowWater> solver(eq);
  Complete<ShallowWater> q;
  solver.SolveRiemannProblem(q, l, r, Direction(d));
  const auto m = solver.ComputeMiddleState(l, r, Direction(d));
  const double hM = m.height, uM = m.momentum[d] / hM, cM = std::sqrt(g * hM);
  const double hL = l.height, uL = l.momentum[d] / hL, cL = std::sqrt(g * hL);
  const double hR = r.height, uR = r.momentum[d] / hR, cR = std::sqrt(g * hR);
  // by reflection the right wave is the left wave of the mirrored problem
  const bool left = uM > 0 || (uM == 0 && vf_bool("contact on the face"));
  const double sg = left ? 1 : -1;
  const Complete<ShallowWater>& s = left ? l : r;
  const double h = left ? hL : hR, u = sg * (left ? uL : uR), c = left ? cL : cR, w = sg * uM;
  const double v = s.momentum[1 - d] / h;
  vf_assume(cM > 1e-7); // the waves are faster than the tolerance of the Newton iteration
  vf_cover("a Riemann problem");
  if (uM == 0) { // both sides of the contact are valid answers
    vf_check("water at rest", q.height == hM && q.momentum[d] == 0.0);
    return;
  }
  double h0, u0;
  if (hM > h) { // shock
    const double speed = hM * w - h * u;
    vf_assume(speed != 0); // a shock on the face: either state is a valid answer
    h0 = speed > 0 ? h : hM;
    u0 = speed > 0 ? u : w;
    vf_cover("a shock");
    vf_check("shock: height", q.height == h0);
    vf_check("shock: normal momentum", sg * q.momentum[d] == h0 * u0);
    vf_check("shock: transversal momentum", q.momentum[1 - d] == h0 * v);
  } else if (u - c > 0) {
    vf_cover("supercritical rarefaction");
    vf_check("undisturbed state", q.height == h && q.momentum[d] == s.momentum[d] && q.momentum[1 - d] == s.momentum[1 - d]);
  } else if (w - cM < 0) {
    vf_cover("subcritical rarefaction");
    vf_check("rarefied middle state", q.height == hM && q.momentum[d] == m.momentum[d] && q.momentum[1 - d] == hM * v);
  } else {
    vf_cover("transcritical rarefaction");
    const double q0 = sg * q.momentum[d];
    vf_check("critical flow on the face", q0 >= 0 && q0 * q0 == g * q.height * q.height * q.height);
    vf_check("Riemann invariant u + 2 c", 3 * q0 == (u + 2 * c) * q.height);
    vf_check("transversal velocity is advected", q.momentum[1 - d] == q.height * v);
  }
}
extern "C" void vf_harness_swe_riemann_x() { sample<0>(); }
extern "C" void vf_harness_swe_riemann_y() { sample<1>(); }

template <int d> void signals() {
  ShallowWater eq;
  const double g = eq.gravity_ = vf_pos("g");
  const auto l = state(), r = state();
  ExactRiemannSolver<ShallowWater> solver(eq);
  const auto m = solver.ComputeMiddleState(l, r, Direction(d));
  const auto s = solver.ComputeSignals(l, r, Direction(d));
  const double hM = m.height, hL = l.height, hR = r.height;
  if (hM > hL) vf_check_eq("left shock speed", s[0] * (hM - hL), m.momentum[d] - l.momentum[d]);
  else vf_check_eq("left rarefaction speed", s[0], l.momentum[d] / hL - std::sqrt(g * hL));
  if (hM > hR) vf_check_eq("right shock speed", s[1] * (hM - hR), m.momentum[d] - r.momentum[d]);
  else vf_check_eq("right rarefaction speed", s[1], r.momentum[d] / hR + std::sqrt(g * hR));
  vf_cover("signals");
}
extern "C" void vf_harness_swe_exact_signals_x() { signals<0>(); }
extern "C" void vf_harness_swe_exact_signals_y() { signals<1>(); }
