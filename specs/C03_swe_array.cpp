// vf: sources = src/equations/ShallowWater.cpp
// vf: stubs = stubs/C03_swe_scalar_stub.cpp
// contract: the scalar SolveRiemannProblem and ComputeSignals are replaced by functions of their arguments (their contracts are proved in C03_swe_riemann.cpp)
// Shallow water equations: the array versions solve an independent problem in every lane.
#include "vf_eigen.hpp"
#include "fub/equations/ShallowWater.hpp"
using namespace fub;
static constexpr int N = kDefaultChunkSize;
// array version: the scalar contract in every lane
template <int d> void sample_array() {
  ShallowWater eq;
  eq.gravity_ = vf_pos("g");
  ExactRiemannSolver<ShallowWater> solver(eq);
  CompleteArray<ShallowWater> l, r, q;
  l.height = vf::positives("h");
  l.momentum = vf::vectors<2>("m");
  r.height = vf::positives("h");
  r.momentum = vf::vectors<2>("m");
  solver.SolveRiemannProblem(q, l, r, Direction(d));
  const auto s = solver.ComputeSignals(l, r, Direction(d));
  for (int i = 0; i < N; ++i) {
    Complete<ShallowWater> a, b, c;
    a.height = l.height[i];
    b.height = r.height[i];
    for (int k = 0; k < 2; ++k) {
      a.momentum[k] = l.momentum(k, i);
      b.momentum[k] = r.momentum(k, i);
    }
    solver.SolveRiemannProblem(c, a, b, Direction(d));
    const auto t = solver.ComputeSignals(a, b, Direction(d));
    vf_check("every lane solves its own Riemann problem",
             c.height == q.height[i] && c.momentum[0] == q.momentum(0, i) && c.momentum[1] == q.momentum(1, i));
    vf_check("every lane has its own signals", s[0][i] == t[0] && s[1][i] == t[1]);
  }
}
extern "C" void vf_harness_swe_riemann_array_x() { sample_array<0>(); }
extern "C" void vf_harness_swe_riemann_array_y() { sample_array<1>(); }

