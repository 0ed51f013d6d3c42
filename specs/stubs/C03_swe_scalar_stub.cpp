#include "vf.hpp"
#include "fub/equations/ShallowWater.hpp"
namespace fub {
#define UF(n) vf_uf6(n, l.height, l.momentum[0], l.momentum[1], r.height, r.momentum[0], r.momentum[1])
void ExactRiemannSolver<ShallowWater>::SolveRiemannProblem(Complete& q, const Complete& l, const Complete& r, Direction dir) {
  const int d = static_cast<int>(dir);
  q.height = UF(d ? "h1" : "h0");
  q.momentum[0] = UF(d ? "m01" : "m00");
  q.momentum[1] = UF(d ? "m11" : "m10");
}
std::array<double, 2> ExactRiemannSolver<ShallowWater>::ComputeSignals(const Complete& l, const Complete& r, Direction dir) {
  const int d = static_cast<int>(dir);
  return {UF(d ? "l1" : "l0"), UF(d ? "r1" : "r0")};
}
} // namespace fub
