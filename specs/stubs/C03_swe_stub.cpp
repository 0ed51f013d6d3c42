// contract of ExactRiemannSolver<ShallowWater>::ComputeMiddleState (proved in C03_swe.cpp, harness swe_middle):
// the middle state lies on the left wave curve exactly and on the right wave curve up to the Newton tolerance
#include "vf.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "swe_curves.hpp"
namespace fub {
ShallowWater::Complete ExactRiemannSolver<ShallowWater>::ComputeMiddleState(const Complete& l, const Complete& r, Direction dir) {
  const int d = static_cast<int>(dir);
  vf_require("water heights are positive", l.height > 0 && r.height > 0);
  const double h = vf_uf6(d ? "hM1" : "hM0", l.height, l.momentum[0], l.momentum[1], r.height, r.momentum[0], r.momentum[1]);
  vf_assume(h > 0);
  const double g = equation_.gravity_;
  const double u = left_curve(g, l.height, l.momentum[d] / l.height, h);
  const double w = right_curve(g, r.height, r.momentum[d] / r.height, h);
  vf_assume(std::abs(w - u) <= 1e-7);
  Complete m;
  m.height = h;
  m.momentum[d] = h * u;
  m.momentum[1 - d] = 0;
  return m;
}
} // namespace fub
