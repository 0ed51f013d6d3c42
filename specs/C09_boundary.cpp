// vf: sources = src/boundary_condition/ReflectiveBoundary.cpp
// vf: budget = 200
// contract: ReflectiveBoundary::FillBoundary: every ghost cell holds the reflected state of its mirror image at the face; all other cells are unchanged
// assumption: the reflection of a state is an arbitrary function of the state and the unit normal; the equation has one conserved and one auxiliary scalar; the mirror images of the ghost cells lie inside the view
#include "vf_flux.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
namespace vft {
static const char* const RU[] = {"reflect u x", "reflect u y", "reflect u z"};
static const char* const RC[] = {"reflect c x", "reflect c y", "reflect c z"};
template <int R> int direction(const Eigen::Matrix<double, R, 1>& n) {
  for (int d = 0; d < R; ++d) {
    bool is = true;
    for (int e = 0; e < R; ++e) is = is && n[e] == (d == e ? 1.0 : 0.0);
    if (is) return d;
  }
  return -1;
}
template <int R>
void Reflect(Complete<Eq<R>>& r, const Complete<Eq<R>>& q, const Eigen::Matrix<double, R, 1>& n, const Eq<R>&) {
  const int d = direction<R>(n);
  vf_require("the normal is a coordinate direction", d >= 0);
  const double u = q.u, c = q.c;
  r.u = vf_uf2(RU[d], u, c);
  r.c = vf_uf2(RC[d], u, c);
}
} // namespace vft
using namespace vft;
static const char* const SU[] = {"", "u.s1", "u.s2", "u.s3"};
static const char* const LO[] = {"lo0", "lo1", "lo2"};
static const char* const EX[] = {"n0", "n1", "n2"};
static const char* const BL[] = {"b0", "b1", "b2"};
static const char* const BU[] = {"m0", "m1", "m2"};
static const char* const IX[] = {"i0", "i1", "i2"};
template <int R, int Dir, int Side> void fill() {
  long lo[4], n[4];
  for (int k = 0; k < R; ++k) {
    lo[k] = vf_int(LO[k], -VF_BIG, VF_BIG);
    n[k] = vf_int(EX[k], 2, VF_BIG);
  }
  const auto u = vf::make_patch<R>("u", SU, lo, n);
  const auto c = vf::like("c", u);
  View<Complete<Eq<R>>> view;
  view.u = u.view();
  view.c = c.view();
  IndexBox<R> box;
  for (int k = 0; k < R; ++k) {
    const long m = vf_int(BU[k], 1, k == Dir ? n[k] / 2 : n[k]);
    const long b = vf_int(BL[k], k == Dir && Side ? m : 0, k == Dir && !Side ? n[k] - 2 * m : n[k] - m);
    box.lower[k] = lo[k] + b;
    box.upper[k] = lo[k] + b + m;
  }
  // an arbitrary cell
  std::array<std::ptrdiff_t, R> i, s;
  bool inside = true;
  for (int k = 0; k < R; ++k) {
    i[k] = s[k] = vf_int(IX[k], lo[k], lo[k] + n[k] - 1);
    inside = inside && box.lower[k] <= i[k] && i[k] < box.upper[k];
  }
  const long face = Side == 0 ? box.upper[Dir] : box.lower[Dir];
  s[Dir] = 2 * face - 1 - i[Dir];
  // the values before the call
  const double ui = u(i), ci = c(i);
  const double us = inside ? u(s) : 0.0, cs = inside ? c(s) : 0.0;
  ReflectiveBoundary<Eq<R>> boundary{Eq<R>()};
  boundary.FillBoundary(view, box, static_cast<Direction>(Dir), Side);
  if (inside) {
    vf_cover("ghost cell");
    vf_check_eq("ghost cell: reflected mirror image (conserved)", u(i), vf_uf2(RU[Dir], us, cs));
    vf_check_eq("ghost cell: reflected mirror image (auxiliary)", c(i), vf_uf2(RC[Dir], us, cs));
  } else {
    vf_cover("other cell");
    vf_check_eq("other cells are unchanged (conserved)", u(i), ui);
    vf_check_eq("other cells are unchanged (auxiliary)", c(i), ci);
  }
}
#define FILL(R, D, S) extern "C" void vf_harness_fill_##R##d_##D##_##S() { fill<R, D, S>(); }
FILL(1, 0, 0) FILL(1, 0, 1)
FILL(2, 0, 0) FILL(2, 0, 1) FILL(2, 1, 0) FILL(2, 1, 1)
FILL(3, 2, 0) FILL(3, 1, 1)
