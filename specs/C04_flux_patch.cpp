// vf: thorough = flux_simd_2d_x flux_simd_2d_y
// vf: budget = 290
// assumption: all components of a state view share one memory layout (as in all patch types of the library)
// assumption: the equation has one conserved and one auxiliary scalar; its numerical flux is an arbitrary function of the stencil, dt/dx and the direction
// Numerical fluxes on a patch: every face receives the flux of its own stencil.
#include "vf_flux.hpp"
#include "vf_lanes.hpp"
using namespace vft;
static const char* const SU[] = {"", "u.s1", "u.s2", "u.s3"};
static const char* const SF[] = {"", "f.s1", "f.s2", "f.s3"};
static const char* const LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};
static const char* const GL[] = {"gl0", "gl1", "gl2", "gl3"};
static const char* const GU[] = {"gu0", "gu1", "gu2", "gu3"};

template <class Tag, int R, int W> void fluxes(Direction dir) {
  const int d = int(dir);
  long lo[4], n[4], clo[4], cn[4];
  for (int k = 0; k < R; ++k) {
    lo[k] = vf_int(LO[k], -VF_BIG, VF_BIG);
    n[k] = vf_int(EX[k], 1, VF_BIG);
    // the state patch covers the stencils of all faces and possibly more
    const long gl = vf_int(GL[k], 0, VF_BIG), gu = vf_int(GU[k], 0, VF_BIG);
    clo[k] = lo[k] - (k == d ? W : 0) - gl;
    cn[k] = n[k] + (k == d ? 2 * W - 1 : 0) + gl + gu;
  }
  auto f = vf::make_patch<R>("f", SF, lo, n);
  auto u = vf::make_patch<R>("u", SU, clo, cn);
  auto c = vf::like("c", u);
  View<Conservative<Eq<R>>> fv;
  fv.u = f.view();
  View<const Complete<Eq<R>>> qv;
  qv.u = u.cview();
  qv.c = c.cview();
  const double dt = vf_real("dt"), dx = vf_pos("dx");
  FluxMethod<Method<R, W>> method{Method<R, W>()};
  method.ComputeNumericFluxes(Tag(), fv, qv, Duration(dt), dx, dir);
  auto post = [&](std::array<std::ptrdiff_t, R> i) {
    double us[2 * W], cs[2 * W];
    for (int k = 0; k < 2 * W; ++k) {
      auto j = i;
      j[d] += k - W;
      us[k] = u(j);
      cs[k] = c(j);
    }
    vf_cover("a face has a flux");
    vf_check_eq("flux of the stencil around the face", f(i), Method<R, W>::F(us, cs, dt / dx, d));
  };
  constexpr bool simd = std::is_same_v<Tag, execution::SimdTag> || std::is_same_v<Tag, execution::OpenMpSimdTag>;
  std::array<std::ptrdiff_t, R> i;
  for (int k = 0; k < R; ++k)
    if (k || !simd) i[k] = vf_int(IX[k], lo[k], lo[k] + n[k] - 1);
  if constexpr (!simd) post(i);
  else {
    const long b = vf_int("i0 / 8", 0, (n[0] - 1) / 8);
    lanes(vf_int("i0 % 8", 0, 7), [&](auto K) {
      const long j = 8 * b + K();
      vf_assume(j <= n[0] - 1);
      i[0] = lo[0] + j;
      post(i);
    });
  }
}
#define H(NAME, TAG, R, W, DIR) \
  extern "C" void vf_harness_flux_##NAME() { fluxes<execution::TAG, R, W>(Direction::DIR); }
H(seq_1d, SequentialTag, 1, 1, X)
H(seq_1d_wide, SequentialTag, 1, 2, X)
H(seq_2d_x, SequentialTag, 2, 1, X)
H(seq_2d_y, SequentialTag, 2, 2, Y)
H(seq_3d_z, SequentialTag, 3, 1, Z)
H(simd_1d, SimdTag, 1, 1, X)
H(simd_1d_wide, SimdTag, 1, 2, X)
H(simd_2d_x, SimdTag, 2, 2, X)
H(simd_2d_y, SimdTag, 2, 1, Y)
H(omp_2d_y, OpenMpTag, 2, 1, Y)
H(omp_simd_1d, OpenMpSimdTag, 1, 2, X)
