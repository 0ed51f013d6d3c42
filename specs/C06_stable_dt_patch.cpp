// vf: bounded = stable_simd_2d_x stable_simd_2d_y stable_seq_3d_z
// vf: budget = 400
// assumption: all components of a state view share one memory layout (as in all patch types of the library)
// assumption: the equation has one conserved and one auxiliary scalar; the time step bound of a stencil is an arbitrary positive function
// The stable time step of a patch is bounded by that of every face, and is not smaller than a common lower bound.
#include "vf_flux.hpp"
#include "vf_lanes.hpp"
using namespace vft;
static const char* const SU[] = {"", "u.s1", "u.s2", "u.s3"};
static const char* const LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};

template <class Tag, int R, int W> void stable(Direction dir) {
  const int d = int(dir);
  constexpr bool simd = std::is_same_v<Tag, execution::SimdTag> || std::is_same_v<Tag, execution::OpenMpSimdTag>;
  long lo[4], n[4];
  for (int k = 0; k < R; ++k) {
    lo[k] = vf_int(LO[k], -VF_BIG, VF_BIG);
    n[k] = vf_int(EX[k], k == d ? 2 * W : 1, VF_BIG);
  }
  auto u = vf::make_patch<R>("u", SU, lo, n);
  auto c = vf::like("c", u);
  View<const Complete<Eq<R>>> qv;
  qv.u = u.cview();
  qv.c = c.cview();
  const double dx = vf_pos("dx"), bound = vf_pos("bound");
  FluxMethod<Method<R, W>> method{Method<R, W>(bound)};
  const double dt = method.ComputeStableDt(Tag(), qv, dx, dir);
  auto post = [&](std::array<std::ptrdiff_t, R> i) {
    double us[2 * W], cs[2 * W];
    for (int k = 0; k < 2 * W; ++k) {
      auto j = i;
      j[d] += k;
      us[k] = u(j);
      cs[k] = c(j);
    }
    vf_cover("a face bounds the time step");
    vf_check_le("time step bounded by every face of the patch", dt, static_cast<const Method<R, W>&>(method).T(us, cs, dx, d));
    vf_check_le("time step not smaller than a bound of all faces", bound, dt);
  };
  std::array<std::ptrdiff_t, R> i;
  for (int k = 0; k < R; ++k) {
    const long last = n[k] - 1 - (k == d ? 2 * W - 1 : 0);
    if (k || !simd) i[k] = vf_int(IX[k], lo[k], lo[k] + last);
  }
  if constexpr (!simd) post(i);
  else {
    const long b = vf_int("i0 / 8", 0, (n[0] - 1 - (d == 0 ? 2 * W - 1 : 0)) / 8);
    lanes(vf_int("i0 % 8", 0, 7), [&](auto K) {
      const long j = 8 * b + K();
      vf_assume(j <= n[0] - 1 - (d == 0 ? 2 * W - 1 : 0));
      i[0] = lo[0] + j;
      post(i);
    });
  }
}
#define H(NAME, TAG, R, W, DIR) \
  extern "C" void vf_harness_stable_##NAME() { stable<execution::TAG, R, W>(Direction::DIR); }
H(seq_1d, SequentialTag, 1, 1, X)
H(seq_1d_wide, SequentialTag, 1, 2, X)
H(seq_2d_x, SequentialTag, 2, 1, X)
H(seq_2d_y, SequentialTag, 2, 2, Y)
H(seq_3d_z, SequentialTag, 3, 1, Z)
H(simd_1d, SimdTag, 1, 1, X)
H(simd_1d_wide, SimdTag, 1, 2, X)
H(simd_2d_x, SimdTag, 2, 2, X)
H(simd_2d_y, SimdTag, 2, 1, Y)
H(omp_2d_y, OpenMpTag, 2, 1, Y)
H(omp_simd_1d, OpenMpSimdTag, 1, 2, X)
