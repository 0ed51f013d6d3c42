// vf: sources = src/HyperbolicPatchIntegrator.cpp
// vf: thorough = simd_3d_x simd_3d_y simd_3d_z
// vf: heavy = omp_3d_z seq_3d_x seq_3d_y seq_3d_z omp_simd_2d_y simd_2d_x simd_2d_y
#include "vf_patch.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"

using namespace fub;

static const char* const SN[] = {"", "next.s1", "next.s2", "next.s3"};
static const char* const SP[] = {"", "prev.s1", "prev.s2", "prev.s3"};
static const char* const SF[] = {"", "flux.s1", "flux.s2", "flux.s3"};
static const char* const LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};
static const char* const GL[] = {"gl0", "gl1", "gl2", "gl3"};
static const char* const GU[] = {"gu0", "gu1", "gu2", "gu3"};
static const char* const FL[] = {"fl0", "fl1", "fl2", "fl3"};
static const char* const FU[] = {"fu0", "fu1", "fu2", "fu3"};

// One conservative update on a patch of arbitrary box, ghost cells and strides.
template <typename Tag, int R> void update(Direction dir, long maxn) {
  const int d = static_cast<int>(dir);
  long lo[4], n[4], plo[4], pn[4], flo[4], fn[4];
  for (int k = 0; k < R; ++k) {
    lo[k] = vf_int(LO[k], -VF_BIG, VF_BIG);
    n[k] = vf_int(EX[k], 1, maxn);
    // `prev` and `fluxes` may be larger than `next` in each direction
    plo[k] = lo[k];
    pn[k] = n[k];
    flo[k] = lo[k] - vf_int(FL[k], 0, VF_BIG);
    fn[k] = n[k] + (lo[k] - flo[k]) + vf_int(FU[k], 0, VF_BIG) + (k == d);
  }
  auto next = vf::make_patch<R>("next", SN, lo, n);
  auto prev = vf::make_patch<R>("prev", SP, plo, pn);
  auto flux = vf::make_patch<R>("flux", SF, flo, fn);
  const double dt = vf_real("dt");
  const double dx = vf_pos("dx");
  HyperbolicPatchIntegrator<Tag>::UpdateConservatively(
      next.view(), prev.cview(), flux.cview(), Duration(dt), dx, dir);
  // for every cell of the patch
  std::array<std::ptrdiff_t, R> i, r;
  for (int k = 0; k < R; ++k) {
    i[k] = vf_int(IX[k], lo[k], lo[k] + n[k] - 1);
    r[k] = i[k] + (k == d);
  }
  vf_cover("a cell was updated");
  vf_check_eq("u_next = u_prev + dt/dx (f_left - f_right)", next(i),
              prev(i) + dt / dx * (flux(i) - flux(r)));
}

#define H(NAME, TAG, R, DIR)                                                   \
  extern "C" void vf_harness_##NAME() {                                        \
    update<execution::TAG, R>(Direction::DIR, VF_BIG);                         \
  }
H(seq_1d, SequentialTag, 2, X)
H(seq_2d_x, SequentialTag, 3, X)
H(seq_2d_y, SequentialTag, 3, Y)
H(seq_3d_x, SequentialTag, 4, X)
H(seq_3d_y, SequentialTag, 4, Y)
H(seq_3d_z, SequentialTag, 4, Z)
H(simd_1d, SimdTag, 2, X)
H(simd_2d_x, SimdTag, 3, X)
H(simd_2d_y, SimdTag, 3, Y)
H(omp_1d, OpenMpTag, 2, X)
H(omp_2d_x, OpenMpTag, 3, X)
H(omp_2d_y, OpenMpTag, 3, Y)
H(omp_3d_z, OpenMpTag, 4, Z)
H(omp_simd_1d, OpenMpSimdTag, 2, X)
H(omp_simd_2d_y, OpenMpSimdTag, 3, Y)
H(simd_3d_x, SimdTag, 4, X)
H(simd_3d_y, SimdTag, 4, Y)
H(simd_3d_z, SimdTag, 4, Z)

// Conservation: what one cell loses through a face its neighbour gains; the sum over
// two adjacent cells of an arbitrary pair depends on the outer faces only.
template <typename Tag> void telescope() {
  long lo[4] = {vf_int("lo0", -VF_BIG, VF_BIG), 0, 0, 0};
  long n[4] = {vf_int("n0", 2, VF_BIG), vf_int("n1", 1, VF_BIG), 0, 0};
  long fn[4] = {n[0] + 1, n[1], 0, 0};
  auto next = vf::make_patch<2>("next", SN, lo, n);
  auto prev = vf::make_patch<2>("prev", SP, lo, n);
  auto flux = vf::make_patch<2>("flux", SF, lo, fn);
  const double dt = vf_real("dt");
  const double dx = vf_pos("dx");
  HyperbolicPatchIntegrator<Tag>::UpdateConservatively(
      next.view(), prev.cview(), flux.cview(), Duration(dt), dx, Direction::X);
  const long i = vf_int("i", lo[0], lo[0] + n[0] - 2);
  const long c = vf_int("c", 0, n[1] - 1);
  vf_cover("a pair of cells was updated");
  vf_check_eq("interior fluxes cancel", dx * (next({i, c}) + next({i + 1, c})),
              dx * (prev({i, c}) + prev({i + 1, c})) +
                  dt * (flux({i, c}) - flux({i + 2, c})));
}
extern "C" void vf_harness_conservation_seq() { telescope<execution::SequentialTag>(); }
extern "C" void vf_harness_conservation_simd() { telescope<execution::SimdTag>(); }
