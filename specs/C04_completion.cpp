// vf: heavy = complete_simd_2d
// vf: budget = 400
// assumption: the equation has one conserved and one auxiliary scalar; the auxiliary one is an arbitrary function of the conserved one
// Completing the conserved variables of a patch: every cell keeps its conserved and gets its own auxiliary variables.
#include "vf_flux.hpp"
#include "vf_lanes.hpp"
#include "fub/CompleteFromCons.hpp"
using namespace vft;
static const char* const SU[] = {"", "u.s1", "u.s2", "u.s3"};
static const char* const SQ[] = {"", "q.s1", "q.s2", "q.s3"};
static const char* const LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};
template <int R> struct Setup {
  long lo[4], n[4];
  vf::Patch<R> v, u, c;
  View<const Conservative<Eq<R>>> in;
  View<Complete<Eq<R>>> out;
  Setup() {
    for (int k = 0; k < R; ++k) {
      lo[k] = vf_int(LO[k], -VF_BIG, VF_BIG);
      n[k] = vf_int(EX[k], 1, VF_BIG);
    }
    v = vf::make_patch<R>("v", SU, lo, n);
    u = vf::make_patch<R>("u", SQ, lo, n);
    c = vf::like("c", u);
    in.u = v.cview();
    out.u = u.view();
    out.c = c.view();
  }
  void post(std::array<std::ptrdiff_t, R> i) const {
    vf_cover("a cell is completed");
    vf_check_eq("conserved variables are kept", u(i), v(i));
    vf_check_eq("auxiliary variables belong to the cell", c(i), Eq<R>::aux(v(i)));
  }
  void check(bool simd) const {
    std::array<std::ptrdiff_t, R> i;
    for (int k = 0; k < R; ++k)
      if (k || !simd) i[k] = vf_int(IX[k], lo[k], lo[k] + n[k] - 1);
    if (!simd) { post(i); return; }
    const long b = vf_int("i0 / 8", 0, (n[0] - 1) / 8);
    lanes(vf_int("i0 % 8", 0, 7), [&](auto K) {
      const long j = 8 * b + K();
      vf_assume(j <= n[0] - 1);
      i[0] = lo[0] + j;
      post(i);
    });
  }
};
template <class Tag, int R> void complete() {
  constexpr bool simd = std::is_same_v<Tag, execution::SimdTag> || std::is_same_v<Tag, execution::OpenMpSimdTag>;
  Setup<R> s;
  CompleteFromConsFn<Eq<R>> fn{Eq<R>()};
  fn.CompleteFromCons(Tag(), s.out, s.in);
  s.check(simd);
}
extern "C" void vf_harness_complete_seq_1d() { complete<execution::SequentialTag, 1>(); }
extern "C" void vf_harness_complete_seq_2d() { complete<execution::SequentialTag, 2>(); }
extern "C" void vf_harness_complete_omp_3d() { complete<execution::OpenMpTag, 3>(); }
extern "C" void vf_harness_complete_simd_1d() { complete<execution::SimdTag, 1>(); }
extern "C" void vf_harness_complete_simd_2d() { complete<execution::SimdTag, 2>(); }
extern "C" void vf_harness_complete_omp_simd_1d() { complete<execution::OpenMpSimdTag, 1>(); }
template <int R> void view() {
  Setup<R> s;
  CompleteFromCons(Eq<R>(), s.out, s.in);
  s.check(false);
}
extern "C" void vf_harness_complete_view_1d() { view<1>(); }
extern "C" void vf_harness_complete_view_2d() { view<2>(); }
