// contract: ForEachIndex calls the function for every index of the box or mapping exactly once and for no other one
// vf: heavy = box_4 left_4
#include "vf_patch.hpp"
#include "fub/ForEach.hpp"

using namespace fub;

namespace {
static const char* const LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char* const EX[] = {"n0", "n1", "n2", "n3"};
static const char* const GL[] = {"gl0", "gl1", "gl2", "gl3"};
static const char* const GU[] = {"gu0", "gu1", "gu2", "gu3"};
static const char* const IX[] = {"i0", "i1", "i2", "i3"};
static const char* const SV[] = {"", "s1", "s2", "s3"};

// counts the visits of every cell of a patch around the box
template <int R, class Loop> void visits(Loop loop, bool zero) {
  long lo[4], n[4], plo[4], pn[4];
  for (int d = 0; d < R; ++d) {
    lo[d] = zero ? 0 : vf_int(LO[d], -VF_BIG, VF_BIG);
    n[d] = vf_int(EX[d], 0, zero ? 2000000000L : VF_BIG);
    plo[d] = lo[d] - vf_int(GL[d], 0, VF_BIG);
    pn[d] = n[d] + (lo[d] - plo[d]) + vf_int(GU[d], 1, VF_BIG);
  }
  auto P = vf::make_patch<R>("visits", SV, plo, pn);
  std::array<std::ptrdiff_t, R> i;
  bool in = true;
  for (int d = 0; d < R; ++d) {
    i[d] = vf_int(IX[d], plo[d], plo[d] + pn[d] - 1);
    in = in & (lo[d] <= i[d]) & (i[d] < lo[d] + n[d]);
  }
  const double old = P(i);
  auto view = P.view();
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) {
    b.lower[d] = lo[d];
    b.upper[d] = lo[d] + n[d];
  }
  loop(b, [&](auto... is) { view(is...) += 1.0; });
  vf_check_eq("every index of the box is visited once, no other", P(i), in ? old + 1.0 : old);
  vf_cover("visited");
}
template <int R> void box() {
  visits<R>([](const IndexBox<R>& b, auto f) { ForEachIndex(b, f); }, false);
}
template <int R> std::array<std::ptrdiff_t, R> extents(const IndexBox<R>& b) {
  std::array<std::ptrdiff_t, R> e;
  for (int d = 0; d < R; ++d) e[d] = b.upper[d];
  return e;
}
template <int R> void left() {
  visits<R>([](const IndexBox<R>& b, auto f) {
    ForEachIndex(layout_left::mapping<dynamic_extents<R>>(dynamic_extents<R>(extents<R>(b))), f);
  }, true);
}
template <int R> void stride() {
  visits<R>([](const IndexBox<R>& b, auto f) {
    std::array<std::ptrdiff_t, R> s;
    s[0] = 1;
    for (int d = 1; d < R; ++d) s[d] = s[d - 1] + vf_int("more", 1, VF_BIG);
    ForEachIndex(layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(extents<R>(b)), s), f);
  }, true);
}
} // namespace

#define H(name, ...) extern "C" void vf_harness_##name() { __VA_ARGS__(); }
H(box_1, box<1>)
H(box_2, box<2>)
H(box_3, box<3>)
H(box_4, box<4>)
H(left_1, left<1>)
H(left_2, left<2>)
H(left_3, left<3>)
H(left_4, left<4>)
H(stride_1, stride<1>)
H(stride_2, stride<2>)
H(stride_3, stride<3>)
