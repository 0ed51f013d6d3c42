// patch views over symbolic arrays
#ifndef VF_PATCH_HPP
#define VF_PATCH_HPP
#include "vf.hpp"
#include "fub/PatchDataView.hpp"
namespace vf {
using fub::StridedDataView;
/// a strided view of rank R with box [lower, lower + extent), stride(0) == 1 and
/// arbitrary (padded) strides in the other directions
template <int R> struct Patch {
  std::array<std::ptrdiff_t, R> lo{};
  std::array<std::ptrdiff_t, R> ext{};
  std::array<std::ptrdiff_t, R> str{};
  double* p;
  StridedDataView<double, R> view() const {
    using M = fub::layout_stride::mapping<fub::dynamic_extents<R>>;
    std::array<std::ptrdiff_t, R> e = ext;
    M m = make(e, str, std::make_index_sequence<R>());
    return StridedDataView<double, R>(fub::mdspan<double, R, fub::layout_stride>(p, m), lo);
  }
  StridedDataView<const double, R> cview() const { return view(); }
  double operator()(std::array<std::ptrdiff_t, R> i) const {
    std::ptrdiff_t o = 0;
    for (int d = 0; d < R; ++d) o += (i[d] - lo[d]) * str[d];
    return p[o];
  }
  template <class A, std::size_t... I>
  static fub::layout_stride::mapping<fub::dynamic_extents<R>> make(const A& e, const A& s, std::index_sequence<I...>) {
    return fub::layout_stride::mapping<fub::dynamic_extents<R>>(fub::dynamic_extents<R>(e[I]...), s);
  }
};
inline void strides(long R, const char* const* snames, const long* e, long* s) {
  s[0] = 1;
  for (long d = 1; d < R; ++d) {
    s[d] = vf_int(snames[d], s[d - 1] * e[d - 1], VF_BIG);
    vf_assume(s[d] >= s[d - 1] + 1);
  }
}
template <int R>
Patch<R> make_patch(const char* name, const char* const* snames, const long* lo, const long* ext) {
  Patch<R> P;
  long s[4] = {1, 0, 0, 0}, e[4] = {0, 0, 0, 0};
  for (int d = 0; d < R; ++d) {
    P.lo[d] = lo[d];
    P.ext[d] = e[d] = ext[d];
  }
  strides(R, snames, e, s);
  for (int d = 0; d < R; ++d) P.str[d] = s[d];
  P.p = vf_array(name, R, e[0], e[1], e[2], e[3], s[1], s[2], s[3]);
  return P;
}
/// a second component with the same layout
template <int R> Patch<R> like(const char* name, const Patch<R>& q) {
  Patch<R> P = q;
  long s[4] = {1, 0, 0, 0}, e[4] = {0, 0, 0, 0};
  for (int d = 0; d < R; ++d) {
    e[d] = q.ext[d];
    s[d] = q.str[d];
  }
  P.p = vf_array(name, R, e[0], e[1], e[2], e[3], s[1], s[2], s[3]);
  return P;
}
} // namespace vf
#endif
