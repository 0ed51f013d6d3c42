// case distinction over the lanes of an array
#ifndef VF_LANES_HPP
#define VF_LANES_HPP
#include "vf.hpp"
#include <type_traits>
template <int L = 0, class F> void lanes(long lane, F f) {
  if constexpr (L < 8) {
    if (lane == L) f(std::integral_constant<int, L>());
    else lanes<L + 1>(lane, f);
  }
}
#endif
