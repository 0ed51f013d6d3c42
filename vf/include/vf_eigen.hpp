// arbitrary Eigen arrays
#ifndef VF_EIGEN_HPP
#define VF_EIGEN_HPP
#include "vf.hpp"
#include "fub/ext/Eigen.hpp"
namespace vf {
using fub::Array1d;
using fub::MaskArray;
inline Array1d reals(const char* n) {
  Array1d a;
  for (int i = 0; i < a.size(); ++i) a[i] = vf_real(n);
  return a;
}
inline Array1d positives(const char* n) {
  Array1d a;
  for (int i = 0; i < a.size(); ++i) a[i] = vf_pos(n);
  return a;
}
template <int D> fub::Array<double, D> vectors(const char* n) {
  fub::Array<double, D> a;
  for (int d = 0; d < a.rows(); ++d)
    for (int i = 0; i < a.cols(); ++i) a(d, i) = vf_real(n);
  return a;
}
template <int D> fub::Array<double, D, 1> vec(const char* n) {
  fub::Array<double, D, 1> a;
  for (int d = 0; d < D; ++d) a[d] = vf_real(n);
  return a;
}
} // namespace vf
#endif
