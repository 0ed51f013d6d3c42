// vf: sources = src/equations/PerfectGas.cpp src/equations/PerfectGasMix.cpp src/boundary_condition/ReflectiveBoundary.cpp
// vf: budget = 90
// contract: Rotate: applies the matrix to the momentum and keeps everything else, also in place
// contract: Reflect: reverses the momentum (velocity) along the normal and keeps everything else, also in place
// contract: MakeRotation: an isometry that maps the first unit vector to the second
// assumption: PerfectGasMix is instantiated with two species and one passive scalar (the loops over them are uniform)
#include "vf_eigen.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
using namespace fub;

namespace {
template <int D> PerfectGas<D> make(PerfectGas<D>*) { return PerfectGas<D>{}; }
template <int D> PerfectGasMix<D> make(PerfectGasMix<D>*) {
  PerfectGasMix<D> eq;
  eq.n_species = 2;
  eq.n_passive_scalars = 1;
  return eq;
}
template <class Q> auto& vec(Q& q) {
  if constexpr (std::is_same_v<std::remove_const_t<Q>, Primitive<PerfectGas<Q::Equation::Rank()>>>)
    return q.velocity;
  else
    return q.momentum;
}
// applies f to corresponding scalar components
template <class Q, class F> void scalars(const Q& a, const Q& b, F f) {
  constexpr bool prim = std::is_same_v<Q, Primitive<PerfectGas<Q::Equation::Rank()>>>;
  constexpr bool mix = std::is_same_v<typename Q::Equation, PerfectGasMix<Q::Equation::Rank()>>;
  constexpr bool complete = std::is_same_v<Q, Complete<typename Q::Equation>>;
  f("density", a.density, b.density);
  if constexpr (prim || complete) f("pressure", a.pressure, b.pressure);
  if constexpr (!prim) f("energy", a.energy, b.energy);
  if constexpr (complete) f("speed of sound", a.speed_of_sound, b.speed_of_sound);
  if constexpr (mix) {
    f("species 0", a.species[0], b.species[0]);
    f("species 1", a.species[1], b.species[1]);
    f("passive scalar", a.passive_scalars[0], b.passive_scalars[0]);
  }
}
template <template <class> class S, class Eq> S<Eq> state(const Eq& eq) {
  S<Eq> q(eq);
  scalars(q, q, [](const char* n, const double& x, const double&) { const_cast<double&>(x) = vf_real(n); });
  for (int d = 0; d < Eq::Rank(); ++d) vec(q)[d] = vf_real("m");
  return q;
}
template <class Q> void same_scalars(const Q& r, const Q& q) {
  scalars(r, q, [](const char* n, double x, double y) { vf_check_eq(n, x, y); });
}
template <template <class> class S, class Eq> void reflect() {
  constexpr int D = Eq::Rank();
  Eq eq = make(static_cast<Eq*>(nullptr));
  const S<Eq> q = state<S>(eq);
  S<Eq> r(eq);
  S<Eq> t = q;
  Eigen::Matrix<double, D, 1> n;
  for (int d = 0; d < D; ++d) n[d] = vf_real("n");
  Reflect(r, q, n, eq);
  Reflect(t, t, n, eq);
  same_scalars(r, q);
  same_scalars(t, q);
  double mn = 0;
  for (int d = 0; d < D; ++d) mn += vec(q)[d] * n[d];
  for (int d = 0; d < D; ++d) {
    vf_check_eq("the part along the normal is reversed", vec(r)[d], vec(q)[d] - 2 * mn * n[d]);
    vf_check_eq("the part along the normal is reversed in place", vec(t)[d], vec(q)[d] - 2 * mn * n[d]);
  }
}
template <template <class> class S, class Eq> void rotate() {
  constexpr int D = Eq::Rank();
  Eq eq = make(static_cast<Eq*>(nullptr));
  const S<Eq> q = state<S>(eq);
  S<Eq> r(eq);
  S<Eq> t = q;
  Eigen::Matrix<double, D, D> R;
  for (int i = 0; i < D; ++i)
    for (int j = 0; j < D; ++j) R(i, j) = vf_real("R");
  Rotate(r, q, R, eq);
  Rotate(t, t, R, eq);
  same_scalars(r, q);
  same_scalars(t, q);
  for (int i = 0; i < D; ++i) {
    double s = 0;
    for (int j = 0; j < D; ++j) s += R(i, j) * vec(q)[j];
    vf_check_eq("the matrix is applied", vec(r)[i], s);
    vf_check_eq("the matrix is applied in place", vec(t)[i], s);
  }
}
template <int D> Eigen::Matrix<double, D, 1> unit(const char* name) {
  Eigen::Matrix<double, D, 1> a;
  double s = 1.0;
  for (int d = 0; d + 1 < D; ++d) {
    a[d] = vf_real_in(name, -1.0, 1.0);
    s -= a[d] * a[d];
  }
  vf_assume(s >= 0);
  const double z = std::sqrt(s);
  a[D - 1] = vf_bool("negative last coordinate") ? -z : z;
  return a;
}
template <int D> void rotation(bool opposite) {
  const auto a = unit<D>("a");
  Eigen::Matrix<double, D, 1> b;
  if (opposite) b = -a; else b = unit<D>("b");
  bool eq = true;
  for (int d = 0; d < D; ++d) eq = eq && a[d] == -b[d];
  if (!opposite) vf_assume(!eq);
  const Eigen::Matrix<double, D, D> R = MakeRotation(a, b);
  for (int i = 0; i < D; ++i) {
    double s = 0;
    for (int j = 0; j < D; ++j) s += R(i, j) * a[j];
    vf_check_eq("maps the first vector to the second", s, b[i]);
    for (int k = i; k < D; ++k) {
      double t = 0;
      for (int j = 0; j < D; ++j) t += R(j, i) * R(j, k);
      vf_check_eq("isometry", t, i == k ? 1.0 : 0.0);
    }
  }
  if (!opposite) {
    if constexpr (D == 2) {
      vf_check_eq("orientation", R(0, 0) * R(1, 1) - R(0, 1) * R(1, 0), 1.0);
    } else {
      const double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) -
                         R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) +
                         R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
      vf_check_eq("orientation", det, 1.0);
    }
  }
}
template <int D> void reflect_index() {
  static const char* const names[] = {"i0", "i1", "i2"};
  static const char* const ln[] = {"l0", "l1", "l2"};
  static const char* const un[] = {"u0", "u1", "u2"};
  IndexBox<D> box;
  Index<D> i;
  for (int d = 0; d < D; ++d) {
    box.lower[d] = vf_int(ln[d], -VF_BIG, VF_BIG);
    box.upper[d] = vf_int(un[d], -VF_BIG, VF_BIG);
    i[d] = vf_int(names[d], -VF_BIG, VF_BIG);
  }
  for (int dir = 0; dir < D; ++dir) {
    for (int side = 0; side < 2; ++side) {
      const Index<D> r = ReflectIndex(i, box, static_cast<Direction>(dir), side);
      const long face = side == 0 ? box.upper[dir] : box.lower[dir];
      for (int d = 0; d < D; ++d) {
        if (d == dir)
          vf_check_ieq("mirrored at the inner face of the ghost cells", r[d] - face, face - i[d] - 1);
        else
          vf_check_ieq("other directions are kept", r[d], i[d]);
      }
      const Index<D> back = ReflectIndex(r, box, static_cast<Direction>(dir), side);
      for (int d = 0; d < D; ++d) vf_check_ieq("reflecting twice is the identity", back[d], i[d]);
    }
  }
}
template <int D> void unit_vector() {
  for (int dir = 0; dir < D; ++dir) {
    const Eigen::Matrix<double, D, 1> u = UnitVector<D>(static_cast<Direction>(dir));
    for (int d = 0; d < D; ++d) vf_check_eq("unit vector of the direction", u[d], d == dir ? 1.0 : 0.0);
  }
}
} // namespace
#define REF(S, s, E, e, D) extern "C" void vf_harness_reflect_##s##_##e##_##D##d() { reflect<S, E<D>>(); }
#define ROT(S, s, E, e, D) extern "C" void vf_harness_rotate_##s##_##e##_##D##d() { rotate<S, E<D>>(); }
template <class E> using Prim = Primitive<E>;
REF(Complete, complete, PerfectGas, gas, 1)
REF(Complete, complete, PerfectGas, gas, 2)
REF(Complete, complete, PerfectGas, gas, 3)
REF(Conservative, cons, PerfectGas, gas, 1)
REF(Conservative, cons, PerfectGas, gas, 2)
REF(Conservative, cons, PerfectGas, gas, 3)
REF(Primitive, prim, PerfectGas, gas, 1)
REF(Primitive, prim, PerfectGas, gas, 2)
REF(Primitive, prim, PerfectGas, gas, 3)
REF(Complete, complete, PerfectGasMix, mix, 1)
REF(Complete, complete, PerfectGasMix, mix, 2)
REF(Complete, complete, PerfectGasMix, mix, 3)
REF(Conservative, cons, PerfectGasMix, mix, 1)
REF(Conservative, cons, PerfectGasMix, mix, 2)
REF(Conservative, cons, PerfectGasMix, mix, 3)
ROT(Complete, complete, PerfectGas, gas, 2)
ROT(Complete, complete, PerfectGas, gas, 3)
ROT(Conservative, cons, PerfectGas, gas, 2)
ROT(Conservative, cons, PerfectGas, gas, 3)
ROT(Complete, complete, PerfectGasMix, mix, 2)
ROT(Complete, complete, PerfectGasMix, mix, 3)
ROT(Conservative, cons, PerfectGasMix, mix, 2)
ROT(Conservative, cons, PerfectGasMix, mix, 3)
extern "C" void vf_harness_rotation_2d() { rotation<2>(false); }
extern "C" void vf_harness_rotation_3d() { rotation<3>(false); }
extern "C" void vf_harness_rotation_opposite_2d() { rotation<2>(true); }
extern "C" void vf_harness_rotation_opposite_3d() { rotation<3>(true); }
extern "C" void vf_harness_reflect_index_1d() { reflect_index<1>(); }
extern "C" void vf_harness_reflect_index_2d() { reflect_index<2>(); }
extern "C" void vf_harness_reflect_index_3d() { reflect_index<3>(); }
extern "C" void vf_harness_unit_vector() { unit_vector<1>(); unit_vector<2>(); unit_vector<3>(); }
