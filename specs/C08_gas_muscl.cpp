// vf: bounded = prim_1d prim_2d prim_masked_1d
// vf: sources = src/equations/PerfectGas.cpp
// vf: flags = -I/repo
// contract: the HLLEM flux called by the primitive variable method is replaced by an arbitrary function of the two reconstructed states (HLLEM itself is verified in its own property)
// assumption: density and pressure of the reconstructed states are positive (asserted by the code)
// assumption: arrays use arbitrary values in the checked lane and one other arbitrary state in all remaining lanes
// The MUSCL-Hancock methods of the perfect gas in characteristic and in primitive variables.
#include "vf_evolve.hpp"
#include "vf_lanes.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp"
template <class E> struct VfHllem {
  static CompleteArray<E> left, right;
  static double dt, dx;
  static int dir;
  explicit VfHllem(const E&) {}
  void ComputeNumericFlux(ConservativeArray<E>& f, span<CompleteArray<E>, 2> w, Duration t, double x, Direction d) {
    left = w[0];
    right = w[1];
    dt = t.count();
    dx = x;
    dir = int(d);
    f.density = Array1d::Zero();
    f.momentum.setZero();
    f.energy = Array1d::Zero();
  }
  void ComputeNumericFlux(ConservativeArray<E>& f, Array1d, span<CompleteArray<E>, 2> w, span<const Array1d, 2>, Duration t, double x, Direction d) {
    ComputeNumericFlux(f, w, t, x, d);
  }
  Array1d ComputeStableDt(span<const CompleteArray<E>, 2>, double, Direction) { return Array1d::Zero(); }
  Array1d ComputeStableDt(span<const CompleteArray<E>, 2>, Array1d, span<const Array1d, 2>, double, Direction) { return Array1d::Zero(); }
};
template <class E> CompleteArray<E> VfHllem<E>::left;
template <class E> CompleteArray<E> VfHllem<E>::right;
template <class E> double VfHllem<E>::dt;
template <class E> double VfHllem<E>::dx;
template <class E> int VfHllem<E>::dir;
#define Hllem VfHllem
#include "src/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#undef Hllem
template struct fub::perfect_gas::MusclHancockPrim<1>;
template struct fub::perfect_gas::MusclHancockPrim<2>;

template <class E> double kinetic(const Cell& r) {
  double s = 0.0;
  for (int d = 0; d < E::Rank(); ++d) s += r.u[d] * r.u[d];
  return 0.5 * r.rho * s;
}
template <class E> void post(const E& eq, const Complete<E>& q, const Cell& r) {
  vf_cover("reconstructed");
  vf_check_eq("density", q.density, r.rho);
  vf_check_eq("pressure", q.pressure, r.p);
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", q.momentum[d], r.rho * r.u[d]);
  vf_check_eq("energy", q.energy, r.p / (eq.gamma - 1.0) + kinetic<E>(r));
}
template <class E> void post(const E& eq, const CompleteArray<E>& q, const Cell& r, int k) {
  vf_check_eq("density", q.density[k], r.rho);
  vf_check_eq("pressure", q.pressure[k], r.p);
  for (int d = 0; d < E::Rank(); ++d) vf_check_eq("momentum", q.momentum(d, k), r.rho * r.u[d]);
  vf_check_eq("energy", q.energy[k], r.p / (eq.gamma - 1.0) + kinetic<E>(r));
}
// (two arbitrary coefficients distinguish the arguments)
static double alpha, beta;
static double limiter(double a, double b) { return alpha * a + beta * a * b; }
// differences over a cell from limited characteristic amplitudes
static Slope limited(const Cell* z, int ix, int D) {
  const Cell& m = z[1];
  const double rc = m.rho * m.c, c2 = m.c * m.c;
  const auto amp = [&](const Cell& a, const Cell& b, double* k) {
    k[0] = (b.p - a.p) - rc * (b.u[ix] - a.u[ix]);
    k[1] = (b.p - a.p) + rc * (b.u[ix] - a.u[ix]);
    k[2] = (b.rho - a.rho) - (b.p - a.p) / c2;
    for (int i = 1; i < D; ++i) k[2 + i] = b.u[(ix + i) % D] - a.u[(ix + i) % D];
  };
  double l[5], r[5], k[5];
  amp(z[0], z[1], l);
  amp(z[1], z[2], r);
  for (int i = 0; i < 2 + D; ++i) k[i] = limiter(l[i], r[i]);
  Slope s = flat;
  s.p = 0.5 * (k[0] + k[1]);
  s.u[ix] = 0.5 * (k[1] - k[0]) / rc;
  s.rho = k[2] + s.p / c2;
  for (int i = 1; i < D; ++i) s.u[(ix + i) % D] = k[2 + i];
  return s;
}
template <int D> void chars(Direction dir, int side) {
  using E = PerfectGas<D>;
  E eq = gas((E*)nullptr);
  std::array<Complete<E>, 3> q;
  Cell z[3];
  for (int k = 0; k < 3; ++k) put<E>(q[k], z[k] = cell(k));
  const double lambda = vf_real_in("dt / dx", 0.0, 1e6);
  alpha = vf_real("alpha");
  beta = vf_real("beta");
  const Cell r = evolve(z[1], limited(z, int(dir), D), 1.0, lambda, 1.0, int(dir), D, side ? Side::Lower : Side::Upper);
  vf_assume(r.rho > 0 && r.p > 0);
  Complete<E> rec;
  perfect_gas::Primitives diffs(q[0]);
  perfect_gas::Characteristics amplitudes, slopes;
  perfect_gas::Limiter lim = limiter;
  perfect_gas::Reconstruct(rec, diffs, amplitudes, slopes, side, eq, span<const Complete<E>, 3>(q), lambda, lim, dir);
  post(eq, rec, r);
}
extern "C" void vf_harness_chars_1d_left() { chars<1>(Direction::X, 0); }
extern "C" void vf_harness_chars_1d_right() { chars<1>(Direction::X, 1); }
// in 2D and 3D the transversal components are taken cyclically in three dimensions
extern "C" void vf_harness_chars_2d_x_left() { chars<2>(Direction::X, 0); }
extern "C" void vf_harness_chars_2d_y_right() { chars<2>(Direction::Y, 1); }
extern "C" void vf_harness_chars_3d_y_left() { chars<3>(Direction::Y, 0); }
extern "C" void vf_harness_chars_3d_z_right() { chars<3>(Direction::Z, 1); }

template <int D> void chars_array(Direction dir, int side, bool masked) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    using E = PerfectGas<D>;
    E eq = gas((E*)nullptr);
    std::array<CompleteArray<E>, 3> q;
    Cell z[3];
    const Cell x = other();
    for (int i = 0; i < 3; ++i) put_all<E>(q[i], z[i] = cell(i), x, k);
    const double lambda = vf_real_in("dt / dx", 0.0, 1e6);
  alpha = vf_real("alpha");
  beta = vf_real("beta");
    double v[3];
    for (int i = 0; i < 3; ++i) {
      v[i] = i == 1 ? vf_pos("v") : vf_real("v");
      vf_assume(v[i] >= 0);
    }
    const bool regular = !masked || (v[0] > 0 && v[2] > 0);
    const Cell r = evolve(z[1], regular ? limited(z, int(dir), D) : flat, 1.0, lambda, 1.0, int(dir), D, side ? Side::Lower : Side::Upper);
    vf_assume(r.rho > 0 && r.p > 0);
    CompleteArray<E> rec;
    perfect_gas::PrimitivesArray diffs(q[0]);
    perfect_gas::CharacteristicsArray amplitudes, slopes;
    perfect_gas::ArrayLimiter lim = [](Array1d a, Array1d b) {
      Array1d s;
      for (int i = 0; i < kDefaultChunkSize; ++i) s[i] = i == k ? limiter(a[i], b[i]) : 0.0;
      return s;
    };
    const Array1d l = Array1d::Constant(lambda);
    if (!masked) perfect_gas::Reconstruct(rec, diffs, amplitudes, slopes, side, eq, span<const CompleteArray<E>, 3>(q), l, lim, dir);
    else {
      const Array1d face = Array1d::Constant(1.0);
      std::array<Array1d, 3> vol;
      for (int i = 0; i < 3; ++i) {
        vol[i] = Array1d::Constant(1.0);
        vol[i][k] = v[i];
      }
      perfect_gas::Reconstruct(rec, diffs, amplitudes, slopes, side, eq, span<const CompleteArray<E>, 3>(q), l, lim, face, span<const Array1d, 3>(vol), dir);
    }
    post(eq, rec, r, k);
  });
}
extern "C" void vf_harness_chars_array_1d() { chars_array<1>(Direction::X, 0, false); }
extern "C" void vf_harness_chars_array_2d() { chars_array<2>(Direction::X, 1, false); }
extern "C" void vf_harness_chars_array_3d() { chars_array<3>(Direction::Z, 0, false); }
extern "C" void vf_harness_chars_masked_1d() { chars_array<1>(Direction::X, 1, true); }
extern "C" void vf_harness_chars_masked_2d() { chars_array<2>(Direction::Y, 0, true); }

// the limiter of the primitive variable method: mean difference d, smaller one sided difference m
static double harmonic(double L, double M, double R) {
  const double a = M - L, b = R - M, d = 0.5 * (R - L);
  if (std::abs(d) <= 1e-12 || a * b <= 0) return 0.0;
  const double m = a > 0 ? std::min(a, b) : std::max(a, b);
  return 2.0 * m * d / (d + m);
}
// the same slope as a function of the ratios of the one sided and the mean differences (see the lemma below)
static double ratio(double L, double M, double R) {
  const double d = 0.5 * (R - L);
  const bool relevant = std::abs(d) > 1e-12;
  const double e = relevant ? d : 1.0;
  const double rL = relevant ? (M - L) / e : 0.0, rR = relevant ? (R - M) / e : 0.0;
  const double r = rL > 0 && rR > 0 ? std::min(rL, rR) : 0.0;
  return (r < 1 ? 2.0 * r / (1.0 + r) : 0.5 * (r + 1.0)) * d;
}
extern "C" void vf_harness_slope_lemma() {
  const double L = vf_real("L"), M = vf_real("M"), R = vf_real("R");
  vf_check_eq("harmonic mean of the mean and the smaller difference", ratio(L, M, R), harmonic(L, M, R));
  vf_check_le("no new extremum", std::abs(ratio(L, M, R)), 2.0 * std::abs(M - L));
  vf_check_le("no new extremum", std::abs(ratio(L, M, R)), 2.0 * std::abs(R - M));
}
static Slope mean(const Cell& l, const Cell& m, const Cell& r, int D) {
  Slope s = flat;
  s.rho = ratio(l.rho, m.rho, r.rho);
  s.p = ratio(l.p, m.p, r.p);
  for (int d = 0; d < D; ++d) s.u[d] = ratio(l.u[d], m.u[d], r.u[d]);
  return s;
}
static const char* const RN[] = {"rho4", "u4", "p4", "c4", "E4"};
template <int D> void prim(Direction dir, bool masked) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    using E = PerfectGas<D>;
    E eq = gas((E*)nullptr);
    std::array<CompleteArray<E>, 4> q;
    Cell z[4];
    const Cell x = other();
    for (int i = 0; i < 3; ++i) z[i] = cell(i);
    z[3] = Cell{vf_pos(RN[0]), {vf_real(RN[1]), vf_real(RN[1]), vf_real(RN[1])}, vf_pos(RN[2]), vf_pos(RN[3]), vf_real(RN[4]), {0, 0, 0}};
    for (int i = 0; i < 4; ++i) put_all<E>(q[i], z[i], x, k);
    const double dx = vf_pos("dx"), dt = vf_real("dt");
    vf_assume(dt >= 0);
    bool open0 = true, open3 = true;
    std::array<Array1d, 4> vol;
    for (int i = 0; i < 4; ++i) vol[i] = Array1d::Constant(1.0);
    if (masked) {
      open0 = vf_bool("left cell");
      open3 = vf_bool("right cell");
      vol[0][k] = open0 ? vf_pos("v0") : 0.0;
      vol[3][k] = open3 ? vf_pos("v3") : 0.0;
    }
    // a covered outer cell is replaced by its neighbour
    const Cell l = open0 ? z[0] : z[1], r = open3 ? z[3] : z[2];
    const Cell wl = evolve(z[1], mean(l, z[1], z[2], D), 1.0, dt / dx, 1.0, int(dir), D, Side::Upper);
    const Cell wr = evolve(z[2], mean(z[1], z[2], r, D), 1.0, dt / dx, 1.0, int(dir), D, Side::Lower);
    vf_assume(wl.rho > 0 && wl.p > 0 && wr.rho > 0 && wr.p > 0);
    perfect_gas::MusclHancockPrim<D> m(eq);
    ConservativeArray<E> f;
    if (masked) m.ComputeNumericFlux(f, Array1d::Constant(1.0), q, vol, Duration(dt), dx, dir);
    else m.ComputeNumericFlux(f, q, Duration(dt), dx, dir);
    vf_check_eq("time step size", VfHllem<E>::dt, dt);
    vf_check_eq("mesh width", VfHllem<E>::dx, dx);
    vf_check("direction", VfHllem<E>::dir == int(dir));
    post(eq, VfHllem<E>::left, wl, k);
    post(eq, VfHllem<E>::right, wr, k);
  });
}
extern "C" void vf_harness_prim_1d() { prim<1>(Direction::X, false); }
extern "C" void vf_harness_prim_2d() { prim<2>(Direction::Y, false); }
extern "C" void vf_harness_prim_masked_1d() { prim<1>(Direction::X, true); }
