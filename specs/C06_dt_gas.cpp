// vf: sources = src/equations/PerfectGas.cpp src/equations/perfect_gas/HllemMethod_1d.cpp src/equations/perfect_gas/HllemMethod_2d.cpp src/equations/perfect_gas/HllemMethod_3d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_1d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_2d.cpp src/equations/perfect_gas/EinfeldtSignalVelocities_3d.cpp
// assumption: perfect gas signal speeds: left and right states with positive density and pressure for which the Roe-averaged sound speed is real and positive
// Einfeldt signal velocities and HLLEM time step of the perfect gas.
#include "hllem_ref.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
using namespace fub;
#define EQ PerfectGas<D>
#define NSCAL 0
template <int D> PerfectGas<D> gas() {
  PerfectGas<D> eq;
  const double gm1 = vf_pos("gamma-1");
  eq.gamma = 1.0 + gm1;
  eq.gamma_minus_1_inv = 1.0 / gm1;
  eq.gamma_array_ = Array1d::Constant(eq.gamma);
  eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
  return eq;
}
template <class Eq> double msq(const Eq&) { return 1.0; }
template <class Q, class S> void set_scalars(Q&, const S&) {}
template <class Q, class S> void set_scalars(Q&, const S&, int) {}
template <class Q, class F> void check_scalars(const Q&, const F&) {}
template <class Q, class F> void check_scalars(const Q&, const F&, int) {}
template <class Q> void garbage_scalars(Q&) {}
#include "hllem_harness.hpp"
// Einfeldt's bounds: Roe averages of the normal velocity and the enthalpy
struct Speeds { double l, r; };
template <int D> Speeds einfeldt(const St<D, 0>& l, const St<D, 0>& r, double gm1, int dir) {
  const double wl = std::sqrt(l.rho), wr = std::sqrt(r.rho), sum = wl + wr;
  const double ul = l.m[dir] / l.rho, ur = r.m[dir] / r.rho;
  const double u = (wl * ul + wr * ur) / sum;
  const double H = (wl * ((l.E + l.p) / l.rho) + wr * ((r.E + r.p) / r.rho)) / sum;
  const double a2 = gm1 * (H - 0.5 * u * u);
  vf_assume(a2 > 0);
  const double a = std::sqrt(a2);
  return {std::min(ul - l.a, u - a), std::max(ur + r.a, u + a)};
}
template <int D> void compare(const char* L, const char* R, double sl, double sr, const Speeds& g, const St<D, 0>& l, const St<D, 0>& r, int dir) {
  vf_check_eq(L, sl, g.l);
  vf_check_eq(R, sr, g.r);
  vf_check_le("left signal bounds the left acoustic wave", sl, l.m[dir] / l.rho - l.a);
  vf_check_le("right signal bounds the right acoustic wave", r.m[dir] / r.rho + r.a, sr);
  vf_check_lt("signals are ordered", sl, sr);
}
template <int D> void signals(int dir) {
  EQ eq = gas<D>();
  const auto l = any<D, 0>(0), r = any<D, 0>(1);
  const Speeds g = einfeldt(l, r, eq.gamma - 1.0, dir);
  const auto s = EinfeldtSignalVelocities<EQ>()(eq, scalar_state<D>(eq, l), scalar_state<D>(eq, r), Direction(dir));
  compare("left signal", "right signal", s[0], s[1], g, l, r, dir);
}
template <int D> void signals_array(int dir) {
  lanes(vf_int("lane", 0, 7), [dir](auto K) {
    constexpr int k = K();
    EQ eq = gas<D>();
    const auto l = any<D, 0>(0), r = any<D, 0>(1), o = rest<D, 0>();
    const Speeds g = einfeldt(l, r, eq.gamma - 1.0, dir);
    const auto s = EinfeldtSignalVelocities<EQ>()(eq, array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k), Direction(dir));
    compare("left signal in every lane", "right signal in every lane", s[0][k], s[1][k], g, l, r, dir);
  });
}
template <int D> void signals_masked(int dir) {
  lanes(vf_int("lane", 0, 7), [dir](auto K) {
    constexpr int k = K();
    EQ eq = gas<D>();
    const auto l = any<D, 0>(0), r = any<D, 0>(1), o = rest<D, 0>();
    const Speeds g = einfeldt(l, r, eq.gamma - 1.0, dir);
    MaskArray mask = MaskArray::Constant(vf_bool("others"));
    mask[k] = true;
    const auto s = EinfeldtSignalVelocities<EQ>()(eq, array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k), mask, Direction(dir));
    compare("left signal in every active lane", "right signal in every active lane", s[0][k], s[1][k], g, l, r, dir);
  });
}
#define SIG(D, name, dir) \
  extern "C" void vf_harness_signals_##name() { signals<D>(dir); } \
  extern "C" void vf_harness_signals_array_##name() { signals_array<D>(dir); } \
  extern "C" void vf_harness_signals_masked_##name() { signals_masked<D>(dir); }
SIG(1, 1d, 0)
SIG(2, 2d_x, 0)
SIG(2, 2d_y, 1)
SIG(3, 3d_z, 2)
extern "C" void vf_harness_signals_3d_x() { signals<3>(0); }
extern "C" void vf_harness_signals_3d_y() { signals<3>(1); }

template <int D> void check_dt(double dt, double dx, const Roe<D, 0>& w) {
  vf_check_eq("time in which the fastest wave crosses one cell", dt, dx / std::max(std::abs(w.sl), std::abs(w.sr)));
}
template <int D, bool L> void dt_scalar(int dir) {
  EQ eq = gas<D>();
  const auto l = any<D, 0>(0), r = any<D, 0>(1);
  const Roe<D, 0> w(l, r, eq.gamma - 1.0, msq(eq), dir);
  perfect_gas::Hllem<EQ, L> m(eq);
  std::array<Complete<EQ>, 2> st{scalar_state<D>(eq, l), scalar_state<D>(eq, r)};
  const double dx = vf_pos("dx");
  check_dt(m.ComputeStableDt(st, dx, Direction(dir)), dx, w);
}
template <int D, bool L> void dt_array(int dir) {
  lanes(vf_int("lane", 0, 7), [dir](auto K) {
    constexpr int k = K();
    EQ eq = gas<D>();
    const auto l = any<D, 0>(0), r = any<D, 0>(1), o = rest<D, 0>();
    const Roe<D, 0> w(l, r, eq.gamma - 1.0, msq(eq), dir);
    perfect_gas::Hllem<EQ, L> m(eq);
    std::array<CompleteArray<EQ>, 2> st{array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k)};
    const double dx = vf_pos("dx");
    const Array1d dt = m.ComputeStableDt(st, dx, Direction(dir));
    check_dt(dt[k], dx, w);
  });
}
template <int D, bool L> void dt_masked(int dir) {
  lanes(vf_int("lane", 0, 7), [dir](auto K) {
    constexpr int k = K(), n = (k + 1) % 8;
    EQ eq = gas<D>();
    const auto l = any<D, 0>(0), r = any<D, 0>(1), o = rest<D, 0>();
    const Roe<D, 0> w(l, r, eq.gamma - 1.0, msq(eq), dir);
    perfect_gas::Hllem<EQ, L> m(eq);
    std::array<CompleteArray<EQ>, 2> st{array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k)};
    Array1d face = Array1d::Constant(1.0);
    face[k] = vf_pos("open");
    face[n] = 0.0;
    std::array<Array1d, 2> vol{Array1d::Constant(1.0), Array1d::Constant(1.0)};
    const double dx = vf_pos("dx");
    const Array1d dt = m.ComputeStableDt(st, face, vol, dx, Direction(dir));
    check_dt(dt[k], dx, w);
    vf_check("closed faces do not restrict the time step", dt[n] >= std::numeric_limits<double>::max());
  });
}
#define DT(D, name, dir) \
  extern "C" void vf_harness_hllem_##name() { dt_scalar<D, false>(dir); } \
  extern "C" void vf_harness_hllem_larrouturou_##name() { dt_scalar<D, true>(dir); } \
  extern "C" void vf_harness_hllem_array_##name() { dt_array<D, true>(dir); }
DT(1, 1d, 0)
DT(2, 2d_x, 0)
DT(2, 2d_y, 1)
DT(3, 3d_x, 0)
DT(3, 3d_y, 1)
DT(3, 3d_z, 2)
extern "C" void vf_harness_hllem_masked_1d() { dt_masked<1, false>(0); }
extern "C" void vf_harness_hllem_masked_2d_x() { dt_masked<2, true>(0); }
extern "C" void vf_harness_hllem_masked_3d_z() { dt_masked<3, false>(2); }
