// assumption: HLL and Godunov time steps: signal speeds are arbitrary functions of the states and the direction, at least one of them nonzero
// Time step bounds of the HLL and Godunov methods, for an arbitrary equation.
#include "vf_flux.hpp"
#include "vf_lanes.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
using namespace vft;
using E = Eq<3>;
using HLL = Hll<E, Signals<3>>;
using GOD = Godunov<E, Solver<3>>;
static const char* const LN[] = {"ul", "cl", "ur", "cr"};
static const char* const XN[] = {"xul", "xcl", "xur", "xcr"};
struct Face {
  double q[4], s0, s1;
  Face(const char* const* n, int d) {
    for (int i = 0; i < 4; ++i) q[i] = vf_real(n[i]);
    s0 = Signals<3>::s("sL", q[0], q[1], q[2], q[3], d);
    s1 = Signals<3>::s("sR", q[0], q[1], q[2], q[3], d);
  }
  double speed() const { return std::max(std::abs(s0), std::abs(s1)); }
};
static void check(double dt, double dx, const Face& f) {
  vf_check_eq("time in which the fastest wave crosses one cell", dt, dx / f.speed());
  vf_check_lt("positive time step", 0.0, dt);
}
template <class M> static void scalar(M m, Direction dir) {
  const Face f(LN, int(dir));
  vf_assume(f.speed() > 0);
  std::array<Complete<E>, 2> st;
  st[0].u = f.q[0]; st[0].c = f.q[1]; st[1].u = f.q[2]; st[1].c = f.q[3];
  const double dx = vf_pos("dx");
  check(m.ComputeStableDt(st, dx, dir), dx, f);
}
static void fill(std::array<CompleteArray<E>, 2>& st, const Face& f, const Face& o, int lane) {
  for (int k = 0; k < kDefaultChunkSize; ++k) {
    const double* p = k == lane ? f.q : o.q;
    st[0].u[k] = p[0]; st[0].c[k] = p[1]; st[1].u[k] = p[2]; st[1].c[k] = p[3];
  }
}
template <class M> static void array(M m, Direction dir) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    const Face f(LN, int(dir)), o(XN, int(dir));
    vf_assume(f.speed() > 0 && o.speed() > 0);
    std::array<CompleteArray<E>, 2> st;
    fill(st, f, o, k);
    const double dx = vf_pos("dx");
    const Array1d dt = m.ComputeStableDt(st, dx, dir);
    check(dt[k], dx, f);
  });
}
template <class M> static void masked(M m, Direction dir, double none) {
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = K();
    const Face f(LN, int(dir)), o(XN, int(dir));
    std::array<CompleteArray<E>, 2> st;
    fill(st, f, o, k);
    const double mine = vf_real("open"), other = vf_real("other");
    vf_assume(mine >= 0 && other >= 0);
    if (mine > 0) vf_assume(f.speed() > 0);
    if (other > 0) vf_assume(o.speed() > 0);
    Array1d frac = Array1d::Constant(other);
    frac[k] = mine;
    std::array<Array1d, 2> vol{Array1d::Constant(1.0), Array1d::Constant(1.0)};
    const double dx = vf_pos("dx");
    const Array1d dt = m.ComputeStableDt(st, frac, vol, dx, dir);
    if (mine > 0) check(dt[k], dx, f);
    else vf_check("closed faces do not restrict the time step", dt[k] >= none);
  });
}
extern "C" void vf_harness_hll_scalar_x() { scalar(HLL{E(), Signals<3>()}, Direction::X); }
extern "C" void vf_harness_hll_scalar_z() { scalar(HLL{E(), Signals<3>()}, Direction::Z); }
extern "C" void vf_harness_hll_array_y() { array(HLL{E(), Signals<3>()}, Direction::Y); }
extern "C" void vf_harness_hll_masked_x() { masked(HLL{E(), Signals<3>()}, Direction::X, std::numeric_limits<double>::max()); }
extern "C" void vf_harness_godunov_scalar_x() { scalar(GOD{E()}, Direction::X); }
extern "C" void vf_harness_godunov_scalar_y() { scalar(GOD{E()}, Direction::Y); }
extern "C" void vf_harness_godunov_array_z() { array(GOD{E()}, Direction::Z); }
extern "C" void vf_harness_godunov_masked_x() { masked(GOD{E()}, Direction::X, std::numeric_limits<double>::infinity()); }
