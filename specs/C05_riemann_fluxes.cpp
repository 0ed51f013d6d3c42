// assumption: the equation has one conserved and one auxiliary scalar; physical flux, signal speeds and Riemann solver are arbitrary functions of the states and the direction
// HLL and Godunov fluxes and the HLL Riemann solver, for an arbitrary equation.
#include "vf_flux.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
using namespace vft;
using E = Eq<2>;
using HLL = Hll<E, Signals<2>>;
static const char* const LN[] = {"ul", "cl", "ur", "cr"};
static const char* const XN[] = {"xul", "xcl", "xur", "xcr"};

static double hll(double fl, double fr, double ul, double ur, double s0, double s1) {
  const double sl = std::min(0.0, s0), sr = std::max(0.0, s1);
  return (sr * fl - sl * fr + sl * sr * (ur - ul)) / (sr - sl);
}
static double sL(const double* q, int d) { return Signals<2>::s("sL", q[0], q[1], q[2], q[3], d); }
static double sR(const double* q, int d) { return Signals<2>::s("sR", q[0], q[1], q[2], q[3], d); }

static void scalar(Direction dir) {
  const int d = int(dir);
  double q[4];
  for (int i = 0; i < 4; ++i) q[i] = vf_real(LN[i]);
  const double s0 = sL(q, d), s1 = sR(q, d);
  vf_assume(std::min(0.0, s0) < std::max(0.0, s1));
  std::array<Complete<E>, 2> st;
  st[0].u = q[0]; st[0].c = q[1]; st[1].u = q[2]; st[1].c = q[3];
  HLL m{E(), Signals<2>()};
  Conservative<E> f;
  m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), dir);
  const double fl = E::f(q[0], q[1], d), fr = E::f(q[2], q[3], d);
  vf_cover("HLL flux computed");
  vf_check_eq("HLL flux", f.u, hll(fl, fr, q[0], q[2], s0, s1));
  if (s0 >= 0) vf_check_eq("all waves to the right: left flux", f.u, fl);
  if (s1 <= 0) vf_check_eq("all waves to the left: right flux", f.u, fr);
  if (q[0] == q[2] && q[1] == q[3]) vf_check_eq("consistency", f.u, fl);
}
extern "C" void vf_harness_hll_scalar_x() { scalar(Direction::X); }
extern "C" void vf_harness_hll_scalar_y() { scalar(Direction::Y); }

static double x[4];
static void fill(std::array<CompleteArray<E>, 2>& st, double* q, int lane) {
  // the checked lane is arbitrary, the others hold arbitrary values as well
  for (int i = 0; i < 4; ++i) q[i] = vf_real(LN[i]);
  for (int i = 0; i < 4; ++i) x[i] = vf_real(XN[i]);
  for (int k = 0; k < kDefaultChunkSize; ++k) {
    const double* p = k == lane ? q : x;
    st[0].u[k] = p[0]; st[0].c[k] = p[1]; st[1].u[k] = p[2]; st[1].c[k] = p[3];
  }
}
template <class F> static void lanes(F f) {
  const long lane = vf_int("lane", 0, kDefaultChunkSize - 1);
  for (int k = 0; k < kDefaultChunkSize; ++k)
    if (lane == k) f(k);
}

extern "C" void vf_harness_hll_array() {
  lanes([](int k) {
    std::array<CompleteArray<E>, 2> st;
    double q[4];
    fill(st, q, k);
    const double s0 = sL(q, 0), s1 = sR(q, 0);
    vf_assume(std::min(0.0, s0) < std::max(0.0, s1));
    HLL m{E(), Signals<2>()};
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction::X);
    vf_check_eq("HLL flux in every lane", f.u[k], hll(E::f(q[0], q[1], 0), E::f(q[2], q[3], 0), q[0], q[2], s0, s1));
  });
}

extern "C" void vf_harness_hll_masked() {
  lanes([](int k) {
    std::array<CompleteArray<E>, 2> st;
    double q[4];
    fill(st, q, k);
    const double s0 = sL(q, 1), s1 = sR(q, 1);
    vf_assume(std::min(0.0, s0) < std::max(0.0, s1));
    // the face of this lane is open, the other faces are all open or all closed
    const double open = vf_pos("open"), other = vf_real("other");
    vf_assume(other >= 0);
    if (other > 0) vf_assume(std::min(0.0, sL(x, 1)) < std::max(0.0, sR(x, 1)));
    Array1d frac = Array1d::Constant(other);
    frac[k] = open;
    std::array<Array1d, 2> vol;
    vol[0] = Array1d::Constant(1.0);
    vol[1] = Array1d::Constant(1.0);
    HLL m{E(), Signals<2>()};
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, frac, st, vol, Duration(vf_real("dt")), vf_pos("dx"), Direction::Y);
    vf_check_eq("HLL flux on every open face", f.u[k], hll(E::f(q[0], q[1], 1), E::f(q[2], q[3], 1), q[0], q[2], s0, s1));
  });
}

static void solve(Direction dir) {
  const int d = int(dir);
  double q[4];
  for (int i = 0; i < 4; ++i) q[i] = vf_real(LN[i]);
  const double s0 = sL(q, d), s1 = sR(q, d);
  vf_assume(s0 <= s1);
  Complete<E> l, r, s;
  l.u = q[0]; l.c = q[1]; r.u = q[2]; r.c = q[3];
  HLL m{E(), Signals<2>()};
  m.SolveRiemannProblem(s, l, r, dir);
  const double fl = E::f(q[0], q[1], d), fr = E::f(q[2], q[3], d);
  if (s0 > 0) {
    vf_check_eq("left state", s.u, q[0]);
    vf_check_eq("left state (auxiliary)", s.c, q[1]);
  } else if (s1 < 0) {
    vf_check_eq("right state", s.u, q[2]);
    vf_check_eq("right state (auxiliary)", s.c, q[3]);
  } else {
    vf_cover("middle state");
    const double ds = s1 - s0;
    if (ds > 0) {
      // integral conservation over the fan
      vf_check_eq("middle state conserves", s.u * ds, s1 * q[2] - s0 * q[0] + fl - fr);
      vf_check_eq("middle state is complete", s.c, E::aux(s.u));
    }
  }
}
extern "C" void vf_harness_hll_solve_x() { solve(Direction::X); }
extern "C" void vf_harness_hll_solve_y() { solve(Direction::Y); }

extern "C" void vf_harness_hll_solve_array() {
  lanes([](int k) {
    std::array<CompleteArray<E>, 2> st;
    double q[4];
    fill(st, q, k);
    const double s0 = sL(q, 0), s1 = sR(q, 0);
    vf_assume(s0 < s1);
    HLL m{E(), Signals<2>()};
    CompleteArray<E> s;
    m.SolveRiemannProblem(s, st[0], st[1], Direction::X);
    const double fl = E::f(q[0], q[1], 0), fr = E::f(q[2], q[3], 0);
    const double mid = (s1 * q[2] - s0 * q[0] + fl - fr) / (s1 - s0);
    vf_check_eq("conserved part of the HLL state in every lane", s.u[k], s0 > 0 ? q[0] : s1 < 0 ? q[2] : mid);
  });
}

static double gf(const double* q, int d) {
  return E::f(Solver<2>::u(q[0], q[1], q[2], q[3], d), Solver<2>::c(q[0], q[1], q[2], q[3], d), d);
}
static void godunov(Direction dir) {
  double q[4];
  for (int i = 0; i < 4; ++i) q[i] = vf_real(LN[i]);
  std::array<Complete<E>, 2> st;
  st[0].u = q[0]; st[0].c = q[1]; st[1].u = q[2]; st[1].c = q[3];
  Godunov<E, Solver<2>> m{E()};
  Conservative<E> f;
  m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), dir);
  vf_check_eq("flux of the Riemann solution", f.u, gf(q, int(dir)));
}
extern "C" void vf_harness_godunov_scalar_x() { godunov(Direction::X); }
extern "C" void vf_harness_godunov_scalar_y() { godunov(Direction::Y); }
extern "C" void vf_harness_godunov_array() {
  lanes([](int k) {
    std::array<CompleteArray<E>, 2> st;
    double q[4];
    fill(st, q, k);
    Godunov<E, Solver<2>> m{E()};
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction::Y);
    vf_check_eq("flux of the Riemann solution in every lane", f.u[k], gf(q, 1));
  });
}
extern "C" void vf_harness_godunov_masked() {
  lanes([](int k) {
    std::array<CompleteArray<E>, 2> st;
    double q[4];
    fill(st, q, k);
    const double mine = vf_real("open"), other = vf_real("other");
    vf_assume(mine >= 0 && other >= 0);
    Array1d frac = Array1d::Constant(other);
    frac[k] = mine;
    std::array<Array1d, 2> vol;
    vol[0] = Array1d::Constant(1.0);
    vol[1] = Array1d::Constant(1.0);
    Godunov<E, Solver<2>> m{E()};
    ConservativeArray<E> f;
    m.ComputeNumericFlux(f, frac, st, vol, Duration(vf_real("dt")), vf_pos("dx"), Direction::X);
    vf_check_eq("flux of the Riemann solution on open faces, zero on closed ones", f.u[k], mine > 0 ? gf(q, 0) : 0.0);
  });
}
