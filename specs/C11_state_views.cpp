// contract: Load, Store, Shrink, AsConst, AsCons, Begin, Advance and the SIMD variants Load, LoadN, Store, StoreN move the components of exactly the addressed cells between views and states
// contract: IndexMapping, CopyFromBuffer and CopyToBuffer number the components of a state consecutively
// assumption: the mixture has three species and one passive scalar (buffers: up to three of each)
#include "vf_patch.hpp"
#include "vf_lanes.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/State.hpp"
#include "fub/StateArray.hpp"
using namespace fub;

namespace {
static const char* const LO[] = {"lo0", "lo1", "lo2"};
static const char* const EX[] = {"n0", "n1", "n2"};
static const char* const IX[] = {"i0", "i1", "i2"};
static const char* const JX[] = {"j0", "j1", "j2"};
static const char* const SV[] = {"", "s1", "s2", "s3"};
static const char* const TV[] = {"", "t1", "t2", "t3"};
static const char* const UV[] = {"", "u1", "u2", "u3"};
static const char* const WV[] = {"", "w1", "w2", "w3"};

template <class E> E equation() {
  E eq;
  if constexpr (!std::is_same_v<E, PerfectGas<E::Rank()>>) {
    eq.n_species = 3;
    eq.n_passive_scalars = 1;
  }
  return eq;
}
template <int R> struct Box0 { long lo[4], n[4]; };
template <int R> Box0<R> box0(long least) {
  Box0<R> b;
  for (int d = 0; d < R; ++d) {
    b.lo[d] = vf_int(LO[d], -VF_BIG, VF_BIG);
    b.n[d] = vf_int(EX[d], d == 0 ? least : 1, VF_BIG);
  }
  return b;
}
template <int R> std::array<std::ptrdiff_t, R> cell(const char* const* names, const Box0<R>& b, long last = 0) {
  std::array<std::ptrdiff_t, R> i;
  for (int d = 0; d < R; ++d) i[d] = vf_int(names[d], b.lo[d], b.lo[d] + b.n[d] - 1 - (d == 0 ? last : 0));
  return i;
}
// the data of all components of a state
template <class State> struct Data {
  using E = typename State::Equation;
  static constexpr int R = E::Rank();
  static constexpr bool mix = !std::is_same_v<E, PerfectGas<R>>;
  static constexpr bool complete = std::is_same_v<State, Complete<E>>;
  static constexpr bool prim = std::is_same_v<State, Primitive<E>>;
  vf::Patch<R> rho, en, p, a;
  vf::Patch<R + 1> mom, Y, s;
  View<State> view;
  explicit Data(const Box0<R>& b) {
    long lo[4] = {0, 0, 0, 0}, n[4] = {0, 0, 0, 0};
    for (int d = 0; d < R; ++d) { lo[d] = b.lo[d]; n[d] = b.n[d]; }
    rho = vf::make_patch<R>("density", SV, lo, n);
    en = vf::like("energy", rho);
    n[R] = R;
    mom = vf::make_patch<R + 1>("momentum", TV, lo, n);
    view.density = rho.view();
    if constexpr (prim) {
      view.velocity = mom.view();
      view.pressure = en.view();
    } else {
      view.momentum = mom.view();
      view.energy = en.view();
    }
    if constexpr (mix) {
      n[R] = 3;
      Y = vf::make_patch<R + 1>("species", UV, lo, n);
      n[R] = 1;
      s = vf::make_patch<R + 1>("passive scalars", WV, lo, n);
      view.species = Y.view();
      view.passive_scalars = s.view();
    }
    if constexpr (complete) {
      p = vf::like("pressure", rho);
      a = vf::like("speed of sound", rho);
      view.pressure = p.view();
      view.speed_of_sound = a.view();
    }
  }
  // f(name, the value at the cell, component of the state)
  template <class S, class F> void each(const std::array<std::ptrdiff_t, R>& i, S& q, F f) const {
    auto at = [&](const vf::Patch<R + 1>& v, long k) {
      std::array<std::ptrdiff_t, R + 1> j;
      for (int d = 0; d < R; ++d) j[d] = i[d];
      j[R] = k;
      return v(j);
    };
    f("density", rho(i), q.density);
    if constexpr (prim) {
      for (int k = 0; k < R; ++k) f("velocity", at(mom, k), row(q.velocity, k));
      f("pressure", en(i), q.pressure);
    } else {
      for (int k = 0; k < R; ++k) f("momentum", at(mom, k), row(q.momentum, k));
      f("energy", en(i), q.energy);
    }
    if constexpr (mix) {
      for (int k = 0; k < 3; ++k) f("species", at(Y, k), row(q.species, k));
      f("passive scalar", at(s, 0), row(q.passive_scalars, 0));
    }
    if constexpr (complete) {
      f("pressure", p(i), q.pressure);
      f("speed of sound", a(i), q.speed_of_sound);
    }
  }
  template <class A> static decltype(auto) row(A& a, int k) {
    if constexpr (std::decay_t<A>::ColsAtCompileTime != 1) return a.row(k);
    else return (a[k]);
  }
};
template <class State> struct ArrayOf;
template <class E> struct ArrayOf<Complete<E>> { using type = CompleteArray<E>; };
template <class E> struct ArrayOf<Primitive<E>> { using type = PrimitiveArray<E>; };
template <class E> struct ArrayOf<Conservative<E>> { using type = ConservativeArray<E>; };

template <class State> void fill(const Data<State>& D, State& q, const char* name) {
  D.each(std::array<std::ptrdiff_t, State::Equation::Rank()>{D.rho.lo}, q, [&](const char*, double, double& x) { x = vf_real(name); });
}

template <class State> void load() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(1);
  Data<State> D(b);
  const auto i = cell<R>(IX, b);
  State q(eq), c(eq);
  Load(q, D.view, i);
  Load(c, AsConst(D.view), i);
  D.each(i, q, [](const char* n, double x, double& y) { vf_check_eq(n, y, x); });
  D.each(i, c, [](const char* n, double x, double& y) { vf_check_eq(n, y, x); });
  // by pointer
  auto pointer = Begin(D.view);
  long off = 0;
  off = i[0] - b.lo[0];
  Advance(pointer, off);
  std::array<std::ptrdiff_t, R> j;
  for (int d = 0; d < R; ++d) j[d] = b.lo[d];
  j[0] = i[0];
  State r(eq);
  Load(r, AsConst(pointer));
  D.each(j, r, [](const char* n, double x, double& y) { vf_check_eq(n, y, x); });
  vf_cover("loaded");
}
template <class State> void store() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(1);
  Data<State> D(b);
  const auto i = cell<R>(IX, b), j = cell<R>(JX, b);
  State q(eq), old(eq);
  fill(D, q, "q");
  bool same = true;
  for (int d = 0; d < R; ++d) same = same & (i[d] == j[d]);
  D.each(j, old, [](const char*, double x, double& y) { y = x; });
  Store(D.view, q, i);
  State expected(eq);
  double from[16]; int n = 0, m = 0;
  D.each(j, q, [&](const char*, double, double& y) { from[n++] = y; });
  D.each(j, old, [&](const char* name, double x, double& y) { vf_check_eq(name, x, same ? from[m] : y); ++m; });
  vf_cover("stored");
}
template <class State> void shrink() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(1);
  Data<State> D(b);
  const int dir = (int)vf_int("dir", 0, R - 1);
  const std::array<std::ptrdiff_t, 2> w{vf_int("w0", 0, VF_BIG), vf_int("w1", 0, VF_BIG)};
  vf_assume(w[0] + w[1] < b.n[dir]);
  const auto v = Shrink(D.view, Direction(dir), w);
  const IndexBox<R> sb = Box<0>(v);
  bool in = true;
  const auto i = cell<R>(IX, b);
  for (int d = 0; d < R; ++d) {
    const long on = d == dir;
    vf_check_ieq("lower", sb.lower[d], b.lo[d] + on * w[0]);
    vf_check_ieq("upper", sb.upper[d], b.lo[d] + b.n[d] - on * w[1]);
    in = in & (sb.lower[d] <= i[d]) & (i[d] < sb.upper[d]);
  }
  // all components of the view have this extent
  ForEachVariable(
      [&](const auto& x) {
        const auto xb = x.Box();
        constexpr int xr = static_cast<int>(std::tuple_size<decltype(xb.lower)>::value);
        for (int d = 0; d < R; ++d) {
          vf_check_ieq("lower", xb.lower[d], b.lo[d] + (d == dir) * w[0]);
          vf_check_ieq("upper", xb.upper[d], b.lo[d] + b.n[d] - (d == dir) * w[1]);
        }
        if constexpr (xr > R) vf_check_ieq("first component", xb.lower[R], 0);
      },
      v);
  auto components = [&](const auto& x) { return static_cast<long>(x.Box().upper[R]); };
  if constexpr (Data<State>::prim) vf_check_ieq("velocities", components(v.velocity), R);
  else vf_check_ieq("momenta", components(v.momentum), R);
  if constexpr (Data<State>::mix) {
    vf_check_ieq("species", components(v.species), 3);
    vf_check_ieq("passive scalars", components(v.passive_scalars), 1);
  }
  if (in) {
    State q(eq);
    Load(q, v, i);
    D.each(i, q, [](const char* n, double x, double& y) { vf_check_eq(n, y, x); });
    vf_cover("inside");
  }
}
// SIMD
template <class State> void load_array() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(8);
  Data<State> D(b);
  const auto i = cell<R>(IX, b, 7);
  typename ArrayOf<State>::type q(eq), r(eq);
  Load(q, AsConst(D.view), i);
  auto pointer = Begin(D.view);
  Advance(pointer, i[0] - b.lo[0]);
  Load(r, AsConst(pointer));
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = decltype(K)::value;
    auto j = i;
    j[0] += k;
    D.each(j, q, [](const char* n, double x, auto&& y) { vf_check_eq(n, y[k], x); });
    for (int d = 1; d < R; ++d) j[d] = b.lo[d];
    D.each(j, r, [](const char* n, double x, auto&& y) { vf_check_eq(n, y[k], x); });
    if constexpr (!Data<State>::prim) {
      State s(eq);
      Load(s, q, k);
      for (int d = 1; d < R; ++d) j[d] = i[d];
      D.each(j, s, [&](const char* n, double x, double& y) { vf_check_eq(n, y, x); });
    }
    vf_cover("lane");
  });
}
template <class State> void store_array() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(8);
  Data<State> D(b);
  const auto i = cell<R>(IX, b, 7), j = cell<R>(JX, b);
  State old(eq);
  typename ArrayOf<State>::type q(eq);
  lanes(vf_int("lane", 0, 7), [&](auto K) {
    constexpr int k = decltype(K)::value;
    D.each(i, q, [](const char*, double, auto&& y) { for (int l = 0; l < 8; ++l) y[l] = vf_real("q"); });
    D.each(j, old, [](const char*, double x, double& y) { y = x; });
    bool same = i[0] + k == j[0], row = true;
    for (int d = 1; d < R; ++d) row = row & (i[d] == j[d]);
    const bool other = !row | (j[0] < i[0]) | (j[0] > i[0] + 7);
    Store(D.view, q, i);
    double from[16]; int n = 0, m = 0;
    D.each(j, q, [&](const char*, double, auto&& y) { from[n++] = y[k]; });
    D.each(j, old, [&](const char* name, double x, double& y) {
      if (same & row) vf_check_eq(name, x, from[m]);
      if (other) vf_check_eq(name, x, y);
      ++m;
    });
    if (same & row) vf_cover("stored");
    if (other) vf_cover("other");
  });
}
template <class State> void storen() {
  using E = typename State::Equation;
  constexpr int R = E::Rank();
  E eq = equation<E>();
  const Box0<R> b = box0<R>(8);
  Data<State> D(b);
  const auto j = cell<R>(JX, b);
  std::array<std::ptrdiff_t, R> i;
  for (int d = 0; d < R; ++d) i[d] = b.lo[d];
  i[0] = vf_int("i0", b.lo[0], b.lo[0] + b.n[0] - 8);
  State old(eq);
  typename ArrayOf<State>::type q(eq), r(eq);
  lanes(vf_int("size", 0, 7), [&](auto K) {
    constexpr int k = decltype(K)::value, n = k + 1;
    D.each(i, q, [](const char*, double, auto&& y) { for (int l = 0; l < 8; ++l) y[l] = vf_real("q"); });
    D.each(i, r, [](const char*, double, auto&& y) { for (int l = 0; l < 8; ++l) y[l] = 1.0; });
    D.each(j, old, [](const char*, double x, double& y) { y = x; });
    bool row = true;
    for (int d = 1; d < R; ++d) row = row & (i[d] == j[d]);
    const bool last = row & (j[0] == i[0] + k);
    const bool other = !row | (j[0] < i[0]) | (j[0] > i[0] + k);
    auto pointer = Begin(D.view);
    Advance(pointer, i[0] - b.lo[0]);
    StoreN(pointer, q, n);
    double from[16]; int c = 0, m = 0;
    D.each(j, q, [&](const char*, double, auto&& y) { from[c++] = y[k]; });
    D.each(j, old, [&](const char* name, double x, double& y) {
      if (last) vf_check_eq(name, x, from[m]);
      if (other) vf_check_eq(name, x, y);
      ++m;
    });
    LoadN(r, AsConst(pointer), n);
    m = 0;
    D.each(i, r, [&](const char* name, double, auto&& y) {
      vf_check_eq(name, y[k], from[m++]);
      if constexpr (k < 7) vf_check_eq(name, y[7], 1.0);
    });
    if (last) vf_cover("stored");
    if (other) vf_cover("other");
  });
}
template <class E, int NS = 0, int NP = 0> void buffers() {
  constexpr int R = E::Rank();
  E eq = equation<E>();
  constexpr bool mix = !std::is_same_v<E, PerfectGas<R>>;
  if constexpr (mix) {
    eq.n_species = NS;
    eq.n_passive_scalars = NP;
  }
  constexpr int nc = R + 2 + NS + NP, n = nc + 2;
  double in[n], out[n];
  for (int k = 0; k < n; ++k) in[k] = vf_real("in"), out[k] = 0.0;
  Complete<E> q(eq);
  Conservative<E> c(eq);
  CopyFromBuffer(q, span<const double>(in, n));
  CopyFromBuffer(c, span<const double>(in, nc));
  CopyToBuffer(span<double>(out, nc), c);
  for (int k = 0; k < nc; ++k) vf_check_eq("to buffer", out[k], in[k]);
  IndexMapping<E> m(eq);
  auto check = [&](const char* name, auto& q) {
    vf_check_eq(name, q.density, in[m.density]);
    for (int d = 0; d < R; ++d) vf_check_eq(name, q.momentum[d], in[m.momentum[d]]);
    vf_check_eq(name, q.energy, in[m.energy]);
    if constexpr (mix) {
      vf_check_ieq("number of species", m.species.size(), NS);
      vf_check_ieq("number of passive scalars", m.passive_scalars.size(), NP);
      for (int k = 0; k < NS; ++k) vf_check_eq(name, q.species[k], in[m.species[k]]);
      for (int k = 0; k < NP; ++k) vf_check_eq(name, q.passive_scalars[k], in[m.passive_scalars[k]]);
    }
  };
  check("complete", q);
  check("conservative", c);
  vf_check_eq("pressure", q.pressure, in[m.pressure]);
  vf_check_eq("speed of sound", q.speed_of_sound, in[m.speed_of_sound]);
  vf_check_ieq("last component", m.speed_of_sound, n - 1);
  const auto& base = AsCons(q);
  vf_check_eq("conservative part", base.energy, q.energy);
  // arithmetic of whole states
  Complete<E> q2 = q;
  q2 += q;
  check("unchanged", q);
  vf_check_eq("sum", q2.energy, 2.0 * q.energy);
  for (int d = 0; d < R; ++d) vf_check_eq("sum", q2.momentum[d], 2.0 * q.momentum[d]);
  vf_check_eq("sum", q2.pressure, 2.0 * q.pressure);
  if constexpr (NS > 0) vf_check_eq("sum", q2.species[NS - 1], 2.0 * q.species[NS - 1]);
  if constexpr (NP > 0) vf_check_eq("sum", q2.passive_scalars[NP - 1], 2.0 * q.passive_scalars[NP - 1]);
  vf_cover("buffers");
}
} // namespace
#define ALL(name, ...) \
  extern "C" void vf_harness_load_##name() { load<__VA_ARGS__>(); } \
  extern "C" void vf_harness_store_##name() { store<__VA_ARGS__>(); } \
  extern "C" void vf_harness_shrink_##name() { shrink<__VA_ARGS__>(); } \
  extern "C" void vf_harness_load_array_##name() { load_array<__VA_ARGS__>(); } \
  extern "C" void vf_harness_store_array_##name() { store_array<__VA_ARGS__>(); } \
  extern "C" void vf_harness_storen_##name() { storen<__VA_ARGS__>(); }
#ifndef VF_SECOND_PART
ALL(complete_1d, Complete<PerfectGas<1>>)
ALL(complete_2d, Complete<PerfectGas<2>>)
ALL(primitive_2d, Primitive<PerfectGas<2>>)
extern "C" void vf_harness_buffers_2d() { buffers<PerfectGas<2>>(); }
extern "C" void vf_harness_buffers_mix_1d() { buffers<PerfectGasMix<1>, 2, 1>(); }
extern "C" void vf_harness_buffers_mix_none() { buffers<PerfectGasMix<2>, 0, 0>(); }
extern "C" void vf_harness_buffers_mix_species() { buffers<PerfectGasMix<1>, 3, 0>(); }
extern "C" void vf_harness_buffers_mix_scalars() { buffers<PerfectGasMix<2>, 0, 2>(); }
extern "C" void vf_harness_buffers_mix_3d() { buffers<PerfectGasMix<3>, 1, 3>(); }
#endif
