// harnesses of the HLLEM method for an equation EQ with NSCAL transported scalars
template <int D> Complete<EQ> scalar_state(const EQ& eq, const St<D, NSCAL>& s) {
  Complete<EQ> q(eq);
  q.density = s.rho;
  for (int d = 0; d < D; ++d) put(q.momentum, d, s.m[d]);
  q.energy = s.E; q.pressure = s.p; q.speed_of_sound = s.a;
  set_scalars(q, s);
  return q;
}
template <int D> CompleteArray<EQ> array_state(const EQ& eq, const St<D, NSCAL>& s, const St<D, NSCAL>& other, int lane) {
  CompleteArray<EQ> q(eq);
  for (int k = 0; k < kDefaultChunkSize; ++k) {
    const St<D, NSCAL>& t = k == lane ? s : other;
    q.density[k] = t.rho;
    for (int d = 0; d < D; ++d) q.momentum(d, k) = t.m[d];
    q.energy[k] = t.E; q.pressure[k] = t.p; q.speed_of_sound[k] = t.a;
    set_scalars(q, t, k);
  }
  return q;
}
template <int D> Conservative<EQ> garbage(const EQ& eq) {
  Conservative<EQ> f(eq);
  f.density = vf_real("stale");
  for (int d = 0; d < D; ++d) put(f.momentum, d, vf_real("stale"));
  f.energy = vf_real("stale");
  garbage_scalars(f);
  return f;
}
template <int D, bool L> void scalar(int dir) {
  EQ eq = gas<D>();
  const auto l = any<D, NSCAL>(0), r = any<D, NSCAL>(1);
  const auto g = reference<D, NSCAL, L>(l, r, eq.gamma - 1.0, msq(eq), dir);
  perfect_gas::Hllem<EQ, L> m(eq);
  std::array<Complete<EQ>, 2> st{scalar_state<D>(eq, l), scalar_state<D>(eq, r)};
  Conservative<EQ> f = garbage<D>(eq);
  m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction(dir));
  vf_cover("HLLEM flux computed");
  vf_check_eq("mass flux", f.density, g.rho);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum flux", get(f.momentum, d), g.m[d]);
  vf_check_eq("energy flux", f.energy, g.E);
  check_scalars(f, g);
}
template <int D, bool L> void array(int dir) {
  lanes(vf_int("lane", 0, kDefaultChunkSize - 1), [dir](auto K) {
    constexpr int k = K();
    EQ eq = gas<D>();
    const auto l = any<D, NSCAL>(0), r = any<D, NSCAL>(1);
    const auto g = reference<D, NSCAL, L>(l, r, eq.gamma - 1.0, msq(eq), dir);
    const auto o = rest<D, NSCAL>();
    perfect_gas::Hllem<EQ, L> m(eq);
    std::array<CompleteArray<EQ>, 2> st{array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k)};
    ConservativeArray<EQ> f(eq);
    m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction(dir));
    vf_cover("HLLEM flux computed");
    vf_check_eq("mass flux in every lane", f.density[k], g.rho);
    for (int d = 0; d < D; ++d) vf_check_eq("momentum flux in every lane", f.momentum(d, k), g.m[d]);
    vf_check_eq("energy flux in every lane", f.energy[k], g.E);
    check_scalars(f, g, k);
  });
}
// faces: the checked one open or closed, its neighbour closed and possibly without gas, the others open
template <int D, bool L> void masked(int dir) {
  lanes(vf_int("lane", 0, kDefaultChunkSize - 1), [dir](auto K) {
    constexpr int k = K(), n = (k + 1) % kDefaultChunkSize;
    EQ eq = gas<D>();
    const auto l = any<D, NSCAL>(0), r = any<D, NSCAL>(1);
    const auto g = reference<D, NSCAL, L>(l, r, eq.gamma - 1.0, msq(eq), dir);
    const auto o = rest<D, NSCAL>();
    perfect_gas::Hllem<EQ, L> m(eq);
    std::array<CompleteArray<EQ>, 2> st{array_state<D>(eq, l, o, k), array_state<D>(eq, r, o, k)};
    Array1d face = Array1d::Constant(1.0);
    face[k] = vf_real_in("open", 0.0, 1.0);
    face[n] = 0.0;
    std::array<Array1d, 2> vol{Array1d::Constant(1.0), Array1d::Constant(1.0)};
    ConservativeArray<EQ> f(eq);
    m.ComputeNumericFlux(f, face, st, vol, Duration(vf_real("dt")), vf_pos("dx"), Direction(dir));
    const bool open = face[k] > 0.0;
    vf_check_eq("mass flux on open faces, zero on closed ones", f.density[k], open ? g.rho : 0.0);
    for (int d = 0; d < D; ++d) vf_check_eq("momentum flux on open faces, zero on closed ones", f.momentum(d, k), open ? g.m[d] : 0.0);
    vf_check_eq("energy flux on open faces, zero on closed ones", f.energy[k], open ? g.E : 0.0);
    vf_check_eq("no mass flux on closed faces", f.density[n], 0.0);
    vf_check_eq("no energy flux on closed faces", f.energy[n], 0.0);
  });
}
// equal states on both sides: the physical flux
template <int D, bool L> void consistent(int dir) {
  EQ eq = gas<D>();
  const auto l = any<D, NSCAL>(0);
  const Roe<D, NSCAL> w(l, l, eq.gamma - 1.0, msq(eq), dir);
  perfect_gas::Hllem<EQ, L> m(eq);
  std::array<Complete<EQ>, 2> st{scalar_state<D>(eq, l), scalar_state<D>(eq, l)};
  Conservative<EQ> f = garbage<D>(eq);
  m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction(dir));
  const auto g = physical(l, msq(eq), dir);
  vf_check_eq("consistent mass flux", f.density, g.rho);
  for (int d = 0; d < D; ++d) vf_check_eq("consistent momentum flux", get(f.momentum, d), g.m[d]);
  vf_check_eq("consistent energy flux", f.energy, g.E);
}
// a stationary contact discontinuity is resolved exactly: only the pressure acts on the face
template <int D, bool L> void contact(int dir) {
  EQ eq = gas<D>();
  const double gm1 = eq.gamma - 1.0, M2 = msq(eq);
  auto l = any<D, NSCAL>(0), r = any<D, NSCAL>(1);
  l.m[dir] = r.m[dir] = 0.0;
  r.p = l.p;
  auto close = [&](St<D, NSCAL>& q) {
    double k = 0;
    for (int d = 0; d < D; ++d) {
      if (D > 1 && d != dir) q.m[d] = q.rho * vf_real("v");
      k += 0.5 * M2 * q.m[d] * q.m[d] / q.rho;
    }
    q.E = q.p / gm1 + k;
  };
  close(l);
  close(r);
  perfect_gas::Hllem<EQ, L> m(eq);
  std::array<Complete<EQ>, 2> st{scalar_state<D>(eq, l), scalar_state<D>(eq, r)};
  Conservative<EQ> f = garbage<D>(eq);
  m.ComputeNumericFlux(f, st, Duration(vf_real("dt")), vf_pos("dx"), Direction(dir));
  vf_check_eq("no mass crosses a stationary contact", f.density, 0.0);
  for (int d = 0; d < D; ++d) vf_check_eq("pressure on a stationary contact", get(f.momentum, d), d == dir ? l.p / M2 : 0.0);
  vf_check_eq("no energy crosses a stationary contact", f.energy, 0.0);
}
template <int D, bool L> void solution(int dir) {
  EQ eq = gas<D>();
  const auto l = any<D, NSCAL>(0), r = any<D, NSCAL>(1);
  const auto g = reference_state<D, NSCAL, L>(l, r, eq.gamma - 1.0, msq(eq), dir);
  // the Riemann solution is a gas with positive density and internal energy
  double k = 0;
  for (int d = 0; d < D; ++d) k += g.m[d] * g.m[d];
  vf_assume(g.rho > 0);
  vf_assume(g.E > 0.5 * msq(eq) * k / g.rho);
  perfect_gas::Hllem<EQ, L> m(eq);
  const Complete<EQ> ql = scalar_state<D>(eq, l), qr = scalar_state<D>(eq, r);
  Complete<EQ> q(eq);
  m.SolveRiemannProblem(q, ql, qr, Direction(dir));
  vf_cover("Riemann solution computed");
  vf_check_eq("density of the Riemann solution", q.density, g.rho);
  for (int d = 0; d < D; ++d) vf_check_eq("momentum of the Riemann solution", get(q.momentum, d), g.m[d]);
  vf_check_eq("energy of the Riemann solution", q.energy, g.E);
  check_scalars(q, g);
}
