// an arbitrary equation with one conserved quantity, one auxiliary quantity, and an arbitrary numerical flux
#ifndef VF_FLUX_HPP
#define VF_FLUX_HPP
#include "vf_patch.hpp"
#include "fub/flux_method/FluxMethod.hpp"
namespace vft {
using namespace fub;
template <class U> struct TCons { U u; };
template <class U, class C> struct TComp : TCons<U> { C c; };
} // namespace vft
namespace fub {
template <class U> struct StateTraits<vft::TCons<U>> {
  static constexpr auto names = std::make_tuple("U");
  static constexpr auto pointers_to_member = std::make_tuple(&vft::TCons<U>::u);
  template <int R> using Depths = vft::TCons<ScalarDepth>;
};
template <class U, class C> struct StateTraits<vft::TComp<U, C>> {
  static constexpr auto names = std::make_tuple("U", "C");
  static constexpr auto pointers_to_member = std::make_tuple(&vft::TComp<U, C>::u, &vft::TComp<U, C>::c);
  template <int R> using Depths = vft::TComp<ScalarDepth, ScalarDepth>;
};
} // namespace fub
namespace vft {
static const char* const GN[] = {"fx", "fy", "fz"};
template <int R> struct Eq {
  using ConservativeDepths = TCons<ScalarDepth>;
  using CompleteDepths = TComp<ScalarDepth, ScalarDepth>;
  using Conservative = fub::Conservative<Eq>;
  using Complete = fub::Complete<Eq>;
  using ConservativeArray = fub::ConservativeArray<Eq>;
  using CompleteArray = fub::CompleteArray<Eq>;
  static constexpr int Rank() { return R; }
  /// physical flux, auxiliary variable and signal speeds are arbitrary functions
  static double f(double u, double c, int dir) { return vf_uf2(GN[dir], u, c); }
  static double aux(double u) { return vf_uf1("aux", u); }
  void Flux(Conservative& g, const Complete& q, Direction dir) const { g.u = f(q.u, q.c, int(dir)); }
  void Flux(ConservativeArray& g, const CompleteArray& q, Direction dir) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) g.u[k] = f(q.u[k], q.c[k], int(dir));
  }
  void Flux(ConservativeArray& g, const CompleteArray& q, MaskArray mask, Direction dir) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) g.u[k] = mask[k] ? f(q.u[k], q.c[k], int(dir)) : vf_uf1("masked flux", q.u[k]);
  }
  void CompleteFromCons(Complete& q, const fub::ConservativeBase<Eq>& v) const {
    const double u = v.u;
    q.u = u;
    q.c = aux(u);
  }
  void CompleteFromCons(CompleteArray& q, const fub::ConservativeArrayBase<Eq>& v) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      const double u = v.u[k];
      q.u[k] = u;
      q.c[k] = aux(u);
    }
  }
  void CompleteFromCons(CompleteArray& q, const fub::ConservativeArrayBase<Eq>& v, MaskArray mask) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      const double u = v.u[k];
      q.u[k] = u;
      q.c[k] = mask[k] ? aux(u) : vf_uf1("masked aux", u);
    }
  }
};
template <int R> struct Signals {
  static double s(const char* n, double ul, double cl, double ur, double cr, int dir) {
    return vf_uf2(n, vf_uf4("states", ul, cl, ur, cr), double(dir));
  }
  std::array<double, 2> operator()(const Eq<R>&, const Complete<Eq<R>>& l, const Complete<Eq<R>>& r, Direction dir) const {
    return {s("sL", l.u, l.c, r.u, r.c, int(dir)), s("sR", l.u, l.c, r.u, r.c, int(dir))};
  }
  std::array<Array1d, 2> operator()(const Eq<R>&, const CompleteArray<Eq<R>>& l, const CompleteArray<Eq<R>>& r, Direction dir) const {
    std::array<Array1d, 2> a;
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      a[0][k] = s("sL", l.u[k], l.c[k], r.u[k], r.c[k], int(dir));
      a[1][k] = s("sR", l.u[k], l.c[k], r.u[k], r.c[k], int(dir));
    }
    return a;
  }
  std::array<Array1d, 2> operator()(const Eq<R>& eq, const CompleteArray<Eq<R>>& l, const CompleteArray<Eq<R>>& r, MaskArray mask, Direction dir) const {
    std::array<Array1d, 2> a = (*this)(eq, l, r, dir);
    for (int k = 0; k < kDefaultChunkSize; ++k)
      if (!mask[k]) { a[0][k] = vf_uf1("masked sL", a[0][k]); a[1][k] = vf_uf1("masked sR", a[1][k]); }
    return a;
  }
};
/// an arbitrary Riemann solver
template <int R> struct Solver {
  Solver() = default;
  Solver(const Eq<R>&) {}
  static double u(double ul, double cl, double ur, double cr, int dir) { return vf_uf2("riemann u", vf_uf4("states", ul, cl, ur, cr), double(dir)); }
  static double c(double ul, double cl, double ur, double cr, int dir) { return vf_uf2("riemann c", vf_uf4("states", ul, cl, ur, cr), double(dir)); }
  void SolveRiemannProblem(Complete<Eq<R>>& q, const Complete<Eq<R>>& l, const Complete<Eq<R>>& r, Direction dir) const {
    const double a = u(l.u, l.c, r.u, r.c, int(dir)), b = c(l.u, l.c, r.u, r.c, int(dir));
    q.u = a;
    q.c = b;
  }
  void SolveRiemannProblem(CompleteArray<Eq<R>>& q, const CompleteArray<Eq<R>>& l, const CompleteArray<Eq<R>>& r, Direction dir) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      const double a = u(l.u[k], l.c[k], r.u[k], r.c[k], int(dir)), b = c(l.u[k], l.c[k], r.u[k], r.c[k], int(dir));
      q.u[k] = a;
      q.c[k] = b;
    }
  }
  void SolveRiemannProblem(CompleteArray<Eq<R>>& q, const CompleteArray<Eq<R>>& l, const CompleteArray<Eq<R>>& r, MaskArray mask, Direction dir) const {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      const double a = u(l.u[k], l.c[k], r.u[k], r.c[k], int(dir)), b = c(l.u[k], l.c[k], r.u[k], r.c[k], int(dir));
      q.u[k] = mask[k] ? a : vf_uf1("masked riemann u", l.u[k]);
      q.c[k] = mask[k] ? b : vf_uf1("masked riemann c", l.u[k]);
    }
  }
  std::array<double, 2> ComputeSignals(const Complete<Eq<R>>& l, const Complete<Eq<R>>& r, Direction dir) const { return Signals<R>()(Eq<R>(), l, r, dir); }
  std::array<Array1d, 2> ComputeSignals(const CompleteArray<Eq<R>>& l, const CompleteArray<Eq<R>>& r, Direction dir) const { return Signals<R>()(Eq<R>(), l, r, dir); }
};
/// arbitrary functions of the stencil
inline double uf(const char* n, const double* a, const double* b, std::integral_constant<int, 1>) {
  return vf_uf4(n, a[0], b[0], a[1], b[1]);
}
inline double uf(const char* n, const double* a, const double* b, std::integral_constant<int, 2>) {
  return vf_uf2(n, vf_uf4("outer", a[0], b[0], a[3], b[3]), vf_uf4("inner", a[1], b[1], a[2], b[2]));
}
inline double uf(const char* n, const double* a, const double* b, std::integral_constant<int, 3>) {
  return vf_uf3(n, vf_uf4("outermost", a[0], b[0], a[5], b[5]), vf_uf4("outer", a[1], b[1], a[4], b[4]), vf_uf4("inner", a[2], b[2], a[3], b[3]));
}
static const char* const FN[] = {"Fx", "Fy", "Fz"};
static const char* const TN[] = {"Tx", "Ty", "Tz"};
/// numerical flux F(stencil, dt / dx) and time step bound T(stencil) dx
template <int R, int W> struct Method {
  using Equation = Eq<R>;
  Equation eq_{};
  double dt_min = 0.0;
  Method() = default;
  Method(double m) : dt_min(m) {}
  static constexpr int GetStencilWidth() noexcept { return W; }
  const Equation& GetEquation() const noexcept { return eq_; }
  Equation& GetEquation() noexcept { return eq_; }
  static double F(const double* u, const double* c, double lambda, int dir) {
    return vf_uf2("F", uf(FN[dir], u, c, std::integral_constant<int, W>()), lambda);
  }
  double T(const double* u, const double* c, double dx, int dir) const {
    return dt_min + std::abs(vf_uf2("T", uf(TN[dir], u, c, std::integral_constant<int, W>()), dx));
  }
  void ComputeNumericFlux(Conservative<Equation>& f, span<const Complete<Equation>, 2 * W> s, Duration dt, double dx, Direction dir) {
    double u[2 * W], c[2 * W];
    for (int i = 0; i < 2 * W; ++i) { u[i] = s[i].u; c[i] = s[i].c; }
    f.u = F(u, c, dt.count() / dx, int(dir));
  }
  void ComputeNumericFlux(ConservativeArray<Equation>& f, span<const CompleteArray<Equation>, 2 * W> s, Duration dt, double dx, Direction dir) {
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      double u[2 * W], c[2 * W];
      for (int i = 0; i < 2 * W; ++i) { u[i] = s[i].u[k]; c[i] = s[i].c[k]; }
      f.u[k] = F(u, c, dt.count() / dx, int(dir));
    }
  }
  double ComputeStableDt(span<const Complete<Equation>, 2 * W> s, double dx, Direction dir) {
    double u[2 * W], c[2 * W];
    for (int i = 0; i < 2 * W; ++i) { u[i] = s[i].u; c[i] = s[i].c; }
    return T(u, c, dx, int(dir));
  }
  Array1d ComputeStableDt(span<const CompleteArray<Equation>, 2 * W> s, double dx, Direction dir) {
    Array1d r;
    for (int k = 0; k < kDefaultChunkSize; ++k) {
      double u[2 * W], c[2 * W];
      for (int i = 0; i < 2 * W; ++i) { u[i] = s[i].u[k]; c[i] = s[i].c[k]; }
      r[k] = T(u, c, dx, int(dir));
    }
    return r;
  }
};
} // namespace vft
#endif
