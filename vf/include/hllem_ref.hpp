// HLLEM of the Euler equations, written down independently: Roe averages, Einfeldt signal speeds, HLLE flux and
// antidiffusion in the contact, shear and scalar waves; Larrouturou's upwinding of the transported quantities.
#ifndef HLLEM_REF_HPP
#define HLLEM_REF_HPP
#include "vf_lanes.hpp"
#include "vf_eigen.hpp"
inline void put(double& x, int, double v) { x = v; }
template <class A> void put(A& x, int d, double v) { x[d] = v; }
inline double get(double x, int) { return x; }
template <class A> double get(const A& x, int d) { return x[d]; }
/// N transported scalars
template <int D, int N> struct St { double rho, m[D], E, s[N + 1], p, a; };
static const char* const MN[2][3] = {{"ml0", "ml1", "ml2"}, {"mr0", "mr1", "mr2"}};
static const char* const SN[2][3] = {{"sl0", "sl1", "sl2"}, {"sr0", "sr1", "sr2"}};
template <int D, int N> St<D, N> any(int s) {
  St<D, N> q;
  q.rho = vf_pos(s ? "rhor" : "rhol");
  for (int d = 0; d < D; ++d) q.m[d] = vf_real(MN[s][d]);
  for (int d = 0; d < N; ++d) q.s[d] = vf_real(SN[s][d]);
  q.E = vf_real(s ? "Er" : "El");
  q.p = vf_pos(s ? "pr" : "pl");
  q.a = vf_pos(s ? "ar" : "al");
  return q;
}
/// a gas at rest
template <int D, int N> St<D, N> rest() {
  St<D, N> o;
  o.rho = 1.0; o.p = 1.0; o.a = 1.0; o.E = 4.0;
  for (int d = 0; d < D; ++d) o.m[d] = 0.0;
  for (int d = 0; d < N; ++d) o.s[d] = 0.0;
  return o;
}
// Roe averages and wave speeds
template <int D, int N> struct Roe {
  double u[D], y[N + 1], H, usq, a2, a, sl, sr, bl, br, db;
  Roe(const St<D, N>& l, const St<D, N>& r, double gm1, double msq, int dir) {
    const double wl = std::sqrt(l.rho), wr = std::sqrt(r.rho), sum = wl + wr, minv = 1.0 / std::sqrt(msq);
    usq = 0;
    for (int d = 0; d < D; ++d) {
      u[d] = (wl * (l.m[d] / l.rho) + wr * (r.m[d] / r.rho)) / sum;
      usq += u[d] * u[d];
    }
    usq *= msq;
    for (int d = 0; d < N; ++d) y[d] = (wl * (l.s[d] / l.rho) + wr * (r.s[d] / r.rho)) / sum;
    H = (wl * ((l.E + l.p) / l.rho) + wr * ((r.E + r.p) / r.rho)) / sum;
    a2 = gm1 * (H - 0.5 * usq);
    vf_assume(a2 > 0);
    a = std::sqrt(a2);
    const double am = std::max(l.a, r.a);
    sl = std::min(l.m[dir] / l.rho - am * minv, u[dir] - a * minv);
    sr = std::max(r.m[dir] / r.rho + am * minv, u[dir] + a * minv);
    bl = std::min(sl, 0.0);
    br = std::max(sr, 0.0);
    db = br - bl;
  }
};
template <int D, int N> struct Fl { double rho, m[D], E, s[N + 1]; };
template <int D, int N> Fl<D, N> physical(const St<D, N>& q, double msq, int dir) {
  Fl<D, N> f;
  const double u = q.m[dir] / q.rho;
  f.rho = q.m[dir];
  for (int d = 0; d < D; ++d) f.m[d] = u * q.m[d] + (d == dir ? q.p / msq : 0.0);
  f.E = u * (q.E + q.p);
  for (int d = 0; d < N; ++d) f.s[d] = u * q.s[d];
  return f;
}
/// x += k sum of strength times right eigenvector over the linearly degenerate waves
template <int D, int N> void waves(Fl<D, N>& f, const Roe<D, N>& w, const St<D, N>& l, const St<D, N>& r, double k, double gm1, double msq, int dir) {
  const double dE = r.E - l.E, dr = r.rho - l.rho;
  double um = 0;
  for (int d = 0; d < D; ++d) um += msq * w.u[d] * (r.m[d] - l.m[d]);
  const double contact = k * ((w.H - w.usq) * dr + um - dE) * gm1 / w.a2;
  f.rho += contact;
  f.E += contact * w.usq / 2;
  for (int d = 0; d < D; ++d) {
    f.m[d] += contact * w.u[d];
    if (d != dir) {
      const double shear = k * (r.m[d] - l.m[d] - w.u[d] * dr);
      f.m[d] += shear;
      f.E += shear * msq * w.u[d];
    }
  }
  for (int d = 0; d < N; ++d) f.s[d] += contact * w.y[d] + k * (r.s[d] - l.s[d] - w.y[d] * dr);
}
template <int D, int N, class F> void components(Fl<D, N>& f, const Fl<D, N>& fl, const Fl<D, N>& fr, const St<D, N>& l, const St<D, N>& r, F op) {
  f.rho = op(fl.rho, fr.rho, l.rho, r.rho);
  f.E = op(fl.E, fr.E, l.E, r.E);
  for (int d = 0; d < D; ++d) f.m[d] = op(fl.m[d], fr.m[d], l.m[d], r.m[d]);
  for (int d = 0; d < N; ++d) f.s[d] = op(fl.s[d], fr.s[d], l.s[d], r.s[d]);
}
template <int D, int N> Fl<D, N> hllem(const St<D, N>& l, const St<D, N>& r, const Roe<D, N>& w, double gm1, double msq, int dir) {
  Fl<D, N> f;
  components(f, physical(l, msq, dir), physical(r, msq, dir), l, r,
             [&](double a, double b, double ql, double qr) { return (w.br * a - w.bl * b + w.bl * w.br * (qr - ql)) / w.db; });
  const double ub = 0.5 * (w.sr + w.sl);
  waves(f, w, l, r, -(w.bl * w.br / w.db * (w.a / (w.a + std::abs(ub)))), gm1, msq, dir);
  return f;
}
/// value on the face of the piecewise linear solution this flux belongs to
template <int D, int N> Fl<D, N> hllem_state(const St<D, N>& l, const St<D, N>& r, const Roe<D, N>& w, double gm1, double msq, int dir) {
  Fl<D, N> q;
  components(q, physical(l, msq, dir), physical(r, msq, dir), l, r,
             [&](double a, double b, double ql, double qr) { return (w.br * qr - w.bl * ql + a - b) / w.db; });
  const double ub = 0.5 * (w.sr + w.sl);
  waves(q, w, l, r, -(ub * (2.0 / w.db) * (w.a / (w.a + std::abs(ub)))), gm1, msq, dir);
  return q;
}
template <int D, int N> double strip(St<D, N>& l, double msq, int dir) {
  double k = 0;
  for (int d = 0; d < D; ++d)
    if (d != dir) {
      k += 0.5 * msq * (l.m[d] / l.rho) * (l.m[d] / l.rho);
      l.m[d] = 0;
    }
  l.E -= l.rho * k;
  return k;
}
/// Larrouturou: transverse velocity, its kinetic energy and the scalars are transported with the mass
template <int D, int N> void transport(Fl<D, N>& f, const St<D, N>& l0, const St<D, N>& r0, double kl, double kr, bool up, int dir) {
  f.E += f.rho * (up ? kl : kr);
  for (int d = 0; d < D; ++d)
    if (d != dir) f.m[d] = f.rho * (up ? l0.m[d] / l0.rho : r0.m[d] / r0.rho);
  for (int d = 0; d < N; ++d) f.s[d] = f.rho * (up ? l0.s[d] / l0.rho : r0.s[d] / r0.rho);
}
template <int D, int N, bool L> Fl<D, N> reference(St<D, N> l, St<D, N> r, double gm1, double msq, int dir) {
  if constexpr (L) {
    const St<D, N> l0 = l, r0 = r;
    const double kl = strip(l, msq, dir), kr = strip(r, msq, dir);
    const Roe<D, N> w(l, r, gm1, msq, dir);
    Fl<D, N> f = hllem(l, r, w, gm1, msq, dir);
    transport(f, l0, r0, kl, kr, f.rho > 0, dir);
    return f;
  } else {
    const Roe<D, N> w(l, r, gm1, msq, dir);
    return hllem(l, r, w, gm1, msq, dir);
  }
}
/// conserved variables of the Riemann solution on the face
template <int D, int N, bool L> Fl<D, N> reference_state(St<D, N> l, St<D, N> r, double gm1, double msq, int dir) {
  const St<D, N> l0 = l, r0 = r;
  double kl = 0, kr = 0;
  if (L) { kl = strip(l, msq, dir); kr = strip(r, msq, dir); }
  const Roe<D, N> w(l, r, gm1, msq, dir);
  Fl<D, N> f;
  if (w.sl > 0) components(f, f, f, l0, r0, [](double, double, double q, double) { return q; });
  else if (w.sr < 0) components(f, f, f, l0, r0, [](double, double, double, double q) { return q; });
  else {
    f = hllem_state(l, r, w, gm1, msq, dir);
    if (L) transport(f, l0, r0, kl, kr, w.sl + w.sr > 0, dir);
  }
  return f;
}
// one path per lane
#endif
