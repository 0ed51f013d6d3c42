// half time step evolution of primitive variables
#ifndef VF_EVOLVE_HPP
#define VF_EVOLVE_HPP
#include "vf_gas.hpp"
#include "fub/Direction.hpp"
#include "fub/Equation.hpp"
// slopes of the primitive variables: rho, u[3], p, Y[3]
struct Slope {
  double rho, u[3], p, y[3];
};
static Slope slope() {
  return Slope{vf_real("rho_x"), {vf_real("u_x"), vf_real("v_x"), vf_real("w_x")}, vf_real("p_x"), {vf_real("y0_x"), vf_real("y1_x"), vf_real("y2_x")}};
}
static const Slope flat{0.0, {0.0, 0.0, 0.0}, 0.0, {0.0, 0.0, 0.0}};
// w + (side) dx/2 w_x + dt/2 w_t, where w_t follows from the Euler equations in primitive form
static Cell evolve(const Cell& z, const Slope& s, double Ma2, double dt, double dx, int ix, int D, Side side) {
  const double eta = (side == Side::Upper ? 0.5 : -0.5) * dx, tau = 0.5 * dt, u = z.u[ix];
  Cell r = z;
  r.rho = z.rho + eta * s.rho - tau * (u * s.rho + z.rho * s.u[ix]);
  r.p = z.p + eta * s.p - tau * (u * s.p + z.rho * z.c * z.c * s.u[ix]);
  for (int d = 0; d < D; ++d) r.u[d] = z.u[d] + eta * s.u[d] - tau * u * s.u[d];
  r.u[ix] = r.u[ix] - tau * s.p / (Ma2 * z.rho);
  for (int k = 0; k < 3; ++k) r.y[k] = z.y[k] + eta * s.y[k] - tau * u * s.y[k];
  return r;
}
#endif
