// wave curves of the shallow water equations through a state (h, u)
#include <cmath>
inline double left_curve(double g, double hL, double uL, double h) {
  return h < hL ? uL + 2 * (std::sqrt(g * hL) - std::sqrt(g * h))
                : uL - (h - hL) * std::sqrt(0.5 * g * (1.0 / h + 1.0 / hL));
}
inline double right_curve(double g, double hR, double uR, double h) {
  return h < hR ? uR - 2 * (std::sqrt(g * hR) - std::sqrt(g * h))
                : uR + (h - hR) * std::sqrt(0.5 * g * (1.0 / h + 1.0 / hR));
}
