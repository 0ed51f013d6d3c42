// vf: sources = src/geometry/Cone.cpp src/geometry/Halfspace.cpp src/geometry/ExpandTube.cpp src/geometry/Polygon.cpp
// vf: bounded = cone_disc polygon polygon_lattice points_file
// contract: Halfspace: signed distance along the normalised direction
// contract: ConeIF: negative inside, positive outside the cone (inverted on request), distance to the base disc and to the apex
// contract: ExpandTube: positive inside the tube around the center line, distance to the nearest tube segment
// contract: Polygon: positive inside (even-odd rule), distance to the nearest edge
// contract: ReadPointsFromFile: all points of the file in order
// contract: Invert, RotateAxis, RotateAroundPoint: the geometry evaluated at the transformed point
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <numeric>
#include <string>
#include <unistd.h>
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/RotateAxis.hpp"
using namespace fub;

namespace {
template <std::size_t N> std::array<double, N> point(const char* n) {
  std::array<double, N> x;
  for (auto& c : x) c = vf_real(n);
  return x;
}
struct Any3 {
  double ComputeDistanceTo(const std::array<double, 3>& x) const { return vf_uf3("distance", x[0], x[1], x[2]); }
};
struct Any2 {
  double ComputeDistanceTo(const std::array<double, 2>& x) const { return vf_uf2("distance", x[0], x[1]); }
  double ComputeDistanceTo(double x, double y) const { return vf_uf2("distance", x, y); }
};
struct Any1 {
  double ComputeDistanceTo(double x) const { return vf_uf1("distance", x); }
};
} // namespace

extern "C" void vf_harness_halfspace() {
  const auto n = point<3>("n"), x = point<3>("x");
  const double o = vf_real("offset");
  const double nn = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
  vf_assume(nn > 0);
  const Halfspace h(Eigen::Vector3d(n[0], n[1], n[2]), o);
  const double len = std::sqrt(nn);
  const double d = (n[0] * x[0] + n[1] * x[1] + n[2] * x[2]) / len - o;
  vf_check_eq("signed distance", h(x[0], x[1], x[2]), d);
  vf_check_eq("signed distance of a vector", h(Eigen::Vector3d(x[0], x[1], x[2])), d);
  vf_cover("halfspace");
}
namespace {
struct ConeCase { std::array<double, 3> x0, x; double R, h, l, rr, r; };
ConeCase cone_case() {
  ConeCase c;
  c.x0 = point<3>("x0");
  c.x = point<3>("x");
  c.R = vf_pos("radius");
  c.h = vf_pos("height");
  c.l = c.x[0] - c.x0[0];
  const double y = c.x[1] - c.x0[1], z = c.x[2] - c.x0[2];
  c.rr = y * y + z * z;
  c.r = std::sqrt(c.rr);
  return c;
}
} // namespace
extern "C" void vf_harness_cone_below() {
  const ConeCase c = cone_case();
  vf_assume(c.l < 0);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  vf_check_lt("outside", 0.0, d);
  if (c.r < c.R) {
    vf_check_eq("distance to the base disc", d, -c.l);
    vf_cover("below the disc");
  } else vf_cover("below and beside");
  vf_check_eq("inverted", ConeIF(c.x0, c.R, c.h, false).ComputeDistanceTo(c.x), -d);
}
extern "C" void vf_harness_cone_above() {
  const ConeCase c = cone_case();
  vf_assume(c.h < c.l);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  vf_check_eq("distance to the apex", d, std::sqrt((c.l - c.h) * (c.l - c.h) + c.rr));
  vf_check_eq("inverted", ConeIF(c.x0, c.R, c.h, false).ComputeDistanceTo(c.x), -d);
  vf_cover("above");
}
extern "C" void vf_harness_cone_beside() {
  const ConeCase c = cone_case();
  vf_assume(0 <= c.l && c.l <= c.h);
  vf_assume(c.r > 1e-7);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  const double at = (1.0 - c.l / c.h) * c.R;
  if (c.r > at) {
    vf_check_le("outside", 0.0, d);
    vf_cover("outside");
  } else {
    vf_check_le("inside", d, 0.0);
    vf_check_le("inside: base disc", -c.l, d);
    vf_cover("inside");
  }
}
extern "C" void vf_harness_cone_lateral() {
  const ConeCase c = cone_case();
  vf_assume(0 <= c.l && c.l <= c.h);
  vf_assume(c.r > 1e-7);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  vf_check_eq("inverted", ConeIF(c.x0, c.R, c.h, false).ComputeDistanceTo(c.x), -d);
  if (c.r < (1.0 - c.l / c.h) * c.R) {
    // distance to the generating line: h (R (1 - l / h) - r) / sqrt(h h + R R)
    const double num = c.h * c.R - c.l * c.R - c.r * c.h;
    if (-c.l < d) {
      vf_check_eq("inside: lateral surface", d * d, num * num / (c.h * c.h + c.R * c.R));
      vf_cover("lateral surface");
    } else vf_cover("disc");
  }
}
extern "C" void vf_harness_cone_disc() {
  const ConeCase c = cone_case();
  vf_assume(0 <= c.l && c.l <= c.h);
  vf_assume(c.r > 1e-7);
  vf_assume(c.r < (1.0 - c.l / c.h) * c.R);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  const double num = c.h * c.R - c.l * c.R - c.r * c.h;
  vf_assume(d <= -c.l);
  vf_check_le("inside: the disc is nearer", c.l * c.l * (c.h * c.h + c.R * c.R), num * num * (1.0 + 1e-9) + 1e-9);
  vf_cover("disc");
}
// the nearest point of the cone lies on its lateral surface, not on the rim
extern "C" void vf_harness_cone_outside() {
  const ConeCase c = cone_case();
  vf_assume(0 <= c.l && c.l <= c.h);
  vf_assume(c.r > 1e-7);
  vf_assume((1.0 - c.l / c.h) * c.R < c.r);
  vf_assume(c.R * (c.r - c.R) < c.h * c.l);
  const double d = ConeIF(c.x0, c.R, c.h).ComputeDistanceTo(c.x);
  const double num = c.h * c.R - c.l * c.R - c.r * c.h;
  vf_check_eq("outside: lateral surface", d * d, num * num / (c.h * c.h + c.R * c.R));
  vf_cover("outside");
}
extern "C" void vf_harness_transformed() {
  const auto x3 = point<3>("x");
  const auto x2 = point<2>("y");
  vf_check_eq("Invert 3d", Invert<Any3>(Any3()).ComputeDistanceTo(x3), -Any3().ComputeDistanceTo(x3));
  vf_check_eq("Invert 3d in 2d", Invert<Any3>(Any3()).ComputeDistanceTo(x2), -Any3().ComputeDistanceTo({x2[0], x2[1], 0.0}));
  vf_check_eq("Invert 2d", Invert<Any2>(Any2()).ComputeDistanceTo(x2), -Any2().ComputeDistanceTo(x2));
  vf_check_eq("Invert 2d in 3d", Invert<Any2>(Any2()).ComputeDistanceTo(x3), -Any2().ComputeDistanceTo({x3[0], x3[1]}));
  vf_check_eq("Invert 1d in 3d", Invert<Any1>(Any1()).ComputeDistanceTo(x3), -Any1().ComputeDistanceTo(x3[0]));
  vf_check_eq("Invert 1d in 2d", Invert<Any1>(Any1()).ComputeDistanceTo(x2), -Any1().ComputeDistanceTo(x2[0]));
  vf_check_eq("RotateAxis", RotateAxis<Any2>(Any2()).ComputeDistanceTo(x3),
              Any2().ComputeDistanceTo(x3[0], std::sqrt(x3[1] * x3[1] + x3[2] * x3[2])));
  vf_cover("transformed");
}
extern "C" void vf_harness_rotated() {
  const auto x = point<2>("x");
  const auto o = point<2>("origin");
  const double a = vf_real("angle");
  const double c = std::cos(-a), s = std::sin(-a);
  const double dx = x[0] - o[0], dy = x[1] - o[1];
  const double d = RotateAroundPoint<Any2>(Any2(), a, o).ComputeDistanceTo(x);
  vf_check_eq("RotateAroundPoint", d, Any2().ComputeDistanceTo(c * dx - s * dy + o[0], s * dx + c * dy + o[1]));
  vf_cover("rotated");
}
namespace {
// the axis of the tube: three points in the plane z = 0
template <int N> void tube() {
  Eigen::Matrix<double, 3, Eigen::Dynamic> p(3, N);
  for (int i = 0; i < N; ++i) {
    p(0, i) = vf_real("px");
    p(1, i) = vf_real("py");
    p(2, i) = 0.0;
  }
  const double r = vf_pos("radius");
  const auto x = point<3>("x");
  double hx[N + 1], hy[N + 1];
  for (int i = 0; i < N - 1; ++i) {
    const double dx = p(0, i + 1) - p(0, i), dy = p(1, i + 1) - p(1, i);
    const double s = dx * dx + dy * dy;
    vf_assume(s > 0);
    hx[i] = dx / std::sqrt(s);
    hy[i] = dy / std::sqrt(s);
  }
  const ExpandTube t(p, r);
  const double d = t(x[0], x[1], x[2]);
  vf_check_eq("vector", t(Eigen::Vector3d(x[0], x[1], x[2])), d);
  // planes between the segments; the first and the last one are horizontal
  double nx[N], ny[N], o[N];
  double qx = 0.0, qy = 1.0;
  for (int i = 0; i < N; ++i) {
    nx[i] = 0.0;
    ny[i] = i == 0 ? 1.0 : -1.0;
    if (0 < i && i < N - 1) {
      const double ax = 0.5 * (qx + hx[i]), ay = 0.5 * (qy + hy[i]), s = ax * ax + ay * ay;
      vf_assume(s > 0);
      nx[i] = ax / std::sqrt(s);
      ny[i] = ay / std::sqrt(s);
      qx = hx[i];
      qy = hy[i];
    }
    o[i] = nx[i] * p(0, i) + ny[i] * p(1, i);
  }
  double nearest = 0.0;
  for (int i = 0; i < N - 1; ++i) {
    const double ax = x[0] - p(0, i), ay = x[1] - p(1, i);
    const double l = hx[i] * ax + hy[i] * ay;
    const double ex = ax - l * hx[i], ey = ay - l * hy[i];
    const double cyl = std::sqrt(ex * ex + ey * ey + x[2] * x[2]) - r;
    const double lo = o[i] - (nx[i] * x[0] + ny[i] * x[1]);
    const double hi = nx[i + 1] * x[0] + ny[i + 1] * x[1] - o[i + 1];
    const double seg = std::max(std::max(lo, hi), cyl);
    nearest = i == 0 ? seg : std::min(nearest, seg);
  }
  vf_check_eq("distance to the nearest segment", -d, nearest);
  vf_cover("tube");
}
} // namespace
extern "C" void vf_harness_tube_2() { tube<2>(); }
extern "C" void vf_harness_tube_3() { tube<3>(); }
extern "C" void vf_harness_tube_4() { tube<4>(); }
// positive inside (even-odd rule), the distance to the nearest edge in absolute value
namespace {
// coordinates on a lattice: vertices at the height of the point, horizontal and empty edges
double coordinate(const char* n, bool lattice) { return lattice ? (double)vf_int(n, -3, 3) : vf_real(n); }
void polygon(bool lattice) {
  const int n = (int)vf_int("points", 3, 24);
  Polygon::Vector xs, ys;
  for (int i = 0; i < n; ++i) {
    xs.push_back(coordinate("px", lattice));
    ys.push_back(coordinate("py", lattice));
  }
  xs.push_back(xs[0]);
  ys.push_back(ys[0]);
  const double x = coordinate("x", lattice), y = coordinate("y", lattice);
  double nearest = 1e300;
  int crossed = 0;
  for (int i = 0; i < n; ++i) {
    const double ax = xs[i], ay = ys[i], dx = xs[i + 1] - ax, by = ys[i + 1], dy = by - ay;
    const double ss = dx * dx + dy * dy;
    double t = ss > 0 ? ((x - ax) * dx + (y - ay) * dy) / ss : 0.0;
    t = std::min(1.0, std::max(0.0, t));
    nearest = std::min(nearest, std::hypot(ax + t * dx - x, ay + t * dy - y));
    if ((ay < y) != (by < y) && ax + (y - ay) / dy * dx < x) ++crossed;
  }
  vf_assume(nearest > 1e-6);
  const double d = Polygon(xs, ys).ComputeDistanceTo(x, y);
  vf_check_eq("distance", std::fabs(d), nearest);
  if (crossed % 2) {
    vf_check_lt("inside", 0.0, d);
    vf_cover("inside");
  } else {
    vf_check_lt("outside", d, 0.0);
    vf_cover("outside");
  }
}
} // namespace
extern "C" void vf_harness_polygon() { polygon(false); }
extern "C" void vf_harness_polygon_lattice() { polygon(true); }
// the points listed in a text file; lines without two numbers are skipped
extern "C" void vf_harness_points_file() {
  char dir[] = "/tmp/vf_points_XXXXXX";
  if (!::mkdtemp(dir)) return;
  const std::string name = std::string(dir) + "/points.txt";
  const int n = (int)vf_int("points", 1, 12);
  double px[12], py[12];
  {
    std::ofstream f(name);
    f.precision(17);
    for (int i = 0; i < n; ++i) {
      px[i] = vf_real("px");
      py[i] = vf_real("py");
      if (vf_bool("blank line")) f << '\n';
      f << px[i] << ' ' << py[i] << '\n';
    }
  }
  const auto p = ReadPointsFromFile(name);
  ::unlink(name.c_str());
  ::rmdir(dir);
  vf_check("number of points", p.cols() == n && p.rows() == 3);
  for (int i = 0; i < n && i < p.cols(); ++i) {
    vf_check_eq("x", p(0, i), px[i]);
    vf_check_eq("y", p(1, i), py[i]);
    vf_check_eq("z", p(2, i), 0.0);
  }
  vf_cover("points");
}
