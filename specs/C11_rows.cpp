// contract: ForEachRow calls the function for every row of the views exactly once, with the same row of all views
// vf: heavy = rows_3 state_rows_3
#include "vf_patch.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/StateRow.hpp"
#include "fub/ForEach.hpp"
using namespace fub;
namespace {
static const char* const LO[] = {"lo0", "lo1", "lo2"};
static const char* const EX[] = {"n0", "n1", "n2"};
static const char* const IX[] = {"i0", "i1", "i2"};
static const char* const SV[] = {"", "s1", "s2", "s3"};
static const char* const TV[] = {"", "t1", "t2", "t3"};
static const char* const UV[] = {"", "u1", "u2", "u3"};

template <int R> void rows() {
  long lo[4], n[4];
  std::array<std::ptrdiff_t, R> i;
  for (int d = 0; d < R; ++d) {
    lo[d] = vf_int(LO[d], -VF_BIG, VF_BIG);
    n[d] = vf_int(EX[d], 1, VF_BIG);
    i[d] = vf_int(IX[d], lo[d], lo[d] + n[d] - 1);
  }
  auto A = vf::make_patch<R>("a", SV, lo, n);
  auto B = vf::make_patch<R>("b", TV, lo, n);
  const double a = A(i), b = B(i);
  ForEachRow(std::tuple{A.view(), B.cview()}, [](span<double> x, span<const double> y) {
    const long m = x.size();
    vf_check_ieq("rows of equal length", y.size(), m);
    for (long k = 0; k < m; ++k) x[k] += y[k];
  });
  vf_check_eq("every cell is in one row", A(i), a + b);
  vf_check_eq("unchanged", B(i), b);
  vf_cover("rows");
}
template <int R> void state_rows() {
  using E = PerfectGas<R>;
  long lo[4] = {0, 0, 0, 0}, n[4] = {0, 0, 0, 0};
  std::array<std::ptrdiff_t, R> i;
  for (int d = 0; d < R; ++d) {
    lo[d] = vf_int(LO[d], -VF_BIG, VF_BIG);
    n[d] = vf_int(EX[d], 1, VF_BIG);
    i[d] = vf_int(IX[d], lo[d], lo[d] + n[d] - 1);
  }
  auto A = vf::make_patch<R>("a", UV, lo, n);
  auto rho = vf::make_patch<R>("density", SV, lo, n);
  auto en = vf::like("energy", rho);
  View<const Conservative<E>> view;
  view.density = rho.view();
  view.energy = en.view();
  n[R] = R;
  // all components of a view have the same strides
  std::array<std::ptrdiff_t, R + 1> j;
  vf::Patch<R + 1> mom;
  {
    long s[4] = {1, 0, 0, 0};
    for (int d = 1; d < R; ++d) s[d] = rho.str[d];
    s[R] = vf_int("t", s[R - 1] * n[R - 1], VF_BIG);
    for (int d = 0; d <= R; ++d) {
      mom.lo[d] = lo[d];
      mom.ext[d] = n[d];
      mom.str[d] = s[d];
    }
    mom.p = vf_array("momentum", R + 1, n[0], n[1], n[2], n[3], s[1], s[2], s[3]);
  }
  view.momentum = mom.view();
  for (int d = 0; d < R; ++d) j[d] = i[d];
  const double a = A(i);
  double sum = rho(i) + en(i);
  for (int k = 0; k < R; ++k) {
    j[R] = k;
    sum += mom(j);
  }
  ForEachRow(std::tuple{A.view(), view}, [](span<double> x, const Row<const Conservative<E>>& q) {
    const long m = x.size();
    auto p = Begin(q);
    for (long k = 0; k < m; ++k) {
      double s = *p.density + *p.energy;
      const double* mom = p.momentum.first;
      for (int c = 0; c < R; ++c) {
        s += *mom;
        mom += p.momentum.second;
      }
      x[k] += s;
      Advance(p, 1);
    }
  });
  vf_check_eq("the row of the states", A(i), a + sum);
  vf_cover("rows");
}
} // namespace
extern "C" void vf_harness_rows_1() { rows<1>(); }
extern "C" void vf_harness_rows_2() { rows<2>(); }
extern "C" void vf_harness_rows_3() { rows<3>(); }
extern "C" void vf_harness_state_rows_1() { state_rows<1>(); }
extern "C" void vf_harness_state_rows_2() { state_rows<2>(); }
extern "C" void vf_harness_state_rows_3() { state_rows<3>(); }
