// vf: sources = src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp
// vf: budget = 60
// contract: SplittingMethod::Advance: invokes the operators in the documented order with the documented parts of dt; stops at the first failure and returns it
// contract: MakeSplitDirections: every direction exactly once; ascending in even, descending in odd (cycle + subcycle)
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/SplittingMethod.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "vf.hpp"

using namespace fub;
using R = Result<void, TimeStepTooLarge>;

namespace {
// the documented sequence of (operator, part of dt)
struct Step {
  int op;
  double part;
};

// Ghost state: the monitor of the operator calls.  Every operator may succeed
// or fail with an arbitrary error; a call has to be the next one of the
// documented sequence and no call may follow a failure.
struct Monitor {
  const Step* seq;
  int n;
  double dt;
  int pos = 0;
  bool failed = false;
  double err_dt = 0;
  int err_level = 0;

  R Call(int op, Duration d) {
    vf_check("no operator is invoked after a failure", !failed);
    vf_check("no surplus operator call", pos < n);
    vf_check_ieq("operators are invoked in the documented order", op, seq[pos].op);
    vf_check_eq("operators advance by the documented part of dt", d.count(),
                seq[pos].part * dt);
    ++pos;
    if (vf_bool("operator succeeds")) {
      return boost::outcome_v2::success();
    }
    failed = true;
    err_dt = vf_real("error dt");
    err_level = static_cast<int>(vf_int("error level", 0, 1000));
    return TimeStepTooLarge{Duration(err_dt), err_level};
  }

  void Finish(const R& result) {
    if (result.has_value()) {
      vf_check("success is reported only if no operator failed", !failed);
      vf_check_ieq("all operators were invoked", pos, n);
      vf_cover("success");
    } else {
      vf_check("failure is reported only if an operator failed", failed);
      vf_check_eq("the operator's failure is returned (dt)", result.error().dt.count(),
                  err_dt);
      vf_check_ieq("the operator's failure is returned (level)", result.error().level,
                   err_level);
      vf_cover("failure");
    }
  }
};

template <typename Split, std::size_t N>
void Two(const Step (&seq)[N]) {
  const double dt = vf_real("dt");
  Monitor m{seq, static_cast<int>(N), dt};
  auto op = [&](int k) { return [&m, k](Duration d) { return m.Call(k, d); }; };
  auto a = op(1);
  auto b = op(2);
  Split split;
  m.Finish(split.Advance(Duration(dt), a, b));
}

template <typename Split, std::size_t N>
void AnyTwo(const Step (&seq)[N]) {
  const double dt = vf_real("dt");
  Monitor m{seq, static_cast<int>(N), dt};
  auto op = [&](int k) { return [&m, k](Duration d) { return m.Call(k, d); }; };
  auto a = op(1);
  auto b = op(2);
  AnySplitMethod split = Split();
  m.Finish(split.Advance(Duration(dt), a, b));
}

template <typename Split, std::size_t N>
void Three(const Step (&seq)[N], bool recursive) {
  const double dt = vf_real("dt");
  Monitor m{seq, static_cast<int>(N), dt};
  auto op = [&](int k) { return [&m, k](Duration d) { return m.Call(k, d); }; };
  auto a = op(1);
  auto b = op(2);
  auto c = op(3);
  Split split;
  if (recursive) {
    m.Finish(split.AdvanceRecursively(Duration(dt), a, b, c));
  } else {
    const SplittingMethod& base = split;
    m.Finish(base.Advance(Duration(dt), a, b, c));
  }
}

template <typename Split, std::size_t N>
void Four(const Step (&seq)[N]) {
  const double dt = vf_real("dt");
  Monitor m{seq, static_cast<int>(N), dt};
  auto op = [&](int k) { return [&m, k](Duration d) { return m.Call(k, d); }; };
  auto a = op(1);
  auto b = op(2);
  auto c = op(3);
  auto d = op(4);
  Split split;
  m.Finish(split.AdvanceRecursively(Duration(dt), a, b, c, d));
}

const Step godunov2[] = {{1, 1.}, {2, 1.}};
const Step godunov3[] = {{1, 1.}, {2, 1.}, {3, 1.}};
const Step godunov4[] = {{1, 1.}, {2, 1.}, {3, 1.}, {4, 1.}};
const Step strang2[] = {{1, .5}, {2, .5}, {2, .5}, {1, .5}};
const Step strang3[] = {{1, .5}, {2, .5}, {3, .5}, {3, .5}, {2, .5}, {1, .5}};
const Step strang3r[] = {{1, .5},  {2, .25}, {3, .25}, {3, .25}, {2, .25},
                         {2, .25}, {3, .25}, {3, .25}, {2, .25}, {1, .5}};
const Step lumped2[] = {{1, .5}, {2, 1.}, {1, .5}};
const Step lumped3[] = {{1, .5}, {2, .5}, {3, 1.}, {2, .5}, {1, .5}};
const Step lumped4[] = {{1, .5}, {2, .5}, {3, .5}, {4, 1.},
                        {3, .5}, {2, .5}, {1, .5}};

template <int Rank> void Directions() {
  const int cycle = static_cast<int>(vf_int("cycle", 0, 2000000000));
  const int sub = static_cast<int>(vf_int("subcycle", 0, 1000));
  const int ratio = static_cast<int>(vf_int("ratio", 1, 1001));
  auto dirs = MakeSplitDirections<Rank>(cycle, {sub, ratio});
  for (int i = 0; i < Rank; ++i) {
    const int forward = (cycle + sub) % 2 == 0;
    vf_check_ieq("directions alternate between ascending and descending order",
                 static_cast<int>(dirs[i]), forward ? i : Rank - 1 - i);
  }
}
} // namespace

extern "C" {
void vf_harness_godunov_2() { Two<GodunovSplitting>(godunov2); }
void vf_harness_godunov_any() { AnyTwo<GodunovSplitting>(godunov2); }
void vf_harness_godunov_3() { Three<GodunovSplitting>(godunov3, false); }
void vf_harness_godunov_3_recursive() { Three<GodunovSplitting>(godunov3, true); }
void vf_harness_godunov_4() { Four<GodunovSplitting>(godunov4); }
void vf_harness_strang_2() { Two<StrangSplitting>(strang2); }
void vf_harness_strang_any() { AnyTwo<StrangSplitting>(strang2); }
void vf_harness_strang_3() { Three<StrangSplitting>(strang3, false); }
void vf_harness_strang_3_recursive() { Three<StrangSplitting>(strang3r, true); }
void vf_harness_lumped_2() { Two<StrangSplittingLumped>(lumped2); }
void vf_harness_lumped_any() { AnyTwo<StrangSplittingLumped>(lumped2); }
void vf_harness_lumped_3() { Three<StrangSplittingLumped>(lumped3, false); }
void vf_harness_lumped_4() { Four<StrangSplittingLumped>(lumped4); }
void vf_harness_directions_1() { Directions<1>(); }
void vf_harness_directions_2() { Directions<2>(); }
void vf_harness_directions_3() { Directions<3>(); }
}
