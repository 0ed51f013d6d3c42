// vf: flags = -I${VERIF}/vf/include_nolog -I${VERIF}/vf/include_notimer
// contract: OutputAtFrequencyOrInterval: output is due at time zero, if the cycle is a multiple of a frequency or the time a multiple of an interval; the next output time is the first time after the given one for which an interval is due
// contract: MultipleOutputs: output is due if it is due for one of the outputs, which is then the one written; the next output time is the earliest one
// assumption: time points are real numbers; at most two frequencies and intervals, and two outputs
#include "fub/counter/Timer.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/output/OutputAtFrequencyOrInterval.hpp"
#include "vf.hpp"
#include <cmath>

using namespace fub;

namespace {
constexpr long big = 1000000L;
struct Grid {
  double time;
  long cycles;
  Duration GetTimePoint() const { return Duration(time); }
  std::ptrdiff_t GetCycles() const { return cycles; }
};

struct Output : OutputAtFrequencyOrInterval<Grid> {
  using OutputAtFrequencyOrInterval<Grid>::OutputAtFrequencyOrInterval;
  void operator()(const Grid&) override {}
};

template <int NF, int NI> void Due() {
  const double eps = vf_real_in("eps", 0.001, 0.01);
  long f[2] = {vf_int("f0", 1, big), vf_int("f1", 1, big)};
  double k[2] = {vf_real_in("k0", 0.1, 2.0), vf_real_in("k1", 0.1, 2.0)};
  Output out(std::vector<std::ptrdiff_t>(f, f + NF), [&] {
    std::vector<Duration> v;
    for (int i = 0; i < NI; ++i) v.push_back(Duration(k[i]));
    return v; }(), Duration(eps));
  Grid g;
  g.time = vf_bool("start") ? 0.0 : vf_real_in("time", 0.0, 4.0);
  g.cycles = vf_int("cycle", 0, big);
  bool due = g.time == 0.0;
  for (int i = 0; i < NF; ++i) due = due || g.cycles % f[i] == 0;
  for (int i = 0; i < NI; ++i) due = due || std::fmod(g.time, k[i]) < 2 * eps;
  vf_check_ieq("output is due for a frequency, an interval or at the start", out.ShallOutputNow(g), due);
  vf_cover("due");
}

template <int NI> void Next() {
  const double eps = vf_real_in("eps", 0.001, 0.01);
  double k[2] = {vf_real_in("k0", 0.1, 2.0), vf_real_in("k1", 0.1, 2.0)};
  Output out({}, [&] {
    std::vector<Duration> v;
    for (int i = 0; i < NI; ++i) v.push_back(Duration(k[i]));
    return v; }(), Duration(eps));
  const double t = vf_real_in("time", 0.0, 4.0);
  const double next = out.NextOutputTime(Duration(t)).count();
  vf_check_lt("the next output is later", t, next);
  double first = std::numeric_limits<double>::max();
  for (int i = 0; i < NI; ++i) {
    const double n = t + (k[i] - std::fmod(t, k[i]) + eps);
    first = n < first ? n : first;
  }
  vf_check_eq("the first time an interval is due", next, first);
  vf_cover("next");
}

// Some output: due or not, with an arbitrary next output time
struct Some : BasicOutput<Grid> {
  bool due;
  double next;
  long* written;
  Duration NextOutputTime(Duration) override { return Duration(next); }
  bool ShallOutputNow(const Grid&) override { return due; }
  void operator()(const Grid&) override { *written += 1; }
};
} // namespace

extern "C" {
void vf_harness_due_0_1() { Due<0, 1>(); }
void vf_harness_due_1_0() { Due<1, 0>(); }
void vf_harness_due_0_0() { Due<0, 0>(); }
void vf_harness_due_1_1() { Due<1, 1>(); }
void vf_harness_due_2_2() { Due<2, 2>(); }
void vf_harness_next_0() { Next<0>(); }
void vf_harness_next_1() { Next<1>(); }
void vf_harness_next_2() { Next<2>(); }

// The next output time is due: a multiple of the interval plus the tolerance
void vf_harness_next_is_due() {
  const double eps = vf_real_in("eps", 0.001, 0.01);
  const double k = vf_real_in("k", 0.1, 2.0);
  Output out({}, {Duration(k)}, Duration(eps));
  Grid g;
  const double t = vf_real_in("time", 0.0, 4.0);
  const double n = (t - std::fmod(t, k)) / k;
  g.cycles = 1;
  g.time = out.NextOutputTime(Duration(t)).count();
  vf_check("no time in between is a multiple", g.time - eps <= k * (n + 1) + 1e-9);
  vf_check("output is due at the next output time", out.ShallOutputNow(g));
  vf_cover("next is due");
}

void vf_harness_multiple() {
  const int n = (int)vf_int("outputs", 0, 3);
  long written[3] = {0, 0, 0};
  MultipleOutputs<Grid> all;
  bool due[3];
  double next[3];
  bool any = false;
  double first = std::numeric_limits<double>::max();
  for (int i = 0; i < 3; ++i) {
    due[i] = vf_bool("due");
    next[i] = vf_real("next");
    if (i < n) {
      auto o = std::make_unique<Some>();
      o->due = due[i];
      o->next = next[i];
      o->written = written + i;
      all.AddOutput(std::move(o));
      any = any || due[i];
      first = next[i] < first ? next[i] : first;
    }
  }
  Grid g{vf_real("time"), vf_int("cycle", 0, big)};
  vf_check_eq("the earliest output time", all.NextOutputTime(Duration(g.time)).count(), first);
  vf_check_ieq("due if one is due", all.ShallOutputNow(g), any);
  all(g);
  for (int i = 0; i < 3; ++i)
    vf_check_ieq("every due output is written once, no other", written[i], i < n && due[i]);
  vf_cover("multiple");
}
}
