// vf: flags = -I${VERIF}/vf/include_nolog -I${VERIF}/vf/include_notimer
// vf: budget = 200
// contract: accepting a step may change the data
// contract: RunSimulation: every step is at most the time left, the time to the next output and the CFL-scaled stable step size; a failed step restores the last accepted state and is retried with the reported step size; every accepted state for which output is due is written; the run ends at the final time or the cycle limit
// assumption: log statements and time measurement are left out of the verified text (vf/include_nolog, vf/include_notimer)
// assumption: the solver advances its time by dt and its cycle count by one if a step succeeds; stable and reported step sizes and the time to the next output exceed the smallest step size
#include "fub/counter/Timer.hpp"
#include "fub/RunSimulation.hpp"
#include "vf.hpp"

using namespace fub;
using R = boost::outcome_v2::result<void, TimeStepTooLarge>;

namespace {
constexpr long big = 1000000000000L;

struct Grid {
  double time;
  long cycles;
  long version;
  Duration GetTimePoint() const { return Duration(time); }
  std::ptrdiff_t GetCycles() const { return cycles; }
};

// Ghost state: the last accepted state and what is known about it
struct Ghost {
  double final_time;
  double eps;
  double cfl;
  long max_cycles;
  double time;
  long cycles;
  long version;
  long failed;      // the last step failed
  double err_dt;    // and reported this step size
  long pending;     // output is due for the accepted state
  long advanced;    // the step was advanced but is not accepted yet
  double next;      // next output time
  double stable;    // stable step size of this step
  double dt;        // size of this step
  long stage;       // 0 idle 1 next output known 2 prepared 3 stable known
  long aborted;     // failure without backup
};
Ghost ghost;

struct Registry {
  Timer get_timer(const char*) { return Timer(); }
};
Registry registry;

void CheckAccepted(const Grid& g) {
  vf_check_eq("the solver is in the last accepted state: time", g.time, ghost.time);
  vf_check_ieq("the solver is in the last accepted state: cycles", g.cycles, ghost.cycles);
  vf_check_ieq("the solver is in the last accepted state: data", g.version, ghost.version);
}

struct Solver {
  Grid grid;
  const Grid* GetGriddingAlgorithm() const { return &grid; }
  Registry* GetCounterRegistry() const { return &registry; }
  Duration GetTimePoint() const { return Duration(grid.time); }
  std::ptrdiff_t GetCycles() const { return grid.cycles; }

  void PreAdvanceHierarchy() {
    vf_check("the run continues only before the final time",
             ghost.time + ghost.eps < ghost.final_time);
    vf_check("the run continues only below the cycle limit",
             ghost.max_cycles < 0 || ghost.cycles < ghost.max_cycles);
    vf_check("due output is written before the next step", !ghost.pending);
    CheckAccepted(grid);
    ghost.stage = 2;
  }
  Duration ComputeStableDt() {
    vf_check("stable step size is computed for the prepared state", ghost.stage == 2);
    vf_check("a retry uses the reported step size", !ghost.failed);
    ghost.stable = vf_real("stable dt");
    vf_assume(ghost.stable > ghost.eps);
    ghost.stage = 3;
    return Duration(ghost.stable);
  }
  R AdvanceHierarchy(Duration dt) {
    vf_check("advances a prepared state", ghost.stage == 3 || (ghost.failed && ghost.stage == 2));
    CheckAccepted(grid);
    const double stable = ghost.failed ? ghost.err_dt : ghost.stable;
    vf_check_le("the step does not pass the final time", dt.count(),
                ghost.final_time - ghost.time);
    vf_check_le("the step does not pass the next output", dt.count(), ghost.next - ghost.time);
    vf_check_le("the step is at most CFL times the stable step size", dt.count(),
                ghost.cfl * stable);
    vf_check("the step is the largest such step",
             dt.count() == ghost.final_time - ghost.time || dt.count() == ghost.next - ghost.time ||
                 dt.count() == ghost.cfl * stable);
    ghost.stage = 0;
    ghost.dt = dt.count();
    if (vf_bool("step succeeds")) {
      grid.time += dt.count();
      grid.cycles += 1;
      grid.version = vf_int("version", 0, big);
      ghost.advanced = 1;
      ghost.failed = 0;
      return boost::outcome_v2::success();
    }
    // arbitrary intermediate state
    grid.time = vf_real("broken time");
    grid.cycles = vf_int("broken cycles", 0, big);
    grid.version = -1;
    ghost.failed = 1;
    ghost.err_dt = vf_real("error dt");
    vf_assume(ghost.err_dt > ghost.eps);
    return TimeStepTooLarge{Duration(ghost.err_dt), 0};
  }
  void PostAdvanceHierarchy(Duration dt) {
    vf_check("a step is accepted only if it succeeded", ghost.advanced);
    vf_check_eq("the step is accepted with its size", dt.count(), ghost.dt);
    ghost.advanced = 0;
    grid.version = vf_int("version after the step", 0, big);
    ghost.time = grid.time;
    ghost.cycles = grid.cycles;
    ghost.version = grid.version;
  }
};

struct Output : BasicOutput<Grid> {
  Duration NextOutputTime(Duration t) override {
    vf_check_eq("asks for the output after the current time", t.count(), ghost.time);
    ghost.next = vf_real("next output");
    vf_assume(ghost.next > ghost.time);
    return Duration(ghost.next);
  }
  bool ShallOutputNow(const Grid& grid) override {
    CheckAccepted(grid);
    if (vf_bool("output is due")) {
      ghost.pending = 1;
      return true;
    }
    return false;
  }
  void operator()(const Grid& grid) override {
    CheckAccepted(grid);
    vf_check("accepted states only", !ghost.advanced);
    vf_check("output is due or the run is over",
             ghost.pending || ghost.time + ghost.eps >= ghost.final_time ||
                 (ghost.max_cycles >= 0 && ghost.cycles >= ghost.max_cycles));
    ghost.pending = 0;
  }
};

void Run(int backup) {
  ghost = Ghost{};
  RunOptions options;
  ghost.final_time = vf_real("final time");
  ghost.eps = vf_pos("eps");
  ghost.cfl = vf_pos("cfl");
  ghost.max_cycles = vf_int("max cycles", -1, big);
  options.final_time = Duration(ghost.final_time);
  options.smallest_time_step_size = Duration(ghost.eps);
  options.cfl = ghost.cfl;
  options.max_cycles = ghost.max_cycles;
  options.do_backup = backup;
  ghost.err_dt = vf_real("reported size");
  vf_assume(ghost.err_dt > ghost.eps);
  Solver solver{};
  solver.grid.time = ghost.time = vf_real("time");
  solver.grid.cycles = ghost.cycles = vf_int("cycles", 0, big);
  solver.grid.version = ghost.version = vf_int("initial version", 0, big);
  Output output;
  RunSimulation(solver, options, std::chrono::steady_clock::time_point{}, output);
  if (backup || !ghost.failed) {
    vf_check("the run ends at the final time or the cycle limit",
             ghost.time + ghost.eps >= ghost.final_time ||
                 (ghost.max_cycles >= 0 && ghost.cycles >= ghost.max_cycles));
    vf_check("no output is left out", !ghost.pending);
    CheckAccepted(solver.grid);
    vf_cover("end");
  }
}
} // namespace

std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
  return time_point(duration(vf_int("now", 0, big)));
}

extern "C" {
void vf_harness_with_backup() { Run(1); }
void vf_harness_without_backup() { Run(0); }
}
