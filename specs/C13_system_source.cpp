// vf: sources = src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp
// vf: budget = 60
// contract: SplitSystemSourceLevelIntegrator::AdvanceLevelNonRecursively: source and system advance alternately by the documented parts of dt on the same level; the first failure stops the step and is returned
// contract: SplitSystemSourceLevelIntegrator::ComputeStableDt: minimum of system and source
// contract: SplitSystemSourceLevelIntegrator::{Pre,Post}Advance{Level,Hierarchy}, ResetHierarchyConfiguration: forwarded to both parts
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/Meta.hpp"
#include "fub/ext/outcome.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "vf.hpp"

using namespace fub;
using R = Result<void, TimeStepTooLarge>;

namespace {
struct Step {
  int op; // 1: source, 2: system
  double part;
};
const Step godunov[] = {{1, 1.}, {2, 1.}};
const Step strang[] = {{1, .5}, {2, .5}, {2, .5}, {1, .5}};
const Step lumped[] = {{1, .5}, {2, 1.}, {1, .5}};

struct Ghost {
  const Step* seq;
  int n;
  int level;
  double dt;
  std::pair<int, int> subcycle;
  int pos;
  int failed;
  double err_dt;
  int err_level;
  double dt_system;
  double dt_source;
  int calls_system;
  int calls_source;
};
Ghost ghost;

R Call(int op, int level, double dt) {
  vf_check("nothing is advanced after a failure", !ghost.failed);
  vf_check("no surplus advance", ghost.pos < ghost.n);
  vf_check_ieq("source and system in the documented order", op, ghost.seq[ghost.pos].op);
  vf_check_eq("by the documented part of dt", dt, ghost.seq[ghost.pos].part * ghost.dt);
  vf_check_ieq("on this level", level, ghost.level);
  ghost.pos += 1;
  if (vf_bool("succeeds")) {
    return boost::outcome_v2::success();
  }
  ghost.failed = 1;
  ghost.err_dt = vf_real("error dt");
  ghost.err_level = static_cast<int>(vf_int("error level", 0, 1000));
  return TimeStepTooLarge{Duration(ghost.err_dt), ghost.err_level};
}

struct Grid {};

struct System {
  static constexpr int Rank = 2;
  Grid grid;
  Grid* GetGriddingAlgorithm() { return &grid; }
  System& GetContext() { return *this; }
  int GetCounterRegistry() const { return 0; }
  int GetMpiCommunicator() const { return 0; }
  int GetCycles(int = 0) const { return 0; }
  Duration GetTimePoint(int = 0) const { return Duration(0); }
  void FillGhostLayerSingleLevel(int) {}
  void FillGhostLayerTwoLevels(int, int) {}
  int GetRatioToCoarserLevel(int) const { return 1; }
  bool LevelExists(int) const { return false; }
  void CoarsenConservatively(int, int) {}
  void CompleteFromCons(int, Duration) {}
  void ComputeNumericFluxes(int, Duration, Direction) {}
  void CopyDataToScratch(int) {}
  void CopyScratchToData(int) {}
  void UpdateConservatively(int, Duration, Direction) {}
  void AccumulateCoarseFineFluxes(int, double, Direction) {}
  void ApplyFluxCorrection(int, int, Duration) {}
  void ResetCoarseFineFluxes(int, int) {}

  void PreAdvanceHierarchy() { ghost.calls_system += 1; }
  void PostAdvanceHierarchy(Duration dt) {
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_system += 1;
  }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("level and substep are forwarded", l == ghost.level && sub == ghost.subcycle);
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_system += 1;
  }
  R PostAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("level and substep are forwarded", l == ghost.level && sub == ghost.subcycle);
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_system += 1;
    if (vf_bool("succeeds")) {
      return boost::outcome_v2::success();
    }
    ghost.failed = 1;
    ghost.err_dt = vf_real("error dt");
    ghost.err_level = static_cast<int>(vf_int("error level", 0, 1000));
    return TimeStepTooLarge{Duration(ghost.err_dt), ghost.err_level};
  }
  void ResetHierarchyConfiguration(int arg) {
    vf_check_ieq("the argument is forwarded", arg, ghost.level);
    ghost.calls_system += 1;
  }
  Duration ComputeStableDt(int l) {
    vf_check_ieq("stable dt of this level", l, ghost.level);
    return Duration(ghost.dt_system);
  }
  R AdvanceLevelNonRecursively(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("substep is forwarded", sub == ghost.subcycle);
    return Call(2, l, dt.count());
  }
};

template <bool WithContext> struct Source {
  static constexpr int Rank = 2;
  void PreAdvanceHierarchy() { ghost.calls_source += 1; }
  void PostAdvanceHierarchy(Duration dt) {
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_source += 1;
  }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("level and substep are forwarded", l == ghost.level && sub == ghost.subcycle);
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_source += 1;
  }
  void PostAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("level and substep are forwarded", l == ghost.level && sub == ghost.subcycle);
    vf_check_eq("dt is forwarded", dt.count(), ghost.dt);
    ghost.calls_source += 1;
  }
  void ResetHierarchyConfiguration(int arg) {
    vf_check_ieq("the argument is forwarded", arg, ghost.level);
    ghost.calls_source += 1;
  }
  template <bool C = WithContext, typename = std::enable_if_t<C>>
  Duration ComputeStableDt(System&, int l) {
    vf_check_ieq("stable dt of this level", l, ghost.level);
    return Duration(ghost.dt_source);
  }
  template <bool C = WithContext, typename = std::enable_if_t<!C>>
  Duration ComputeStableDt(int l) {
    vf_check_ieq("stable dt of this level", l, ghost.level);
    return Duration(ghost.dt_source);
  }
  R AdvanceLevel(System&, int l, Duration dt) { return Call(1, l, dt.count()); }
};

void Setup() {
  ghost = Ghost{};
  ghost.level = static_cast<int>(vf_int("level", 0, 1000));
  ghost.dt = vf_real("dt");
  ghost.subcycle.first = static_cast<int>(vf_int("subcycle", 0, 1000));
  ghost.subcycle.second = static_cast<int>(vf_int("ratio", 1, 1001));
}

void CheckFailure(const R& result) {
  if (result.has_value()) {
    vf_check("success is reported only if nothing failed", !ghost.failed);
  } else {
    vf_check("failure is reported only if something failed", ghost.failed);
    vf_check_eq("the failure is returned (dt)", result.error().dt.count(), ghost.err_dt);
    vf_check_ieq("the failure is returned (level)", result.error().level, ghost.err_level);
  }
}

template <typename Split, std::size_t N> void Advance(const Step (&seq)[N]) {
  Setup();
  ghost.seq = seq;
  ghost.n = N;
  SplitSystemSourceLevelIntegrator<System, Source<true>, Split> solver{System{}, Source<true>{}};
  const R result =
      solver.AdvanceLevelNonRecursively(ghost.level, Duration(ghost.dt), ghost.subcycle);
  if (result.has_value()) {
    vf_check_ieq("all parts were advanced", ghost.pos, ghost.n);
    vf_cover("success");
  }
  CheckFailure(result);
}

template <bool WithContext> void StableDt() {
  Setup();
  ghost.dt_system = vf_real("stable system");
  ghost.dt_source = vf_real("stable source");
  SplitSystemSourceLevelIntegrator<System, Source<WithContext>> solver{System{},
                                                                       Source<WithContext>{}};
  const double dt = solver.ComputeStableDt(ghost.level).count();
  vf_check_le("stable for the system", dt, ghost.dt_system);
  vf_check_le("stable for the source", dt, ghost.dt_source);
  vf_check("the largest such step size", dt == ghost.dt_system || dt == ghost.dt_source);
}
} // namespace

extern "C" {
void vf_harness_godunov() { Advance<GodunovSplitting>(godunov); }
void vf_harness_strang() { Advance<StrangSplitting>(strang); }
void vf_harness_lumped() { Advance<StrangSplittingLumped>(lumped); }
void vf_harness_stable_dt() { StableDt<true>(); }
void vf_harness_stable_dt_without_context() { StableDt<false>(); }
void vf_harness_hooks() {
  Setup();
  SplitSystemSourceLevelIntegrator<System, Source<true>> solver{System{}, Source<true>{}};
  solver.PreAdvanceHierarchy();
  vf_check("both prepared", ghost.calls_system == 1 && ghost.calls_source == 1);
  solver.PreAdvanceLevel(ghost.level, Duration(ghost.dt), ghost.subcycle);
  vf_check("both prepared the level", ghost.calls_system == 2 && ghost.calls_source == 2);
  const R result = solver.PostAdvanceLevel(ghost.level, Duration(ghost.dt), ghost.subcycle);
  vf_check("both post processed the level", ghost.calls_system == 3 && ghost.calls_source == 3);
  CheckFailure(result);
  solver.PostAdvanceHierarchy(Duration(ghost.dt));
  vf_check("both post processed", ghost.calls_system == 4 && ghost.calls_source == 4);
  solver.ResetHierarchyConfiguration(ghost.level);
  vf_check("both reset", ghost.calls_system == 5 && ghost.calls_source == 5);
}
}
