// vf: sources = src/ext/Mpi.cpp
// vf: budget = 90
// vf: recursion = _ZN3fub23SubcycleFineFirstSolver*12AdvanceLevelEi*:vf_contract_subcycle_advance_level
// vf: recursion = _ZN3fub16NoSubcycleSolver*12AdvanceLevelEi*:vf_contract_no_subcycle_advance_level
// contract: SubcycleFineFirstSolver::AdvanceLevel: the next finer level makes exactly as many equal substeps as the refinement ratio, then this level advances once; afterwards fluxes are corrected, the finer level is coarsened, the state completed and copied; the recursive call is replaced by this contract
// contract: NoSubcycleSolver::AdvanceLevel: as above with a single substep of the same size, then the ghost cells are refilled
// contract: AdvanceLevel: any failure stops the step and is reported as a step size of the coarsest level
// contract: ComputeStableDt: at most the stable step size of every level (times its total refinement ratio when subcycling)
// assumption: MPI_Allreduce with MPI_MIN returns a value that is at most the local value
// assumption: errors are reported for levels 0 to 6 (total refinement ratio: product of at most 6 arbitrary ratios)
#include "fub/ext/Mpi.hpp"
#include <utility>
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "vf.hpp"

using namespace fub;
using R = Result<void, TimeStepTooLarge>;

namespace {
constexpr int max_level = 6;
MPI_Comm the_comm = MPI_COMM_WORLD;

struct Ghost {
  int level;
  double dt;
  std::pair<int, int> subcycle;
  int subcycling;
  int next_exists;
  int ratio; // of the next finer level to this level
  int ratios[max_level + 1];
  // progress
  int prepared = false;
  int reset = false;
  int substeps = 0;
  int advanced = false;
  int corrected = false;
  int coarsened = false;
  int completed = false;
  int copied = false;
  int refilled = false;
  int post = false;
  // failure
  int failed = false;
  double err_dt = 0;
  int err_level = 0;
  // hierarchy
  int hierarchy = false;
  int cycles = 0;
  int frequency = 1;
  int number_of_levels = 0;
  int filled = 0;
  const double* stable = nullptr;
  const long* total = nullptr;
  double local_min = 0;
  double global_min = 0;

  void CheckAlive() { vf_check("nothing is done after a failure", !failed); }
  int Substeps() const { return subcycling ? ratio : 1; }
  bool Synchronised() const { return !next_exists || (reset && substeps == Substeps()); }
};
Ghost the_ghost;
constexpr Ghost* ghost = &the_ghost;

R Fail(int level) {
  ghost->failed = true;
  ghost->err_dt = vf_real("error dt");
  ghost->err_level = level;
  return TimeStepTooLarge{Duration(ghost->err_dt), level};
}

// an arbitrary level in [0, max_level], one path per level
int AnyLevel() {
  int l = 0;
  while (l < max_level && vf_bool("deeper level")) {
    ++l;
  }
  return l;
}

R FailAnyLevel() { return Fail(AnyLevel()); }

struct Ratio {
  int r;
  int max() const { return r; }
};

struct Options {
  int regrid_frequency;
};

template <int Tag> struct Integrator {
  static constexpr int Rank = 2;
  // not part of the contract
  Integrator& GetContext() { return *this; }
  const Integrator& GetContext() const { return *this; }
  int GetCounterRegistry() const { return 0; }
  int GetGriddingAlgorithm() const { return 0; }
  Duration GetTimePoint(int = 0) const { return Duration(0); }
  void PreAdvanceHierarchy() {}
  void PostAdvanceHierarchy(Duration) {}
  void ResetHierarchyConfiguration() {}
  void CopyDataToScratch(int) {}

  MPI_Comm GetMpiCommunicator() const { return the_comm; }
  int GetCycles(int = 0) const { return ghost->cycles; }
  Options GetOptions() const { return {ghost->frequency}; }

  bool LevelExists(int l) const {
    if (ghost->hierarchy) {
      return l < ghost->number_of_levels;
    }
    vf_check("the hierarchy is only queried after it may have changed", ghost->prepared);
    vf_check_ieq("only the next finer level is of interest", l, ghost->level + 1);
    return ghost->next_exists;
  }
  Ratio GetRatioToCoarserLevel(int l) const {
    if (Tag == 0 && !ghost->failed) {
      vf_check_ieq("refinement ratio of the next finer level", l, ghost->level + 1);
      return {ghost->ratio};
    }
    vf_check("level in range", 1 <= l && l <= max_level);
    return {ghost->ratios[l]};
  }
  void PreAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    vf_check("prepares the level first and once", !ghost->prepared);
    vf_check_ieq("prepares this level", l, ghost->level);
    vf_check_eq("prepares this level for dt", dt.count(), ghost->dt);
    vf_check("prepares this level for the substep", sub == ghost->subcycle);
    ghost->prepared = true;
  }
  void ResetCoarseFineFluxes(int fine, int coarse) {
    vf_check("fluxes are reset between the levels",
             coarse == ghost->level && fine == coarse + 1 && ghost->next_exists);
    vf_check("fluxes are reset before any advance", ghost->substeps == 0 && !ghost->advanced);
    ghost->reset = true;
  }
  R AdvanceLevelNonRecursively(int l, Duration dt, std::pair<int, int> sub) {
    ghost->CheckAlive();
    vf_check("this level is advanced once, after preparation",
             ghost->prepared && !ghost->advanced);
    vf_check("the finer level is at the new time first", ghost->Synchronised());
    vf_check_ieq("advances this level", l, ghost->level);
    vf_check_eq("advances this level by dt", dt.count(), ghost->dt);
    vf_check("advances this level in its substep", sub == ghost->subcycle);
    if (!vf_bool("advance succeeds")) {
      return FailAnyLevel();
    }
    ghost->advanced = true;
    return boost::outcome_v2::success();
  }
  void ApplyFluxCorrection(int fine, int coarse, Duration dt) {
    ghost->CheckAlive();
    vf_check("fluxes are corrected once, after both levels advanced",
             ghost->advanced && ghost->Synchronised() && !ghost->corrected);
    vf_check("fluxes are corrected before completion", !ghost->completed);
    vf_check("fluxes are corrected between the levels",
             coarse == ghost->level && fine == coarse + 1 && ghost->next_exists);
    vf_check_eq("fluxes are corrected for dt", dt.count(), ghost->dt);
    ghost->corrected = true;
  }
  void CoarsenConservatively(int fine, int coarse) {
    ghost->CheckAlive();
    vf_check("coarsened after both levels advanced", ghost->advanced && ghost->Synchronised());
    vf_check("coarsened before completion", !ghost->completed);
    vf_check("coarsened between the levels",
             coarse == ghost->level && fine == coarse + 1 && ghost->next_exists);
    ghost->coarsened = true;
  }
  void CompleteFromCons(int l, Duration) {
    ghost->CheckAlive();
    vf_check_ieq("completes this level", l, ghost->level);
    vf_check("completed after the conservative updates",
             !ghost->next_exists || (ghost->corrected && ghost->coarsened));
    ghost->completed = true;
  }
  void CopyScratchToData(int l) {
    ghost->CheckAlive();
    vf_check_ieq("copies this level", l, ghost->level);
    vf_check("copied after the level advanced", ghost->advanced);
    vf_check("copied after completion", !ghost->next_exists || ghost->completed);
    ghost->copied = true;
  }
  void Fill(int l) {
    if (ghost->hierarchy) {
      vf_check_ieq("ghost cells are filled from coarse to fine", l, ghost->filled);
      vf_check("ghost cells of existing levels", l < ghost->number_of_levels);
      ghost->filled += 1;
    } else {
      vf_check_ieq("fills the ghost cells of this level", l, ghost->level);
      vf_check("ghost cells are filled after the copy", ghost->copied);
      ghost->refilled = true;
    }
  }
  void FillGhostLayerSingleLevel(int l) {
    ghost->CheckAlive();
    vf_check_ieq("only the coarsest level is filled on its own", l, 0);
    Fill(l);
  }
  void FillGhostLayerTwoLevels(int fine, int coarse) {
    ghost->CheckAlive();
    vf_check("interpolates from the next coarser level", coarse == fine - 1 && coarse >= 0);
    Fill(fine);
  }
  R PostAdvanceLevel(int l, Duration dt, std::pair<int, int> sub) {
    ghost->CheckAlive();
    vf_check("post processing once, after the copy", ghost->copied && !ghost->post);
    vf_check_ieq("post processes this level", l, ghost->level);
    vf_check_eq("post processes for dt", dt.count(), ghost->dt);
    vf_check("post processes the substep", sub == ghost->subcycle);
    ghost->post = true;
    if (!vf_bool("post processing succeeds")) {
      return FailAnyLevel();
    }
    return boost::outcome_v2::success();
  }
  Duration ComputeStableDt(int l) { return Duration(ghost->stable[l]); }
};

template <typename Solver> void CheckResult(const R& result, bool scaled) {
  Ghost& g = *ghost;
  if (result.has_value()) {
    vf_check("success is reported only if nothing failed", !g.failed);
    vf_check("the level was prepared", g.prepared);
    vf_check("this level and the finer level are at the new time",
             g.advanced && g.Synchronised());
    vf_check("the finer level was used on this level",
             !g.next_exists || (g.corrected && g.coarsened && g.completed));
    vf_check("the data was copied and post processed", g.copied && g.post);
    if (g.next_exists) {
      vf_cover("success with a finer level");
    } else {
      vf_cover("success without a finer level");
    }
  } else {
    vf_check("failure is reported only if something failed", g.failed);
    if (scaled) {
      double expected = g.err_dt;
      for (int l = 1; l <= g.err_level; ++l) {
        expected *= g.ratios[l];
      }
      vf_check_eq("a failure is reported as a step size of the coarsest level",
                  result.error().dt.count(), expected);
      vf_check_ieq("a failure is reported for the coarsest level", result.error().level, 0);
    } else {
      vf_check_eq("the failing step size is reported", result.error().dt.count(), g.err_dt);
      vf_check_ieq("the failing level is reported", result.error().level, g.err_level);
    }
    vf_cover("failure");
  }
}

void MakeGhost(Ghost& g, bool subcycling) {
  g.level = static_cast<int>(vf_int("level", 0, 1000));
  g.dt = vf_pos("dt");
  g.subcycling = subcycling;
  g.subcycle.first = subcycling ? static_cast<int>(vf_int("subcycle", 0, 1000)) : 0;
  g.subcycle.second = subcycling ? static_cast<int>(vf_int("subcycles", 1, 1001)) : 1;
  g.next_exists = vf_bool("finer level exists");
  g.ratio = static_cast<int>(vf_int("ratio", 1, 1000));
  for (int l = 0; l <= max_level; ++l) {
    g.ratios[l] = static_cast<int>(vf_int("ratio to coarser level", 1, 1000));
  }
}

// The contract of the recursive call
R RecursiveCall(int level, double dt, std::pair<int, int> sub) {
  Ghost& g = *ghost;
  g.CheckAlive();
  if (g.hierarchy) {
    vf_check_ieq("the coarsest level is advanced", level, 0);
    vf_check_eq("the coarsest level is advanced by dt", dt, g.dt);
    vf_check("the coarsest level is advanced in one substep",
             sub == (std::pair<int, int>{0, 1}));
    vf_check("advanced once", !g.advanced);
    g.advanced = true;
    if (!vf_bool("advance succeeds")) {
      return Fail(0);
    }
    return boost::outcome_v2::success();
  }
  vf_check("the finer level advances after preparation", g.prepared);
  vf_check("the finer level advances only if it exists", g.next_exists);
  vf_check("the fluxes were reset", g.reset);
  vf_check_ieq("the next finer level advances", level, g.level + 1);
  vf_check_eq("the substeps are equal parts of dt", dt, g.dt / g.Substeps());
  vf_check_ieq("the substeps are numbered", sub.first, g.substeps);
  vf_check_ieq("the number of substeps is announced", sub.second, g.Substeps());
  vf_check("no surplus substep", g.substeps < g.Substeps());
  if (!vf_bool("substep succeeds")) {
    return Fail(0);
  }
  g.substeps += 1;
  return boost::outcome_v2::success();
}
} // namespace

namespace fub {
// contract of GetTotalRefineRatio, proved by total_refine_ratio
template <>
int SubcycleFineFirstSolver<Integrator<1>>::GetTotalRefineRatio(int fine, int coarse) const {
  vf_check_ieq("relative to the coarsest level", coarse, 0);
  return static_cast<int>(ghost->total[fine]);
}
} // namespace fub

extern "C" {
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype type, MPI_Op op,
                  MPI_Comm comm) {
  vf_check_ieq("reduces one number", n, 1);
  vf_check("reduces a double", type == MPI_DOUBLE);
  vf_check("reduces by the minimum", op == MPI_MIN);
  vf_check("reduces over the communicator of the context", comm == the_comm);
  ghost->local_min = *static_cast<const double*>(in);
  ghost->global_min = vf_real("global stable dt");
  vf_assume(ghost->global_min <= ghost->local_min);
  *static_cast<double*>(out) = ghost->global_min;
  return 0;
}

R vf_contract_subcycle_advance_level(void*, int level, Duration dt, std::pair<int, int> sub) {
  return RecursiveCall(level, dt.count(), sub);
}
R vf_contract_no_subcycle_advance_level(void*, int level, Duration dt) {
  return RecursiveCall(level, dt.count(), {0, ghost->hierarchy ? 1 : ghost->Substeps()});
}
R vf_top_subcycle(SubcycleFineFirstSolver<Integrator<0>>& s, int level, double dt,
                  std::pair<int, int> sub) {
  return s.AdvanceLevel(level, Duration(dt), sub);
}
R vf_top_no_subcycle(NoSubcycleSolver<Integrator<0>>& s, int level, double dt) {
  return s.AdvanceLevel(level, Duration(dt));
}

void vf_harness_subcycle_advance_level() {
  Ghost& g = the_ghost;
  g = Ghost{};
  MakeGhost(g, true);
  SubcycleFineFirstSolver<Integrator<0>> solver{Integrator<0>{}};
  const R result = vf_top_subcycle(solver, g.level, g.dt, g.subcycle);
  CheckResult<SubcycleFineFirstSolver<Integrator<0>>>(result, true);
}

void vf_harness_no_subcycle_advance_level() {
  Ghost& g = the_ghost;
  g = Ghost{};
  MakeGhost(g, false);
  NoSubcycleSolver<Integrator<0>> solver{Integrator<0>{}};
  const R result = vf_top_no_subcycle(solver, g.level, g.dt);
  if (result.has_value()) {
    vf_check("ghost cells are refilled", g.refilled);
  }
  CheckResult<NoSubcycleSolver<Integrator<0>>>(result, false);
}

void vf_harness_subcycle_advance_hierarchy() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.hierarchy = true;
  g.dt = vf_pos("dt");
  g.cycles = static_cast<int>(vf_int("cycles", 0, 1000000));
  g.frequency = static_cast<int>(vf_int("frequency", 1, 1000));
  g.number_of_levels = static_cast<int>(vf_int("levels", 1, 1000));
  SubcycleFineFirstSolver<Integrator<0>> solver{Integrator<0>{}};
  const R result = solver.AdvanceHierarchy(Duration(g.dt));
  vf_check("the coarsest level was advanced", g.advanced);
  if (result.has_value()) {
    vf_check("success is reported only if nothing failed", !g.failed);
    if (g.cycles % g.frequency == 0) {
      vf_check_ieq("ghost cells of all levels are filled", g.filled, g.number_of_levels);
      vf_cover("filled");
    }
    vf_cover("success");
  } else {
    vf_check("failure is reported only if something failed", g.failed);
    vf_check_eq("the failure is handed on", result.error().dt.count(), g.err_dt);
    vf_check_ieq("the failure is handed on (level)", result.error().level, 0);
    vf_cover("failure");
  }
}

void vf_harness_no_subcycle_advance_hierarchy() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.hierarchy = true;
  g.dt = vf_pos("dt");
  NoSubcycleSolver<Integrator<0>> solver{Integrator<0>{}};
  const R result = solver.AdvanceHierarchy(Duration(g.dt));
  vf_check("the coarsest level was advanced", g.advanced);
  if (!result.has_value()) {
    vf_check("failure is reported only if something failed", g.failed);
    vf_check_eq("the failure is handed on", result.error().dt.count(), g.err_dt);
    vf_check_ieq("the failure is handed on (level)", result.error().level, 0);
  } else {
    vf_check("success is reported only if nothing failed", !g.failed);
  }
}

void vf_harness_total_refine_ratio() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.failed = true;
  for (int l = 0; l <= max_level; ++l) {
    g.ratios[l] = static_cast<int>(vf_int("ratio to coarser level", 1, 1000));
  }
  SubcycleFineFirstSolver<Integrator<2>> solver{Integrator<2>{}};
  const int fine = AnyLevel();
  const int coarse = AnyLevel();
  vf_assume(coarse <= fine);
  long expected = 1;
  for (int l = 1; l <= max_level; ++l) {
    if (coarse < l && l <= fine) {
      expected *= g.ratios[l];
    }
  }
  vf_check_ieq("product of the ratios in between", solver.GetTotalRefineRatio(fine, coarse),
               expected);
}

void vf_harness_subcycle_stable_dt() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.hierarchy = true;
  g.number_of_levels = static_cast<int>(vf_int("levels", 1, 1000));
  g.stable = vf_array("stable", 1, g.number_of_levels, 1, 1, 1, 1, 1, 1);
  g.total = vf_iarray("total", 1, g.number_of_levels, 1, 1, 1, 1, 1, 1);
  SubcycleFineFirstSolver<Integrator<1>> solver{Integrator<1>{}};
  const double dt = solver.ComputeStableDt().count();
  const long l = vf_int("some level", 0, 999);
  vf_assume(l < g.number_of_levels);
  vf_check_le("stable on every level", dt, static_cast<int>(g.total[l]) * g.stable[l]);
  vf_check_eq("the minimum over all ranks", dt, g.global_min);
}

void vf_harness_no_subcycle_stable_dt() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.hierarchy = true;
  g.number_of_levels = static_cast<int>(vf_int("levels", 1, 1000));
  g.stable = vf_array("stable", 1, g.number_of_levels, 1, 1, 1, 1, 1, 1);
  NoSubcycleSolver<Integrator<0>> solver{Integrator<0>{}};
  const double dt = solver.ComputeStableDt().count();
  const long l = vf_int("some level", 0, 999);
  vf_assume(l < g.number_of_levels);
  vf_check_le("stable on every level", dt, g.stable[l]);
  vf_check_eq("the minimum over all ranks", dt, g.global_min);
}

// tightness of the minimum, three levels
void vf_harness_subcycle_stable_dt_tight() {
  Ghost& g = the_ghost;
  g = Ghost{};
  g.hierarchy = true;
  g.number_of_levels = 3;
  double stable[3];
  long total[3];
  for (int i = 0; i < 3; ++i) {
    stable[i] = vf_real_in("stable", 0, 1e10);
    total[i] = vf_int("total", 1, 1000);
  }
  g.stable = stable;
  g.total = total;
  SubcycleFineFirstSolver<Integrator<1>> solver{Integrator<1>{}};
  solver.ComputeStableDt();
  bool one = false;
  for (int i = 0; i < 3; ++i) {
    one = one || g.local_min == static_cast<int>(total[i]) * stable[i];
  }
  vf_check("the local minimum is the scaled stable step size of a level", one);
}
}
