// vf: sources = src/split_method/GodunovSplitting.cpp src/split_method/StrangSplitting.cpp src/split_method/StrangSplittingLumped.cpp src/ext/Mpi.cpp
// vf: budget = 90
// contract: DimensionalSplitLevelIntegrator::AdvanceLevelNonRecursively: no split step is larger than the stable step size over all ranks; every split step computes fluxes, updates, completes and accumulates exactly once, in order; boundary conditions are refreshed before a direction is used again; a failure reports the stable step size and the level
// contract: DimensionalSplitLevelIntegrator::PreAdvanceLevel: fills the ghost layers of every level that was regridded, coarse to fine, and of the level itself if it is not at the coarse time
// contract: DimensionalSplitLevelIntegrator::ComputeStableDt: minimum over all directions
// assumption: MPI_Allreduce with MPI_MIN returns a value that is at most the local value
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include "vf.hpp"

using namespace fub;
using R = Result<void, TimeStepTooLarge>;

namespace {
struct Step {
  int op;
  double part;
};
const Step godunov1[] = {{0, 1.}};
const Step godunov2[] = {{0, 1.}, {1, 1.}};
const Step godunov3[] = {{0, 1.}, {1, 1.}, {2, 1.}};
const Step strang2[] = {{0, .5}, {1, .5}, {1, .5}, {0, .5}};
const Step strang3[] = {{0, .5}, {1, .5}, {2, .5}, {2, .5}, {1, .5}, {0, .5}};
const Step lumped2[] = {{0, .5}, {1, 1.}, {0, .5}};

MPI_Comm the_comm = MPI_COMM_WORLD;

// Ghost state of one level
struct Ghost {
  const Step* seq;
  int n;
  int rank;
  bool forward;
  int level;
  double dt;
  std::ptrdiff_t cycle;
  int pos = 0;
  int stage = 0; // 0 idle 1 prepared 2 local dt 3 global dt 4 fluxes 5 updated 6 complete
  bool accumulated = false;
  bool used[3] = {false, false, false};
  bool fresh[3] = {true, true, true};
  double global_dt = 0;

  int Dir() const {
    const int k = seq[pos].op;
    return forward ? k : rank - 1 - k;
  }
  double Dt() const { return seq[pos].part * dt; }
};
Ghost* ghost = nullptr;

struct Context {
  std::ptrdiff_t GetCycles(int) const { return ghost->cycle; }
  MPI_Comm GetMpiCommunicator() const { return the_comm; }
  Duration GetTimePoint(int) const { return Duration(0); }
  int GetCounterRegistry() const { return 0; }
  bool LevelExists(int) const { return false; }
  int GetRatioToCoarserLevel(int) const { return 1; }
  int PreAdvanceLevel(int, Duration, std::pair<int, int>) { return 0; }
  void FillGhostLayerSingleLevel(int) {}
  void FillGhostLayerTwoLevels(int, int) {}
  void CoarsenConservatively(int, int) {}
  void CopyDataToScratch(int) {}
  void CopyScratchToData(int) {}
  void ApplyFluxCorrection(int, int, Duration) {}
  void ResetCoarseFineFluxes(int, int) {}

  void ApplyBoundaryCondition(int level, Direction dir) {
    Ghost& g = *ghost;
    vf_check_ieq("boundary condition: level", level, g.level);
    vf_check("boundary condition: between two split steps",
             g.stage <= 1 && g.pos < g.n);
    g.fresh[int(dir)] = true;
  }
  void PreSplitStep(int level, Duration dt, Direction dir, std::pair<int, int> sub) {
    Ghost& g = *ghost;
    vf_check("split step starts after the last one is finished", g.stage == 0);
    vf_check("no surplus split step", g.pos < g.n);
    vf_check_ieq("split step: level", level, g.level);
    vf_check_ieq("split step: direction", int(dir), g.Dir());
    vf_check_eq("split step: size", dt.count(), g.Dt());
    vf_check_ieq("split step: counter", sub.first, g.pos);
    g.stage = 1;
  }
  Duration ComputeStableDt(int level, Direction dir) {
    Ghost& g = *ghost;
    vf_check("stable dt: after preparation", g.stage == 1);
    vf_check_ieq("stable dt: level", level, g.level);
    vf_check_ieq("stable dt: direction", int(dir), g.Dir());
    vf_check("boundary condition refreshed before the direction is used again",
             g.fresh[g.Dir()]);
    g.stage = 2;
    return Duration(vf_real("local stable dt"));
  }
  void ComputeNumericFluxes(int level, Duration dt, Direction dir) {
    Ghost& g = *ghost;
    vf_check("fluxes: after the step size is known", g.stage == 3);
    vf_check_ieq("fluxes: level", level, g.level);
    vf_check_ieq("fluxes: direction", int(dir), g.Dir());
    vf_check_eq("fluxes: step size", dt.count(), g.Dt());
    vf_check_le("no step is larger than the stable step size", dt.count(), g.global_dt);
    g.stage = 4;
  }
  void UpdateConservatively(int level, Duration dt, Direction dir) {
    Ghost& g = *ghost;
    vf_check("update: after the fluxes, once", g.stage == 4);
    vf_check_ieq("update: level", level, g.level);
    vf_check_ieq("update: direction", int(dir), g.Dir());
    vf_check_eq("update: step size", dt.count(), g.Dt());
    g.stage = 5;
  }
  void CompleteFromCons(int level, Duration) {
    Ghost& g = *ghost;
    vf_check("complete: after the update, once", g.stage == 5);
    vf_check_ieq("complete: level", level, g.level);
    g.stage = 6;
    Finish();
  }
  void AccumulateCoarseFineFluxes(int level, double scale, Direction dir) {
    Ghost& g = *ghost;
    vf_check("accumulate: after the fluxes, once", g.stage >= 4 && !g.accumulated);
    vf_check_ieq("accumulate: level", level, g.level);
    vf_check_ieq("accumulate: direction", int(dir), g.Dir());
    vf_check_eq("accumulate: fluxes are weighted by the step size", scale, g.Dt());
    g.accumulated = true;
    Finish();
  }
  void Finish() {
    Ghost& g = *ghost;
    if (g.stage == 6 && g.accumulated) {
      g.fresh[g.Dir()] = false;
      g.stage = 0;
      g.accumulated = false;
      g.pos += 1;
    }
  }
};

template <int Rank, typename Split, std::size_t N>
void Advance(const Step (&seq)[N]) {
  Ghost g{};
  g.seq = seq;
  g.n = N;
  g.rank = Rank;
  g.level = static_cast<int>(vf_int("level", 0, 1000));
  g.dt = vf_pos("dt");
  g.cycle = vf_int("cycle", 0, 2000000000);
  const int sub = static_cast<int>(vf_int("subcycle", 0, 1000));
  const int ratio = static_cast<int>(vf_int("ratio", 1, 1001));
  g.forward = (g.cycle + sub) % 2 == 0;
  ghost = &g;
  DimensionalSplitLevelIntegrator<Rank, Context, Split> integrator{Context{}};
  R result = integrator.AdvanceLevelNonRecursively(g.level, Duration(g.dt), {sub, ratio});
  if (result.has_value()) {
    vf_check_ieq("success: all split steps are done", g.pos, g.n);
    vf_check_ieq("success: the last split step is finished", g.stage, 0);
    vf_cover("success");
  } else {
    vf_check("failure: only after a stable step size was computed", g.pos < g.n && g.stage == 3);
    vf_check_lt("failure: only if the step is larger than the stable step size",
                g.global_dt, g.Dt());
    vf_check_eq("failure: the stable step size is reported", result.error().dt.count(),
                g.global_dt);
    vf_check_ieq("failure: the level is reported", result.error().level, g.level);
    vf_cover("failure");
  }
}

// The step size and regridding contracts use another context
struct Levels {
  int number_of_levels;
  int regrid_level;
  int level;
  double coarse_time;
  double time;
  int next = -1;       // ghost layers of levels [regrid_level, next) are filled
  bool self = false;   // the ghost layer of this level is filled
  double stable[3];
  bool prepared = false;
};
Levels* levels = nullptr;

struct LevelContext : Context {
  int PreAdvanceLevel(int level, Duration, std::pair<int, int>) {
    vf_check_ieq("prepares the level", level, levels->level);
    levels->prepared = true;
    levels->next = levels->regrid_level;
    return levels->regrid_level;
  }
  bool LevelExists(int l) const { return 0 <= l && l < levels->number_of_levels; }
  Duration GetTimePoint(int l) const {
    vf_check("time point of the coarsest level or this level", l == 0 || l == levels->level);
    return Duration(l == 0 ? levels->coarse_time : levels->time);
  }
  void Filled(int l) {
    vf_check("fills existing levels only", LevelExists(l));
    vf_check("fills after preparation", levels->prepared);
    if (l == levels->level) {
      levels->self = true;
    }
    if (l == levels->next) {
      levels->next = l + 1;
    }
  }
  void FillGhostLayerSingleLevel(int l) {
    vf_check_ieq("only the coarsest level is filled on its own", l, 0);
    Filled(l);
  }
  void FillGhostLayerTwoLevels(int fine, int coarse) {
    vf_check_ieq("interpolates from the next coarser level", coarse, fine - 1);
    vf_check("interpolates to a finer level", fine > 0);
    Filled(fine);
  }
  Duration ComputeStableDt(int level, Direction dir) {
    vf_check_ieq("stable dt: level", level, levels->level);
    return Duration(levels->stable[int(dir)]);
  }
};

template <int Rank> void StableDt() {
  Levels l{};
  l.level = static_cast<int>(vf_int("level", 0, 1000));
  l.stable[0] = vf_real("stable0");
  l.stable[1] = vf_real("stable1");
  l.stable[2] = vf_real("stable2");
  for (int d = 0; d < Rank; ++d) {
    vf_assume(l.stable[d] <= 1e300);
  }
  levels = &l;
  DimensionalSplitLevelIntegrator<Rank, LevelContext> integrator{LevelContext{}};
  const double dt = integrator.ComputeStableDt(l.level).count();
  bool one = false;
  for (int d = 0; d < Rank; ++d) {
    vf_check_le("stable in every direction", dt, l.stable[d]);
    one = one || dt == l.stable[d];
  }
  vf_check("the largest such step size", one);
}
} // namespace

extern "C" int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype type, MPI_Op op,
                             MPI_Comm comm) {
  vf_check_ieq("reduces one number", n, 1);
  vf_check("reduces a double", type == MPI_DOUBLE);
  vf_check("reduces by the minimum", op == MPI_MIN);
  vf_check("reduces over the communicator of the context", comm == the_comm);
  const double local = *static_cast<const double*>(in);
  const double m = vf_real("global stable dt");
  vf_assume(m <= local);
  *static_cast<double*>(out) = m;
  vf_check_ieq("reduces the local stable step size", ghost->stage, 2);
  ghost->stage = 3;
  ghost->global_dt = m;
  return 0;
}

extern "C" {
void vf_harness_godunov_1d() { Advance<1, GodunovSplitting>(godunov1); }
void vf_harness_godunov_2d() { Advance<2, GodunovSplitting>(godunov2); }
void vf_harness_godunov_3d() { Advance<3, GodunovSplitting>(godunov3); }
void vf_harness_strang_1d() { Advance<1, StrangSplitting>(godunov1); }
void vf_harness_strang_2d() { Advance<2, StrangSplitting>(strang2); }
void vf_harness_strang_3d() { Advance<3, StrangSplitting>(strang3); }
void vf_harness_lumped_2d() { Advance<2, StrangSplittingLumped>(lumped2); }

void vf_harness_pre_advance_level() {
  Levels l{};
  l.number_of_levels = static_cast<int>(vf_int("number of levels", 1, 1000));
  l.level = static_cast<int>(vf_int("level", 0, 999));
  vf_assume(l.level < l.number_of_levels);
  l.regrid_level = static_cast<int>(vf_int("regrid level", 0, 1000));
  l.coarse_time = vf_real("coarse time");
  l.time = vf_real("time");
  vf_assume(l.level > 0 || l.time == l.coarse_time);
  levels = &l;
  DimensionalSplitLevelIntegrator<2, LevelContext> integrator{LevelContext{}};
  integrator.PreAdvanceLevel(l.level, Duration(vf_real("dt")), {0, 1});
  vf_check("the context prepared the level", l.prepared);
  if (l.regrid_level < l.number_of_levels) {
    vf_check_ieq("all regridded levels are filled", l.next, l.number_of_levels);
    vf_cover("regridded");
  }
  if (l.level < l.regrid_level && l.time != l.coarse_time) {
    vf_check("the level itself is filled if it is not at the coarse time", l.self);
    vf_cover("intermediate");
  }
}
void vf_harness_stable_dt_1d() { StableDt<1>(); }
void vf_harness_stable_dt_2d() { StableDt<2>(); }
void vf_harness_stable_dt_3d() { StableDt<3>(); }
}
