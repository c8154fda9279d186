#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include "sim.h"

#include <cstdint>

namespace sim {
namespace internal {

constexpr int kMaxSched = 400000;
constexpr int kMaxChoice = 100000;
constexpr int kMaxFault = 20000;
constexpr int kMaxProbe = 96;

struct SchedRec {
  uint64_t sp;
  int32_t tid;
};
struct ChoiceRec {
  uint64_t idx;
  uint64_t val;
};
struct FaultRec {
  int32_t kind;
  uint64_t idx;
  uint64_t arg;
};

enum Status { kRunning = 0, kOk, kFailed, kError };

/// Lives in memory shared between the worker and the child that runs one
/// simulated execution.
struct Result {
  volatile int status;
  char cls[96];
  char msg[6000];
  uint64_t hash;
  uint64_t ilhash;
  uint64_t sp;
  uint64_t sync_points;
  uint64_t sim_ns;
  uint64_t switches;
  uint64_t threads;
  uint64_t fault_fired[kFaultKinds];
  uint64_t fault_asked[kFaultKinds];
  uint32_t nprobe;
  char probe[kMaxProbe][56];
  uint64_t probe_hits[kMaxProbe];
  uint32_t nsched, nchoice, nfault;
  int overflow;
  ChoiceRec choice[kMaxChoice];
  FaultRec fault[kMaxFault];
  SchedRec sched[kMaxSched];
};

struct RunSpec {
  uint64_t seed = 0;
  bool explicit_schedule = false;
  Plan plan;
  std::vector<SchedRec> sched;
  std::vector<ChoiceRec> choice;
  std::vector<FaultRec> fault;
};

/// Runs one execution in the calling (child) process and _exits.
[[noreturn]] void RunChild(const RunSpec& spec, Result* result);

// Used by fs.cc.
extern int g_active;
int CurrentThread();
bool InSim();        // active, on a simulated thread, not inside the core
void SyncPoint();
struct Core {        // marks "inside the simulator"
  Core();
  ~Core();
};
void SetupCpuLimit();
void CrashNow();
bool Seam();         // InSim() and not inside a Quiet section

/// Blocks the current thread on an object until Wake(obj). Returns false if
/// the deadline (simulated ns, 0 = none) passed.
bool BlockOn(const void* obj, uint64_t deadline);
void WakeAll(const void* obj);
void HbRelease(const void* obj);
void HbAcquire(const void* obj);

}  // namespace internal
}  // namespace sim
#endif
