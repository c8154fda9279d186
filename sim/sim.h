// Deterministic simulator: public interface for the harnesses.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H

#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

/// SplitMix/xorshift PRNG; the only source of randomness in a run.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  /// Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  /// Uniform in [lo, hi].
  int64_t In(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo + 1)));
  }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  bool Chance(double p) { return Unit() < p; }
};

/// One operation of a generated workload. Pure integers, so that it can be
/// written to a replay file and minimised generically.
struct Op {
  int kind = 0;
  std::vector<int64_t> a;
  int64_t Arg(size_t i, int64_t def = 0) const {
    return i < a.size() ? a[i] : def;
  }
};

struct Plan {
  std::map<std::string, int64_t> knobs;
  std::vector<Op> ops;
  int64_t Knob(const std::string& name, int64_t def = 0) const {
    auto it = knobs.find(name);
    return it == knobs.end() ? def : it->second;
  }
  void Add(int kind, std::vector<int64_t> a = {}) {
    Op o;
    o.kind = kind;
    o.a = std::move(a);
    ops.push_back(std::move(o));
  }
};

/// Fault kinds. The seams in core.cc/fs.cc ask ShouldFault() whether a fault
/// fires at this occurrence; a plan enables kinds through knobs
/// "rate_<name>" (chance per occurrence, in 1/10000).
enum FaultKind {
  kSpuriousWakeup = 0,
  kAllocFail,
  kThreadCreateFail,
  kOpenFail,
  kReadShort,
  kReadEintr,
  kReadError,
  kWriteShort,
  kWriteEintr,
  kWriteError,
  kWriteNoSpace,
  kCloseError,
  kSeekError,
  kCrash,
  kRecvShort,
  kRecvEintr,
  kRecvError,
  kPeerClose,
  kConnectFail,
  kLapackFail,
  kClockJump,
  kStallThread,
  kTableWriteError,
  kTableReadError,
  kStepThrow,
  kBitFlip,
  kStatError,
  kReorder,
  kFaultKinds
};
const char* FaultName(int kind);

/// Ends the run: the property is violated.
[[noreturn]] void Fail(const std::string& cls, const std::string& msg);
/// Ends the run: the simulator (not the code) cannot continue. Never counted
/// as a violation.
[[noreturn]] void HarnessError(const std::string& msg);

/// Mixes a value into the event hash of the run (determinism check).
void Event(uint64_t v);
void EventStr(const std::string& s);
void EventDouble(double d);

/// Marks that a rare condition was reached. The name must be a literal.
void Probe(const char* name);

/// True while a run is in progress in this process.
bool Active();

/// Asks whether a fault of kind k fires here. If it does, *arg is a seeded
/// argument (e.g. how many bytes of a short write).
bool ShouldFault(FaultKind k, uint64_t* arg = nullptr);
/// Fault injection only happens between Enable(true) and Enable(false)
/// (default: off, so that oracle and set-up code is never disturbed).
/// The state is per thread group: global for the run.
void EnableFaults(bool on);
/// As EnableFaults, for calls made by the current thread only.
void EnableFaultsHere(bool on);
bool FaultsEnabled();
struct FaultScope {
  FaultScope() { EnableFaults(true); }
  ~FaultScope() { EnableFaults(false); }
};
/// Number of faults of a kind that fired so far in this run.
uint64_t FaultsFired(int kind);
uint64_t TotalFaultsFired();

/// A seeded choice in [0, n), recorded and replayed with the run.
uint64_t Choose(uint64_t n);

/// Preemption point.
void Yield();
/// Simulated clock in nanoseconds since the start of the run.
uint64_t NowNs();
void AdvanceClock(uint64_t ns);
/// Global sequence number of scheduling points; strictly increasing.
uint64_t Seq();
/// Id of the current simulated thread (0 = main).
int Self();
/// Number of threads created and finished in this run so far.
int ThreadsCreated();
int ThreadsAlive();

/// Turns off preemption and race detection for harness bookkeeping.
struct Quiet {
  Quiet();
  ~Quiet();
};
/// Excludes an address range from race detection (memory shared with the
/// oracle).
void ForgetRange(const void* p, size_t n);

/// Runs fn(arg); returns true if a simulated crash ended it early. Must be
/// called on the main simulated thread. Nothing of fn's stack is unwound: as
/// after a real crash, only files survive.
bool RunUntilCrash(void (*fn)(void*), void* arg);
bool Crashable();

/// Returns the interposed-free memory statistics of the run.
uint64_t LiveAllocations();

}  // namespace sim

// Every harness implements these.
extern const char* const kProperty;
void Generate(sim::Plan& plan, sim::Rng& rng);
void Execute(const sim::Plan& plan);
std::string Describe(const sim::Op& op);

#endif
