// Deterministic scheduler, interposed threading primitives, simulated clock,
// and a private __tsan_* runtime (preemption points at every memory access of
// the instrumented code + a vector-clock race detector).
//
// This file is compiled WITHOUT instrumentation.
#include "internal.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>
#include <new>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
}

namespace sim {
namespace internal {

int g_active = 0;

static long RawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

constexpr int kMaxThreads = 200;
typedef uint32_t Clk;
struct VC {
  Clk c[kMaxThreads];
};

enum State { kRunnable, kBlocked, kFinished };

struct TlsDtor {
  void (*fn)(void*);
  void* obj;
};

struct Thread {
  int id = -1;
  pthread_t real{};
  std::atomic<int> go{0};
  State state = kRunnable;
  const void* wait_obj = nullptr;
  uint64_t deadline = 0;
  bool timed_out = false;
  bool detached = false;
  bool joined = false;
  int64_t priority = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  VC vc;
  std::vector<TlsDtor>* dtors = nullptr;
};

static Thread* g_thr[kMaxThreads];
static int g_nthr = 0;
static int g_cur = 0;
static int g_unjoined = 0;   // created and not joined
static int g_alive = 0;      // not finished
static __thread int t_id = -1;
static __thread int t_quiet = 0;
static __thread int t_core = 0;

static Result* g_res = nullptr;
static const RunSpec* g_spec = nullptr;
static uint64_t g_sp = 0;
static uint64_t g_next = ~0ULL;
static uint64_t g_cap = 0;
static uint64_t g_sync = 0;
static uint64_t g_clock = 0;
static uint64_t g_hash = 0;
static uint64_t g_ilhash = 0;
static Rng* g_srng = nullptr;   // schedule
static Rng* g_crng = nullptr;   // choices
static Rng* g_frng = nullptr;   // faults
static Rng* g_krng = nullptr;   // clock
static size_t g_sched_pos = 0;
static uint64_t g_choice_idx = 0;
static std::unordered_map<uint64_t, uint64_t>* g_choice_map = nullptr;
static uint64_t g_fault_idx[kFaultKinds];
static uint64_t g_fault_rate[kFaultKinds];  // 1/10000
static uint64_t g_fault_max = 0;
static uint64_t g_fault_total = 0;
static std::unordered_map<uint64_t, uint64_t>* g_fault_map = nullptr;
static bool g_faults_on = false;
static thread_local bool t_faults_on = false;
static int64_t g_live_allocs = 0;

// Strategy of a seeded run.
enum Strategy { kBlockOnly = 0, kRandomSync, kRandomMem, kPct };
static int g_strategy = 0;
static uint64_t g_psync = 0;   // 1/10000
static uint64_t g_pmem_gap = 0;  // mean gap
static int64_t g_low_priority = -1;
static uint64_t g_pct_k = 0;
static int g_pct_left = 0;

Core::Core() { ++t_core; }
Core::~Core() { --t_core; }

int CurrentThread() { return t_id; }
bool Seam() { return g_active && t_id >= 0 && t_core == 0 && t_quiet == 0; }
bool InSim() { return g_active && t_id >= 0 && t_core == 0; }

static void Mix(uint64_t v) {
  g_hash ^= v + 0x9E3779B97F4A7C15ULL + (g_hash << 6) + (g_hash >> 2);
  g_hash *= 0xff51afd7ed558ccdULL;
  g_hash ^= g_hash >> 32;
}
static void MixIl(uint64_t v) {
  g_ilhash ^= v + 0x9E3779B97F4A7C15ULL + (g_ilhash << 6) + (g_ilhash >> 2);
  g_ilhash *= 0xc4ceb9fe1a85ec53ULL;
  g_ilhash ^= g_ilhash >> 29;
}

[[noreturn]] static void Finish(int status, const char* cls, const char* msg) {
  Result* r = g_res;
  r->hash = g_hash;
  r->ilhash = g_ilhash;
  r->sp = g_sp;
  r->sync_points = g_sync;
  r->sim_ns = g_clock;
  r->threads = g_nthr;
  snprintf(r->cls, sizeof r->cls, "%s", cls);
  snprintf(r->msg, sizeof r->msg, "%s", msg);
  r->status = status;
  RawSyscall(SYS_exit_group, status == kOk ? 0 : 1, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static void FutexWait(std::atomic<int>* w) {
  while (w->load(std::memory_order_acquire) == 0)
    RawSyscall(SYS_futex, reinterpret_cast<long>(w), FUTEX_WAIT_PRIVATE, 0, 0,
               0, 0);
  w->store(0, std::memory_order_relaxed);
}
static void FutexGo(std::atomic<int>* w) {
  w->store(1, std::memory_order_release);
  RawSyscall(SYS_futex, reinterpret_cast<long>(w), FUTEX_WAKE_PRIVATE, 1, 0, 0,
             0);
}

static void GapNext() {
  // Position of the next preemption at a memory access.
  if (g_spec->explicit_schedule) {
    while (g_sched_pos < g_spec->sched.size() &&
           g_spec->sched[g_sched_pos].sp <= g_sp)
      ++g_sched_pos;
    g_next = g_sched_pos < g_spec->sched.size()
                 ? g_spec->sched[g_sched_pos].sp
                 : g_cap;
    return;
  }
  if (g_strategy == kRandomMem) {
    // Long runs with many switches would take too much time.
    const uint64_t gap = g_res->switches > 200000 && g_pmem_gap < 5000 ? 5000 : g_pmem_gap;
    g_next = g_sp + 1 + g_srng->Below(2 * gap);
  } else if (g_strategy == kPct && g_pct_left > 0) {
    --g_pct_left;
    g_next = g_sp + 1 + g_srng->Below(g_pct_k);
  } else {
    g_next = g_cap;
  }
  if (g_next > g_cap) g_next = g_cap;
}

static void RecordSwitch(int tid) {
  Result* r = g_res;
  if (r->nsched < kMaxSched) {
    r->sched[r->nsched].sp = g_sp;
    r->sched[r->nsched].tid = tid;
    ++r->nsched;
  } else {
    r->overflow = 1;
  }
}

static jmp_buf g_crash_env;
static bool g_crashable = false;
static bool g_crashed = false;

static void SwitchTo(int to) {
  const int me = g_cur;
  if (to == me) return;
  ++g_res->switches;
  Mix(0x5357 ^ (static_cast<uint64_t>(to) << 20) ^ (g_sp << 32));
  g_cur = to;
  FutexGo(&g_thr[to]->go);
  FutexWait(&g_thr[me]->go);
  if (me == 0 && g_crashed) longjmp(g_crash_env, 1);
}

static void ExpireTimers() {
  for (int i = 0; i < g_nthr; ++i) {
    Thread* t = g_thr[i];
    if (t->state == kBlocked && t->deadline && t->deadline <= g_clock) {
      t->state = kRunnable;
      t->timed_out = true;
      t->deadline = 0;
    }
  }
}

static int Runnables(int* out) {
  int n = 0;
  ExpireTimers();
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i]->state == kRunnable) out[n++] = i;
  return n;
}

static std::string DescribeBlocked() {
  std::string s;
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i]->state == kBlocked) s += " T" + std::to_string(i);
  return s;
}

static int Highest(const int* r, int n) {
  int best = r[0];
  for (int i = 1; i < n; ++i)
    if (g_thr[r[i]]->priority > g_thr[best]->priority) best = r[i];
  return best;
}

// Picks the next thread to run; `blocking` if the current one cannot continue.
static int Pick(bool blocking, bool forced) {
  int r[kMaxThreads];
  int n = Runnables(r);
  if (n == 0) {
    uint64_t best = ~0ULL;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i]->state == kBlocked && g_thr[i]->deadline)
        best = std::min(best, g_thr[i]->deadline);
    if (best == ~0ULL) {
      std::string s = "no thread can run; blocked:" + DescribeBlocked();
      Finish(kFailed, "deadlock", s.c_str());
    }
    g_clock = best;
    n = Runnables(r);
  }
  int def = -1;
  if (!blocking) {
    def = g_cur;
  } else {
    for (int i = 0; i < n; ++i)
      if (r[i] > g_cur) {
        def = r[i];
        break;
      }
    if (def < 0) def = r[0];
  }
  int chosen = def;
  if (g_spec->explicit_schedule) {
    while (g_sched_pos < g_spec->sched.size() &&
           g_spec->sched[g_sched_pos].sp < g_sp)
      ++g_sched_pos;
    if (g_sched_pos < g_spec->sched.size() &&
        g_spec->sched[g_sched_pos].sp == g_sp) {
      const int want = g_spec->sched[g_sched_pos].tid;
      for (int i = 0; i < n; ++i)
        if (r[i] == want) chosen = want;
    }
  } else {
    switch (g_strategy) {
      case kPct:
        chosen = Highest(r, n);
        break;
      default:
        if (blocking || forced) chosen = r[g_srng->Below(n)];
        break;
    }
  }
  if (chosen != def) RecordSwitch(chosen);
  return chosen;
}

static void CheckCap() {
  if (g_sp >= g_cap) {
    Finish(kFailed, "no-progress",
           "the run did not finish within the step budget");
  }
}

static void __attribute__((noinline)) SlowMemPoint() {
  CheckCap();
  Core core;
  if (!g_spec->explicit_schedule && g_strategy == kPct) {
    g_thr[g_cur]->priority = g_low_priority--;
  }
  const int to = Pick(false, true);
  GapNext();
  SwitchTo(to);
}

static inline void MemPoint() {
  ++g_sp;
  if (__builtin_expect(g_sp >= g_next, 0)) SlowMemPoint();
}


void SyncPoint() {
  if (!g_active || t_id < 0 || t_quiet) return;
  Core core;
  ++g_sp;
  ++g_sync;
  MixIl(static_cast<uint64_t>(g_cur) + 1);
  CheckCap();
  g_clock += 10;
  if (g_nthr == 1) {
    if (g_sp >= g_next) GapNext();
    return;
  }
  bool forced = false;
  if (!g_spec->explicit_schedule) {
    if (g_sp >= g_next && g_strategy == kPct)
      g_thr[g_cur]->priority = g_low_priority--;
    forced = (g_sp >= g_next) ||
             (g_strategy != kPct && g_srng->Below(10000) < g_psync);
    if (!forced && g_strategy != kPct) return;
  } else if (g_sp < g_next) {
    return;
  }
  const int to = Pick(false, forced);
  if (g_sp >= g_next) GapNext();
  SwitchTo(to);
}

// The current thread is blocked or finished: run another one.
static void YieldBlocked() {
  ++g_sp;
  ++g_sync;
  MixIl(static_cast<uint64_t>(g_cur) + 1000);
  CheckCap();
  const int to = Pick(true, true);
  if (g_sp >= g_next) GapNext();
  SwitchTo(to);
}

bool BlockOn(const void* obj, uint64_t deadline) {
  Core core;
  Thread* t = g_thr[g_cur];
  t->state = kBlocked;
  t->wait_obj = obj;
  t->deadline = deadline;
  t->timed_out = false;
  YieldBlocked();
  t->wait_obj = nullptr;
  t->deadline = 0;
  return !t->timed_out;
}

static void WakeThread(Thread* t) {
  t->state = kRunnable;
  t->deadline = 0;
}

void WakeAll(const void* obj) {
  ExpireTimers();
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i]->state == kBlocked && g_thr[i]->wait_obj == obj)
      WakeThread(g_thr[i]);
}

// Wakes up to n waiters of obj, seeded choice of whom. Returns the count.
static int WakeSome(const void* obj, int n) {
  int woken = 0;
  ExpireTimers();
  while (woken < n) {
    int w[kMaxThreads], k = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i]->state == kBlocked && g_thr[i]->wait_obj == obj) w[k++] = i;
    if (k == 0) break;
    const int pick = k == 1 ? 0 : static_cast<int>(Choose(k));
    WakeThread(g_thr[w[pick]]);
    ++woken;
  }
  return woken;
}

// ---------------------------------------------------------------- vector clocks

struct SyncVar {
  VC vc;
};
static std::unordered_map<uintptr_t, SyncVar*>* g_syncvars = nullptr;
static std::vector<SyncVar*>* g_syncfree = nullptr;

static SyncVar* GetSync(const void* p) {
  auto& m = *g_syncvars;
  SyncVar*& v = m[reinterpret_cast<uintptr_t>(p)];
  if (!v) {
    if (!g_syncfree->empty()) {
      v = g_syncfree->back();
      g_syncfree->pop_back();
    } else {
      v = static_cast<SyncVar*>(__libc_malloc(sizeof(SyncVar)));
    }
    memset(v, 0, sizeof(SyncVar));
  }
  return v;
}

static inline void Join(VC* a, const VC* b) {
  for (int i = 0; i < g_nthr; ++i)
    if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}

void HbAcquire(const void* p) {
  Core core;
  auto it = g_syncvars->find(reinterpret_cast<uintptr_t>(p));
  if (it != g_syncvars->end()) Join(&g_thr[g_cur]->vc, &it->second->vc);
}
void HbRelease(const void* p) {
  Core core;
  Join(&GetSync(p)->vc, &g_thr[g_cur]->vc);
  ++g_thr[g_cur]->vc.c[g_cur];
}
static void HbReleaseStore(const void* p) {
  Core core;
  SyncVar* v = GetSync(p);
  v->vc = g_thr[g_cur]->vc;
  ++g_thr[g_cur]->vc.c[g_cur];
}

// ---------------------------------------------------------------- shadow memory

struct Cell {
  uint32_t clk;
  uint8_t tid;
  uint8_t mask;   // bytes of the granule
  uint8_t flags;  // 1 write, 2 atomic, 4 valid
  uint8_t pad;
};
struct Granule {
  uint64_t tag;
  Cell cell[4];
  uint32_t pc[4];
  uint64_t pad;
};
constexpr uint64_t kGranules = 1 << 18;
static Granule* g_shadow = nullptr;
static uintptr_t g_pc_base = 0;

extern "C" char __executable_start;

static const char* Symbol(uintptr_t pc, char* buf, size_t n) {
  Dl_info info;
  if (dladdr(reinterpret_cast<void*>(pc), &info) && info.dli_sname) {
    int st = 0;
    Core core;
    char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, n, "%s", d ? d : info.dli_sname);
  } else {
    snprintf(buf, n, "pc+0x%lx", static_cast<unsigned long>(pc - g_pc_base));
  }
  return buf;
}

static void __attribute__((noinline))
ReportRace(uintptr_t pc, bool write, const Cell& old, uint32_t oldpc) {
  Core core;
  char a[1500], b[1500];
  char msg[4000];
  Symbol(pc, a, sizeof a);
  Symbol(g_pc_base + oldpc, b, sizeof b);
  snprintf(msg, sizeof msg,
           "unordered %s by T%d in [%s] and %s by T%d in [%s]",
           write ? "write" : "read", g_cur, a, (old.flags & 1) ? "write" : "read",
           old.tid, b);
  Finish(kFailed, "data-race", msg);
}

static int g_race_on = 1;

static inline void Touch(uintptr_t addr, unsigned size, bool write, bool atomic,
                         uintptr_t pc) {
  // addr..addr+size within one granule.
  const uint64_t gaddr = addr >> 3;
  Granule* g = &g_shadow[gaddr & (kGranules - 1)];
  const uint8_t mask =
      static_cast<uint8_t>(((1u << size) - 1) << (addr & 7));
  if (g->tag != gaddr + 1) {
    g->tag = gaddr + 1;
    for (auto& c : g->cell) c.flags = 0;
  }
  Thread* t = g_thr[g_cur];
  const uint8_t fl = 4 | (write ? 1 : 0) | (atomic ? 2 : 0);
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& c = g->cell[i];
    if (!(c.flags & 4)) {
      if (slot < 0) slot = i;
      continue;
    }
    if (c.tid == g_cur) {
      // Own access: reuse the slot if it is not stronger than this one.
      if (c.mask == mask && (c.flags & 3) == (fl & 3)) slot = i;
      else if ((c.mask & mask) == c.mask && (write || !(c.flags & 1)) &&
               (!atomic || (c.flags & 2)))
        slot = i;
      continue;
    }
    if (!(c.mask & mask)) continue;
    if (!write && !(c.flags & 1)) continue;
    if (atomic && (c.flags & 2)) continue;
    if (c.clk <= t->vc.c[c.tid]) {
      // Ordered before us: may be replaced by a write of the same bytes.
      if (write && (c.mask & mask) == c.mask && slot < 0) slot = i;
      continue;
    }
    if (g_race_on) ReportRace(pc, write, c, g->pc[i]);
  }
  if (slot < 0) slot = static_cast<int>((g_sp ^ (gaddr * 7)) & 3);
  Cell& c = g->cell[slot];
  c.clk = t->vc.c[g_cur];
  c.tid = static_cast<uint8_t>(g_cur);
  c.mask = mask;
  c.flags = fl;
  g->pc[slot] = static_cast<uint32_t>(pc - g_pc_base);
}

static inline void Access(const void* p, unsigned size, bool write, bool atomic,
                          uintptr_t pc) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  while (size) {
    const unsigned room = 8 - (a & 7);
    const unsigned n = size < room ? size : room;
    Touch(a, n, write, atomic, pc);
    a += n;
    size -= n;
  }
}

static void ClearShadow(const void* p, size_t n) {
  if (!g_shadow || n == 0) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  const uintptr_t first = a >> 3, last = (a + n - 1) >> 3;
  if (last - first >= kGranules) {
    for (uint64_t i = 0; i < kGranules; ++i) g_shadow[i].tag = 0;
    return;
  }
  for (uintptr_t g = first; g <= last; ++g) {
    Granule* gr = &g_shadow[g & (kGranules - 1)];
    if (gr->tag == g + 1) gr->tag = 0;
  }
}

static inline bool Hooked() { return g_active && t_id >= 0 && !t_quiet && !t_core; }

static inline void Plain(const void* p, unsigned size, bool write,
                         uintptr_t pc) {
  if (!Hooked()) return;
  if (g_unjoined == 0) {
    ++g_sp;
    if (__builtin_expect(g_sp >= g_next, 0)) {
      CheckCap();
      GapNext();
    }
    return;
  }
  MemPoint();
  Access(p, size, write, false, pc);
}

// ---------------------------------------------------------------- mutex tables

struct MutexState {
  int owner = -1;
  int count = 0;
};
static std::unordered_map<uintptr_t, MutexState>* g_mutexes = nullptr;
struct RwState {
  int writer = -1;
  int readers = 0;
};
static std::unordered_map<uintptr_t, RwState>* g_rw = nullptr;
struct OnceState {
  int st = 0;  // 0 none 1 busy 2 done
};
static std::unordered_map<uintptr_t, OnceState>* g_once = nullptr;
static std::unordered_map<uintptr_t, int>* g_guard = nullptr;
struct BarrierState {
  unsigned count = 0, arrived = 0;
  uint64_t gen = 0;
};
static std::unordered_map<uintptr_t, BarrierState>* g_barrier = nullptr;

template <class F>
static F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

static void MutexLock(void* m, bool recursive) {
  const uintptr_t key = reinterpret_cast<uintptr_t>(m);
  for (;;) {
    {
      Core core;
      MutexState& s = (*g_mutexes)[key];
      if (s.owner == -1) {
        s.owner = g_cur;
        s.count = 1;
        break;
      }
      if (s.owner == g_cur && recursive) {
        ++s.count;
        return;
      }
    }
    BlockOn(m, 0);
  }
  HbAcquire(m);
}
static bool MutexTryLock(void* m, bool recursive) {
  Core core;
  MutexState& s = (*g_mutexes)[reinterpret_cast<uintptr_t>(m)];
  if (s.owner == -1) {
    s.owner = g_cur;
    s.count = 1;
    HbAcquire(m);
    return true;
  }
  if (s.owner == g_cur && recursive) {
    ++s.count;
    return true;
  }
  return false;
}
static void MutexUnlock(void* m) {
  Core core;
  MutexState& s = (*g_mutexes)[reinterpret_cast<uintptr_t>(m)];
  if (s.count > 1) {
    --s.count;
    return;
  }
  HbRelease(m);
  s.owner = -1;
  s.count = 0;
  WakeAll(m);
}

static void* Trampoline(void* p) {
  Thread* t = static_cast<Thread*>(p);
  t_id = t->id;
  FutexWait(&t->go);
  t->ret = t->fn(t->arg);
  // Thread-local destructors, under the scheduler's control.
  while (t->dtors && !t->dtors->empty()) {
    TlsDtor d = t->dtors->back();
    t->dtors->pop_back();
    d.fn(d.obj);
  }
  {
    Core core;
    HbRelease(t);
    t->state = kFinished;
    --g_alive;
    if (t->detached) { /* stays counted as unjoined: no ordering */
    }
    WakeAll(t);
    ++g_sp;
    ++g_sync;
    MixIl(static_cast<uint64_t>(g_cur) + 2000);
    const int to = Pick(true, true);
    if (g_sp >= g_next) GapNext();
    ++g_res->switches;
    Mix(0x5358 ^ (static_cast<uint64_t>(to) << 20));
    g_cur = to;
    FutexGo(&g_thr[to]->go);
  }
  // Parked for ever: the child process ends with exit_group.
  for (;;) RawSyscall(SYS_pause, 0, 0, 0, 0, 0, 0);
  return nullptr;
}

static Thread* NewThread() {
  if (g_nthr >= kMaxThreads)
    Finish(kError, "harness", "too many simulated threads");
  Thread* t = new (__libc_calloc(1, sizeof(Thread))) Thread();
  t->id = g_nthr;
  memset(&t->vc, 0, sizeof t->vc);
  t->vc.c[t->id] = 1;
  t->dtors = new std::vector<TlsDtor>();
  g_thr[g_nthr++] = t;
  ++g_alive;
  return t;
}

static void OnTerminate() {
  const char* what = "unknown exception";
  static char buf[900];
  if (std::exception_ptr e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (const std::exception& x) {
      snprintf(buf, sizeof buf, "std::terminate: %s", x.what());
      what = buf;
    } catch (...) {
      what = "std::terminate: non-std exception";
    }
  } else {
    what = "std::terminate without exception";
  }
  Finish(kFailed, "crash-terminate", what);
}

static void OnSignal(int sig, siginfo_t*, void*) {
  char m[64];
  const bool core = t_core > 0;
  snprintf(m, sizeof m, "signal %d on T%d%s", sig, t_id,
           core ? " (inside the simulator)" : "");
  if (sig == SIGXCPU || sig == SIGPROF)
    Finish(kFailed, "no-progress-cpu", "the run exceeded its CPU budget");
  char cls[32];
  snprintf(cls, sizeof cls, "crash-signal-%d", sig);
  Finish(kFailed, cls, m);
}

// Ends every simulated thread at this instant and continues after
// RunUntilCrash() on the main thread. Only what reached the (simulated) disk
// survives.
void CrashNow() {
  if (!g_crashable) return;
  g_crashed = true;
  g_faults_on = false;
  t_faults_on = false;
  Mix(0xdead);
  {
    ++t_core;
    for (int i = 1; i < g_nthr; ++i) {
      if (g_thr[i]->state != kFinished) {
        g_thr[i]->state = kFinished;
        --g_alive;
      }
      if (!g_thr[i]->joined) {
        g_thr[i]->joined = true;
        --g_unjoined;
      }
      Join(&g_thr[0]->vc, &g_thr[i]->vc);
    }
    g_mutexes->clear();
    g_rw->clear();
    g_guard->clear();
    g_thr[0]->state = kRunnable;
    g_thr[0]->deadline = 0;
    --t_core;
  }
  if (t_id == 0) longjmp(g_crash_env, 1);
  g_cur = 0;
  FutexGo(&g_thr[0]->go);
  for (;;) RawSyscall(SYS_pause, 0, 0, 0, 0, 0, 0);
}

void SetupCpuLimit() {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 25;
  RawSyscall(SYS_setitimer, ITIMER_PROF, reinterpret_cast<long>(&it), 0, 0, 0,
             0);
}

void RunChild(const RunSpec& spec, Result* result) {
  mallopt(M_ARENA_MAX, 1);
  g_res = result;
  g_spec = &spec;
  g_pc_base = reinterpret_cast<uintptr_t>(&__executable_start);
  g_shadow = static_cast<Granule*>(mmap(nullptr, kGranules * sizeof(Granule),
                                        PROT_READ | PROT_WRITE,
                                        MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  static Rng srng(0), crng(0), frng(0), krng(0);
  srng = Rng(spec.seed ^ 0x1111);
  crng = Rng(spec.seed ^ 0x2222);
  frng = Rng(spec.seed ^ 0x3333);
  krng = Rng(spec.seed ^ 0x4444);
  g_srng = &srng;
  g_crng = &crng;
  g_frng = &frng;
  g_krng = &krng;
  g_syncvars = new std::unordered_map<uintptr_t, SyncVar*>();
  g_syncfree = new std::vector<SyncVar*>();
  g_mutexes = new std::unordered_map<uintptr_t, MutexState>();
  g_rw = new std::unordered_map<uintptr_t, RwState>();
  g_once = new std::unordered_map<uintptr_t, OnceState>();
  g_guard = new std::unordered_map<uintptr_t, int>();
  g_barrier = new std::unordered_map<uintptr_t, BarrierState>();
  g_choice_map = new std::unordered_map<uint64_t, uint64_t>();
  g_fault_map = new std::unordered_map<uint64_t, uint64_t>();
  for (const auto& c : spec.choice) (*g_choice_map)[c.idx] = c.val;
  for (const auto& f : spec.fault)
    (*g_fault_map)[(static_cast<uint64_t>(f.kind) << 48) | f.idx] = f.arg;
  for (int k = 0; k < kFaultKinds; ++k)
    g_fault_rate[k] = spec.plan.Knob(std::string("rate_") + FaultName(k), 0);
  g_fault_max = spec.plan.Knob("max_faults", 1000000);
  g_cap = spec.plan.Knob("max_steps", 30000000);
  g_race_on = spec.plan.Knob("races", 1) != 0;
  g_clock = 1000000000ULL * 1000;
  g_hash = 0x1234;

  // Strategy of this run, from the seed (swarm).
  const uint64_t pick = srng.Below(100);
  g_psync = 0;
  if (pick < 10) {
    g_strategy = kBlockOnly;
  } else if (pick < 40) {
    g_strategy = kRandomSync;
    static const uint64_t ps[] = {200, 1000, 2500, 5000};
    g_psync = ps[srng.Below(4)];
  } else if (pick < 70) {
    g_strategy = kRandomMem;
    static const uint64_t gaps[] = {8, 30, 120, 600, 4000};
    g_pmem_gap = gaps[srng.Below(5)];
    static const uint64_t ps[] = {0, 300, 3000};
    g_psync = ps[srng.Below(3)];
  } else {
    g_strategy = kPct;
    g_pct_left = static_cast<int>(srng.Below(5));
    g_pct_k = 1ULL << (5 + srng.Below(14));
  }
  if (spec.plan.Knob("strategy", -1) >= 0)
    g_strategy = static_cast<int>(spec.plan.Knob("strategy"));

  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  static char altstack[65536];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGXCPU, SIGPROF, SIGPIPE})
    sigaction(s, &sa, nullptr);
  std::set_terminate(OnTerminate);
  SetupCpuLimit();

  Thread* main_thread = NewThread();
  t_id = 0;
  g_cur = 0;
  main_thread->priority = static_cast<int64_t>(srng.Below(1000000)) + 1;
  g_next = g_cap;
  GapNext();
  g_active = 1;
  try {
    Execute(spec.plan);
  } catch (const std::exception& e) {
    std::string m = std::string("escaped exception: ") + e.what();
    Finish(kFailed, "escaped-exception", m.c_str());
  }
  g_active = 0;
  Finish(kOk, "", "");
}

}  // namespace internal

using namespace internal;

static const char* const kFaultNames[] = {
    "spurious_wakeup", "alloc_fail",   "thread_create_fail",
    "open_fail",       "read_short",   "read_eintr",
    "read_error",      "write_short",  "write_eintr",
    "write_error",     "write_nospace", "close_error",
    "seek_error",      "crash",        "recv_short",
    "recv_eintr",      "recv_error",   "peer_close",
    "connect_fail",    "lapack_fail",  "clock_jump",
    "stall_thread",    "table_write_error", "table_read_error",
    "step_throw",      "bit_flip",     "stat_error", "reorder"};

const char* FaultName(int kind) { return kFaultNames[kind]; }

void Fail(const std::string& cls, const std::string& msg) {
  Finish(kFailed, cls.c_str(), msg.c_str());
}
void HarnessError(const std::string& msg) {
  Finish(kError, "harness", msg.c_str());
}
void Event(uint64_t v) { Mix(v); }
void EventStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  Mix(h);
}
void EventDouble(double d) {
  uint64_t v;
  memcpy(&v, &d, 8);
  Mix(v);
}
void Probe(const char* name) {
  Core core;
  Result* r = g_res;
  if (!r) return;
  for (uint32_t i = 0; i < r->nprobe; ++i)
    if (!strcmp(r->probe[i], name)) {
      ++r->probe_hits[i];
      return;
    }
  if (r->nprobe < kMaxProbe) {
    snprintf(r->probe[r->nprobe], sizeof r->probe[0], "%s", name);
    r->probe_hits[r->nprobe++] = 1;
  }
}
bool Active() { return g_active; }

bool ShouldFault(FaultKind k, uint64_t* arg) {
  if (!g_active || t_id < 0) return false;
  if (!g_faults_on && !t_faults_on && k != kSpuriousWakeup) return false;
  Core core;
  const uint64_t idx = g_fault_idx[k]++;
  ++g_res->fault_asked[k];
  bool fire = false;
  uint64_t a = 0;
  if (g_spec->explicit_schedule) {
    auto it = g_fault_map->find((static_cast<uint64_t>(k) << 48) | idx);
    if (it != g_fault_map->end()) {
      fire = true;
      a = it->second;
    }
  } else if (g_fault_rate[k] && g_fault_total < g_fault_max) {
    fire = g_frng->Below(10000) < g_fault_rate[k];
    if (fire) a = g_frng->Next() >> 16;
  }
  if (fire) {
    ++g_fault_total;
    ++g_res->fault_fired[k];
    if (g_res->nfault < kMaxFault) {
      FaultRec& f = g_res->fault[g_res->nfault++];
      f.kind = k;
      f.idx = idx;
      f.arg = a;
    } else {
      g_res->overflow = 1;
    }
    Mix(0x4641 ^ (static_cast<uint64_t>(k) << 16) ^ (idx << 24) ^ a);
    if (arg) *arg = a;
  }
  return fire;
}
void EnableFaults(bool on) { g_faults_on = on; }
void EnableFaultsHere(bool on) { t_faults_on = on; }
bool FaultsEnabled() { return g_faults_on || t_faults_on; }
uint64_t FaultsFired(int kind) { return g_res->fault_fired[kind]; }
uint64_t TotalFaultsFired() { return g_fault_total; }

uint64_t Choose(uint64_t n) {
  Core core;
  const uint64_t idx = g_choice_idx++;
  uint64_t v = 0;
  if (g_spec->explicit_schedule) {
    auto it = g_choice_map->find(idx);
    if (it != g_choice_map->end()) v = it->second % n;
  } else {
    v = g_crng->Below(n);
  }
  if (v != 0) {
    if (g_res->nchoice < kMaxChoice) {
      g_res->choice[g_res->nchoice].idx = idx;
      g_res->choice[g_res->nchoice].val = v;
      ++g_res->nchoice;
    } else {
      g_res->overflow = 1;
    }
  }
  Mix(0x4348 ^ (v << 16));
  return v;
}
bool RunUntilCrash(void (*fn)(void*), void* arg) {
  if (setjmp(g_crash_env)) {
    t_core = 0;
    t_quiet = 0;
    g_crashable = false;
    g_crashed = false;
    return true;
  }
  g_crashable = true;
  fn(arg);
  g_crashable = false;
  return false;
}
bool Crashable() { return g_crashable; }
void Yield() { SyncPoint(); }
uint64_t NowNs() { return g_clock; }
void AdvanceClock(uint64_t ns) { g_clock += ns; }
uint64_t Seq() { return ++g_sp; }
int Self() { return t_id; }
int ThreadsCreated() { return g_nthr; }
int ThreadsAlive() { return g_alive; }
Quiet::Quiet() { ++t_quiet; }
Quiet::~Quiet() { --t_quiet; }
void ForgetRange(const void* p, size_t n) { ClearShadow(p, n); }
uint64_t LiveAllocations() { return static_cast<uint64_t>(g_live_allocs); }

}  // namespace sim

using namespace sim;
using namespace sim::internal;

// ============================================================ interposed: pthread
extern "C" {

#define INSIM() (g_active && t_id >= 0 && t_core == 0)

int pthread_create(pthread_t* out, const pthread_attr_t* attr,
                   void* (*fn)(void*), void* arg) {
  static auto real = Real<int (*)(pthread_t*, const pthread_attr_t*,
                                  void* (*)(void*), void*)>("pthread_create");
  if (!INSIM()) return real(out, attr, fn, arg);
  if (ShouldFault(kThreadCreateFail)) return EAGAIN;
  Thread* t;
  {
    Core core;
    t = NewThread();
    t->fn = fn;
    t->arg = arg;
    t->priority = static_cast<int64_t>(g_srng->Below(1000000)) + 1;
    if (attr) {
      int ds = 0;
      pthread_attr_getdetachstate(attr, &ds);
      t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    Join(&t->vc, &g_thr[g_cur]->vc);
    t->vc.c[t->id] = 1;
    ++g_thr[g_cur]->vc.c[g_cur];
    ++g_unjoined;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    if (real(&t->real, &a, Trampoline, t) != 0)
      Finish(kError, "harness", "cannot create a thread");
    *out = t->real;
  }
  SyncPoint();
  return 0;
}

static Thread* FindThread(pthread_t p) {
  for (int i = 0; i < g_nthr; ++i)
    if (i && pthread_equal(g_thr[i]->real, p) && !g_thr[i]->joined)
      return g_thr[i];
  return nullptr;
}

int pthread_join(pthread_t p, void** ret) {
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (!INSIM()) return real(p, ret);
  SyncPoint();
  Thread* t = FindThread(p);
  if (!t) return ESRCH;
  if (t->id == g_cur) return EDEADLK;
  while (t->state != kFinished) BlockOn(t, 0);
  HbAcquire(t);
  t->joined = true;
  --g_unjoined;
  if (ret) *ret = t->ret;
  return 0;
}

int pthread_detach(pthread_t p) {
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  if (!INSIM()) return real(p);
  if (Thread* t = FindThread(p)) t->detached = true;
  return 0;
}

static bool IsRecursive(pthread_mutex_t* m) {
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!INSIM()) return g_active && t_id >= 0 ? 0 : real(m);
  SyncPoint();
  MutexLock(m, IsRecursive(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!INSIM()) return g_active && t_id >= 0 ? 0 : real(m);
  SyncPoint();
  return MutexTryLock(m, IsRecursive(m)) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!INSIM()) return g_active && t_id >= 0 ? 0 : real(m);
  MutexUnlock(m);
  SyncPoint();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  if (!INSIM()) return real(m);
  Core core;
  g_mutexes->erase(reinterpret_cast<uintptr_t>(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
  return pthread_mutex_lock(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t,
                            const struct timespec*) {
  return pthread_mutex_lock(m);
}

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  SyncPoint();
  const bool spurious = ShouldFault(kSpuriousWakeup);
  bool ok = true;
  if (spurious) {
    MutexUnlock(m);
    SyncPoint();
  } else {
    {
      // Atomically release the mutex and start waiting.
      Core core;
      MutexUnlock(m);
    }
    ok = BlockOn(c, deadline);
  }
  MutexLock(m, IsRecursive(m));
  return ok ? 0 : ETIMEDOUT;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>(
      "pthread_cond_wait");
  if (!INSIM()) return real(c, m);
  return CondWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts) {
  static auto real =
      Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
          "pthread_cond_timedwait");
  if (!INSIM()) return real(c, m, ts);
  return CondWait(c, m, ts->tv_sec * 1000000000ULL + ts->tv_nsec + 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id,
                           const struct timespec* ts) {
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                  const struct timespec*)>(
      "pthread_cond_clockwait");
  if (!INSIM()) return real(c, m, id, ts);
  return CondWait(c, m, ts->tv_sec * 1000000000ULL + ts->tv_nsec + 1);
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!INSIM()) return real(c);
  {
    Core core;
    WakeSome(c, 1);
  }
  SyncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!INSIM()) return real(c);
  WakeAll(c);
  SyncPoint();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (!INSIM()) return real(c);
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!INSIM()) return real(l);
  SyncPoint();
  for (;;) {
    {
      Core core;
      RwState& s = (*g_rw)[reinterpret_cast<uintptr_t>(l)];
      if (s.writer == -1) {
        ++s.readers;
        break;
      }
    }
    BlockOn(l, 0);
  }
  HbAcquire(l);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  static auto real =
      Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  if (!INSIM()) return real(l);
  SyncPoint();
  Core core;
  RwState& s = (*g_rw)[reinterpret_cast<uintptr_t>(l)];
  if (s.writer != -1) return EBUSY;
  ++s.readers;
  HbAcquire(l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!INSIM()) return real(l);
  SyncPoint();
  for (;;) {
    {
      Core core;
      RwState& s = (*g_rw)[reinterpret_cast<uintptr_t>(l)];
      if (s.writer == -1 && s.readers == 0) {
        s.writer = g_cur;
        break;
      }
    }
    BlockOn(l, 0);
  }
  // Ordered after previous readers and writers.
  HbAcquire(l);
  HbAcquire(reinterpret_cast<char*>(l) + 1);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  static auto real =
      Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  if (!INSIM()) return real(l);
  SyncPoint();
  Core core;
  RwState& s = (*g_rw)[reinterpret_cast<uintptr_t>(l)];
  if (s.writer != -1 || s.readers) return EBUSY;
  s.writer = g_cur;
  HbAcquire(l);
  HbAcquire(reinterpret_cast<char*>(l) + 1);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!INSIM()) return real(l);
  {
    Core core;
    RwState& s = (*g_rw)[reinterpret_cast<uintptr_t>(l)];
    if (s.writer == g_cur) {
      HbRelease(l);
      s.writer = -1;
    } else {
      HbRelease(reinterpret_cast<char*>(l) + 1);
      if (s.readers) --s.readers;
    }
    WakeAll(l);
  }
  SyncPoint();
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  static auto real =
      Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!INSIM()) return real(o, fn);
  const uintptr_t key = reinterpret_cast<uintptr_t>(o);
  SyncPoint();
  if (*o == 2) return 0;  // done before the run started
  for (;;) {
    int st;
    {
      Core core;
      OnceState& s = (*g_once)[key];
      st = s.st;
      if (st == 0) s.st = 1;
    }
    if (st == 2) {
      HbAcquire(o);
      return 0;
    }
    if (st == 0) break;
    BlockOn(o, 0);
  }
  try {
    fn();
  } catch (...) {
    {
      Core core;
      (*g_once)[key].st = 0;
      WakeAll(o);
    }
    throw;
  }
  HbRelease(o);
  {
    Core core;
    (*g_once)[key].st = 2;
    WakeAll(o);
  }
  SyncPoint();
  return 0;
}

int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a,
                         unsigned n) {
  static auto real = Real<int (*)(pthread_barrier_t*,
                                  const pthread_barrierattr_t*, unsigned)>(
      "pthread_barrier_init");
  if (!INSIM()) return real(b, a, n);
  Core core;
  (*g_barrier)[reinterpret_cast<uintptr_t>(b)] = BarrierState{n, 0, 0};
  return 0;
}
int pthread_barrier_wait(pthread_barrier_t* b) {
  static auto real = Real<int (*)(pthread_barrier_t*)>("pthread_barrier_wait");
  if (!INSIM()) return real(b);
  SyncPoint();
  HbRelease(b);
  uint64_t gen;
  bool last;
  {
    Core core;
    BarrierState& s = (*g_barrier)[reinterpret_cast<uintptr_t>(b)];
    gen = s.gen;
    last = ++s.arrived == s.count;
    if (last) {
      s.arrived = 0;
      ++s.gen;
      WakeAll(b);
    }
  }
  while (!last) {
    {
      Core core;
      if ((*g_barrier)[reinterpret_cast<uintptr_t>(b)].gen != gen) break;
    }
    BlockOn(b, 0);
  }
  HbAcquire(b);
  return last ? PTHREAD_BARRIER_SERIAL_THREAD : 0;
}

// POSIX semaphores: value kept in the first word.
int sem_wait(sem_t* s) {
  static auto real = Real<int (*)(sem_t*)>("sem_wait");
  if (!INSIM()) return real(s);
  SyncPoint();
  unsigned* v = reinterpret_cast<unsigned*>(s);
  while (*v == 0) BlockOn(s, 0);
  --*v;
  HbAcquire(s);
  return 0;
}
int sem_trywait(sem_t* s) {
  static auto real = Real<int (*)(sem_t*)>("sem_trywait");
  if (!INSIM()) return real(s);
  SyncPoint();
  unsigned* v = reinterpret_cast<unsigned*>(s);
  if (*v == 0) {
    errno = EAGAIN;
    return -1;
  }
  --*v;
  HbAcquire(s);
  return 0;
}
int sem_post(sem_t* s) {
  static auto real = Real<int (*)(sem_t*)>("sem_post");
  if (!INSIM()) return real(s);
  HbRelease(s);
  ++*reinterpret_cast<unsigned*>(s);
  WakeAll(s);
  SyncPoint();
  return 0;
}

int sched_yield() {
  static auto real = Real<int (*)()>("sched_yield");
  if (!INSIM()) return real();
  // A yielding thread lets others run: needed for progress of spin loops.
  Core core;
  ++g_sp;
  CheckCap();
  g_clock += 1000;
  int r[kMaxThreads];
  const int n = Runnables(r);
  if (n > 1) {
    const uint64_t k = Choose(n);
    if (g_sp >= g_next) GapNext();
    SwitchTo(r[k]);
  }
  return 0;
}

// ------------------------------------------------------------------ futex
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
       d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && INSIM()) {
    const int op = static_cast<int>(b) & 127;
    int* addr = reinterpret_cast<int*>(a);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      SyncPoint();
      if (*addr != static_cast<int>(c)) {
        errno = EAGAIN;
        return -1;
      }
      uint64_t deadline = 0;
      const struct timespec* ts = reinterpret_cast<const struct timespec*>(d);
      if (ts) {
        deadline = ts->tv_sec * 1000000000ULL + ts->tv_nsec + 1;
        if (op == FUTEX_WAIT) deadline += g_clock;
      }
      if (!BlockOn(addr, deadline)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int woken;
      {
        Core core;
        woken = WakeSome(addr, static_cast<int>(c));
      }
      SyncPoint();
      return woken;
    }
  }
  long r = RawSyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// ------------------------------------------------------------------ clocks
constexpr uint64_t kEpochNs = 1700000000ULL * 1000000000ULL;
static int64_t g_wall_offset = 0;
static bool WallClock(clockid_t id) {
  return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
}
static uint64_t ReadClock() {
  Core core;
  g_clock += 1 + g_krng->Below(2000);
  uint64_t a;
  // The machine stalls: all clocks advance. The wall clock is set: it jumps
  // forward or back by up to two hours, the monotonic clock does not notice.
  if (ShouldFault(kStallThread, &a)) g_clock += a % 3600000000000ULL;
  if (ShouldFault(kClockJump, &a))
    g_wall_offset += static_cast<int64_t>(a % 14400000000000ULL) - 7200000000000LL;
  return g_clock;
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!(g_active && t_id >= 0)) {
    long r = RawSyscall(SYS_clock_gettime, id, reinterpret_cast<long>(ts), 0, 0,
                        0, 0);
    if (r < 0) {
      errno = static_cast<int>(-r);
      return -1;
    }
    return 0;
  }
  uint64_t t = ReadClock();
  if (WallClock(id)) t += kEpochNs + g_wall_offset;
  // Only part of the elapsed time is spent on the processor.
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) t = t / 3;
  ts->tv_sec = t / 1000000000ULL;
  ts->tv_nsec = t % 1000000000ULL;
  return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock() noexcept {
  if (!(g_active && t_id >= 0)) {
    struct timespec ts;
    RawSyscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID,
               reinterpret_cast<long>(&ts), 0, 0, 0, 0);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
  }
  return static_cast<clock_t>(ReadClock() / 3000);
}
clock_t times(struct tms* t) noexcept {
  const uint64_t c = g_active && t_id >= 0 ? ReadClock() / 10000000ULL : 0;
  if (t) {
    t->tms_utime = c / 2;
    t->tms_stime = c / 4;
    t->tms_cutime = t->tms_cstime = 0;
  }
  return c;
}
static int SleepNs(uint64_t ns) {
  SyncPoint();
  static char never;
  BlockOn(&never, g_clock + ns + 1);
  return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!INSIM())
    return static_cast<int>(RawSyscall(SYS_nanosleep, reinterpret_cast<long>(a),
                                       reinterpret_cast<long>(b), 0, 0, 0, 0));
  return SleepNs(a->tv_sec * 1000000000ULL + a->tv_nsec);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* a,
                    struct timespec* b) {
  if (!INSIM())
    return -static_cast<int>(RawSyscall(SYS_clock_nanosleep, id, fl,
                                       reinterpret_cast<long>(a),
                                       reinterpret_cast<long>(b), 0, 0));
  uint64_t ns = a->tv_sec * 1000000000ULL + a->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    if (WallClock(id)) ns -= kEpochNs + g_wall_offset;
    ns = ns > g_clock ? ns - g_clock : 0;
  }
  return SleepNs(ns);
}
int usleep(useconds_t us) {
  struct timespec ts = {static_cast<time_t>(us / 1000000),
                        static_cast<long>(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {static_cast<time_t>(s), 0};
  nanosleep(&ts, nullptr);
  return 0;
}

// ------------------------------------------------------------------ statics
int __cxa_guard_acquire(long long int* g) {
  char* done = reinterpret_cast<char*>(g);
  if (!INSIM()) return *done ? 0 : 1;
  SyncPoint();
  for (;;) {
    if (*done) {
      HbAcquire(g);
      return 0;
    }
    {
      Core core;
      int& s = (*g_guard)[reinterpret_cast<uintptr_t>(g)];
      if (s == 0) {
        s = g_cur + 1;
        return 1;
      }
    }
    BlockOn(g, 0);
  }
}
void __cxa_guard_release(long long int* g) {
  if (!INSIM()) {
    *reinterpret_cast<char*>(g) = 1;
    return;
  }
  HbRelease(g);
  *reinterpret_cast<char*>(g) = 1;
  {
    Core core;
    (*g_guard)[reinterpret_cast<uintptr_t>(g)] = 0;
    WakeAll(g);
  }
  SyncPoint();
}
void __cxa_guard_abort(long long int* g) {
  if (!INSIM()) return;
  Core core;
  (*g_guard)[reinterpret_cast<uintptr_t>(g)] = 0;
  WakeAll(g);
}

int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
  if (g_active && t_id > 0) {
    Core core;
    g_thr[t_id]->dtors->push_back(TlsDtor{fn, obj});
    return 0;
  }
  static auto real = Real<int (*)(void (*)(void*), void*, void*)>(
      "__cxa_thread_atexit");
  return real ? real(fn, obj, nullptr) : 0;
}

// ------------------------------------------------------------------ allocation
static inline void OnAlloc(void* p, size_t n) {
  if (!p || !g_active || t_id < 0 || t_core) return;
  ++g_live_allocs;
  ClearShadow(p, n);
}
static inline void OnFree(void* p) {
  if (!p || !g_active || t_id < 0 || t_core) return;
  --g_live_allocs;
  Core core;
  const size_t n = malloc_usable_size(p);
  ClearShadow(p, n);
  // Forget synchronisation objects that lived in this memory.
  if (!g_syncvars->empty()) {
    const uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (n <= 4096) {
      for (uintptr_t x = a; x < a + n; ++x) {
        if (x & 3) continue;
        auto it = g_syncvars->find(x);
        if (it != g_syncvars->end()) {
          g_syncfree->push_back(it->second);
          g_syncvars->erase(it);
        }
        if (!(x & 7)) g_mutexes->erase(x);
      }
    } else {
      for (auto it = g_syncvars->begin(); it != g_syncvars->end();) {
        if (it->first >= a && it->first < a + n) {
          g_syncfree->push_back(it->second);
          it = g_syncvars->erase(it);
        } else {
          ++it;
        }
      }
      for (auto it = g_mutexes->begin(); it != g_mutexes->end();) {
        if (it->first >= a && it->first < a + n) it = g_mutexes->erase(it);
        else ++it;
      }
    }
  }
}
// Fresh memory is filled with a pattern, so that reads of uninitialised memory
// give the same (wrong) value in every run.
static inline void Poison(void* p, size_t n) {
  if (g_active && t_id >= 0 && !t_core && p) memset(p, 0xA5, n);
}
void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  Poison(p, n);
  OnAlloc(p, n);
  return p;
}
void* calloc(size_t a, size_t b) {
  void* p = __libc_calloc(a, b);
  OnAlloc(p, a * b);
  return p;
}
void* realloc(void* q, size_t n) {
  void* p = __libc_realloc(q, n);
  if (g_active && t_id >= 0 && !t_core && p) ClearShadow(p, n);
  return p;
}
void free(void* p) {
  OnFree(p);
  __libc_free(p);
}
void* memalign(size_t al, size_t n) {
  void* p = __libc_memalign(al, n);
  Poison(p, n);
  OnAlloc(p, n);
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  if (INSIM() && ShouldFault(kAllocFail)) return ENOMEM;
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// ------------------------------------------------------------------ tsan runtime
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) {
  Plain(p, 8, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}
void __tsan_vptr_read(void** p) {
  Plain(p, 8, false, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}
#define RW(N)                                                                \
  void __tsan_read##N(void* p) {                                             \
    Plain(p, N, false,                                                       \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }                                                                          \
  void __tsan_write##N(void* p) {                                            \
    Plain(p, N, true,                                                        \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }                                                                          \
  void __tsan_unaligned_read##N(void* p) {                                   \
    Plain(p, N, false,                                                       \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }                                                                          \
  void __tsan_unaligned_write##N(void* p) {                                  \
    Plain(p, N, true,                                                        \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }                                                                          \
  void __tsan_volatile_read##N(void* p) {                                    \
    Plain(p, N, false,                                                       \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }                                                                          \
  void __tsan_volatile_write##N(void* p) {                                   \
    Plain(p, N, true,                                                        \
          reinterpret_cast<uintptr_t>(__builtin_return_address(0)));         \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) {
  Plain(p, static_cast<unsigned>(n), false,
        reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}
void __tsan_write_range(void* p, unsigned long n) {
  Plain(p, static_cast<unsigned>(n), true,
        reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}

}  // extern "C"

static inline bool IsAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool IsRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static inline void AtomicPre(const volatile void* p, unsigned n, bool write,
                             uintptr_t pc) {
  if (!Hooked()) return;
  SyncPoint();
  if (g_unjoined) {
    Core core;
    Access(const_cast<const void*>(p), n, write, true, pc);
  }
}

#define ATOMICS(BITS, T)                                                      \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                 \
    AtomicPre(a, BITS / 8, false,                                             \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    if (Hooked() && IsAcq(mo)) HbAcquire(const_cast<const T*>(a));            \
    return *a;                                                                \
  }                                                                           \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {              \
    AtomicPre(a, BITS / 8, true,                                              \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    if (Hooked()) {                                                           \
      if (IsRel(mo)) {                                                        \
        HbReleaseStore(const_cast<const T*>(a));                              \
      } else {                                                                \
        Core core;                                                            \
        auto it = g_syncvars->find(reinterpret_cast<uintptr_t>(a));           \
        if (it != g_syncvars->end()) memset(&it->second->vc, 0, sizeof(VC));  \
      }                                                                       \
    }                                                                         \
    *a = v;                                                                   \
  }                                                                           \
  static inline void Rmw##BITS(volatile T* a, int mo, uintptr_t pc) {         \
    AtomicPre(a, BITS / 8, true, pc);                                         \
    if (Hooked()) {                                                           \
      if (IsAcq(mo)) HbAcquire(const_cast<const T*>(a));                      \
      if (IsRel(mo)) HbRelease(const_cast<const T*>(a));                      \
    }                                                                         \
  }                                                                           \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {              \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = v;                                                                   \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {             \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = o + v;                                                               \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {             \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = o - v;                                                               \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {             \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = o & v;                                                               \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {              \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = o | v;                                                               \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {             \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = o ^ v;                                                               \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) {            \
    Rmw##BITS(a, mo,                                                          \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    T o = *a;                                                                 \
    *a = ~(o & v);                                                            \
    return o;                                                                 \
  }                                                                           \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, \
                                                    int mo, int fmo) {        \
    AtomicPre(a, BITS / 8, true,                                              \
              reinterpret_cast<uintptr_t>(__builtin_return_address(0)));      \
    const bool ok = *a == *c;                                                 \
    const int m = ok ? mo : fmo;                                              \
    if (Hooked()) {                                                           \
      if (IsAcq(m)) HbAcquire(const_cast<const T*>(a));                       \
      if (ok && IsRel(m)) HbRelease(const_cast<const T*>(a));                 \
    }                                                                         \
    if (ok)                                                                   \
      *a = v;                                                                 \
    else                                                                      \
      *c = *a;                                                                \
    return ok;                                                                \
  }                                                                           \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v,   \
                                                  int mo, int fmo) {          \
    return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, mo, fmo);   \
  }                                                                           \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v,       \
                                               int mo, int fmo) {             \
    __tsan_atomic##BITS##_compare_exchange_strong(a, &c, v, mo, fmo);         \
    return c;                                                                 \
  }

extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
typedef unsigned __int128 uint128;
ATOMICS(128, uint128)
static char g_fence;
void __tsan_atomic_thread_fence(int) {
  if (!Hooked()) return;
  HbAcquire(&g_fence);
  HbRelease(&g_fence);
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ operator new
static void* NewImpl(size_t n) {
  if (INSIM() && ShouldFault(kAllocFail)) return nullptr;
  if (n > (1ULL << 34)) return nullptr;
  return malloc(n ? n : 1);
}
void* operator new(size_t n) {
  void* p = NewImpl(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = NewImpl(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return NewImpl(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return NewImpl(n); }
void* operator new(size_t n, std::align_val_t al) {
  if (INSIM() && ShouldFault(kAllocFail)) throw std::bad_alloc();
  void* p = memalign(static_cast<size_t>(al), n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
