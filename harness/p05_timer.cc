// P05: execution timers under simulated clocks, stalls, wall clock changes and threads.
#include "common/Timer.h"

#include "sim.h"

#include <algorithm>
#include <atomic>
#include <memory>
#include <sstream>
#include <thread>

using dp3::common::NSTimer;
using dp3::common::ScopedMicroSecondAccumulator;
const char* const kProperty = "P05";

namespace {
enum Kind { kInterval = 1, kScope, kScopeThrow, kReset, kMerge, kPrint, kAccumulate, kAccumulateInt, kKinds };
const char* const kNames[] = {"",      "start-stop", "scope", "scope left by exception",
                              "reset", "merge",      "print", "shared accumulator", "shared integer accumulator"};
constexpr int kTimers = 3;
// args: thread, timer, log10 of duration, duration, other timer

// Bounds on the measured total, in seconds.
struct Want {
  double lo = 0, hi = 0;
  uint64_t count = 0;
};
double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
uint64_t Duration(const sim::Op& o) {
  static const uint64_t unit[] = {1, 1000, 1000000, 1000000000ULL, 60000000000ULL, 3600000000000ULL};
  return unit[(o.Arg(2) % 6 + 6) % 6] * static_cast<uint64_t>(1 + (o.Arg(3) % 999 + 999) % 999);
}
void Work(const sim::Op& o) {
  sim::AdvanceClock(Duration(o));
  sim::Yield();
}
bool Close(double v, double lo, double hi) {
  const double eps = 1e-9 + 1e-9 * (std::abs(lo) + std::abs(hi));
  return v >= lo - eps && v <= hi + eps;
}

double ParseTime(const std::string& text, size_t pos) {
  double v = 0;
  char p = ' ';
  const std::string s = text.substr(pos);
  if (sscanf(s.c_str(), "%lf", &v) != 1) return -1;
  size_t i = s.find_first_not_of(' ');
  i = s.find(' ', i);
  if (i == std::string::npos || i + 1 >= s.size()) return -1;
  p = s[i + 1];
  switch (p) {
    case 'f': return v * 1e-15;
    case 'p': return v * 1e-12;
    case 'n': return v * 1e-9;
    case 'u': return v * 1e-6;
    case 'm': return v * 1e-3;
    case ' ': return v;
    case 'k': return v * 1e3;
    case 'M': return v * 1e6;
    case 'G': return v * 1e9;
  }
  return -1;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "T" + std::to_string(o.Arg(0)) + " timer " + std::to_string(o.Arg(1)) + " " +
         (o.kind > 0 && o.kind < kKinds ? kNames[o.kind] : "?") + "(" + std::to_string(Duration(o)) + " ns)";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  const int threads = static_cast<int>(rng.In(1, 4));
  plan.knobs["threads"] = threads;
  if (rng.Chance(0.5)) plan.knobs["rate_clock_jump"] = rng.In(500, 6000);
  if (rng.Chance(0.5)) plan.knobs["rate_stall_thread"] = rng.In(100, 4000);
  const int maxunit = static_cast<int>(rng.In(1, 6));
  for (int t = 1; t <= threads; ++t) {
    const int n = static_cast<int>(rng.In(1, 12));
    for (int i = 0; i < n; ++i)
      plan.Add(static_cast<int>(rng.In(1, kKinds - 1)),
               {t, static_cast<int64_t>(rng.Below(kTimers)), static_cast<int64_t>(rng.Below(maxunit)),
                static_cast<int64_t>(rng.Below(999)), static_cast<int64_t>(rng.Below(kTimers))});
  }
}

void Execute(const sim::Plan& plan) {
  const int threads = static_cast<int>(plan.Knob("threads", 1));
  std::atomic<double> shared{0.0};
  std::atomic<int64_t> shared_int{0};
  double acc_lo = 0, acc_hi = 0, int_lo = 0, int_hi = 0;
  auto body = [&](int t) {
    std::vector<NSTimer> timers;
    std::vector<Want> want(kTimers);
    for (int i = 0; i < kTimers; ++i) timers.emplace_back(i ? "timer" + std::to_string(i) : "");
    for (const sim::Op& o : plan.ops) {
      if (o.Arg(0) != t) continue;
      const int k = static_cast<int>((o.Arg(1) % kTimers + kTimers) % kTimers);
      NSTimer& timer = timers[k];
      Want& w = want[k];
      // a0 <= start <= a1 <= b0 <= stop <= b1 in time.
      double a0 = 0, a1 = 0, b0 = 0, b1 = 0;
      bool measured = false;
      switch (o.kind) {
        case kInterval:
          a0 = Now();
          timer.start();
          a1 = Now();
          Work(o);
          b0 = Now();
          timer.stop();
          b1 = Now();
          measured = true;
          break;
        case kScope:
          a0 = Now();
          {
            NSTimer::StartStop scope(timer);
            a1 = Now();
            Work(o);
            b0 = Now();
          }
          b1 = Now();
          measured = true;
          break;
        case kScopeThrow:
          a0 = Now();
          try {
            NSTimer::StartStop scope(timer);
            a1 = Now();
            Work(o);
            b0 = Now();
            throw std::runtime_error("step failed");
          } catch (const std::exception&) {
            b1 = Now();
          }
          measured = true;
          sim::Probe("interval ended by an exception");
          break;
        case kReset:
          timer.reset();
          w = Want();
          break;
        case kMerge: {
          const int m = static_cast<int>((o.Arg(4) % kTimers + kTimers) % kTimers);
          const Want other = want[m];
          timer += timers[m];
          w.lo += other.lo;
          w.hi += other.hi;
          w.count += other.count;
          break;
        }
        case kPrint: {
          std::ostringstream s;
          timer.print(s);
          const std::string text = s.str();
          const std::string label = k ? "timer" + std::to_string(k) : "timer: ";
          if (text.find(label) != 0) sim::Fail("print", "the name of the timer is missing in its report");
          if (w.count == 0) {
            if (text.find("not used") == std::string::npos)
              sim::Fail("print", "an unused timer is not reported as unused");
            break;
          }
          const size_t pc = text.find("count = "), pt = text.find("total = "), pa = text.find("avg = ");
          if (pc == std::string::npos || pt == std::string::npos || pa == std::string::npos)
            sim::Fail("print", "the report misses the average, total or count");
          if (strtoull(text.c_str() + pc + 8, nullptr, 10) != w.count)
            sim::Fail("print", "the report shows a wrong count");
          const double total = ParseTime(text, pt + 8), avg = ParseTime(text, pa + 6);
          if (w.lo > 1e-6) {
            if (!(total >= w.lo * 0.99 && total <= w.hi * 1.01))
              sim::Fail("print", "the report shows a wrong total: " + text);
            if (!(avg >= w.lo / w.count * 0.99 && avg <= w.hi / w.count * 1.01))
              sim::Fail("print", "the report shows a wrong average: " + text);
          }
          break;
        }
        case kAccumulate:
          a0 = Now();
          {
            const ScopedMicroSecondAccumulator scoped(shared);
            a1 = Now();
            Work(o);
            b0 = Now();
          }
          b1 = Now();
          {
            sim::Quiet q;
            acc_lo += (b0 - a1) * 1e6;
            acc_hi += (b1 - a0) * 1e6;
          }
          break;
        case kAccumulateInt:
          a0 = Now();
          {
            const ScopedMicroSecondAccumulator scoped(shared_int);
            a1 = Now();
            Work(o);
            b0 = Now();
          }
          b1 = Now();
          {
            sim::Quiet q;
            int_lo += (b0 - a1) * 1e6 - 1;
            int_hi += (b1 - a0) * 1e6 + 1;
          }
          break;
      }
      if (measured) {
        w.lo += b0 - a1;
        w.hi += b1 - a0;
        ++w.count;
      }
      if (timer.getCount() != w.count)
        sim::Fail("count", "a timer counts " + std::to_string(timer.getCount()) + " intervals instead of " +
                               std::to_string(w.count));
      if (!Close(timer.getElapsed(), w.lo, w.hi))
        sim::Fail("elapsed", "a timer shows " + std::to_string(timer.getElapsed()) + " s, real is between " +
                                 std::to_string(w.lo) + " and " + std::to_string(w.hi));
      if (w.count && !Close(timer.getAverage(), w.lo / w.count, w.hi / w.count))
        sim::Fail("average", "a timer shows a wrong average");
      sim::Event(timer.getCount());
      sim::EventDouble(timer.getElapsed());
    }
  };
  std::vector<std::thread> pool;
  sim::EnableFaults(true);
  for (int t = 1; t <= threads; ++t) pool.emplace_back(body, t);
  for (auto& t : pool) t.join();
  sim::EnableFaults(false);
  const double v = shared.load();
  if (!(v >= acc_lo * (1 - 1e-9) - 1 && v <= acc_hi * (1 + 1e-9) + 1))
    sim::Fail("accumulated", "the shared accumulator holds " + std::to_string(v) + " us, real is between " +
                                 std::to_string(acc_lo) + " and " + std::to_string(acc_hi));
  const double iv = static_cast<double>(shared_int.load());
  if (!(iv >= int_lo - 1 && iv <= int_hi + 1))
    sim::Fail("accumulated", "the shared integer accumulator holds " + std::to_string(iv) +
                                 " us, real is between " + std::to_string(int_lo) + " and " + std::to_string(int_hi));
  if (acc_hi > 0 && threads > 1) sim::Probe("accumulator shared by threads");
}
