// Shared by the harnesses that run DP3 steps: a source of time slots, a sink
// that records what reaches it, and comparison helpers.
#ifndef VERIF_STEPS_H
#define VERIF_STEPS_H

#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"

#include <schaapcommon/threading/threadpool.h>

#include "sim.h"

#include <cmath>
#include <complex>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace casacore {
[[noreturn]] inline void MiniIndexErrorImpl(const char* what) {
  sim::Fail("out-of-bounds", std::string("access outside an array: ") + what);
}
void MiniIndexError(const char* what) { MiniIndexErrorImpl(what); }
}  // namespace casacore
namespace xt {
void index_out_of_range() { sim::Fail("out-of-bounds", "access outside a tensor"); }
}  // namespace xt

namespace h {

using C = std::complex<float>;

struct Slot {
  double time = 0, exposure = 0;
  size_t nbl = 0, nchan = 0, ncorr = 0;
  std::vector<C> data;
  std::vector<float> weights;
  std::vector<char> flags;
  std::vector<double> uvw;
  size_t At(size_t b, size_t c, size_t p) const { return (b * nchan + c) * ncorr + p; }
};

struct StepError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline dp3::base::DPInfo MakeInfo(size_t nant, bool autos, size_t nchan, size_t ncorr, size_t ntime, double t0,
                                  double dt, double width = 1e6) {
  dp3::base::DPInfo info(ncorr, nchan);
  info.setTimes(t0, t0 + (ntime - 1) * dt, dt);
  std::vector<double> freqs, widths;
  for (size_t i = 0; i < nchan; ++i) {
    freqs.push_back(100e6 + i * width);
    widths.push_back(width);
  }
  info.setChannels(std::move(freqs), std::move(widths));
  std::vector<int> a1, a2;
  std::vector<std::string> names;
  std::vector<double> diam;
  std::vector<casacore::MPosition> pos;
  for (size_t i = 0; i < nant; ++i) {
    names.push_back("ant" + std::to_string(i));
    diam.push_back(70);
    pos.emplace_back(casacore::MVPosition(100.0 * i * i, 10.0 * i, 0), casacore::MPosition::ITRF);
    for (size_t j = autos ? i : i + 1; j < nant; ++j) {
      a1.push_back(i);
      a2.push_back(j);
    }
  }
  info.setAntennas(names, diam, pos, a1, a2);
  return info;
}

inline std::unique_ptr<dp3::base::DPBuffer> ToBuffer(const Slot& s) {
  auto b = std::make_unique<dp3::base::DPBuffer>(s.time, s.exposure);
  const std::array<std::size_t, 3> shape{s.nbl, s.nchan, s.ncorr};
  b->GetData().resize(shape);
  b->GetWeights().resize(shape);
  b->GetFlags().resize(shape);
  b->GetUvw().resize(std::array<std::size_t, 2>{s.nbl, 3});
  std::copy(s.data.begin(), s.data.end(), b->GetData().data());
  std::copy(s.weights.begin(), s.weights.end(), b->GetWeights().data());
  for (size_t i = 0; i < s.flags.size(); ++i) b->GetFlags().data()[i] = s.flags[i] != 0;
  std::copy(s.uvw.begin(), s.uvw.end(), b->GetUvw().data());
  return b;
}

inline Slot FromBuffer(const dp3::base::DPBuffer& b) {
  Slot s;
  s.time = b.GetTime();
  s.exposure = b.GetExposure();
  s.nbl = b.GetData().shape(0);
  s.nchan = b.GetData().shape(1);
  s.ncorr = b.GetData().shape(2);
  s.data.assign(b.GetData().data(), b.GetData().data() + b.GetData().size());
  s.weights.assign(b.GetWeights().data(), b.GetWeights().data() + b.GetWeights().size());
  for (size_t i = 0; i < b.GetFlags().size(); ++i) {
    char c;
    std::memcpy(&c, b.GetFlags().data() + i, 1);
    s.flags.push_back(c);
  }
  s.uvw.assign(b.GetUvw().data(), b.GetUvw().data() + b.GetUvw().size());
  return s;
}

/// Small integers everywhere: sums in float are exact, whatever their order.
inline Slot MakeSlot(uint64_t seed, size_t nbl, size_t nchan, size_t ncorr, double time, double exposure,
                     int flag_mode, bool nan_flagged, bool zero_weights) {
  sim::Rng r(seed);
  Slot s;
  s.time = time;
  s.exposure = exposure;
  s.nbl = nbl;
  s.nchan = nchan;
  s.ncorr = ncorr;
  const size_t n = nbl * nchan * ncorr;
  s.data.resize(n);
  s.weights.resize(n);
  s.flags.resize(n);
  for (size_t i = 0; i < n; ++i) {
    s.data[i] = C(static_cast<float>(r.In(-40, 40)), static_cast<float>(r.In(-40, 40)));
    s.weights[i] = static_cast<float>(zero_weights && r.Chance(0.2) ? 0 : r.In(1, 5));
    // 0: none, 1: some, 2: many, 3: all, 4: whole baselines
    s.flags[i] = flag_mode == 1 ? r.Chance(0.15) : flag_mode == 2 ? r.Chance(0.7) : flag_mode == 3;
  }
  if (flag_mode == 4)
    for (size_t b = 0; b < nbl; ++b)
      if (r.Chance(0.5))
        for (size_t i = 0; i < nchan * ncorr; ++i) s.flags[b * nchan * ncorr + i] = 1;
  if (nan_flagged)
    for (size_t i = 0; i < n; ++i)
      if (s.flags[i] && r.Chance(0.5)) s.data[i] = C(NAN, NAN);
  for (size_t i = 0; i < nbl * 3; ++i) s.uvw.push_back(static_cast<double>(r.In(-1000, 1000)));
  return s;
}

/// The last step of a chain: records everything that arrives.
class Sink : public dp3::steps::Step {
 public:
  explicit Sink(int64_t throw_at = -1) : throw_at_(throw_at) {}
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    Arrive();
    if (!buffer) sim::Fail("no-buffer", "a step passed on no buffer");
    sim::Quiet q;
    slots.push_back(FromBuffer(*buffer));
    return true;
  }
  bool process(std::unique_ptr<dp3::base::BdaBuffer> buffer) override {
    Arrive();
    if (on_bda) on_bda(std::move(buffer));
    return true;
  }
  void finish() override {
    if (finished++) sim::Fail("finish-twice", "the last step was finished twice");
  }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool accepts(MsType) const override { return true; }

  std::vector<Slot> slots;
  int64_t arrived = 0;
  int finished = 0;
  std::function<void(std::unique_ptr<dp3::base::BdaBuffer>)> on_bda;

 private:
  void Arrive() {
    if (finished) sim::Fail("after-finish", "a step passed on data after it finished the next step");
    if (arrived++ == throw_at_) throw StepError("injected failure of the next step");
  }
  int64_t throw_at_;
};

inline bool Near(double a, double b, double tol = 1e-5) {
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}
inline bool Near(C a, std::complex<double> b, double tol = 1e-5) {
  return Near(a.real(), b.real(), tol) && Near(a.imag(), b.imag(), tol);
}
inline bool SameC(C a, C b) { return std::memcmp(&a, &b, sizeof a) == 0; }

inline std::string Where(size_t slot, size_t b, size_t c, size_t p) {
  return "slot " + std::to_string(slot) + " baseline " + std::to_string(b) + " channel " + std::to_string(c) +
         " correlation " + std::to_string(p);
}
inline std::string Str(double v) {
  char s[40];
  std::snprintf(s, sizeof s, "%.9g", v);
  return s;
}
inline void HashSlots(const std::vector<Slot>& v) {
  for (const Slot& s : v) {
    sim::EventDouble(s.time);
    for (C c : s.data) sim::EventDouble(c.real());
    for (char f : s.flags) sim::Event(f);
  }
}

/// Runs the loops of the code with this many threads.
struct Threads {
  explicit Threads(size_t n) {
    // Otherwise the first step sets the number of threads itself.
    struct Initialized : dp3::steps::Step {
      using dp3::steps::Step::SetThreadingIsInitialized;
    };
    Initialized::SetThreadingIsInitialized();
    schaapcommon::ThreadPool::GetInstance().SetNThreads(n);
  }
  ~Threads() {
    schaapcommon::ThreadPool::GetInstance().Stop();
    schaapcommon::ThreadPool::Helpers().Stop();
  }
};

}  // namespace h
#endif
