// P10: interpolation of flagged data.
#include "steps.h"

#include "steps/Interpolate.h"

const char* const kProperty = "P10";
using h::Slot;

namespace {
enum { kSlot = 1 };
// args: seed, flag mode, nan in flagged points, nan in unflagged points
}  // namespace

std::string Describe(const sim::Op& o) {
  return "time slot (data " + std::to_string(o.Arg(0)) + ", flag mode " + std::to_string(o.Arg(1)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["threads"] = rng.In(1, 4);
  const bool large = rng.Chance(0.015);
  k["nant"] = large ? 5 : rng.In(2, 4);
  k["autos"] = rng.Below(2);
  k["nchan"] = large ? rng.In(60, 70) : rng.In(1, 6);
  static const int kCorr[] = {1, 2, 4};
  k["ncorr"] = large ? 4 : kCorr[rng.Below(3)];
  k["window"] = large ? 3 : rng.In(0, 4) * 2 + 1;
  if (rng.Chance(0.1)) k["throw_at"] = rng.In(1, 6);
  const int n = static_cast<int>(large ? 1 : rng.Chance(0.02) ? 0 : rng.In(1, 12));
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), large ? 2 : rng.In(0, 4), rng.Chance(0.3), rng.Chance(0.1)});
}

void Execute(const sim::Plan& plan) {
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 1);
  const double dt = 2, t0 = 5000;
  const long n = plan.ops.size(), half = plan.Knob("window", 1) / 2;
  const dp3::base::DPInfo info = h::MakeInfo(nant, plan.Knob("autos"), nchan, ncorr, std::max(1L, n), t0, dt);
  const size_t nbl = info.nbaselines();
  std::vector<Slot> in;
  for (long i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    in.push_back(h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, t0 + i * dt, dt, o.Arg(1), o.Arg(2), true));
    if (o.Arg(3)) in.back().data[o.Arg(0) % in.back().data.size()] = h::C(INFINITY, 0);
  }
  dp3::common::ParameterSet parset;
  parset.add("i.windowsize", std::to_string(2 * half + 1));
  auto step = std::make_shared<dp3::steps::Interpolate>(parset, "i.");
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<h::Sink>(throw_at);
  step->setNextStep(sink);
  step->setInfo(info);
  bool threw = false;
  {
    h::Threads pool(plan.Knob("threads", 1));
    try {
      for (const Slot& x : in) {
        std::unique_ptr<dp3::base::DPBuffer> b;
        {
          sim::Quiet q;
          b = h::ToBuffer(x);
        }
        step->process(std::move(b));
      }
      step->finish();
    } catch (const h::StepError&) {
      threw = true;
    }
  }
  sim::Quiet q;
  h::HashSlots(sink->slots);
  long nout = n;
  if (throw_at >= 0 && throw_at < n) {
    if (!threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    sim::Probe("failing next step");
    nout = throw_at;
  } else {
    if (threw) sim::Fail("bug", "unexpected exception");
    if (sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
  }
  const std::vector<Slot>& out = sink->slots;
  if (static_cast<long>(out.size()) != nout)
    sim::Fail("slot-count", std::to_string(out.size()) + " time slots came out instead of " + std::to_string(nout));
  size_t flagged = 0;
  for (long t = 0; t < nout; ++t) {
    const Slot &g = out[t], &w = in[t];
    if (g.time != w.time) sim::Fail("slot-order", "time slot " + std::to_string(t) + " is out of order or lost");
    if (g.data.size() != w.data.size() || g.flags.size() != w.flags.size() || g.weights != w.weights || g.uvw != w.uvw)
      sim::Fail("slot-data", "time slot " + std::to_string(t) + " lost other data");
    for (size_t b = 0; b < nbl; ++b)
      for (size_t c = 0; c < nchan; ++c)
        for (size_t p = 0; p < ncorr; ++p) {
          const size_t i = w.At(b, c, p);
          const std::string at = h::Where(t, b, c, p);
          std::complex<double> v(w.data[i]);
          bool flag = false, unsure = false;
          if (w.flags[i]) {
            ++flagged;
            std::complex<double> sum = 0;
            double kernel = 0;
            for (long t2 = std::max(0L, t - half); t2 <= std::min(n - 1, t + half); ++t2)
              for (long c2 = std::max(0L, long(c) - half); c2 <= std::min(long(nchan) - 1, long(c) + half); ++c2) {
                const size_t j = w.At(b, c2, p);
                if (in[t2].flags[j]) continue;
                const double x = (t2 - t) * (t2 - t) + (c2 - long(c)) * (c2 - long(c));
                sum += std::complex<double>(in[t2].data[j]) * std::exp(-0.5 * x);
                kernel += std::exp(-0.5 * x);
              }
            if (kernel == 0) {
              sim::Probe("nothing to interpolate from");
              flag = true;
            }
            v = sum / kernel;
            unsure = !std::isfinite(v.real()) && kernel != 0;
          }
          if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) {
            flag = true;
            v = 0;
          }
          if (g.flags[i] != flag && !unsure)
            sim::Fail("flag", at + (flag ? " must be flagged" : " must not be flagged"));
          if (!unsure && !h::Near(g.data[i], v, 1e-4))
            sim::Fail("value", at + ": " + h::Str(g.data[i].real()) + " instead of " + h::Str(v.real()));
          if (!w.flags[i] && !flag && !h::SameC(g.data[i], w.data[i]))
            sim::Fail("data-changed", at + ": unflagged data was changed");
        }
  }
  if (flagged) sim::Probe("flagged data");
  if (flagged > 1024) sim::Probe("several batches of samples");
  if (plan.Knob("threads", 1) > 1) sim::Probe("several threads");
}
