// P07: averaging in time and frequency.
#include "steps.h"

#include "steps/Averager.h"

const char* const kProperty = "P07";
using h::Slot;

namespace {
enum { kSlot = 1 };
// args: seed, flag mode, nan in flagged points, zero weights

struct Settings {
  size_t timestep, freqstep, minpoints;
  double minperc;
};

/// The reference: blocks of timestep slots and freqstep channels.
std::vector<Slot> Average(const std::vector<Slot>& in, const Settings& s, double dt, bool noavg) {
  if (noavg) return in;
  std::vector<Slot> out;
  for (size_t t0 = 0; t0 < in.size(); t0 += s.timestep) {
    const size_t nt = std::min(s.timestep, in.size() - t0);
    const Slot& f = in[t0];
    Slot o;
    o.nbl = f.nbl;
    o.ncorr = f.ncorr;
    o.nchan = f.nchan / s.freqstep;
    o.time = f.time + 0.5 * (s.timestep - 1) * dt;
    o.exposure = s.timestep * dt;
    o.uvw.assign(f.uvw.size(), 0.0);
    for (size_t t = 0; t < nt; ++t)
      for (size_t i = 0; i < o.uvw.size(); ++i) o.uvw[i] += in[t0 + t].uvw[i] / nt;
    for (size_t b = 0; b < o.nbl; ++b)
      for (size_t c = 0; c < o.nchan; ++c)
        for (size_t p = 0; p < o.ncorr; ++p) {
          std::complex<double> sum = 0, all = 0;
          double w = 0, wall = 0;
          size_t n = 0;
          for (size_t t = 0; t < nt; ++t)
            for (size_t k = 0; k < s.freqstep; ++k) {
              const size_t i = f.At(b, c * s.freqstep + k, p);
              const std::complex<double> d(in[t0 + t].data[i]);
              const double wt = in[t0 + t].weights[i];
              all += d * wt;
              wall += wt;
              if (!in[t0 + t].flags[i]) {
                sum += d * wt;
                w += wt;
                ++n;
              }
            }
          const bool flag = w == 0 || n < s.minpoints || n < nt * s.freqstep * (s.minperc / 100);
          o.flags.push_back(flag);
          o.weights.push_back(flag ? wall : w);
          o.data.push_back(h::C(flag ? (wall == 0 ? 0.0 : all / wall) : sum / w));
        }
    out.push_back(o);
  }
  return out;
}

void Compare(const std::vector<Slot>& got, const std::vector<Slot>& want, const char* what) {
  if (got.size() != want.size())
    sim::Fail("slot-count", std::string(what) + ": " + std::to_string(got.size()) + " time slots instead of " +
                                std::to_string(want.size()));
  for (size_t t = 0; t < got.size(); ++t) {
    const Slot &g = got[t], &w = want[t];
    if (g.nbl != w.nbl || g.nchan != w.nchan || g.ncorr != w.ncorr || g.flags.size() != w.flags.size() ||
        g.weights.size() != w.weights.size() || g.uvw.size() != w.uvw.size())
      sim::Fail("shape", "slot " + std::to_string(t) + " has another shape than the averaged data");
    if (!h::Near(g.time, w.time, 1e-12))
      sim::Fail("time", "slot " + std::to_string(t) + " has time " + h::Str(g.time) + " instead of " + h::Str(w.time));
    if (!h::Near(g.exposure, w.exposure, 1e-9))
      sim::Fail("exposure", "slot " + std::to_string(t) + " has exposure " + h::Str(g.exposure) + " instead of " +
                                h::Str(w.exposure));
    for (size_t i = 0; i < w.uvw.size(); ++i)
      if (!h::Near(g.uvw[i], w.uvw[i], 1e-9)) sim::Fail("uvw", "slot " + std::to_string(t) + " has wrong UVW");
    for (size_t b = 0; b < w.nbl; ++b)
      for (size_t c = 0; c < w.nchan; ++c)
        for (size_t p = 0; p < w.ncorr; ++p) {
          const size_t i = w.At(b, c, p);
          const std::string at = h::Where(t, b, c, p);
          if (g.flags[i] != w.flags[i])
            sim::Fail("flag", at + (w.flags[i] ? " must be flagged" : " must not be flagged"));
          if (!h::Near(g.weights[i], w.weights[i]))
            sim::Fail("weight", at + ": weight " + h::Str(g.weights[i]) + " instead of " + h::Str(w.weights[i]));
          const std::complex<double> d(w.data[i]);
          if (std::isnan(d.real()) || std::isnan(d.imag())) continue;  // flagged, from flagged NaN
          if (!h::Near(g.data[i], d))
            sim::Fail("value", at + ": " + h::Str(g.data[i].real()) + " instead of " + h::Str(d.real()));
        }
  }
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "time slot (data " + std::to_string(o.Arg(0)) + ", flag mode " + std::to_string(o.Arg(1)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["threads"] = rng.In(1, 4);
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Below(2);
  static const int kChan[] = {1, 2, 3, 4, 6, 8, 12};
  const int nchan = kChan[rng.Below(7)];
  k["nchan"] = nchan;
  static const int kCorr[] = {1, 2, 4};
  k["ncorr"] = kCorr[rng.Below(3)];
  std::vector<int> div;
  for (int i = 1; i <= nchan; ++i)
    if (nchan % i == 0) div.push_back(i);
  const int f1 = div[rng.Below(div.size())];
  k["freqstep"] = rng.Chance(0.1) ? nchan + rng.In(1, 3) : f1;
  k["timestep"] = rng.In(1, 6);
  k["by_resolution"] = rng.Chance(0.25);
  k["minpoints"] = rng.Chance(0.5) ? 1 : rng.In(0, 6);
  k["minperc"] = rng.Chance(0.5) ? 0 : rng.In(0, 10) * 10;
  k["second"] = rng.Chance(0.3);
  k["timestep2"] = rng.In(1, 3);
  k["freqstep2"] = rng.Chance(0.5) ? 1 : 1000;
  const int n = static_cast<int>(rng.In(1, 12));
  k["extra_ntime"] = rng.Chance(0.3) ? rng.In(1, 5) : 0;
  if (rng.Chance(0.1)) k["throw_at"] = rng.In(1, 4);
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.3), rng.Chance(0.3)});
}

void Execute(const sim::Plan& plan) {
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 1);
  const double dt = 2.5, t0 = 1000;
  const size_t ntime = plan.ops.size() + plan.Knob("extra_ntime");
  if (plan.ops.empty()) return;
  const dp3::base::DPInfo info = h::MakeInfo(nant, plan.Knob("autos"), nchan, ncorr, ntime, t0, dt);
  const size_t nbl = info.nbaselines();
  std::vector<Slot> in;
  for (size_t i = 0; i < plan.ops.size(); ++i) {
    const sim::Op& o = plan.ops[i];
    // What an input slot says about its exposure has no influence on the averaged time.
    in.push_back(h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, t0 + i * dt, dt * (o.Arg(0) % 4 == 0 ? 0.5 : 1), o.Arg(1), o.Arg(2), o.Arg(3)));
  }
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<h::Sink>(throw_at);

  dp3::common::ParameterSet parset;
  const Settings s{static_cast<size_t>(plan.Knob("timestep", 1)), static_cast<size_t>(plan.Knob("freqstep", 1)),
                   static_cast<size_t>(plan.Knob("minpoints", 1)), static_cast<double>(plan.Knob("minperc", 0))};
  if (plan.Knob("by_resolution")) {
    parset.add("a.timeresolution", h::Str(dt * s.timestep));
    parset.add("a.freqresolution", h::Str(s.freqstep) + "MHz");
  } else {
    parset.add("a.timestep", std::to_string(s.timestep));
    parset.add("a.freqstep", std::to_string(s.freqstep));
  }
  parset.add("a.minpoints", std::to_string(s.minpoints));
  parset.add("a.minperc", h::Str(s.minperc));
  auto first = std::make_shared<dp3::steps::Averager>(parset, "a.");
  std::vector<std::shared_ptr<dp3::steps::Step>> chain{first};
  Settings s2{static_cast<size_t>(plan.Knob("timestep2", 1)), static_cast<size_t>(plan.Knob("freqstep2", 1)), 1, 0};
  if (plan.Knob("second")) {
    chain.push_back(std::make_shared<dp3::steps::Averager>("second", static_cast<unsigned>(s2.freqstep), static_cast<unsigned>(s2.timestep)));
    first->setNextStep(chain.back());
  }
  chain.back()->setNextStep(sink);
  first->setInfo(info);

  // What the steps make of the settings.
  auto clamp = [&](Settings& x, size_t nc, size_t nt) {
    const bool noavg = x.timestep == 1 && x.freqstep == 1;
    x.timestep = std::min(x.timestep, nt);
    x.freqstep = std::min(x.freqstep, nc);
    return noavg;
  };
  Settings a = s;
  const bool noavg = clamp(a, nchan, ntime);
  std::vector<Slot> want = Average(in, a, dt, noavg);
  if (plan.Knob("second")) {
    const size_t nt = (ntime + a.timestep - 1) / a.timestep;
    const bool noavg2 = clamp(s2, nchan / a.freqstep, nt);
    want = Average(want, s2, dt * a.timestep, noavg2);
  }

  bool threw = false;
  {
    h::Threads threads(plan.Knob("threads", 1));
    try {
      for (const Slot& x : in) {
        std::unique_ptr<dp3::base::DPBuffer> b;
        {
          sim::Quiet q;
          b = h::ToBuffer(x);
        }
        if (!chain[0]->process(std::move(b))) sim::Fail("refused", "the averager refused a time slot");
      }
      chain[0]->finish();
    } catch (const h::StepError&) {
      threw = true;
    }
  }
  sim::Quiet q;
  h::HashSlots(sink->slots);
  if (throw_at >= 0 && static_cast<size_t>(throw_at) < want.size()) {
    if (!threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    sim::Probe("failing next step");
    want.resize(throw_at);
  } else {
    if (threw) sim::Fail("bug", "unexpected exception");
    if (sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
    if (in.size() % a.timestep) sim::Probe("partial last interval");
  }
  Compare(sink->slots, want, "averaging");
  if (plan.Knob("threads", 1) > 1) sim::Probe("parallel loop");
}
