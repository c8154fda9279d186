// P11: upsampling in time.
#include "steps.h"

#include "steps/Upsample.h"

const char* const kProperty = "P11";
using h::Slot;

namespace {
enum { kSlot = 1 };
// args: seed, fully flagged, distance to the previous slot in output intervals
}  // namespace

std::string Describe(const sim::Op& o) {
  return "time slot " + std::to_string(o.Arg(2)) + " output intervals later" + (o.Arg(1) ? ", fully flagged" : "");
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 3);
  k["nchan"] = rng.In(1, 3);
  k["ncorr"] = rng.Chance(0.5) ? 1 : 4;
  const int step = static_cast<int>(rng.In(2, 5));
  k["timestep"] = step;
  k["jitter"] = rng.Chance(0.3) ? rng.In(-30, 30) : 0;  // in % of an output interval
  k["updateuvw"] = rng.Chance(0.3);
  if (rng.Chance(0.1)) k["throw_at"] = rng.In(1, 6);
  const bool overlap = rng.Chance(0.5);
  const int n = static_cast<int>(rng.Chance(0.05) ? 0 : rng.In(1, 10));
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.Chance(0.3),
                     overlap && rng.Chance(0.4) ? rng.In((step + 1) / 2, 2 * step) : step});
}

void Execute(const sim::Plan& plan) {
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 1);
  const long step = plan.Knob("timestep", 2);
  const double dt = 8, t0 = 5000, sub = dt / step;
  const size_t n = plan.ops.size();
  const dp3::base::DPInfo info = h::MakeInfo(nant, false, nchan, ncorr, std::max<size_t>(1, n), t0, dt);
  const size_t nbl = info.nbaselines();
  std::vector<Slot> in;
  std::vector<long> at;  // first output interval of a slot
  long pos = 0;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    if (i) pos += std::max<int64_t>((step + 1) / 2, o.Arg(2, step));
    const double jitter = i % 2 ? plan.Knob("jitter") / 100.0 * sub : 0;
    in.push_back(h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, t0 + pos * sub + jitter, dt, o.Arg(1) ? 3 : 0, false, true));
    at.push_back(pos);
  }
  dp3::common::ParameterSet parset;
  parset.add("u.timestep", std::to_string(step));
  if (plan.Knob("updateuvw")) parset.add("u.updateuvw", "true");
  auto ups = std::make_shared<dp3::steps::Upsample>(parset, "u.");
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<h::Sink>(throw_at);
  ups->setNextStep(sink);
  ups->setInfo(info);
  if (!h::Near(sink->getInfoIn().timeInterval(), sub, 1e-9) || sink->getInfoIn().ntime() != info.ntime() * step)
    sim::Fail("info", "the announced interval or number of time slots is wrong");

  // Every output interval that an input slot covers comes out once; where two
  // slots overlap, the later one is used unless it is fully flagged.
  struct Out {
    size_t slot;
    double time;
  };
  std::map<long, Out> want;
  for (size_t i = 0; i < n; ++i)
    for (long k = 0; k < step; ++k) {
      const Out o{i, in[i].time - dt / 2 + (k + 0.5) * sub};
      auto it = want.find(at[i] + k);
      if (it == want.end() || !plan.ops[i].Arg(1)) {
        if (it != want.end()) sim::Probe("overlap replaced");
        want[at[i] + k] = o;
      } else {
        sim::Probe("overlap kept");
      }
    }
  bool threw = false;
  try {
    for (const Slot& x : in) ups->process(h::ToBuffer(x));
    ups->finish();
  } catch (const h::StepError&) {
    threw = true;
  }
  sim::Quiet q;
  h::HashSlots(sink->slots);
  size_t nout = want.size();
  if (throw_at >= 0 && static_cast<size_t>(throw_at) < nout) {
    if (!threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    nout = throw_at;
  } else {
    if (threw) sim::Fail("bug", "unexpected exception");
    if (sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
  }
  if (n == 0) sim::Probe("no data");
  if (sink->slots.size() != nout)
    sim::Fail("slot-count", std::to_string(sink->slots.size()) + " time slots came out instead of " + std::to_string(nout));
  size_t t = 0;
  for (const auto& [key, o] : want) {
    if (t == nout) break;
    const Slot &g = sink->slots[t], &w = in[o.slot];
    const std::string name = "output slot " + std::to_string(t);
    if (!h::Near(g.time, o.time, 1e-10)) sim::Fail("time", name + " has time " + h::Str(g.time) + " instead of " + h::Str(o.time));
    if (!h::Near(g.exposure, w.exposure / step, 1e-9)) sim::Fail("exposure", name + " has a wrong exposure");
    if (g.data.size() != w.data.size() || std::memcmp(g.data.data(), w.data.data(), w.data.size() * sizeof(h::C)) ||
        g.weights != w.weights || g.flags != w.flags)
      sim::Fail("data", name + " does not have the data of its input slot");
    if (!plan.Knob("updateuvw") && g.uvw != w.uvw) sim::Fail("uvw", name + " does not have the UVW of its input slot");
    if (plan.Knob("updateuvw"))
      for (size_t b = 0; b < nbl; ++b) {
        const int x1 = info.getAnt1()[b], x2 = info.getAnt2()[b];
        if (!h::Near(g.uvw[3 * b], 100.0 * (x2 * x2 - x1 * x1), 1e-9)) sim::Fail("uvw", name + " has a wrong UVW");
      }
    ++t;
  }
}
