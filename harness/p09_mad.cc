// P09: flagging by median absolute deviation.
#include "steps.h"

#include "base/FlagCounter.h"
#include "steps/MadFlagger.h"

#include <sstream>

const char* const kProperty = "P09";
using h::Slot;

namespace {
enum { kSlot = 1 };
// args: seed, flag mode, nan in flagged points

double Median(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2] + v[n / 2 - 1]) / 2;
}
size_t Mirror(long i, long n) {
  if (i < 0) i = -i;
  if (i >= n) i = 2 * (n - 1) - i;
  return i;
}
int Window(double v, int max) {
  int w = std::min(std::max(1, int(v + 0.5)), max);
  return w % 2 ? w : w - 1;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "time slot (data " + std::to_string(o.Arg(0)) + ", flag mode " + std::to_string(o.Arg(1)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["threads"] = rng.In(1, 4);
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Below(2);
  k["nchan"] = rng.In(1, 7);
  static const int kCorr[] = {1, 2, 4};
  const int ncorr = kCorr[rng.Below(3)];
  k["ncorr"] = ncorr;
  k["fw"] = rng.In(1, 8);
  k["fw_len"] = rng.Chance(0.5) ? 0 : rng.In(50, 800);
  k["tw"] = rng.In(1, 8);
  k["tw_len"] = rng.Chance(0.5) ? 0 : rng.In(50, 800);
  k["threshold"] = rng.In(1, 8);  // halves
  k["correlations"] = rng.Chance(0.5) ? 0 : rng.In(1, (1 << ncorr) - 1);
  k["applyautocorr"] = k["autos"] && rng.Chance(0.4);
  k["blmin"] = rng.Chance(0.7) ? -1 : rng.In(0, 500);
  k["blmax"] = rng.Chance(0.7) ? 100000 : rng.In(0, 1000);
  k["uniform"] = rng.Chance(0.7);
  const int n = static_cast<int>(rng.Chance(0.02) ? 0 : rng.In(1, 12));
  // The number of time slots that was announced can be wrong or unknown.
  k["extra_ntime"] = rng.Chance(0.4) ? rng.In(1, 8) : 0;
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.3)});
}

void Execute(const sim::Plan& plan) {
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 1);
  const double dt = 2, t0 = 5000;
  const size_t n = plan.ops.size();
  const size_t ntime = std::max<size_t>(1, n + plan.Knob("extra_ntime"));
  const dp3::base::DPInfo info = h::MakeInfo(nant, plan.Knob("autos"), nchan, ncorr, ntime, t0, dt);
  const size_t nbl = info.nbaselines();
  const bool autocorr = plan.Knob("applyautocorr");
  std::vector<Slot> in;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    Slot s = h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, t0 + i * dt, dt, o.Arg(1), o.Arg(2), true);
    for (auto& c : s.data)
      if (!std::isnan(c.real())) {
        const float amp = std::abs(c.real()) < 20 ? c.real() / 10 + 10 : c.real();
        // Only the amplitude counts.
        const int turn = static_cast<int>(std::abs(c.imag()));
        c = turn % 3 == 0 ? h::C(amp, 0) : turn % 3 == 1 ? h::C(0, -amp) : h::C(0.6f * amp, 0.8f * amp);
      }
    if (plan.Knob("uniform") || autocorr)
      for (size_t j = 0; j < s.flags.size(); ++j) {
        s.flags[j] = s.flags[j - j % ncorr];
        if (!s.flags[j] && std::isnan(s.data[j].real())) s.data[j] = 3;
      }
    in.push_back(s);
  }

  dp3::common::ParameterSet parset;
  auto expr = [&](const char* key, const char* len) {
    std::string e = std::to_string(plan.Knob(key, 1));
    if (plan.Knob(len)) e += "+bl/" + std::to_string(plan.Knob(len));
    return e;
  };
  parset.add("m.freqwindow", expr("fw", "fw_len"));
  parset.add("m.timewindow", expr("tw", "tw_len"));
  parset.add("m.threshold", h::Str(plan.Knob("threshold", 2) / 2.0));
  std::vector<size_t> corrs;
  std::string list;
  for (size_t p = 0; p < ncorr; ++p)
    if (!plan.Knob("correlations") || (plan.Knob("correlations") >> p & 1)) {
      corrs.push_back(p);
      list += (list.empty() ? "" : ",") + std::to_string(p);
    }
  if (plan.Knob("correlations")) parset.add("m.correlations", "[" + list + "]");
  if (autocorr) parset.add("m.applyautocorr", "true");
  parset.add("m.blmin", std::to_string(plan.Knob("blmin", -1)));
  parset.add("m.blmax", std::to_string(plan.Knob("blmax", 100000)));

  auto run = [&](size_t threads, std::string& counts) {
    auto step = std::make_shared<dp3::steps::MadFlagger>(parset, "m.");
    auto sink = std::make_shared<h::Sink>();
    step->setNextStep(sink);
    step->setInfo(info);
    {
      h::Threads pool(threads);
      for (const Slot& x : in) {
        std::unique_ptr<dp3::base::DPBuffer> b;
        {
          sim::Quiet q;
          b = h::ToBuffer(x);
        }
        step->process(std::move(b));
      }
      step->finish();
    }
    if (sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
    sim::Quiet q;
    std::ostringstream os;
    step->showCounts(os);
    counts = os.str();
    return std::move(sink->slots);
  };
  std::string counts, counts1;
  const std::vector<Slot> out = run(plan.Knob("threads", 1), counts);
  sim::Quiet q;
  h::HashSlots(out);
  sim::EventStr(counts);
  if (out.size() != n)
    sim::Fail("slot-count", std::to_string(out.size()) + " time slots came out instead of " + std::to_string(n));
  if (n == 0) {
    sim::Probe("no data");
    return;
  }

  // The reference.
  std::vector<std::vector<char>> want(n), unsure(n);
  for (size_t t = 0; t < n; ++t) {
    want[t] = in[t].flags;
    unsure[t].assign(want[t].size(), 0);
  }
  std::vector<std::vector<std::string>> why(n, std::vector<std::string>(want[0].size()));
  size_t flagged = 0;
  bool exact = true;
  dp3::base::FlagCounter counter;
  counter.init(info);
  for (size_t b = 0; b < nbl; ++b) {
    const int x1 = info.getAnt1()[b], x2 = info.getAnt2()[b];
    const double dx = 100.0 * (x1 * x1 - x2 * x2), dy = 10.0 * (x1 - x2);
    const double len = std::sqrt(dx * dx + dy * dy);
    if (autocorr ? x1 != x2 : (len < plan.Knob("blmin", -1) || len > plan.Knob("blmax", 100000))) continue;
    const int fw = Window(plan.Knob("fw", 1) + (plan.Knob("fw_len") ? len / plan.Knob("fw_len") : 0), nchan);
    const int tw = Window(plan.Knob("tw", 1) + (plan.Knob("tw_len") ? len / plan.Knob("tw_len") : 0), ntime);
    // With fewer time slots than the window, the largest odd window that fits is
    // used, but the first slots may have been handled with the full window.
    const int fit = std::min<int>(tw, 1 + (n - 1) / 2 * 2);
    if (tw > fit) sim::Probe("fewer time slots than the window");
    for (size_t t = 0; t < n; ++t)
      for (size_t c = 0; c < nchan; ++c) {
        auto judge = [&](int tw, bool& flag, bool& maybe, int& counted) {
          flag = maybe = false;
          counted = -1;
          bool already = false;
          for (size_t p : corrs) {
            const size_t i = in[t].At(b, c, p);
            if (in[t].flags[i]) {
              flag = already = true;
              continue;
            }
            std::vector<double> v;
            for (int ot = -tw / 2; ot <= tw / 2; ++ot)
              for (int oc = -fw / 2; oc <= fw / 2; ++oc) {
                const Slot& s = in[Mirror(static_cast<long>(t) + ot, n)];
                const size_t j = s.At(b, Mirror(static_cast<long>(c) + oc, nchan), p);
                if (!s.flags[j]) v.push_back(std::abs(s.data[j]));
              }
            const double med = Median(v);
            for (double& x : v) x = std::abs(x - med);
            const double limit = med + plan.Knob("threshold", 2) / 2.0 * 1.4826 * Median(v);
            const double a = std::abs(in[t].data[i]);
            if (std::abs(a - limit) < 1e-4 * (1 + a))
              maybe = true;
            else if (a > limit) {
              flag = true;
              if (counted < 0 && !already) counted = p;
            }
            char txt[200];
            std::snprintf(txt, sizeof txt, " (amplitude %g, limit %g, median %g of %zu points)", a, limit, med, v.size());
            for (size_t k = 0; k < ncorr; ++k) why[t][in[t].At(b, c, k)] += txt;
          }
        };
        bool flag, maybe;
        int counted;
        judge(fit, flag, maybe, counted);
        if (tw > fit && t + tw / 2 < n) {
          bool flag2, maybe2;
          int counted2;
          judge(tw, flag2, maybe2, counted2);
          if (flag != flag2) {
            flag = false;
            maybe = true;
          }
          maybe |= maybe2;
          if (counted != counted2) exact = false;
        }
        if (maybe) exact = false;
        if (counted >= 0) {
          counter.incrBaseline(b);
          counter.incrChannel(c);
          counter.incrCorrelation(counted);
        }
        for (size_t p = 0; p < ncorr; ++p) {
          const size_t i = in[t].At(b, c, p);
          if (flag) want[t][i] = 1;
          else if (maybe) unsure[t][i] = 1;
        }
        flagged += flag;
      }
  }
  if (autocorr) {
    std::vector<int> at(nant, -1);
    for (size_t b = 0; b < nbl; ++b)
      if (info.getAnt1()[b] == info.getAnt2()[b]) at[info.getAnt1()[b]] = b;
    for (size_t b = 0; b < nbl; ++b) {
      const int x1 = info.getAnt1()[b], x2 = info.getAnt2()[b];
      const double dx = 100.0 * (x1 * x1 - x2 * x2), dy = 10.0 * (x1 - x2);
      const double len = std::sqrt(dx * dx + dy * dy);
      if (x1 == x2 || len < plan.Knob("blmin", -1) || len > plan.Knob("blmax", 100000)) continue;
      for (size_t t = 0; t < n; ++t)
        for (size_t c = 0; c < nchan; ++c) {
          const size_t i1 = in[t].At(at[x1], c, 0), i2 = in[t].At(at[x2], c, 0);
          if (!want[t][in[t].At(b, c, 0)] && (want[t][i1] || want[t][i2])) {
            counter.incrBaseline(b);
            counter.incrChannel(c);
          }
          for (size_t p = 0; p < ncorr; ++p) {
            const size_t i = in[t].At(b, c, p);
            if ((want[t][i1] && !unsure[t][i1]) || (want[t][i2] && !unsure[t][i2]))
              want[t][i] = 1;
            else if (unsure[t][i1] || unsure[t][i2])
              unsure[t][i] = 1;
          }
        }
    }
  }
  for (size_t t = 0; t < n; ++t) {
    const Slot &g = out[t], &w = in[t];
    if (g.time != w.time) sim::Fail("slot-order", "time slot " + std::to_string(t) + " is out of order or lost");
    if (g.data.size() != w.data.size() || g.flags.size() != w.flags.size() || g.weights.size() != w.weights.size())
      sim::Fail("slot-data", "time slot " + std::to_string(t) + " lost its data");
    for (size_t b = 0; b < nbl; ++b)
      for (size_t c = 0; c < nchan; ++c)
        for (size_t p = 0; p < ncorr; ++p) {
          const size_t i = w.At(b, c, p);
          if (!h::SameC(g.data[i], w.data[i]) || g.weights[i] != w.weights[i])
            sim::Fail("data-changed", h::Where(t, b, c, p) + ": the flagger changed the data");
          if (w.flags[i] && !g.flags[i]) sim::Fail("unflagged", h::Where(t, b, c, p) + ": the flagger removed a flag");
          if (!unsure[t][i] && g.flags[i] != want[t][i])
            sim::Fail("flag", h::Where(t, b, c, p) + (want[t][i] ? " must be flagged" : " must not be flagged") + why[t][i]);
        }
  }
  if (flagged) sim::Probe("outliers flagged");
  if (exact) {
    std::ostringstream os;
    counter.showBaseline(os, n);
    counter.showChannel(os, n);
    counter.showCorrelation(os, n);
    if (counts.find(os.str()) == std::string::npos)
      sim::Fail("counts", "the flag counts are not those of the samples that were flagged: " + counts + " instead of " + os.str());
    if (flagged) sim::Probe("flag counts compared");
  }
  // The schedule must not matter, also for the counts and small windows.
  if (plan.Knob("threads", 1) > 1) {
    const std::vector<Slot> one = run(1, counts1);
    for (size_t t = 0; t < n; ++t)
      if (one[t].flags != out[t].flags)
        sim::Fail("schedule", "the flags of time slot " + std::to_string(t) + " depend on the thread schedule");
    if (counts != counts1) sim::Fail("counts", "the flag counts depend on the thread schedule");
    sim::Probe("compared with one thread");
  }
}
