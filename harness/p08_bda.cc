// P08: baseline-dependent averaging and its expansion.
#include "steps.h"

#include "base/BdaBuffer.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"

const char* const kProperty = "P08";
using dp3::base::BdaBuffer;
using h::Slot;

namespace {
enum { kSlot = 1, kRequest };
// kSlot args: seed, flag mode, nan in flagged points, zero weights, exposure factor (1/4)
// kRequest args: size

struct Row {
  size_t bl, first, n;
  double time, interval, exposure;
  double uvw[3];
  std::vector<std::complex<double>> data, extra;
  std::vector<double> weights;
};

/// Passes BDA buffers on to the expander after recording them.
class Tap : public dp3::steps::Step {
 public:
  bool process(std::unique_ptr<BdaBuffer> b) override {
    if (!b) sim::Fail("no-buffer", "the averager passed on no buffer");
    if (getNextStep()) {
      // The expander must depend on the rows only.
      on_buffer(*b);
      getNextStep()->process(std::move(b));
    } else {
      on_buffer(*b);
    }
    return true;
  }
  void finish() override {
    ++finished;
    getNextStep()->finish();
  }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool accepts(MsType) const override { return true; }
  MsType outputs() const override { return MsType::kBda; }
  std::function<void(const BdaBuffer&)> on_buffer;
  int finished = 0;
};
}  // namespace

std::string Describe(const sim::Op& o) {
  if (o.kind == kRequest) return "request a buffer of " + std::to_string(o.Arg(0)) + " elements above the minimum";
  return "time slot (data " + std::to_string(o.Arg(0)) + ", flag mode " + std::to_string(o.Arg(1)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Below(2);
  k["nchan"] = rng.In(1, 9);
  static const int kCorr[] = {1, 2, 4};
  k["ncorr"] = kCorr[rng.Below(3)];
  k["timebase"] = rng.Chance(0.2) ? 0 : rng.In(50, 4000);
  k["frequencybase"] = rng.Chance(0.3) ? 0 : rng.In(50, 3000);
  k["maxinterval"] = rng.Chance(0.3) ? 0 : rng.In(1, 9);
  k["minchannels"] = rng.Chance(0.5) ? 1 : rng.In(1, 4);
  k["extra"] = rng.Chance(0.4);
  k["odd_times"] = rng.Chance(0.5) ? rng.In(1, 1000) : 0;
  k["use_weights"] = rng.Chance(0.85);
  if (rng.Chance(0.1)) k["throw_at"] = rng.In(1, 8);
  const int n = static_cast<int>(rng.Chance(0.03) ? 0 : rng.In(1, 14));
  const int exposure = static_cast<int>(rng.Chance(0.7) ? 4 : rng.In(1, 4));
  const bool requests = rng.Chance(0.3);
  for (int i = 0; i < n; ++i) {
    if (requests && rng.Chance(0.5)) plan.Add(kRequest, {rng.Chance(0.3) ? 0 : rng.In(0, 80)});
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.2), rng.Chance(0.3), exposure});
  }
}

void Execute(const sim::Plan& plan) {
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 1);
  // Real observations have times and intervals that a double cannot hold exactly.
  const double dt = plan.Knob("odd_times") ? 1.00139008 : 2, t0 = plan.Knob("odd_times") ? 4871282392.9 + 3600.7 * plan.Knob("odd_times") : 5000;
  const bool use_weights = plan.Knob("use_weights", 1), extra = plan.Knob("extra");
  std::vector<Slot> in;
  size_t nslots = 0;
  for (const auto& o : plan.ops) nslots += o.kind == kSlot;
  const dp3::base::DPInfo info =
      h::MakeInfo(nant, plan.Knob("autos"), nchan, ncorr, std::max<size_t>(1, nslots), t0, dt);
  const size_t nbl = info.nbaselines();
  for (const auto& o : plan.ops)
    if (o.kind == kSlot)
      in.push_back(h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, t0 + in.size() * dt, dt * o.Arg(4, 4) / 4.0, o.Arg(1),
                               o.Arg(2) && use_weights, o.Arg(3)));
  auto extra_value = [](const h::C& c) { return h::C(c.imag() + 1, c.real() - 2); };

  // The documented averaging factors.
  std::vector<size_t> factor(nbl), nch(nbl);
  size_t max_elements = 1;
  const double timebase = plan.Knob("timebase"), freqbase = plan.Knob("frequencybase");
  const double maxint = plan.Knob("maxinterval");
  const size_t minchan = std::min<size_t>(plan.Knob("minchannels", 1), nchan);
  for (size_t b = 0; b < nbl; ++b) {
    const int x1 = info.getAnt1()[b], x2 = info.getAnt2()[b];
    const double dx = 100.0 * (x1 * x1 - x2 * x2), dy = 10.0 * (x1 - x2);
    const double len = std::sqrt(dx * dx + dy * dy);
    factor[b] = std::floor(timebase / std::max(len, 0.1));
    if (maxint > 0 && factor[b] * dt > maxint) factor[b] = std::floor(maxint / dt);
    factor[b] = std::max<size_t>(1, factor[b]);
    nch[b] = nchan;
    if (freqbase > 0)
      nch[b] = std::max(minchan, std::min<size_t>(nchan, std::ceil(len / freqbase * double(nchan))));
    max_elements = std::max(max_elements, nch[b] * ncorr);
  }

  dp3::common::ParameterSet parset;
  parset.add("b.timebase", h::Str(timebase));
  parset.add("b.frequencybase", h::Str(freqbase));
  parset.add("b.maxinterval", h::Str(maxint));
  parset.add("b.minchannels", std::to_string(minchan));
  auto averager = std::make_shared<dp3::steps::BdaAverager>(parset, "b.", use_weights);
  auto tap = std::make_shared<Tap>();
  auto expander = std::make_shared<dp3::steps::BdaExpander>("e.");
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<h::Sink>(throw_at);
  averager->setNextStep(tap);
  tap->setNextStep(expander);
  expander->setNextStep(sink);
  averager->setInfo(info);

  // The expected rows, in the order in which they are completed.
  std::vector<Row> want;
  auto complete = [&](size_t b, size_t first, size_t n) {
    Row r;
    r.bl = b;
    r.first = first;
    r.n = n;
    r.interval = n * dt;
    r.time = in[first].time - dt / 2 + r.interval / 2;
    r.exposure = 0;
    for (double& u : r.uvw) u = 0;
    for (size_t t = first; t < first + n; ++t) {
      r.exposure += in[t].exposure;
      for (int i = 0; i < 3; ++i) r.uvw[i] += in[t].uvw[b * 3 + i] / n;
    }
    for (size_t c = 0; c < nch[b]; ++c)
      for (size_t p = 0; p < ncorr; ++p) {
        std::complex<double> s = 0, e = 0;
        double w = 0;
        for (size_t t = first; t < first + n; ++t)
          for (size_t k = c * nchan / nch[b]; k < (c + 1) * nchan / nch[b]; ++k) {
            const size_t i = in[t].At(b, k, p);
            if (use_weights && in[t].flags[i]) continue;
            const double wt = use_weights ? in[t].weights[i] : 1.0;
            s += std::complex<double>(in[t].data[i]) * wt;
            e += std::complex<double>(extra_value(in[t].data[i])) * wt;
            w += wt;
          }
        r.data.push_back(w > 0 ? s / w : s);
        r.extra.push_back(w > 0 ? e / w : e);
        r.weights.push_back(w);
      }
    want.push_back(r);
  };
  for (size_t t = 0; t < in.size(); ++t)
    for (size_t b = 0; b < nbl; ++b)
      if ((t + 1) % factor[b] == 0) complete(b, t + 1 - factor[b], factor[b]);
  for (size_t b = 0; b < nbl; ++b)
    if (in.size() % factor[b]) complete(b, in.size() - in.size() % factor[b], in.size() % factor[b]);

  size_t next = 0;
  std::vector<size_t> requests;
  tap->on_buffer = [&](const BdaBuffer& b) {
    sim::Quiet q;
    size_t elements = 0;
    if (b.GetRows().empty()) sim::Fail("empty-buffer", "an empty buffer was passed on");
    for (size_t i = 0; i < b.GetRows().size(); ++i) {
      const BdaBuffer::Row& r = b.GetRows()[i];
      if (next >= want.size()) sim::Fail("extra-row", "more averaged rows than the input contains");
      const std::string at = "row " + std::to_string(next);
      // Rows that are completed by the same time slot may come in any order.
      const Row* w = nullptr;
      const auto end = [](const Row& x) { return x.first + x.n; };
      for (size_t j = next; j < want.size() && end(want[j]) == end(want[next]); ++j)
        if (want[j].bl == r.baseline_nr) {
          std::swap(want[j], want[next]);
          w = &want[next];
          break;
        }
      if (!w) sim::Fail("row-order", at + " is of baseline " + std::to_string(r.baseline_nr) + ", which has no such row");
      if (r.row_nr != next) sim::Fail("row-number", at + " has number " + std::to_string(r.row_nr));
      if (!h::Near(r.time, w->time, 1e-12) || !h::Near(r.interval, w->interval, 1e-9))
        sim::Fail("row-time", at + " covers another interval than its input");
      if (!h::Near(r.exposure, w->exposure, 1e-9))
        sim::Fail("exposure", at + " has exposure " + h::Str(r.exposure) + " instead of " + h::Str(w->exposure));
      if (r.n_channels != nch[w->bl] || r.n_correlations != ncorr)
        sim::Fail("row-shape", at + " has " + std::to_string(r.n_channels) + " channels instead of " +
                                   std::to_string(nch[w->bl]));
      for (int k = 0; k < 3; ++k)
        if (!h::Near(r.uvw[k], w->uvw[k], 1e-9))
          sim::Fail("uvw", at + " has UVW " + h::Str(r.uvw[k]) + " instead of the mean " + h::Str(w->uvw[k]));
      if (r.offset != elements) sim::Fail("offset", at + " overlaps another row");
      const h::C* d = b.GetData(i);
      const h::C* e = extra ? b.GetData(i, "model") : nullptr;
      const float* wt = b.GetWeights(i);
      const bool* fl = b.GetFlags(i);
      if (!d || !wt || !fl || (extra && !e)) sim::Fail("no-data", at + " lacks a field");
      for (size_t j = 0; j < w->data.size(); ++j) {
        if (!h::Near(wt[j], w->weights[j]))
          sim::Fail("weight", at + " has weight " + h::Str(wt[j]) + " instead of " + h::Str(w->weights[j]));
        if (!h::Near(d[j], w->data[j]))
          sim::Fail("value", at + " has value " + h::Str(d[j].real()) + " instead of " + h::Str(w->data[j].real()));
        if (e && !h::Near(e[j], w->extra[j])) sim::Fail("extra-value", at + " has a wrong value in extra data");
        if (fl[j] && w->weights[j] > 0) sim::Fail("flag", at + " is flagged although it has data");
      }
      elements += w->data.size();
      ++next;
      sim::EventDouble(r.time);
      sim::EventDouble(d[0].real());
    }
    if (b.GetNumberOfElements() != elements) sim::Fail("elements", "the number of elements of a buffer is wrong");
  };

  bool threw = false;
  try {
    size_t t = 0;
    for (const auto& o : plan.ops) {
      if (o.kind == kRequest) {
        averager->PushBufferSizeRequest(max_elements + o.Arg(0));
        sim::Probe("requested buffer size");
        continue;
      }
      auto b = h::ToBuffer(in[t++]);
      if (extra) {
        b->AddData("model");
        b->GetData("model").resize(std::array<size_t, 3>{nbl, nchan, ncorr});
        for (size_t i = 0; i < b->GetData().size(); ++i)
          b->GetData("model").data()[i] = extra_value(b->GetData().data()[i]);
      }
      averager->process(std::move(b));
    }
    averager->finish();
  } catch (const h::StepError&) {
    threw = true;
  }
  sim::Quiet q;
  h::HashSlots(sink->slots);
  size_t nout = in.size();
  if (throw_at >= 0 && static_cast<size_t>(throw_at) < in.size()) {
    if (!threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    sim::Probe("failing next step");
    nout = throw_at;
  } else {
    if (threw) sim::Fail("bug", "unexpected exception");
    if (next != want.size())
      sim::Fail("lost-row", std::to_string(want.size() - next) + " averaged rows were never passed on");
    if (sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
    for (const Row& r : want)
      if (r.n < factor[r.bl]) sim::Probe("partial last interval");
  }
  // The output has the channels of the baseline with most channels.
  const size_t fine = *std::max_element(nch.begin(), nch.end());
  // The expansion: every time slot, in order, with the weight shared out.
  if (sink->slots.size() != nout)
    sim::Fail("slot-count", "expanding gave " + std::to_string(sink->slots.size()) + " time slots instead of " +
                                std::to_string(nout));
  if (nout == in.size() && next != want.size()) return;
  std::vector<std::vector<const Row*>> of(in.size(), std::vector<const Row*>(nbl));
  for (const Row& r : want)
    for (size_t t = r.first; t < r.first + r.n; ++t) of[t][r.bl] = &r;
  for (size_t t = 0; t < nout; ++t) {
    const Slot& g = sink->slots[t];
    if (!h::Near(g.time, in[t].time, 1e-12))
      sim::Fail("slot-time", "expanded slot " + std::to_string(t) + " has time " + h::Str(g.time));
    if (g.nbl != nbl || g.nchan != fine || g.ncorr != ncorr) sim::Fail("slot-shape", "an expanded slot has another shape");
    for (size_t b = 0; b < nbl; ++b) {
      const Row& r = *of[t][b];
      for (int k = 0; k < 3; ++k)
        if (!h::Near(g.uvw[b * 3 + k], r.uvw[k], 1e-9)) sim::Fail("slot-uvw", "an expanded slot has a wrong UVW");
      // Averaged channel -> output channels. It is only determined when the
      // averaged widths are multiples of the width of an output channel.
      bool exact = true;
      std::vector<size_t> bound;
      for (size_t c = 0; c <= nch[b]; ++c) {
        if (nch[b] == fine) {
          bound.push_back(c);
        } else {
          exact &= (c * nchan / nch[b]) * fine % nchan == 0;
          bound.push_back((c * nchan / nch[b]) * fine / nchan);
        }
      }
      if (!exact) {
        sim::Probe("expansion by a fraction");
        for (size_t p = 0; p < ncorr; ++p) {
          double got = 0, sum = 0;
          size_t c = 0;
          for (size_t k = 0; k < fine; ++k) {
            const size_t i = g.At(b, k, p);
            got += g.weights[i];
            while (c < nch[b] && !h::Near(g.data[i], r.data[c * ncorr + p])) ++c;
            if (c == nch[b])
              sim::Fail("slot-value", h::Where(t, b, k, p) + ": expanded value " + h::Str(g.data[i].real()) +
                                          " is not that of the next averaged channel");
          }
          for (size_t x = 0; x < nch[b]; ++x) sum += r.weights[x * ncorr + p] / r.n;
          if (!h::Near(got, sum)) sim::Fail("slot-weight", "expanding changes the total weight of a baseline");
        }
        continue;
      }
      for (size_t c = 0; c < nch[b]; ++c) {
        const size_t k0 = bound[c], k1 = bound[c + 1];
        for (size_t k = k0; k < k1; ++k)
          for (size_t p = 0; p < ncorr; ++p) {
            const std::string at = h::Where(t, b, k, p);
            const size_t i = g.At(b, k, p), j = c * ncorr + p;
            if (!h::Near(g.data[i], r.data[j]))
              sim::Fail("slot-value", at + ": expanded value " + h::Str(g.data[i].real()) + " instead of " +
                                          h::Str(r.data[j].real()));
            if (!h::Near(g.weights[i], r.weights[j] / (r.n * (k1 - k0))))
              sim::Fail("slot-weight", at + ": expanded weight " + h::Str(g.weights[i]) + " instead of " +
                                           h::Str(r.weights[j] / (r.n * (k1 - k0))));
          }
      }
    }
  }
  if (nout) sim::Probe("expansion checked");
}
