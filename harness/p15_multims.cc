// P15: several MeasurementSets are combined in frequency, slot by slot.
#include "steps/InputStep.h"

#include "ms.h"

using h::Slot;
const char* const kProperty = "P15";

namespace {
enum Kind { kSet = 1 };
// args: seed, channels, frequency place, state (0 ok, 1 absent, 2 no data
// column, 3 other times, 4 other baselines, 5 gap, 6 other interval)

class Receiver : public h::Sink {
 public:
  using h::Sink::Sink;
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    {
      sim::Quiet q;
      std::vector<h::C> m;
      if (buffer->HasData("MODEL_DATA")) {
        auto& d = buffer->GetData("MODEL_DATA");
        m.assign(d.data(), d.data() + d.size());
      }
      model.push_back(m);
      rows.push_back(buffer->GetRowNumbers().size());
    }
    return h::Sink::process(std::move(buffer));
  }
  std::vector<std::vector<h::C>> model;
  std::vector<size_t> rows;
};
}  // namespace

std::string Describe(const sim::Op& op) {
  static const char* const states[] = {"", " (absent)", " (no data column)", " (other times)", " (other baselines)", " (a gap)", " (other interval)"};
  return "set with " + std::to_string(op.Arg(1, 1)) + " channels at place " + std::to_string(op.Arg(2)) + states[op.Arg(3) % 7] + ", seed " +
         std::to_string(op.Arg(0));
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 3);
  k["autos"] = rng.Chance(0.3);
  k["ntime"] = rng.In(1, 5);
  k["order"] = rng.Chance(0.5);
  k["model"] = rng.Chance(0.2);
  k["fields"] = rng.Chance(0.8) ? 15 : rng.In(0, 15);
  k["useflag"] = rng.Chance(0.85);
  k["startslot"] = rng.Chance(0.2) ? rng.In(1, 5) : 0;
  k["throw_at"] = rng.Chance(0.1) ? rng.In(1, 4) : 0;
  k["chan_select"] = rng.Chance(0.04);
  if (rng.Chance(0.25)) k["rate_table_read_error"] = rng.Chance(0.7) ? rng.In(5, 60) : rng.In(100, 600);
  const int n = rng.In(1, 4);
  const bool same = rng.Chance(0.5), absent = !k["order"] && rng.Chance(0.5), lacking = !k["model"] && rng.Chance(0.25);
  k["missingdata"] = lacking || rng.Chance(0.1);
  if (k["model"]) k["missingdata"] = 0;
  const int bad = rng.Chance(0.15) ? rng.In(3, 8) : 0;
  const int nchan = rng.In(1, 3);
  std::vector<int> place;
  for (int i = 0; i < n; ++i) place.push_back(i);
  if (!absent)
    for (int i = n; i > 1; --i) std::swap(place[i - 1], place[rng.Below(i)]);
  for (int i = 0; i < n; ++i) {
    int state = 0;
    if (absent && rng.Chance(0.4))
      state = 1;
    else if (lacking && rng.Chance(0.5))
      state = 2;
    else if (bad && i && rng.Chance(0.4))
      state = bad;
    plan.Add(kSet, {static_cast<int64_t>(rng.Below(1 << 28)), same || absent ? nchan : rng.In(1, 3), place[i], state});
  }
}

void Execute(const sim::Plan& plan) {
  using namespace casacore;
  h::ClearDisk();
  const size_t nant = plan.Knob("nant", 2), ntime = std::max<int64_t>(1, plan.Knob("ntime", 1)), ncorr = 4, n = plan.ops.size();
  const bool autos = plan.Knob("autos");
  const double dt = 2, t0 = 55511 * 86400.0;
  const double width = 1e5;
  if (n == 0) return;
  const size_t nbl = h::Baselines(nant, autos).first.size();
  const bool order = plan.Knob("order"), model = plan.Knob("model"), missingdata = plan.Knob("missingdata");

  std::vector<h::MsSpec> sets(n);
  std::string list;
  bool invalid = false;
  size_t present = 0;
  int first = -1;
  bool absent = false;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    h::MsSpec& s = sets[i];
    const int state = o.Arg(3);
    s.nant = nant;
    s.autos = autos;
    s.nchan = std::max<int64_t>(1, o.Arg(1, 1));
    s.ncorr = ncorr;
    s.interval = dt;
    s.width = width;
    s.freq0 = 120e6 + o.Arg(2) * (absent ? 1 : 1) * 3 * width;
    s.model_column = model;
    const std::string name = "band" + std::to_string(i) + ".ms";
    list += (i ? "," : "") + name;
    if (state == 1) {
      absent = true;
      continue;
    }
    ++present;
    if (first < 0) first = i;
  }
  if (absent) {
    // Bands lie next to each other in the given order.
    for (size_t i = 0; i < n; ++i) sets[i].freq0 = 120e6 + i * sets[first < 0 ? 0 : first].nchan * width;
    for (size_t i = 0; i < n; ++i)
      if (plan.ops[i].Arg(3) != 1 && sets[i].nchan != sets[first].nchan) invalid = true;
  }
  bool bad = false;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    h::MsSpec& s = sets[i];
    int state = o.Arg(3);
    if (state == 1) continue;
    if (state >= 3 && (int(i) == first || n == 1)) state = 0;
    if (state == 4) s.autos = !autos;
    if (state == 6) s.interval = dt * 2;
    if (state == 7 && nant < 3) state = 0;
    if (state == 8 && nant < 3) state = 0;
    s.swap_baselines = state == 7 ? 1 : state == 8 ? 2 : 0;
    if (state == 5 && ntime < 3) state = 0;
    if (state >= 3) bad = true;
    const size_t rows = h::Baselines(s.nant, s.autos).first.size();
    for (size_t t = 0; t < ntime + (state == 3 ? 1 : 0); ++t) {
      if (state == 5 && t == 1) continue;
      h::MsTime m;
      sim::Rng r(o.Arg(0) + t);
      m.s = h::MakeSlot(o.Arg(0) * 31 + t, rows, s.nchan, ncorr, t0 + t * dt, dt, r.In(0, 4), false, true);
      if (r.Chance(0.3)) m.s.data[r.Below(m.s.data.size())] = h::C(NAN, 0);
      for (size_t b = 0; b < rows; ++b) m.row_flag.push_back(r.Chance(0.1));
      for (size_t j = 0; j < m.s.data.size(); ++j) m.model.push_back(h::C(r.In(-9, 9), j));
      s.times.push_back(m);
    }
    h::MakeMs("band" + std::to_string(i) + ".ms", s);
    if (state == 2) Table("band" + std::to_string(i) + ".ms").addColumn(ScalarColumnDesc<int>("DUMMY"));
  }
  // The data column: only sets with state 2 lack it.
  bool lacking = false;
  for (size_t i = 0; i < n; ++i) lacking = lacking || plan.ops[i].Arg(3) == 2;
  const std::string column = lacking ? "CORRECTED_DATA" : "DATA";
  if (lacking)
    for (size_t i = 0; i < n; ++i)
      if (plan.ops[i].Arg(3) != 1 && plan.ops[i].Arg(3) != 2) {
        sim::Quiet q;
        Table t("band" + std::to_string(i) + ".ms", Table::Update);
        t.addColumn(ArrayColumnDesc<Complex>("CORRECTED_DATA"));
        for (size_t r = 0; r < t.nrow(); ++r) ArrayColumn<Complex>(t, "CORRECTED_DATA").put(r, ArrayColumn<Complex>(t, "DATA")(r));
      }
  if (lacking && !missingdata) invalid = true;
  if (n == 1 && lacking) invalid = true;
  if (!present) invalid = true;
  if (absent && (order || n == 1)) invalid = true;

  dp3::common::ParameterSet parset;
  parset.add("msin", "[" + list + "]");
  parset.add("msin.orderms", order ? "true" : "false");
  if (missingdata) parset.add("msin.missingdata", "true");
  if (model) parset.add("msin.extradatacolumns", "[MODEL_DATA]");
  if (model && missingdata && n > 1) invalid = true;
  if (column != "DATA") parset.add("msin.datacolumn", column);
  if (!plan.Knob("useflag", 1)) parset.add("msin.useflag", "false");
  const size_t startslot = plan.Knob("startslot");
  if (startslot) parset.add("msin.starttimeslot", std::to_string(startslot));
  if (plan.Knob("chan_select") && n > 1) {
    parset.add("msin.startchan", "1");
    invalid = true;
  }

  const int want_fields = plan.Knob("fields", 15);
  using F = dp3::common::Fields;
  F fields;
  if (want_fields & 1) fields |= F(F::Single::kData);
  if (want_fields & 2) fields |= F(F::Single::kFlags);
  if (want_fields & 4) fields |= F(F::Single::kWeights);
  if (want_fields & 8) fields |= F(F::Single::kUvw);

  h::ArmDisk();
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<Receiver>(throw_at);
  bool threw = false, next_threw = false;
  std::string why;
  dp3::base::DPInfo info;
  {
    sim::FaultScope faults;
    try {
      std::unique_ptr<dp3::steps::InputStep> reader = dp3::steps::InputStep::CreateReader(parset);
      reader->setFieldsToRead(fields);
      reader->setNextStep(sink);
      reader->setInfo(dp3::base::DPInfo());
      info = sink->getInfoIn();
      size_t guard = 0;
      while (reader->process(std::make_unique<dp3::base::DPBuffer>()))
        if (++guard > 1000) sim::Fail("endless", "reading does not end");
      reader->finish();
    } catch (const h::StepError&) {
      next_threw = true;
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
  }
  sim::Quiet q;
  mini_detail::table_hook = nullptr;
  h::HashSlots(sink->slots);
  const uint64_t faults = sim::FaultsFired(sim::kTableReadError);
  if (faults) sim::Probe("read failed");
  if (faults && !threw && !next_threw) sim::Fail("error-hidden", "an error while reading was not reported");
  if (faults && threw) return;
  const bool gap_skipped = startslot > 0;  // then the slots that differ may be skipped
  if (invalid || (bad && !gap_skipped)) {
    sim::Probe("sets refused");
    if (!threw && !(next_threw && !invalid)) sim::Fail("bad-sets", "sets that cannot be combined were accepted");
    return;
  }
  if (bad) return;
  if (threw) sim::Fail("spurious-error", "combining sets failed without a reason: " + why);
  long nout = startslot >= ntime ? 0 : ntime - startslot;
  if (throw_at >= 0 && throw_at < nout) {
    if (!next_threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    nout = throw_at;
  } else if (next_threw) {
    sim::Fail("bug", "unexpected exception");
  } else if (sink->finished != 1) {
    sim::Fail("not-finished", "the next step was not finished");
  }

  // The sets in the order in which they must appear.
  std::vector<size_t> seq;
  for (size_t i = 0; i < n; ++i) seq.push_back(i);
  if (order && n > 1) std::stable_sort(seq.begin(), seq.end(), [&](size_t a, size_t b) { return sets[a].freq0 < sets[b].freq0; });
  // Sets at the same frequency have no defined order.
  for (size_t i = 1; i < n; ++i)
    if (order && sets[seq[i]].freq0 == sets[seq[i - 1]].freq0) return;
  size_t total = 0;
  for (size_t i : seq) total += sets[i].nchan;
  if (absent) total = n * sets[first].nchan;
  if (info.nchan() != total || info.nbaselines() != nbl || info.ncorr() != ncorr) sim::Fail("info", "the announced shape is wrong");
  size_t c = 0;
  for (size_t i : seq) {
    const size_t nchan = absent ? sets[first].nchan : sets[i].nchan;
    for (size_t k = 0; k < nchan; ++k, ++c)
      if (!h::Near(info.chanFreqs()[c], sets[i].freq0 + k * width, 1e-9) || !h::Near(info.chanWidths()[c], width, 1e-9))
        sim::Fail("frequencies", "channel " + std::to_string(c) + " has another frequency");
  }
  if (sink->slots.size() != size_t(nout))
    sim::Fail("slot-count", std::to_string(sink->slots.size()) + " time slots were read instead of " + std::to_string(nout));
  for (long t = 0; t < nout; ++t) {
    const Slot& g = sink->slots[t];
    const std::string name = "time slot " + std::to_string(t);
    if (!h::Near(g.time, t0 + (t + startslot) * dt, 1e-13)) sim::Fail("time", name + " has another time");
    if (sink->rows[t] != nbl) sim::Fail("rows", name + " has no row numbers");
    const size_t size = nbl * total * ncorr;
    if ((want_fields & 1) && g.data.size() != size) sim::Fail("shape", name + " has data of another shape");
    if ((want_fields & 2) && g.flags.size() != size) sim::Fail("shape", name + " has flags of another shape");
    if ((want_fields & 4) && g.weights.size() != size) sim::Fail("shape", name + " has weights of another shape");
    if ((want_fields & 1) && model && sink->model[t].size() != size) sim::Fail("shape", name + " has extra data of another shape");
    size_t c0 = 0;
    for (size_t i : seq) {
      const int state = plan.ops[i].Arg(3);
      const size_t nchan = absent ? sets[first].nchan : sets[i].nchan;
      const h::MsTime* m = state == 1 ? nullptr : &sets[i].times[t + startslot];
      for (size_t b = 0; b < nbl; ++b)
        for (size_t k = 0; k < nchan; ++k) {
          bool any = !m || state == 2;
          if (m && plan.Knob("useflag", 1)) any = any || m->row_flag[b];
          if (m && (want_fields & 1))
            for (size_t p = 0; p < ncorr; ++p) {
              const size_t a = m->s.At(b, k, p);
              any = any || (m->s.flags[a] && plan.Knob("useflag", 1)) || !std::isfinite(m->s.data[a].real());
            }
          for (size_t p = 0; p < ncorr; ++p) {
            const size_t o = (b * total + c0 + k) * ncorr + p;
            const size_t a = m ? m->s.At(b, k, p) : 0;
            const std::string where = h::Where(t, b, c0 + k, p);
            if (want_fields & 1) {
              if (!h::SameC(g.data[o], m && state != 2 ? m->s.data[a] : h::C())) sim::Fail("data", "the data of " + where + " are wrong");
              if (model && !h::SameC(sink->model[t][o], m ? m->model[a] : h::C())) sim::Fail("extra-data", "the extra data of " + where + " are wrong");
            }
            if ((want_fields & 3) == 3 && (g.flags[o] != 0) != any) sim::Fail("flags", "the flag of " + where + " is wrong");
            if ((want_fields & 2) && !m && !g.flags[o]) sim::Fail("flags", "an absent set is not flagged");
            if ((want_fields & 4) && g.weights[o] != (m ? m->s.weights[a] : 0)) sim::Fail("weights", "the weight of " + where + " is wrong");
          }
        }
      c0 += nchan;
    }
    if (want_fields & 8)
      for (size_t j = 0; j < nbl * 3; ++j)
        if (g.uvw[j] != sets[order && n > 1 ? seq[0] : first].times[t + startslot].s.uvw[j]) sim::Fail("uvw", name + " has other UVW coordinates");
  }
  if (absent) sim::Probe("absent set");
  if (lacking) sim::Probe("no data column");
  if (n > 1) sim::Probe("several sets");
  if (order && n > 2) sim::Probe("ordered");
}
