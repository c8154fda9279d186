// P13: a new MeasurementSet is written completely and in order by the writer
// thread, whatever the schedule, and failing writes are reported.
#include "steps/MSWriter.h"
#include "steps/NullStep.h"

#include "ms.h"

using h::Slot;
const char* const kProperty = "P13";

namespace {
enum Kind { kSlot = 1 };
// args: seed, flag mode, time step in units of the interval

/// Stands for the steps before the writer; they may add data to the set.
class First : public h::Sink {
 public:
  void addToMS(const std::string& name) override { added.push_back(name); }
  std::vector<std::string> added;
};

std::string ChunkName(const std::string& base, size_t i, bool chunked) {
  if (!chunked) return base;
  char b[16];
  std::snprintf(b, sizeof b, "-%03zu", i);
  const size_t dot = base.rfind('.');
  return dot == std::string::npos ? base + b : base.substr(0, dot) + b + base.substr(dot);
}

}  // namespace

std::string Describe(const sim::Op& op) {
  return "time slot " + std::to_string(op.Arg(2, 1)) + " intervals later, flag mode " + std::to_string(op.Arg(1)) + ", seed " +
         std::to_string(op.Arg(0));
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(1, 3);
  k["autos"] = k["nant"] == 1 || rng.Chance(0.3);
  k["nchan"] = rng.In(1, 3);
  k["in_nchan"] = rng.Chance(0.6) ? k["nchan"] : k["nchan"] + rng.In(1, 3);
  k["ncorr"] = rng.Chance(0.5) ? 4 : rng.In(1, 2);
  k["n_spw"] = rng.Chance(0.7) ? 1 : rng.In(2, 3);
  k["spw"] = rng.In(0, 2);
  k["null_next"] = rng.Chance(0.75);
  k["flush"] = rng.Chance(0.5) ? -1 : rng.In(0, 4);
  k["chunk"] = rng.Chance(0.6) ? 0 : rng.In(1, 5);
  k["ext"] = rng.In(0, 2);
  k["exists"] = rng.Chance(0.2) ? rng.In(1, 2) : 0;
  k["overwrite"] = rng.Chance(0.3);
  k["phase"] = rng.Chance(0.2);
  k["beam"] = rng.Chance(0.2) ? rng.In(1, 3) : 0;
  k["stop"] = rng.Chance(0.15);  // destroyed without finish
  k["dysco"] = rng.Chance(0.1);
  k["throw_at"] = !k["null_next"] && rng.Chance(0.2) ? rng.In(1, 6) : 0;
  if (rng.Chance(0.35)) k["rate_table_write_error"] = rng.Chance(0.7) ? rng.In(5, 80) : rng.In(100, 600);
  if (rng.Chance(0.1)) k["rate_thread_create_fail"] = 3000;
  const int n = rng.Chance(0.1) ? 0 : rng.In(1, 9);
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.85) ? 1 : rng.In(2, 5)});
}

void Execute(const sim::Plan& plan) {
  using namespace casacore;
  h::ClearDisk();
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = plan.Knob("ncorr", 4);
  const bool autos = plan.Knob("autos");
  const double dt = 2, t0 = 5000.0;
  const size_t n = plan.ops.size();
  const int n_spw = std::max<int64_t>(1, plan.Knob("n_spw", 1));
  const int spw = std::min<int64_t>(plan.Knob("spw"), n_spw - 1);

  h::MsSpec spec;
  spec.nant = nant;
  spec.autos = autos;
  spec.nchan = std::max<size_t>(nchan, plan.Knob("in_nchan", 1));
  spec.ncorr = ncorr;
  spec.interval = dt;
  spec.n_spw = n_spw;
  const size_t nbl = h::Baselines(nant, autos).first.size();
  spec.times.resize(1);
  spec.times[0].s = h::MakeSlot(1, nbl, spec.nchan, ncorr, t0, dt, 0, false, false);
  h::MakeMs("in.ms", spec);
  const std::vector<h::MsTime> before = h::DumpMs("in.ms", nbl);

  // The band is changed by the earlier steps.
  dp3::base::DPInfo info = h::MakeInfo(nant, autos, nchan, ncorr, std::max<size_t>(1, n), t0, dt, 3e5);
  {
    std::vector<double> f = info.chanFreqs(), w = info.chanWidths();
    info.setChannels(std::move(f), std::move(w), {}, {}, 0.0, spw);
  }
  info.setMsName("in.ms");
  if (plan.Knob("phase")) {
    info.setArrayInformation(MPosition(), MDirection(MVDirection(0.3, 0.9), MDirection::J2000),
                             MDirection(MVDirection(0.3, 0.9), MDirection::J2000), MDirection());
    info.setPhaseCenter(MDirection(MVDirection(0.5, 0.7), MDirection::J2000));
  }
  if (plan.Knob("beam")) {
    info.setBeamCorrectionMode(plan.Knob("beam"));
    info.setBeamCorrectionDir(MDirection(MVDirection(0.1, 0.2), MDirection::J2000));
  }

  const char* const names[] = {"out.ms", "out", "out.x.ms"};
  const std::string base = names[plan.Knob("ext") % 3];
  const int64_t chunk = plan.Knob("chunk");
  const double chunk_seconds = chunk * dt;
  dp3::common::ParameterSet parset;
  const int64_t flush = plan.Knob("flush", -1);
  if (flush >= 0) parset.add("msout.flush", std::to_string(flush));
  if (chunk) parset.add("msout.chunkduration", h::Str(chunk_seconds));
  const bool overwrite = plan.Knob("overwrite");
  if (overwrite) parset.add("msout.overwrite", "true");
  const bool dysco = plan.Knob("dysco");
  if (dysco) parset.add("msout.storagemanager", "dysco");
  parset.add("msin", "in.ms");

  // The slots and how they are spread over output sets.
  std::vector<Slot> in;
  std::vector<std::vector<size_t>> chunks(1);
  double time = t0, start = t0;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    if (i) time += dt * std::max<int64_t>(1, o.Arg(2, 1));
    in.push_back(h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, time, dt * 0.9, o.Arg(1), true, true));
    if (chunk && time - start >= chunk_seconds) {
      chunks.emplace_back();
      start = time;
    }
    chunks.back().push_back(i);
  }
  // Something may be in the way.
  const size_t exists = plan.Knob("exists");
  std::string occupied;
  if (exists) {
    occupied = ChunkName(base, exists - 1, chunk);
    h::MakeMs(occupied, spec);
  }
  const bool refused = exists && !overwrite && (chunk ? exists <= chunks.size() : true);

  // Every flush happens when it should, and only one thread uses the set.
  h::ArmDisk();
  size_t slots_added = 0;
  mini_detail::table_hook = [&, hook = mini_detail::table_hook](char op, const std::string& table, const std::string& column) {
    hook(op, table, column);
    if (op != 'a' || table.find('/') != std::string::npos) return;
    sim::Quiet quiet;
    const auto& t = *mini_detail::Disk()[table];
    if (flush > 0 && slots_added && slots_added % flush == 0 && t.flushed_rows != t.nrow)
      sim::Fail("not-flushed", std::to_string(slots_added) + " time slots were written without the requested flush");
    if (flush > 0 && slots_added >= size_t(flush)) sim::Probe("flush checked");
    ++slots_added;
  };
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto first = std::make_shared<First>();
  auto sink = std::make_shared<h::Sink>(throw_at);
  std::vector<std::vector<unsigned>> rows_seen;
  bool threw = false, next_threw = false;
  std::string why;
  size_t accepted = 0;
  bool stopped = false;
  uint64_t written_at_failure = 0;
  (void)written_at_failure;
  {
    sim::FaultScope faults;
    try {
      auto writer = std::make_shared<dp3::steps::MSWriter>(base, parset, "msout.");
      first->setNextStep(writer);
      if (plan.Knob("null_next"))
        writer->setNextStep(std::make_shared<dp3::steps::NullStep>());
      else
        writer->setNextStep(sink);
      try {
        writer->setInfo(info);
        for (const Slot& s : in) {
          writer->process(h::ToBuffer(s));
          ++accepted;
        }
        if (plan.Knob("stop"))
          stopped = true;
        else
          writer->finish();
      } catch (...) {
        first->setNextStep(nullptr);
        throw;
      }
      first->setNextStep(nullptr);
    } catch (const h::StepError&) {
      next_threw = true;
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
  }
  sim::Quiet q;
  mini_detail::table_hook = nullptr;
  const uint64_t faults = sim::FaultsFired(sim::kTableWriteError) + sim::FaultsFired(sim::kThreadCreateFail);
  sim::Event(threw * 2 + next_threw);
  sim::Event(accepted);
  if (stopped) sim::Probe("destroyed without finish");

  // The input is not touched.
  {
    const std::vector<h::MsTime> after = h::DumpMs("in.ms", nbl);
    if (after.size() != before.size() || !h::SameData(after[0].s.data, before[0].s.data) || after[0].s.flags != before[0].s.flags)
      sim::Fail("input-changed", "the input MeasurementSet was changed");
    Table spw_in("in.ms/SPECTRAL_WINDOW");
    if (spw_in.nrow() != size_t(n_spw) || size_t(ScalarColumn<int>(spw_in, "NUM_CHAN")(0)) != spec.nchan)
      sim::Fail("input-changed", "the spectral windows of the input were changed");
  }
  if (refused && faults == 0 && !next_threw) {
    if (!threw) sim::Fail("overwritten", "an existing MeasurementSet was overwritten without permission");
  }
  if (exists && !overwrite) {
    const std::vector<h::MsTime> old = h::DumpMs(occupied, nbl);
    if (old.size() != 1 || !h::SameData(old[0].s.data, spec.times[0].s.data))
      sim::Fail("overwritten", "an existing MeasurementSet was changed without permission");
    sim::Probe("output exists");
  }
  if (threw && !faults && !refused) sim::Fail("spurious-error", "writing failed without a reason: " + why);
  if (faults && !threw && !next_threw && !stopped) sim::Fail("lost-write", "a failing write was reported as success");
  if (next_threw && throw_at < 0) sim::Fail("bug", "unexpected exception");
  if (faults) sim::Probe("write failed");

  // What each output set must hold.
  size_t done = 0;
  const bool complete = !threw && !next_threw && !(stopped && faults);
  if (complete && !plan.Knob("null_next")) {
    if (throw_at >= 0 && static_cast<size_t>(throw_at) < n) sim::Fail("error-hidden", "an error of the next step was swallowed");
    if (sink->slots.size() != n) sim::Fail("next-step", "the next step did not get every time slot");
    if (!stopped && sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
  }
  for (size_t c = 0; c < chunks.size(); ++c) {
    const std::string name = ChunkName(base, c, chunk != 0);
    const bool present = mini_detail::Disk().count(name);
    if (!present) {
      if (complete) sim::Fail("missing-output", "there is no output MeasurementSet " + name);
      break;
    }
    if (exists && !overwrite && name == occupied) break;
    if (exists && overwrite && name == occupied && !complete) break;
    const size_t rows = mini_detail::Disk()[name]->nrow;
    const size_t slots = rows / nbl;
    if (slots > chunks[c].size() || (complete && slots != chunks[c].size()))
      sim::Fail("slot-count", name + " has " + std::to_string(slots) + " time slots instead of " + std::to_string(chunks[c].size()));
    if (!complete && c + 1 < chunks.size() && mini_detail::Disk().count(ChunkName(base, c + 1, true)) && !exists && slots != chunks[c].size())
      sim::Fail("slot-count", name + " lacks time slots although the next set was started");
    done += slots;
    // After an error the last slot can be partially written.
    const size_t sound = complete ? slots : slots ? slots - 1 : 0;
    if (complete && !stopped && mini_detail::Disk()[name]->flushed_rows != rows)
      sim::Fail("not-flushed", name + " is not flushed completely at the end");
    if (sound == 0) continue;
    Table t(name);
    for (size_t i = 0; i < sound; ++i) {
      const Slot& w = in[chunks[c][i]];
      Slot want = w;
      if (dysco)
        for (size_t j = 0; j < want.data.size(); ++j)
          if (want.flags[j]) {
            want.data[j] = h::C(NAN, NAN);
            want.weights[j] = 0;
          }
      const std::string where = name + " time slot " + std::to_string(i);
      for (size_t b = 0; b < nbl; ++b) {
        const size_t row = i * nbl + b;
        const std::string at = where + " baseline " + std::to_string(b);
        const Array<Complex> data = ArrayColumn<Complex>(t, "DATA")(row);
        const Array<float> weights = ArrayColumn<float>(t, "WEIGHT_SPECTRUM")(row);
        const Array<bool> flags = ArrayColumn<bool>(t, "FLAG")(row);
        const Array<double> uvw = ArrayColumn<double>(t, "UVW")(row);
        bool all = true;
        if (size_t(data.shape()[0]) != ncorr || size_t(data.shape()[1]) != nchan) sim::Fail("shape", at + " has another shape");
        for (size_t j = 0; j < nchan * ncorr; ++j) {
          const size_t k = b * nchan * ncorr + j;
          const h::C g = data.data()[j];
          if (std::isnan(want.data[k].real()) ? !std::isnan(g.real()) : !h::SameC(g, want.data[k])) sim::Fail("data", at + " has other data");
          if (weights.data()[j] != want.weights[k]) sim::Fail("weights", at + " has other weights");
          if (flags.data()[j] != (want.flags[k] != 0)) sim::Fail("flags", at + " has other flags");
          all = all && want.flags[k];
        }
        for (int k = 0; k < 3; ++k)
          if (uvw.data()[k] != w.uvw[3 * b + k]) sim::Fail("uvw", at + " has other UVW coordinates");
        if (ScalarColumn<bool>(t, "FLAG_ROW")(row) != all) sim::Fail("flag-row", at + ": FLAG_ROW does not tell whether all data are flagged");
        if (ScalarColumn<double>(t, "TIME")(row) != w.time || ScalarColumn<double>(t, "TIME_CENTROID")(row) != w.time)
          sim::Fail("time", at + " has another time");
        if (ScalarColumn<double>(t, "EXPOSURE")(row) != w.exposure || ScalarColumn<double>(t, "INTERVAL")(row) != dt)
          sim::Fail("exposure", at + " has another exposure or interval");
        if (ScalarColumn<int>(t, "ANTENNA1")(row) != info.getAnt1()[b] || ScalarColumn<int>(t, "ANTENNA2")(row) != info.getAnt2()[b])
          sim::Fail("antennas", at + " has other antennas");
        for (const char* z : {"DATA_DESC_ID", "FIELD_ID", "FEED1", "FEED2", "PROCESSOR_ID", "ARRAY_ID", "OBSERVATION_ID"})
          if (ScalarColumn<int>(t, z)(row) != 0) sim::Fail("ids", at + ": " + z + " is not 0");
      }
    }
    if (!complete) continue;
    // The subtables describe what was written.
    Table s(name + "/SPECTRAL_WINDOW"), dd(name + "/DATA_DESCRIPTION"), obs(name + "/OBSERVATION"), his(name + "/HISTORY"),
        ant(name + "/ANTENNA"), field(name + "/FIELD");
    if (s.nrow() != 1 || dd.nrow() != 1) sim::Fail("spectral-window", name + " does not have just the selected spectral window");
    if (ScalarColumn<int>(dd, "SPECTRAL_WINDOW_ID")(0) != 0) sim::Fail("spectral-window", "the data description refers to another window");
    if (size_t(ScalarColumn<int>(s, "NUM_CHAN")(0)) != nchan) sim::Fail("spectral-window", "the number of channels is wrong");
    const Array<double> f = ArrayColumn<double>(s, "CHAN_FREQ")(0), w = ArrayColumn<double>(s, "CHAN_WIDTH")(0),
                        e = ArrayColumn<double>(s, "EFFECTIVE_BW")(0), r = ArrayColumn<double>(s, "RESOLUTION")(0);
    for (size_t i = 0; i < nchan; ++i)
      if (f.data()[i] != info.chanFreqs()[i] || w.data()[i] != info.chanWidths()[i] || e.data()[i] != info.effectiveBW()[i] ||
          r.data()[i] != info.resolutions()[i])
        sim::Fail("channels", "the channels of " + name + " are described wrongly");
    if (ScalarColumn<double>(s, "TOTAL_BANDWIDTH")(0) != info.totalBW() || ScalarColumn<double>(s, "REF_FREQUENCY")(0) != info.refFreq())
      sim::Fail("channels", "the band of " + name + " is described wrongly");
    const Array<double> range = ArrayColumn<double>(obs, "TIME_RANGE")(0);
    if (!h::Near(range.data()[0], info.firstTime() - dt / 2, 1e-12) || !h::Near(range.data()[1], info.lastTime() + dt / 2, 1e-12))
      sim::Fail("time-range", "the observation has another time range");
    if (his.nrow() != 1 || ScalarColumn<String>(his, "APPLICATION")(0) != "DP3") sim::Fail("history", "the history was not written");
    if (ArrayColumn<String>(his, "APP_PARAMS")(0).size() != size_t(parset.size())) sim::Fail("history", "the history lacks parameters");
    if (ant.nrow() != nant || ScalarColumn<String>(ant, "NAME")(nant - 1) != "ant" + std::to_string(nant - 1))
      sim::Fail("subtable", "the antenna table was not copied");
    if (plan.Knob("phase")) {
      const Array<double> dir = ArrayColumn<double>(field, "PHASE_DIR")(0);
      if (!h::Near(dir.data()[0], 0.5, 1e-9) || !h::Near(dir.data()[1], 0.7, 1e-9)) sim::Fail("phase-centre", "the new phase centre was not stored");
    }
    sim::Probe("set checked");
  }
  if (complete && !stopped) {
    if (first->added.size() != chunks.size()) sim::Fail("add-to-ms", "the earlier steps could not add their data to every set");
    for (size_t c = 0; c < chunks.size(); ++c)
      if (first->added[c] != ChunkName(base, c, chunk != 0)) sim::Fail("add-to-ms", "the earlier steps were given another set");
  }
  if (complete && done != n) sim::Fail("slot-count", "time slots were lost");
  if (chunks.size() > 1) sim::Probe("several sets");
  if (n == 0) sim::Probe("no data");
}
