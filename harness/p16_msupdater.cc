// P16: updating a MeasurementSet changes exactly the cells that were processed
// and asked for, and failing reads and writes are reported.
#include "steps/MSUpdater.h"
#include "steps/MsReader.h"

#include "ms.h"

using h::Slot;
const char* const kProperty = "P16";

namespace {
enum Kind { kSlot = 1 };
// args: seed, flag mode, grid steps after the previous slot, row flags

constexpr double kStart = 55511 * 86400.0 + 1234.5;

h::C NewData(int stage, long g, size_t b, size_t c, size_t p) {
  return h::C(1000.0f * (stage + 1) + 100.0f * g, 100.0f * b + 10.0f * c + p);
}
float NewWeight(int stage, long g, size_t b, size_t c, size_t p) { return 7.0f + stage * 1000 + g * 100 + b * 20 + c * 4 + p; }
bool NewFlag(int stage, long g, size_t b, size_t c, size_t) {
  const uint64_t r = sim::Rng(stage * 31 + g * 1000 + b * 17).Next();
  // Rows without flags, with some flags and with only flags.
  return r % 3 == 0 ? false : r % 3 == 1 ? true : ((r >> (8 + c)) & 1);
}

dp3::common::Fields ToFields(int mask) {
  using F = dp3::common::Fields;
  F f;
  if (mask & 1) f |= F(F::Single::kData);
  if (mask & 2) f |= F(F::Single::kFlags);
  if (mask & 4) f |= F(F::Single::kWeights);
  return f;
}

/// Replaces data, flags or weights, as calibration and flagging steps do.
class Modifier : public dp3::steps::Step {
 public:
  Modifier(int stage, int mask, double dt, bool meta) : stage_(stage), mask_(mask), dt_(dt), meta_(meta) {}
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    {
      sim::Quiet q;
      const size_t nbl = getInfoOut().nbaselines(), nchan = getInfoOut().nchan(), ncorr = getInfoOut().ncorr();
      const long g = std::lround((buffer->GetTime() - kStart) / dt_);
      const std::array<std::size_t, 3> shape{nbl, nchan, ncorr};
      if (mask_ & 1) buffer->GetData().resize(shape);
      if (mask_ & 2) buffer->GetFlags().resize(shape);
      if (mask_ & 4) buffer->GetWeights().resize(shape);
      size_t i = 0;
      for (size_t b = 0; b < nbl; ++b)
        for (size_t c = 0; c < nchan; ++c)
          for (size_t p = 0; p < ncorr; ++p, ++i) {
            if (mask_ & 1) buffer->GetData().data()[i] = NewData(stage_, g, b, c, p);
            if (mask_ & 2) buffer->GetFlags().data()[i] = NewFlag(stage_, g, b, c, p);
            if (mask_ & 4) buffer->GetWeights().data()[i] = NewWeight(stage_, g, b, c, p);
          }
    }
    getNextStep()->process(std::move(buffer));
    return true;
  }
  void updateInfo(const dp3::base::DPInfo& info) override {
    Step::updateInfo(info);
    if (meta_) GetWritableInfoOut().setMetaChanged();
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  void addToMS(const std::string& name) override {
    added.push_back(name);
    Step::addToMS(name);
  }
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return ToFields(mask_); }
  std::vector<std::string> added;

 private:
  int stage_, mask_;
  double dt_;
  bool meta_;
};

class Receiver : public h::Sink {
 public:
  using h::Sink::Sink;
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    if (on_slot) on_slot(arrived + 1);
    return h::Sink::process(std::move(buffer));
  }
  std::function<void(int64_t)> on_slot;
};

struct Stage {
  int provided = 0, write = 0;
  std::string data, flag, weight;
};

}  // namespace

std::string Describe(const sim::Op& op) {
  return "time slot " + std::to_string(op.Arg(2, 1)) + " intervals later, flag mode " + std::to_string(op.Arg(1)) + ", seed " +
         std::to_string(op.Arg(0));
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Chance(0.3);
  k["nchan"] = rng.In(1, 4);
  k["spectrum"] = rng.Chance(0.7);
  k["fixed"] = rng.Chance(0.7);
  k["startchan"] = rng.Chance(0.5) ? 0 : rng.In(0, 3);
  k["chans"] = rng.Chance(0.6) ? 0 : rng.In(1, 4);
  k["n_spw"] = rng.Chance(0.7) ? 1 : rng.In(2, 3);
  k["spw"] = rng.In(0, 2);
  k["baseline"] = rng.Chance(0.7) ? 0 : rng.In(1, 2);
  k["sort"] = rng.Chance(0.3);
  k["start"] = rng.Chance(0.6) ? 0 : rng.In(-2, 4);
  k["ntimes"] = rng.Chance(0.6) ? 0 : rng.In(1, 6);
  k["stages"] = rng.Chance(0.7) ? 1 : 2;
  for (int s = 0; s < 2; ++s) {
    const std::string i = std::to_string(s);
    k["mask" + i] = rng.In(0, 7);
    k["data" + i] = rng.Chance(0.6) ? 0 : rng.In(1, 4);    // 1: new, 2: MODEL_DATA, 3: of another type, 4: DATA
    k["flag" + i] = rng.Chance(0.75) ? 0 : rng.In(1, 3);   // 1: new, 2: of another type, 3: FLAG
    k["weight" + i] = rng.Chance(0.7) ? 0 : rng.In(1, 4);  // 1: new, 2: of another type, 3: WEIGHT, 4: WEIGHT_SPECTRUM
    if (rng.Chance(0.7) && k["data" + i] == 3) k["data" + i] = 1;
    if (rng.Chance(0.7) && k["flag" + i] == 2) k["flag" + i] = 1;
    if (rng.Chance(0.7) && (k["weight" + i] == 2 || k["weight" + i] == 3)) k["weight" + i] = 1;
    k["flush" + i] = rng.Chance(0.6) ? 0 : rng.In(1, 3);
    k["history" + i] = rng.Chance(0.8);
  }
  k["data_in"] = rng.Chance(0.2);
  k["weight_in"] = rng.Chance(0.25);
  k["meta"] = rng.Chance(0.05);
  k["throw_at"] = rng.Chance(0.1) ? rng.In(1, 5) : 0;
  if (rng.Chance(0.3)) k["rate_table_write_error"] = rng.Chance(0.7) ? rng.In(5, 80) : rng.In(100, 600);
  if (rng.Chance(0.2)) k["rate_table_read_error"] = rng.Chance(0.7) ? rng.In(5, 80) : rng.In(100, 600);
  const int n = rng.In(1, 6);
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.75) ? 1 : rng.In(2, 3), rng.Chance(0.4)});
}

void Execute(const sim::Plan& plan) {
  using namespace casacore;
  h::ClearDisk();
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = 4;
  const bool autos = plan.Knob("autos");
  const double dt = 2;
  const size_t n = plan.ops.size();
  if (!n) return;
  const auto [all1, all2] = h::Baselines(nant, autos);
  const size_t nall = all1.size();

  const size_t nstages = plan.Knob("stages", 1);
  std::vector<Stage> stages;
  bool new_column = false, model = false;
  for (size_t s = 0; s < nstages; ++s) {
    const std::string i = std::to_string(s);
    Stage st;
    st.provided = plan.Knob("mask" + i);
    const char* data[] = {"", "NEW_DATA", "MODEL_DATA", "FLAG", "DATA"};
    const char* flag[] = {"", "NEW_FLAG", "DATA", "FLAG"};
    const char* weight[] = {"", "NEW_WEIGHT", "FLAG", "WEIGHT", "WEIGHT_SPECTRUM"};
    st.data = data[plan.Knob("data" + i) % 5];
    st.flag = flag[plan.Knob("flag" + i) % 4];
    st.weight = weight[plan.Knob("weight" + i) % 5];
    st.write = st.provided | (st.data.empty() ? 0 : 1) | (st.flag.empty() ? 0 : 2) | (st.weight.empty() ? 0 : 4);
    new_column = new_column || st.data == "NEW_DATA" || st.flag == "NEW_FLAG" || (st.write & 4);
    model = model || st.data == "MODEL_DATA";
    stages.push_back(st);
  }

  // The set on disk.
  h::MsSpec spec;
  spec.nant = nant;
  spec.autos = autos;
  spec.nchan = nchan;
  spec.ncorr = ncorr;
  spec.interval = dt;
  spec.weight_spectrum = plan.Knob("spectrum", 1);
  const bool data_in = plan.Knob("data_in"), weight_in = plan.Knob("weight_in");
  spec.model_column = model || data_in;
  // Parts of cells without a fixed shape can only be written if they exist.
  spec.fixed = plan.Knob("fixed", 1) || new_column;
  spec.n_spw = std::max<int64_t>(1, plan.Knob("n_spw", 1));
  spec.mixed = spec.n_spw > 1;
  spec.spw = std::min<int64_t>(plan.Knob("spw"), spec.n_spw - 1);
  std::vector<long> grid;
  long at = 0;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    if (i) at += std::max<long>(1, o.Arg(2, 1));
    grid.push_back(at);
    h::MsTime m;
    m.s = h::MakeSlot(o.Arg(0), nall, nchan, ncorr, kStart + at * dt, dt * 0.9, o.Arg(1), false, false);
    sim::Rng r(o.Arg(0) ^ 0x55);
    for (size_t j = 0; j < m.s.flags.size(); ++j) m.s.flags[j] = m.s.flags[j - j % ncorr];
    for (size_t b = 0; b < nall; ++b) m.row_flag.push_back(o.Arg(3) && r.Chance(0.4));
    for (size_t j = 0; j < m.s.data.size(); ++j) m.model.push_back(h::C(r.In(-9, 9), j));
    spec.times.push_back(m);
  }
  const bool sort = plan.Knob("sort");
  if (sort) {
    sim::Rng r(plan.ops[0].Arg(0) + 5);
    for (size_t i = 0; i < n * nall; ++i) spec.order.push_back(i);
    for (size_t i = n * nall; i > 1; --i) std::swap(spec.order[i - 1], spec.order[r.Below(i)]);
  }
  h::MakeMs("in.ms", spec);
  const size_t copies = spec.mixed ? spec.n_spw : 1;
  std::map<std::pair<size_t, size_t>, size_t> row_of;  // (time, baseline) of the selected window
  for (size_t i = 0; i < n * nall; ++i) {
    const size_t source = spec.order.empty() ? i : spec.order[i];
    row_of[{source / nall, source % nall}] = i * copies + (spec.mixed ? spec.spw : 0);
  }

  // What is asked for.
  dp3::common::ParameterSet parset;
  long g0 = 0, g1 = at;
  const long start = plan.Knob("start");
  if (start > 0 && static_cast<size_t>(start) < n) {
    parset.add("msin.starttimeslot", std::to_string(start));
    g0 = grid[start];
  } else if (start < 0) {
    parset.add("msin.starttimeslot", std::to_string(start));
    g0 = start;
  }
  if (plan.Knob("ntimes") > 0) {
    parset.add("msin.ntimes", std::to_string(plan.Knob("ntimes")));
    g1 = g0 + plan.Knob("ntimes") - 1;
  }
  const size_t startchan = std::min<size_t>(plan.Knob("startchan"), nchan - 1);
  size_t chans = plan.Knob("chans");
  parset.add("msin.startchan", std::to_string(startchan));
  parset.add("msin.nchan", std::to_string(chans));
  chans = chans == 0 ? nchan - startchan : std::min(chans, nchan - startchan);
  if (spec.n_spw > 1) parset.add("msin.band", std::to_string(spec.spw));
  if (sort) parset.add("msin.sort", "true");
  std::vector<size_t> bl;
  for (size_t b = 0; b < nall; ++b) {
    const int sel = plan.Knob("baseline");
    if (sel == 0 || (sel == 1 && all1[b] == 0 && all2[b] == 1) || (sel == 2 && all1[b] != all2[b] && (all1[b] == 1 || all2[b] == 1)))
      bl.push_back(b);
  }
  if (plan.Knob("baseline") == 1) parset.add("msin.baseline", "ant0&ant1");
  if (plan.Knob("baseline") == 2) parset.add("msin.baseline", "ant1&*");
  if (data_in) parset.add("msin.datacolumn", "MODEL_DATA");
  if (weight_in) parset.add("msin.weightcolumn", "WEIGHT");
  bool refused = plan.Knob("meta");
  for (size_t s = 0; s < nstages; ++s) {
    const std::string p = "out" + std::to_string(s) + ".";
    Stage& st = stages[s];
    if (!st.data.empty()) parset.add(p + "datacolumn", st.data);
    if (!st.flag.empty()) parset.add(p + "flagcolumn", st.flag);
    if (!st.weight.empty()) parset.add(p + "weightcolumn", st.weight);
    if (st.data == "FLAG" || st.flag == "DATA" || st.weight == "FLAG" || st.weight == "WEIGHT") refused = true;
    if (plan.Knob("flush" + std::to_string(s))) parset.add(p + "flush", std::to_string(plan.Knob("flush" + std::to_string(s))));
    if (st.data.empty()) st.data = data_in ? "MODEL_DATA" : "DATA";
    if (st.flag.empty()) st.flag = "FLAG";
    if (st.weight.empty()) st.weight = "WEIGHT_SPECTRUM";
  }
  const std::map<std::string, h::Snapshot> before = [&] {
    std::map<std::string, h::Snapshot> r;
    for (auto& [name, t] : mini_detail::Disk()) r[name] = h::TakeSnapshot(name);
    return r;
  }();

  h::ArmDisk();
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<Receiver>(throw_at);
  auto disk = mini_detail::Disk()["in.ms"];
  const size_t flushes = disk->flushes;
  sink->on_slot = [&](int64_t k) {
    for (size_t s = 0; s < nstages; ++s) {
      const int64_t every = plan.Knob("flush" + std::to_string(s));
      if (every && disk->flushes - flushes < static_cast<size_t>(k / every))
        sim::Fail("not-flushed", "the requested flush was not done after " + std::to_string(k) + " time slots");
    }
  };
  std::vector<std::shared_ptr<Modifier>> mods;
  bool threw = false, next_threw = false;
  std::string why;
  {
    sim::FaultScope faults;
    try {
      MeasurementSet ms("in.ms");
      auto reader = std::make_shared<dp3::steps::MsReader>(ms, parset, "msin.", false);
      std::shared_ptr<dp3::steps::Step> last = reader;
      // The reader reads what is used and not made by an earlier step.
      dp3::common::Fields fields;
      std::vector<std::shared_ptr<dp3::steps::Step>> chain;
      for (size_t s = 0; s < nstages; ++s) {
        auto m = std::make_shared<Modifier>(s, stages[s].provided, dt, plan.Knob("meta") && s == 0);
        mods.push_back(m);
        auto u = std::make_shared<dp3::steps::MSUpdater>("in.ms", parset, "out" + std::to_string(s) + ".",
                                                         plan.Knob("history" + std::to_string(s), 1));
        u->SetFieldsToWrite(m->getProvidedFields());
        chain.push_back(m);
        chain.push_back(u);
      }
      chain.push_back(sink);
      for (auto& c : chain) {
        last->setNextStep(c);
        last = c;
      }
      for (size_t i = chain.size(); i-- > 0;) fields.UpdateRequirements(chain[i]->getRequiredFields(), chain[i]->getProvidedFields());
      reader->setFieldsToRead(fields);
      reader->setInfo(dp3::base::DPInfo());
      size_t guard = 0;
      while (reader->process(std::make_unique<dp3::base::DPBuffer>())) {
        if (++guard > 1000) sim::Fail("endless", "reading does not end");
      }
      reader->finish();
    } catch (const h::StepError&) {
      next_threw = true;
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
  }
  const bool faults = sim::FaultsFired(sim::kTableWriteError) || sim::FaultsFired(sim::kTableReadError);
  sim::Event(threw);
  sim::Event(next_threw);
  h::HashSlots(sink->slots);
  if (faults && !threw && !next_threw) sim::Fail("error-hidden", "a failing read or write was reported as success");
  if (threw && !faults && !refused) sim::Fail("spurious-error", "updating failed without a reason: " + why);
  if (refused && !threw) sim::Fail("not-refused", "an impossible update was accepted");
  const size_t nslots = g1 - g0 + 1;
  if (!threw && throw_at >= 0 && static_cast<size_t>(throw_at) < nslots && !next_threw)
    sim::Fail("error-hidden", "an error of the next step was swallowed");
  const bool complete = !threw && !next_threw;
  if (complete && sink->slots.size() != nslots) sim::Fail("next-step", "the next step did not get every time slot");
  if (complete && sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");

  // Other tables.
  for (auto& [name, t] : mini_detail::Disk()) {
    if (name == "in.ms") continue;
    h::Snapshot now = h::TakeSnapshot(name);
    auto it = before.find(name);
    if (it == before.end()) sim::Fail("new-table", "the unexpected table " + name + " was made");
    if (name == "in.ms/HISTORY") {
      size_t want = 0;
      for (size_t s = 0; s < nstages; ++s) want += plan.Knob("history" + std::to_string(s), 1) != 0;
      if (complete && t->nrow != want) sim::Fail("history", "the history has " + std::to_string(t->nrow) + " entries instead of " + std::to_string(want));
      if (complete)
        for (size_t i = 0; i < want; ++i) {
          Table ht("in.ms/HISTORY");
          if (ArrayColumn<String>(ht, "APP_PARAMS")(i).size() != size_t(parset.size()) || ScalarColumn<String>(ht, "APPLICATION")(i) != "DP3")
            sim::Fail("history", "the history lacks parameters");
        }
    } else if (now != it->second) {
      sim::Fail("subtable", "the table " + name + " was changed");
    }
  }
  for (auto& [name, snap] : before)
    if (!mini_detail::Disk().count(name)) sim::Fail("subtable", "the table " + name + " was removed");
  if (complete)
    for (auto& m : mods)
      for (const std::string& a : m->added)
        if (a != "in.ms") sim::Fail("add-to-ms", "the earlier steps were given another set");
  if (complete)
    for (size_t s = 0; s < nstages; ++s)
      if (mods[s]->added.size() != nstages - s) sim::Fail("add-to-ms", "the earlier steps could not add their data to the set");

  // The main table.
  const h::Snapshot old = before.at("in.ms");
  h::Snapshot want = old;
  const h::Snapshot now = h::TakeSnapshot("in.ms");
  const size_t nrow = n * nall * copies;
  for (const auto& [column, cells] : now)
    for (const std::string& c : cells) sim::EventStr(c);
  if (disk->nrow != nrow) sim::Fail("rows", "the number of rows changed");
  std::set<std::string> allowed;
  std::map<std::string, std::vector<std::set<std::string>>> options;  // earlier values, which may be there after an error
  if (!refused) {
    const std::string zero_data(nchan * ncorr * sizeof(h::C), 0), zero_flag(nchan * ncorr, 0), zero_weight(nchan * ncorr * sizeof(float), 0);
    auto make = [&](const std::string& c, const std::string& zero) {
      if (!want.count(c)) want[c] = std::vector<std::string>(nrow, zero);
      allowed.insert(c);
      auto& o = options[c];
      o.resize(nrow);
      for (size_t r = 0; r < nrow; ++r) o[r].insert(want[c][r]);
    };
    std::vector<int> current(3, -1);  // the stage that made the data, flags and weights
    for (size_t s = 0; s < nstages; ++s) {
      const Stage& st = stages[s];
      for (int f = 0; f < 3; ++f)
        if (st.provided & (1 << f)) current[f] = s;
      if (st.write & 1) make(st.data, zero_data);
      if (st.write & 2) make(st.flag, zero_flag);
      if (st.write & 2) make("FLAG_ROW", "");
      if (st.write & 4) make(st.weight, zero_weight);
      for (size_t i = 0; i < n; ++i) {
        if (grid[i] < g0 || grid[i] > g1) continue;
        for (size_t b = 0; b < bl.size(); ++b) {
          const size_t row = row_of.at({i, bl[b]});
          const h::MsTime& m = spec.times[i];
          bool any_clear = false;
          for (size_t c = 0; c < chans; ++c)
            for (size_t p = 0; p < ncorr; ++p) {
              const size_t in = m.s.At(bl[b], startchan + c, p), out = (startchan + c) * ncorr + p;
              const h::C d = current[0] < 0 ? (data_in ? m.model : m.s.data)[in] : NewData(current[0], grid[i], b, c, p);
              const char fl = current[1] < 0 ? (m.s.flags[in] || m.row_flag[bl[b]]) : NewFlag(current[1], grid[i], b, c, p);
              float w = current[2] < 0 ? m.s.weights[in] : NewWeight(current[2], grid[i], b, c, p);
              if (current[2] < 0 && (!spec.weight_spectrum || weight_in)) w = m.s.weights[m.s.At(bl[b], 0, p)];
              if (st.write & 1) std::memcpy(&want[st.data][row][out * sizeof d], &d, sizeof d);
              if (st.write & 2) want[st.flag][row][out] = fl;
              if (st.write & 4) std::memcpy(&want[st.weight][row][out * sizeof w], &w, sizeof w);
              if (!fl) any_clear = true;
            }
          if ((st.write & 2) && any_clear) {
            // The channels outside the selection remain flagged.
            if (want["FLAG_ROW"][row][0])
              for (size_t c = 0; c < nchan; ++c)
                if (c < startchan || c >= startchan + chans) std::fill_n(want[st.flag][row].begin() + c * ncorr, ncorr, 1);
            want["FLAG_ROW"][row] = std::string(1, 0);
          }
        }
      }
      for (auto& [c, o] : options)
        for (size_t r = 0; r < nrow; ++r) o[r].insert(want[c][r]);
    }
  }
  for (const auto& [column, cells] : now) {
    if (refused && !want.count(column) && (column.substr(0, 4) == "NEW_" || column == "WEIGHT_SPECTRUM")) {
      for (const std::string& c : cells)
        if (c.find_first_not_of('\0') != std::string::npos) sim::Fail("new-column", "the new column " + column + " has data");
      continue;
    }
    if (!want.count(column)) sim::Fail("new-column", "the column " + column + " was added");
    for (size_t r = 0; r < nrow; ++r) {
      if (complete || !allowed.count(column) ? cells[r] == want[column][r] : options[column][r].count(cells[r]) > 0) continue;
      sim::Fail(allowed.count(column) ? "wrong-update" : "changed",
                "column " + column + " of row " + std::to_string(r) + (allowed.count(column) ? " has a wrong value" : " was changed"));
    }
  }
  for (const auto& [column, cells] : want)
    if (!now.count(column) && (complete || old.count(column))) sim::Fail("no-column", "there is no column " + column);
}
