// P17: a run of DP3 gives the output of its steps applied one after another to
// all of the input, whatever the threads, and reports what goes wrong.
#include "base/DP3.h"
#include "steps/InputStep.h"
#include "steps/MsReader.h"
#include "steps/NullStep.h"

#include "ms.h"

#include <fstream>

using dp3::common::ParameterSet;
using dp3::steps::Step;
using h::Slot;
const char* const kProperty = "P17";

namespace {

bool g_column_after_out = false;

// All failures of the known finding have one class.
void Fail(const std::string& cls, const std::string& message) {
  if (g_column_after_out)
    sim::Fail("column-after-out", "columnreader after an output step to another set: " + message);
  else
    sim::Fail(cls, message);
}
enum Kind { kSlot = 1, kStep = 2 };
// kSlot args: seed, flag mode, grid steps after the previous slot, row flags
// kStep args: type, seed

enum Type {
  kAverage, kFilter, kPreflag, kUvwFlag, kMadFlag, kInterpolate, kUpsample, kScale, kNullStokes, kCount,
  kPhaseShift, kStationAdd, kColumnReader, kCombine, kNull, kOut, kAntFlag, kBda, kSetBeam, kTypes
};
const char* const kNames[] = {"average", "filter", "preflag", "uvwflag", "madflag", "interpolate", "upsample", "scaledata", "nullstokes",
                              "count", "phaseshift", "stationadd", "columnreader", "combine", "null", "out", "antflag", "bdaaverage", "setbeam"};

constexpr double kStart = 55511 * 86400.0 + 1234.5;

struct Captured {
  std::vector<Slot> slots;
  std::vector<std::vector<size_t>> rows;
  dp3::base::DPInfo info;
};

/// Records what passes.
class Tap : public Step {
 public:
  explicit Tap(Captured& c) : c_(c) {}
  void updateInfo(const dp3::base::DPInfo& info) override {
    Step::updateInfo(info);
    c_.info = info;
  }
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    c_.slots.push_back(h::FromBuffer(*buffer));
    std::vector<size_t> rows;
    for (size_t i = 0; i < buffer->GetRowNumbers().size(); ++i) rows.push_back(buffer->GetRowNumbers()[i]);
    c_.rows.push_back(rows);
    getNextStep()->process(std::move(buffer));
    return true;
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }

 private:
  Captured& c_;
};

using Keys = std::vector<std::pair<std::string, std::string>>;

struct StepSpec {
  int type;
  std::string name;  // as in the list of steps
  Keys keys;         // without the name
  std::string target;  // of an output step
};

std::string I(int64_t v) { return std::to_string(v); }

StepSpec MakeStep(int type, uint64_t seed, int index, size_t nchan, size_t nant, bool type_key) {
  sim::Rng r(seed);
  StepSpec s;
  s.type = type;
  const std::string letters = "abcdefghij";
  const bool by_type = type_key || r.Chance(0.4);
  s.name = by_type ? std::string("s") + letters[index % 10] : kNames[type] + I(index);
  std::string t = kNames[type];
  if (by_type) {
    if (r.Chance(0.3)) t[0] = std::toupper(t[0]);
    s.keys.push_back({"type", t});
  }
  auto add = [&](const std::string& k, const std::string& v) { s.keys.push_back({k, v}); };
  auto maybe = [&](double p, const std::string& k, const std::string& v) {
    if (r.Chance(p)) add(k, v);
  };
  const std::string baselines[] = {"ant0&*", "ant1", "ant0&ant1", "!ant1", "[[ant0,ant1]]", "*&&&", "!ant0&*", "ant*&ant*"};
  switch (type) {
    case kAverage:
      maybe(0.8, "timestep", I(r.In(1, 3)));
      maybe(0.6, "freqstep", I(r.In(1, 3)));
      maybe(0.3, "minpoints", I(r.In(1, 3)));
      maybe(0.3, "minperc", I(r.In(0, 60)));
      break;
    case kFilter:
      maybe(0.5, "startchan", r.Chance(0.3) ? "nchan/2" : I(r.In(0, nchan - 1)));
      maybe(0.5, "nchan", r.Chance(0.3) ? "nchan/2" : I(r.In(0, nchan)));
      maybe(0.5, "baseline", baselines[r.Below(8)]);
      maybe(0.3, "remove", "true");
      break;
    case kPreflag: {
      maybe(0.4, "mode", std::vector<std::string>{"set", "clear", "setcomplement", "clearcomplement", "setother", "clearother"}[r.Below(6)]);
      switch (r.Below(9)) {
        case 0: add("baseline", baselines[r.Below(8)]); break;
        case 1: add("chan", "[0,2..3]"); break;
        case 2: add("timeslot", "[0,2]"); break;
        case 3: add("amplmin", I(r.In(1, 30))); break;
        case 4: add("amplmax", "[" + I(r.In(1, 60)) + ",,,30]"); break;
        case 5: add("uvmmin", I(r.In(1, 900))); break;
        case 6:
          add("expr", "x1 and not x2");
          add("x1.realmin", I(r.In(-20, 20)));
          add("x2.uvmmax", I(r.In(1, 900)));
          break;
        case 7: add("corrtype", r.Chance(0.5) ? "auto" : "cross"); break;
        default:
          add("phasemin", "-1");
          add("phasemax", "2");
          break;
      }
      if (r.Chance(0.3) && s.keys.back().first != "baseline") add("chan", "[0..1]");
      if (r.Chance(0.15)) {
        add("uvmmax", I(r.In(100, 900)));
        maybe(0.6, "amplmin", I(r.In(1, 30)));
      }
      std::set<std::string> seen;
      for (size_t i = 0; i < s.keys.size();) {
        if (!seen.insert(s.keys[i].first).second)
          s.keys.erase(s.keys.begin() + i);
        else
          ++i;
      }
      break;
    }
    case kUvwFlag:
      switch (r.Below(4)) {
        case 0: add("uvmmin", I(r.In(1, 1200))); break;
        case 1: add("uvmmax", I(r.In(1, 1200))); break;
        case 2: add("umrange", "[-100..200]"); break;
        default: add("uvlambdamax", I(r.In(1, 400))); break;
      }
      maybe(0.3, "wmmax", I(r.In(1, 900)));
      maybe(0.2, "phasecenter", "[12h0m0,30.0]");
      break;
    case kMadFlag:
      add("threshold", I(r.In(1, 3)));
      add("timewindow", I(2 * r.In(0, 3) + 1));
      add("freqwindow", I(2 * r.In(0, 2) + 1));
      maybe(0.4, "correlations", "[0,3]");
      maybe(0.3, "applyautocorr", "true");
      maybe(0.3, "blmin", "50");
      break;
    case kInterpolate: maybe(0.8, "windowsize", I(2 * r.In(0, 2) + 1)); break;
    case kUpsample:
      add("timestep", I(r.In(1, 3)));
      maybe(0.3, "updateuvw", "true");
      break;
    case kScale:
      add("stations", r.Chance(0.5) ? "[*]" : "[ant0,*]");
      add("coeffs", s.keys.back().second == "[*]" ? "[[2,0.5]]" : "[3,[1,2]]");
      maybe(0.5, "scalesize", "false");
      break;
    case kNullStokes:
      maybe(0.5, "modify_q", "true");
      maybe(0.5, "modify_u", "true");
      maybe(0.5, "modify_v", "true");
      maybe(0.2, "modify_i", "true");
      break;
    case kCount: break;
    case kPhaseShift:
      if (r.Chance(0.3))
        add("phasecenter", "[]");
      else
        add("phasecenter", "[1" + I(r.In(0, 9)) + "h0m0, 30.0deg]");
      break;
    case kStationAdd:
      add("stations", r.Chance(0.5) ? "{new:[ant0,ant1]}" : "{n1:ant0, n2:[ant1,ant2]}");
      maybe(0.3, "minpoints", I(r.In(1, 2)));
      maybe(0.4, "autocorr", "true");
      maybe(0.4, "sumauto", "false");
      maybe(0.4, "average", "false");
      maybe(0.4, "useweights", "false");
      break;
    case kColumnReader: add("column", "MODEL_DATA"); break;
    case kCombine:
      add("buffername", "MODEL_DATA");
      maybe(0.6, "operation", r.Chance(0.5) ? "add" : "subtract");
      break;
    case kAntFlag:
      maybe(0.5, "antenna_flagging_sigma", "1");
      maybe(0.5, "station_flagging_sigma", "1");
      break;
    case kSetBeam:
      maybe(0.5, "beammode", std::vector<std::string>{"default", "array_factor", "element", "full"}[r.Below(4)]);
      maybe(0.3, "direction", "[12h0m0,30.0]");
      break;
    case kBda:
      add("timebase", I(r.In(0, 3000)));
      add("maxinterval", "8");
      maybe(0.5, "frequencybase", I(r.In(0, 3000)));
      break;
    default: break;
  }
  return s;
}

/// The contents of the simulated disk.
using Disk = std::map<std::string, std::shared_ptr<casacore::mini_detail::TableData>>;

std::string StepList(const std::vector<StepSpec>& steps, size_t from, size_t to) {
  std::string out = "[";
  for (size_t i = from; i < to; ++i) {
    if (out.size() > 1) out += ",";
    out += steps[i].name;
    if (steps[i].type == kBda) out += ",bdaexpander" + I(i);
  }
  return out + "]";
}

void AddStepKeys(Keys& keys, const std::vector<StepSpec>& steps, size_t from, size_t to) {
  for (size_t i = from; i < to; ++i)
    for (const auto& k : steps[i].keys) keys.push_back({steps[i].name + "." + k.first, k.second});
}

struct Outcome {
  bool threw = false;
  std::string why;
};

/// Runs DP3; some keys come from a file and some from the command line.
Outcome Run(const Keys& keys, uint64_t seed, bool faults) {
  std::vector<std::string> arguments{"DP3", "run.parset"};
  {
    sim::Quiet q;
    sim::Rng r(seed);
    std::ofstream f("run.parset");
    for (const auto& k : keys) {
      const int where = r.Below(3);
      if (where != 0) f << k.first << (r.Chance(0.5) ? "=" : " = ") << (where == 2 ? std::string("wrong") : k.second) << "\n";
      if (where != 1) arguments.push_back(k.first + "=" + k.second);
    }
  }
  Outcome o;
  if (faults) sim::EnableFaults(true);
  try {
    dp3::base::ExecuteFromCommandLine(arguments);
  } catch (const std::exception& e) {
    o.threw = true;
    o.why = e.what();
  }
  if (faults) sim::EnableFaults(false);
  if (getenv("SIM_VERBOSE")) { sim::Quiet q; for (auto& a : arguments) fprintf(stderr, "%s ", a.c_str()); std::ifstream f("run.parset"); std::string l; while (std::getline(f, l)) fprintf(stderr, "| %s ", l.c_str()); fprintf(stderr, "\n--> %d %s\n", o.threw, o.why.c_str()); for (auto& [n, t] : casacore::mini_detail::Disk()) fprintf(stderr, "%s %d\n", n.c_str(), (int)t->nrow); }
  schaapcommon::ThreadPool::GetInstance().Stop();
    schaapcommon::ThreadPool::Helpers().Stop();
  return o;
}

template <class T>
std::string CellBytes(const std::string& ms, const std::string& column, size_t row) {
  casacore::Table t(ms);
  const casacore::Array<T> a = casacore::ArrayColumn<T>(t, column)(row);
  std::string s;
  a.ForEach([&](const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); });
  return s;
}

/// Compares a new set on disk with what passed the tap.
void Compare(const std::string& name, const Captured& want, const std::string& what) {
  using namespace casacore;
  if (!Table::isReadable(name)) Fail("no-output", what + ": " + name + " was not made");
  const size_t nbl = want.info.nbaselines(), nchan = want.info.nchan(), ncorr = want.info.ncorr();
  Table t(name);
  if (t.nrow() != want.slots.size() * nbl)
    Fail("rows", what + ": " + I(t.nrow()) + " rows instead of " + I(want.slots.size() * nbl));
  for (size_t i = 0; i < want.slots.size(); ++i) {
    const Slot& s = want.slots[i];
    for (size_t b = 0; b < nbl; ++b) {
      const size_t row = i * nbl + b, at = b * nchan * ncorr, len = nchan * ncorr;
      auto bytes = [&](const auto& v) {
        using T = std::decay_t<decltype(v[0])>;
        return std::string(reinterpret_cast<const char*>(&v[at]), len * sizeof(T));
      };
      const std::string at_row = what + ": slot " + I(i) + ", baseline " + I(b);
      if (CellBytes<Complex>(name, "DATA", row) != bytes(s.data)) Fail("wrong-data", at_row + " has other data than the steps give");
      if (CellBytes<bool>(name, "FLAG", row) != bytes(s.flags)) Fail("wrong-flags", at_row + " has other flags than the steps give");
      if (CellBytes<float>(name, "WEIGHT_SPECTRUM", row) != bytes(s.weights))
        Fail("wrong-weights", at_row + " has other weights than the steps give");
      if (ScalarColumn<double>(t, "TIME")(row) != s.time) Fail("wrong-time", at_row + " has another time than the steps give");
      if (ScalarColumn<double>(t, "EXPOSURE")(row) != s.exposure) Fail("wrong-exposure", at_row + " has another exposure");
      const std::string uvw = CellBytes<double>(name, "UVW", row);
      if (std::memcmp(uvw.data(), &s.uvw[3 * b], 3 * sizeof(double)) != 0) Fail("wrong-uvw", at_row + " has other UVW coordinates");
      const Table ant(name + "/ANTENNA");
      if (ScalarColumn<String>(ant, "NAME")(ScalarColumn<int>(t, "ANTENNA1")(row)) != want.info.antennaNames()[want.info.getAnt1()[b]] ||
          ScalarColumn<String>(ant, "NAME")(ScalarColumn<int>(t, "ANTENNA2")(row)) != want.info.antennaNames()[want.info.getAnt2()[b]])
        Fail("wrong-baseline", at_row + " has other antennas");
    }
  }
  const std::string f = CellBytes<double>(name + "/SPECTRAL_WINDOW", "CHAN_FREQ", 0);
  if (f != h::Bytes(want.info.chanFreqs())) Fail("wrong-channels", what + ": other channel frequencies");
}

/// The cells of the input, as the updates should leave them.
struct Cells {
  std::vector<std::vector<h::C>> data;
  std::vector<std::vector<char>> flags;  // including those of the whole row
  std::vector<std::vector<float>> weights;
};
Cells ReadCells(const std::string& name, bool spectrum) {
  sim::Quiet q;
  using namespace casacore;
  Cells c;
  Table t(name);
  for (size_t row = 0; row < t.nrow(); ++row) {
    std::vector<h::C> d;
    std::vector<char> f;
    std::vector<float> w;
    const Array<Complex> data = ArrayColumn<Complex>(t, "DATA")(row);
    const Array<bool> flags = ArrayColumn<bool>(t, "FLAG")(row);
    const bool all = ScalarColumn<bool>(t, "FLAG_ROW")(row);
    data.ForEach([&](const Complex& v) { d.push_back(v); });
    flags.ForEach([&](const bool& v) { f.push_back(v || all); });
    if (spectrum) {
      const Array<float> weights = ArrayColumn<float>(t, "WEIGHT_SPECTRUM")(row);
      weights.ForEach([&](const float& v) { w.push_back(v); });
    }
    c.data.push_back(d);
    c.flags.push_back(f);
    c.weights.push_back(w);
  }
  return c;
}
void Overlay(Cells& c, const Captured& k) {
  const size_t nbl = k.info.nbaselines(), len = k.info.nchan() * k.info.ncorr(), off = k.info.startchan() * k.info.ncorr();
  for (size_t i = 0; i < k.slots.size(); ++i)
    for (size_t b = 0; b < nbl; ++b) {
      const size_t row = k.rows[i].at(b);
      std::copy_n(k.slots[i].data.begin() + b * len, len, c.data[row].begin() + off);
      std::copy_n(k.slots[i].flags.begin() + b * len, len, c.flags[row].begin() + off);
      if (!c.weights[row].empty()) std::copy_n(k.slots[i].weights.begin() + b * len, len, c.weights[row].begin() + off);
    }
}

std::map<std::string, h::Snapshot> SnapshotAll(const std::string& prefix) {
  std::map<std::string, h::Snapshot> r;
  for (auto& [name, t] : casacore::mini_detail::Disk())
    if (name.compare(0, prefix.size(), prefix) == 0) r[name] = h::TakeSnapshot(name);
  return r;
}

}  // namespace

std::string Describe(const sim::Op& op) {
  if (op.kind == kStep) return std::string("step ") + kNames[op.Arg(0) % kTypes] + ", seed " + I(op.Arg(1));
  return "time slot " + I(op.Arg(2, 1)) + " intervals later, flag mode " + I(op.Arg(1)) + ", seed " + I(op.Arg(0));
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Chance(0.5);
  k["nchan"] = rng.In(1, 6);
  k["spectrum"] = rng.Chance(0.8);
  k["threads"] = rng.In(1, 4);
  k["startchan"] = rng.Chance(0.8) ? 0 : rng.In(0, 3);
  k["ntimes"] = rng.Chance(0.8) ? 0 : rng.In(1, 6);
  k["update"] = rng.Chance(0.4) ? rng.In(1, 3) : 0;  // the output is 1: "", 2: ".", 3: the name of the input
  k["checkparset"] = rng.In(0, 4);                   // 0: absent, 1: -1, 2: 0, 3: 1, 4: true
  k["unused"] = rng.Chance(0.15);
  k["extra"] = rng.Chance(0.4);
  k["retry"] = 1;
  k["showprogress"] = rng.In(0, 2);
  k["show"] = rng.In(0, 3);
  k["names"] = rng.In(0, 3);  // msin, msin.name; msout, msout.name
  k["two"] = rng.Chance(0.4);
  const int what = rng.Below(10);
  if (what < 2) k["rate_table_write_error"] = rng.Chance(0.7) ? rng.In(5, 60) : rng.In(100, 400);
  if (what == 2 || what == 0) k["rate_table_read_error"] = rng.Chance(0.7) ? rng.In(5, 60) : rng.In(100, 400);
  if (what == 3) k["rate_thread_create_fail"] = 2000;
  const int nsteps = rng.Chance(0.1) ? 0 : rng.In(1, 4);
  for (int i = 0; i < nsteps; ++i) plan.Add(kStep, {rng.In(0, kTypes - 1), static_cast<int64_t>(rng.Below(1 << 28))});
  const int n = rng.In(1, 6);
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.85) ? 1 : rng.In(2, 3), rng.Chance(0.3)});
}

void Execute(const sim::Plan& plan) {
  using namespace casacore;
  g_column_after_out = false;
  h::ClearDisk();
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = 4;
  const bool autos = plan.Knob("autos");
  const double dt = 2;
  const size_t nbl = h::Baselines(nant, autos).first.size();
  int update = plan.Knob("update");
  const bool extra = plan.Knob("extra");

  // The steps.
  std::vector<StepSpec> steps;
  bool any_update = update != 0, combined = false, model = extra;
  int outputs = 0;
  bool elsewhere = false;
  std::vector<const sim::Op*> slots;
  for (const sim::Op& o : plan.ops) {
    if (o.kind == kSlot) {
      slots.push_back(&o);
      continue;
    }
    const int type = o.Arg(0) % kTypes;
    // Nothing comes after a null step.
    if (type == kNull) continue;
    // The extra data can be combined once.
    if (type == kCombine && (!extra || combined)) continue;
    combined = combined || type == kCombine;
    model = model || type == kColumnReader;
    StepSpec s = MakeStep(type, o.Arg(1), steps.size(), nchan, nant, false);
    if (type == kOut) {
      sim::Rng r(o.Arg(1) + 1);
      s.target = r.Chance(0.3) && outputs == 0 ? "in.ms" : "mid" + I(steps.size()) + ".ms";
      s.keys.push_back({"name", s.target == "in.ms" && r.Chance(0.5) ? "." : s.target});
      any_update = any_update || s.target == "in.ms";
      elsewhere = elsewhere || s.target != "in.ms";
      ++outputs;
    }
    steps.push_back(s);
  }
  if (slots.empty()) return;
  // An update only writes what changed since the previous output step, which
  // may have been another set.
  if (elsewhere) update = 0;

  h::MsSpec spec;
  spec.nant = nant;
  spec.autos = autos;
  spec.nchan = nchan;
  spec.ncorr = ncorr;
  spec.interval = dt;
  spec.weight_spectrum = plan.Knob("spectrum", 1);
  spec.model_column = model;
  spec.fixed = true;
  spec.feed = true;
  long at = 0;
  for (size_t i = 0; i < slots.size(); ++i) {
    const sim::Op& o = *slots[i];
    if (i) at += any_update ? 1 : std::max<long>(1, o.Arg(2, 1));
    h::MsTime m;
    m.s = h::MakeSlot(o.Arg(0), nbl, nchan, ncorr, kStart + at * dt, dt * 0.9, o.Arg(1), false, false);
    sim::Rng r(o.Arg(0) ^ 0x55);
    for (size_t j = 0; j < m.s.flags.size(); ++j) m.s.flags[j] = m.s.flags[j - j % ncorr];
    for (size_t b = 0; b < nbl; ++b) m.row_flag.push_back(o.Arg(3) && r.Chance(0.4));
    for (size_t j = 0; j < m.s.data.size(); ++j) m.model.push_back(h::C(r.In(-9, 9), r.In(-9, 9)));
    spec.times.push_back(m);
  }
  auto fresh = [&] {
    mini_detail::Disk().clear();
    h::MakeMs("in.ms", spec);
  };

  Keys reader;
  reader.push_back({plan.Knob("names") & 1 ? "msin.name" : "msin", "in.ms"});
  if (extra) reader.push_back({"msin.extradatacolumns", "[MODEL_DATA]"});
  if (!any_update) {
    if (plan.Knob("startchan")) reader.push_back({"msin.startchan", I(std::min<int64_t>(plan.Knob("startchan"), nchan - 1))});
    if (plan.Knob("ntimes")) reader.push_back({"msin.ntimes", I(plan.Knob("ntimes"))});
  }

  // Known finding: an output step to another set replaces the row numbers by
  // those in that set and clears the mark that the meta data has changed,
  // while columnreader still reads the input.
  bool after = false;
  for (const StepSpec& st : steps) {
    if (st.type == kOut && st.target != "in.ms") after = true;
    if (after && st.type == kColumnReader) g_column_after_out = true;
  }

  // What the steps give if everything is read.
  auto reference = [&](std::vector<Captured>& taps, size_t from, size_t to, const std::string& input) {
    Outcome o;
    sim::Quiet q;
    ParameterSet parset;
    for (const auto& k : reader) parset.add(k.first, k.second);
    (void)input;
    Keys keys;
    AddStepKeys(keys, steps, from, to);
    for (const auto& k : keys) parset.add(k.first, k.second);
    taps.clear();
    taps.resize(steps.size() + 1);
    try {
      std::shared_ptr<dp3::steps::InputStep> first = dp3::steps::InputStep::CreateReader(parset);
      std::shared_ptr<Step> last = first;
      std::vector<std::shared_ptr<Step>> all{first};
      auto append = [&](std::shared_ptr<Step> s) {
        last->setNextStep(s);
        last = s;
        all.push_back(s);
      };
      append(std::make_shared<Tap>(taps[from]));
      for (size_t i = from; i < to; ++i) {
        if (steps[i].type != kOut) {
          parset.replace("one", "[" + steps[i].name + "]");
          append(dp3::base::MakeStepsFromParset(parset, "", "one", "in.ms", false, last->outputs()));
          if (steps[i].type == kBda) {
            parset.replace("one", "[bdaexpander" + I(i) + "]");
            append(dp3::base::MakeStepsFromParset(parset, "", "one", "in.ms", false, last->outputs()));
          }
        }
        append(std::make_shared<Tap>(taps[i + 1]));
      }
      append(std::make_shared<dp3::steps::NullStep>());
      using F = dp3::common::Fields;
      first->setFieldsToRead(F(F::Single::kData) | F(F::Single::kFlags) | F(F::Single::kWeights) | F(F::Single::kUvw));
      first->setInfo(dp3::base::DPInfo());
      while (first->process(std::make_unique<dp3::base::DPBuffer>())) {
      }
      first->finish();
    } catch (const std::exception& e) {
      o.threw = true;
      o.why = e.what();
    }
    schaapcommon::ThreadPool::GetInstance().Stop();
    schaapcommon::ThreadPool::Helpers().Stop();
    return o;
  };
  fresh();
  schaapcommon::ThreadPool::GetInstance().SetNThreads(1);
  Step::SetThreadingIsInitialized();
  std::vector<Captured> taps;
  const Outcome ref = reference(taps, 0, steps.size(), "in.ms");
  for (const Captured& c : taps) h::HashSlots(c.slots);

  // The run.
  Keys keys = reader;
  AddStepKeys(keys, steps, 0, steps.size());
  keys.push_back({"steps", StepList(steps, 0, steps.size())});
  keys.push_back({"numthreads", I(plan.Knob("threads", 1))});
  const char* const msout[] = {"out.ms", "", ".", "in.ms"};
  const bool ends_with_out = !steps.empty() && steps.back().type == kOut;
  const std::string out_key = plan.Knob("names") & 2 ? "msout.name" : "msout";
  // Without fields to write no output is made unless it is named.
  if (!ends_with_out) keys.push_back({out_key, msout[update]});
  const int check = plan.Knob("checkparset");
  if (check) keys.push_back({"checkparset", check == 1 ? "-1" : check == 2 ? "0" : check == 3 ? "1" : "true"});
  if (plan.Knob("showprogress")) keys.push_back({"showprogress", plan.Knob("showprogress") == 1 ? "false" : "true"});
  if (plan.Knob("show") & 1) keys.push_back({"showcounts", "false"});
  if (plan.Knob("show") & 2) keys.push_back({"showtimings", "false"});
  const bool unused = plan.Knob("unused");
  Keys with_unused = keys;
  if (unused) with_unused.push_back({steps.empty() ? "stepz" : steps[0].name + ".tiemstep", "3"});

  fresh();
  const std::map<std::string, h::Snapshot> before = SnapshotAll("in.ms");
  Cells cells = ReadCells("in.ms", spec.weight_spectrum);
  h::ArmDisk();
  const uint64_t seed = slots[0]->Arg(0);
  Outcome run = Run(with_unused, seed, true);
  bool faults = sim::FaultsFired(sim::kTableWriteError) || sim::FaultsFired(sim::kTableReadError) || sim::FaultsFired(sim::kThreadCreateFail);
  const bool refused_key = unused && check >= 3;
  sim::Event(run.threw);

  auto input_kept = [&](const char* when) {
    const std::map<std::string, h::Snapshot> now = SnapshotAll("in.ms");
    for (const auto& [name, snap] : before) {
      if (name == "in.ms/HISTORY" && any_update) continue;
      auto it = now.find(name);
      if (it == now.end()) Fail("input-changed", std::string(when) + "the table " + name + " was removed");
      if (name == "in.ms" && any_update) continue;
      if (it->second != snap) Fail("input-changed", std::string(when) + "the table " + name + " was changed");
    }
    if (now.size() != before.size()) Fail("input-changed", std::string(when) + "a table was added to the input");
  };
  input_kept("");
  if (faults && !run.threw) Fail("error-hidden", "a failing read or write was not reported");
  if (run.threw && faults) {
    // The cause is gone: the same run must now succeed.
    if (any_update) return;
    Keys again = keys;
    if (!ends_with_out) again.push_back({"msout.overwrite", "true"});
    for (const StepSpec& s : steps)
      if (s.type == kOut) again.push_back({s.name + ".overwrite", "true"});
    run = Run(again, seed + 1, false);
    input_kept("after the second run ");
    if (run.threw && !ref.threw) Fail("no-recovery", "the run failed again: " + run.why);
  } else if (refused_key) {
    if (!run.threw) Fail("unused-key", "a key that nothing uses was accepted");
    return;
  }
  if (ref.threw) {
    if (!run.threw) Fail("not-refused", "the run succeeded, but its steps fail: " + ref.why);
    return;
  }
  if (run.threw) {
    bool meta_changed = false;
    // An update cannot change the shape of the data.
    for (size_t i = 0; i <= steps.size(); ++i) {
      const bool updates = i < steps.size() ? steps[i].target == "in.ms" : !ends_with_out && update;
      if (updates && (taps[i].info.metaChanged())) meta_changed = true;
    }
    if (meta_changed) return;
    Fail("spurious-error", "the run failed without a reason: " + run.why);
  }

  // What was written.
  for (size_t i = 0; i < steps.size(); ++i) {
    if (steps[i].type != kOut) continue;
    if (steps[i].target == "in.ms")
      Overlay(cells, taps[i]);
    else
      Compare(steps[i].target, taps[i], "step " + steps[i].name);
  }
  if (!ends_with_out) {
    if (update)
      Overlay(cells, taps.back());
    else
      Compare("out.ms", taps.back(), "the output");
  }
  if (any_update) {
    const Cells now = ReadCells("in.ms", spec.weight_spectrum);
    if (now.data.size() != cells.data.size()) Fail("rows", "the number of rows of the input changed");
    for (size_t row = 0; row < cells.data.size(); ++row) {
      const std::string at_row = "row " + I(row) + " of the updated input";
      if (!h::SameData(now.data[row], cells.data[row])) Fail("wrong-data", at_row + " has wrong data");
      if (now.flags[row] != cells.flags[row]) Fail("wrong-flags", at_row + " has wrong flags");
      if (now.weights[row] != cells.weights[row]) Fail("wrong-weights", at_row + " has wrong weights");
    }
  }
}
