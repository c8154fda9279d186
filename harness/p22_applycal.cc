// P22: ApplyCal applies the solution that belongs to each visibility.
#include "steps.h"
#include "solvers.h"

#include "base/FlagCounter.h"
#include "parmdb/ParmFacade.h"
#include "steps/ApplyCal.h"

#include <sstream>

const char* const kProperty = "P22";
using dp3::parmdb::MiniParmDisk;
using h::Slot;
using hs::M2;
using schaapcommon::h5parm::GainType;
using schaapcommon::h5parm::JonesParameters;
using schaapcommon::h5parm::MiniDisk;
using schaapcommon::h5parm::MiniFile;
using schaapcommon::h5parm::MiniTab;
using schaapcommon::h5parm::SolTab;

namespace {
enum { kSlot = 1, kCorrection = 2 };
// kSlot: seed, flag mode, nan in flagged points, zero weights
// kCorrection: source, seed

enum Source { kH5, kParmDb, kBuffer, kModel, kSources };
const char* const kSourceNames[] = {"h5parm", "parmdb", "buffer", "model data"};

using Jones = std::array<std::complex<float>, 4>;
using Keys = std::vector<std::pair<std::string, std::string>>;

struct Correction {
  int source = 0;
  GainType type = GainType::kScalarPhase;
  bool full = false, invert = true, update_weights = false, linear = false;
  std::string missing = "error";
  std::string name;
  Keys keys;
  std::vector<std::string> directions;  // of the model data
  /// The solution of an antenna; per direction in case of model data.
  std::function<Jones(size_t ant, size_t slot, size_t chan, size_t dir)> gain;
  bool refused_settings = false, refused_data = false;
};

struct Setting {
  size_t nant, nchan, nslots;
  double t0, dt;
  std::vector<std::string> antennas;
  std::vector<double> freqs, times;
};

/// Hash to a number in [-1, 1).
double Noise(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0) {
  sim::Rng r(a * 1000003 + b * 10007 + c * 101 + d);
  r.Below(7);
  return r.Below(20001) / 10000.0 - 1.0;
}

struct H5Type {
  GainType type;
  const char* name;
  int kind;  // 0: angle, 1: amplitude, 2: tec, 3: clock, 4: rotation measure
};
const H5Type kH5Types[] = {{GainType::kDiagonalPhase, "phase", 0},       {GainType::kDiagonalAmplitude, "amplitude", 1},
                           {GainType::kTec, "tec", 2},                   {GainType::kClock, "clock", 3},
                           {GainType::kRotationAngle, "rotation", 0},    {GainType::kRotationMeasure, "rotationmeasure", 4},
                           {GainType::kScalarPhase, "scalarphase", 0},   {GainType::kScalarAmplitude, "scalaramplitude", 1},
                           {GainType::kFullJones, "fulljones", 5}};

double RawValue(int kind, double x) {
  switch (kind) {
    case 1: return 1.25 + 0.75 * x;
    case 2: return 0.02 * x;
    case 3: return 5e-9 * x;
    case 4: return 0.4 * x;
    default: return 3 * x;
  }
}

/// Makes a solution file and the settings that use it.
void MakeH5(Correction& c, uint64_t seed, const Setting& s, int index, bool model) {
  sim::Rng r(seed);
  const H5Type& t = kH5Types[r.Below(9)];
  c.type = t.type;
  c.full = JonesParameters::HasFourValues(t.type);
  const bool fulljones = t.type == GainType::kFullJones;
  const std::string file = "sol" + std::to_string(index) + ".h5";
  auto f = std::make_shared<MiniFile>();
  MiniDisk::Get().files[file] = f;
  const size_t ntime = r.In(1, 5), nfreq = r.In(1, 4);
  size_t npol = fulljones ? 4 : r.Chance(0.5) ? 2 : 1;
  if (t.type == GainType::kScalarPhase || t.type == GainType::kScalarAmplitude || t.kind == 4 || t.type == GainType::kRotationAngle) npol = 1;
  const size_t ndir = model ? r.In(1, 3) : r.Chance(0.4) ? r.In(2, 3) : 1;
  const bool dir_axis = ndir > 1 || model || r.Chance(0.5), pol_axis = npol > 1 || r.Chance(0.3);
  const bool time_axis = ntime > 1 || r.Chance(0.5), freq_axis = nfreq > 1 || r.Chance(0.5);
  // Antennas in another order, some absent, some unknown to the data.
  std::vector<std::string> ants = s.antennas;
  for (size_t i = ants.size(); i > 1; --i) std::swap(ants[i - 1], ants[r.Below(i)]);
  if (r.Chance(0.3)) ants.insert(ants.begin() + r.Below(ants.size() + 1), "other");
  if (r.Chance(0.3)) ants.erase(ants.begin() + r.Below(ants.size()));
  if (ants.empty()) ants.push_back("other");
  std::vector<double> times, freqs;
  // Off the middle between two slots, so that the nearest one is certain.
  double at = s.t0 + (r.In(-3, 3) + 0.137) * s.dt;
  for (size_t i = 0; i < ntime; ++i) {
    times.push_back(at);
    at += r.In(1, 4) * s.dt * 1.31;
  }
  at = s.freqs[0] + (r.In(-2, 2) + 0.113) * 1e6;
  for (size_t i = 0; i < nfreq; ++i) {
    freqs.push_back(at);
    at += r.In(1, 3) * 1.37e6;
  }
  std::vector<schaapcommon::h5parm::AxisInfo> axes;
  if (pol_axis && r.Chance(0.5)) axes.push_back({"pol", static_cast<unsigned>(npol)});
  if (time_axis) axes.push_back({"time", static_cast<unsigned>(ntime)});
  const bool freq_first = r.Chance(0.5);
  if (freq_axis && freq_first) axes.push_back({"freq", static_cast<unsigned>(nfreq)});
  axes.push_back({"ant", static_cast<unsigned>(ants.size())});
  if (dir_axis) axes.push_back({"dir", static_cast<unsigned>(ndir)});
  if (freq_axis && !freq_first) axes.push_back({"freq", static_cast<unsigned>(nfreq)});
  if (pol_axis && axes[0].name != "pol") axes.push_back({"pol", static_cast<unsigned>(npol)});
  size_t n = 1;
  for (const auto& a : axes) n *= a.size;
  std::vector<std::string> dirs;
  for (size_t d = 0; d < ndir; ++d) dirs.push_back("[src" + std::to_string((d * 2 + index) % 3) + "]");
  const bool bad = r.Chance(0.4);
  auto table = [&](const std::string& name, const std::string& type, int kind, uint64_t salt) {
    auto tab = std::make_shared<MiniTab>();
    tab->name = name;
    tab->type = type;
    tab->axes = axes;
    tab->antennas = ants;
    tab->sources = dirs;
    tab->times = times;
    tab->freqs = freqs;
    tab->filled = true;
    sim::Rng v(seed ^ salt);
    for (size_t i = 0; i < n; ++i) {
      double x = RawValue(kind, Noise(seed + salt, i));
      if (bad && v.Chance(0.1)) x = kind == 1 && v.Chance(0.5) ? 0.0 : NAN;
      tab->values.push_back(x);
    }
    tab->weights.assign(n, 1.0);
    f->tabs[name] = tab;
    return tab;
  };
  std::shared_ptr<MiniTab> first, second;
  auto add = [&](const std::string& k, const std::string& v) { c.keys.push_back({k, v}); };
  add("parmdb", file);
  if (fulljones) {
    const bool named = r.Chance(0.5);
    const std::string a = named ? "myampl" : "amplitude000", p = named ? "myphase" : "phase000";
    first = table(a, "amplitude", 1, 1);
    second = table(p, "phase", 0, 2);
    // Far from singular.
    size_t stride = 1;
    for (size_t i = axes.size(); i-- > 0 && axes[i].name != "pol";) stride *= axes[i].size;
    for (size_t i = 0; i < n; ++i) {
      const size_t pol = (i / stride) % 4;
      if (pol == 1 || pol == 2) first->values[i] *= seed % 5 == 0 ? 0.0 : 0.15;
    }
    add("correction", "fulljones");
    if (named) add("soltab", "[" + a + "," + p + "]");
  } else {
    const std::string name = std::string(t.name) + "000";
    first = table(name, t.name, t.kind, 3);
    add("correction", name);
  }
  size_t dir = 0;
  if (model) {
    add("usemodeldata", "true");
    for (size_t d = 0; d < ndir; ++d) c.directions.push_back("predict." + dirs[d].substr(1, dirs[d].size() - 2));
    std::sort(c.directions.begin(), c.directions.end());
  } else if (ndir > 1) {
    if (r.Chance(0.1)) {
      c.refused_settings = true;
    } else {
      dir = r.Below(ndir);
      add("direction", r.Chance(0.05) ? "[absent]" : dirs[dir]);
      if (c.keys.back().second == "[absent]") c.refused_settings = true;
    }
  } else if (r.Chance(0.2)) {
    add("direction", dirs[0]);
  }
  c.linear = r.Chance(0.4);
  if (c.linear || r.Chance(0.3)) add("interpolation", c.linear ? "linear" : "nearest");
  c.missing = std::vector<std::string>{"error", "flag", "unit"}[r.Below(3)];
  if (c.missing != "error" || r.Chance(0.3)) add("missingantennabehavior", c.missing);
  std::vector<char> known;
  for (const std::string& a : s.antennas) known.push_back(std::find(ants.begin(), ants.end(), a) != ants.end());
  if (c.missing == "error" && std::count(known.begin(), known.end(), 0)) c.refused_data = true;
  const auto interpolation = c.linear ? JonesParameters::InterpolationType::LINEAR : JonesParameters::InterpolationType::NEAREST;
  const bool model_data = model;
  const std::vector<std::string> model_dirs = c.directions;
  c.gain = [=, full = c.full, type = c.type, missing = c.missing](size_t ant, size_t slot, size_t chan, size_t d) {
    if (!known[ant]) {
      const float v = missing == "unit" ? 1 : NAN, z = missing == "unit" ? 0 : NAN;
      return full ? Jones{v, z, z, v} : Jones{v, v};
    }
    const SolTab one(file, first), two(file, second ? second : first);
    size_t index = dir;
    if (model_data) index = one.GetDirIndex("[" + model_dirs[d].substr(8) + "]");
    return JonesParameters::Value(type, interpolation, index, &one, second ? &two : nullptr, s.antennas[ant], s.times[slot], s.freqs[chan]);
  };
}

void MakeParmDb(Correction& c, uint64_t seed, const Setting& s, int index) {
  sim::Rng r(seed);
  const std::string file = "instrument" + std::to_string(index);
  dp3::parmdb::MiniParmDb& db = MiniParmDisk::Get().files[file];
  db = {};
  std::vector<std::string> expressions;
  std::vector<int> kinds;
  bool gain = false;
  const char* correction = "";
  switch (r.Below(8)) {
    case 0:
    case 1:
    case 2: {
      gain = true;
      correction = "gain";
      const bool full = r.Chance(0.4), ap = r.Chance(0.5);
      if (full && r.Chance(0.5)) correction = "fulljones";
      c.type = full ? (ap ? GainType::kFullJones : GainType::kFullJonesRealImaginary)
                    : (ap ? GainType::kDiagonalComplex : GainType::kDiagonalRealImaginary);
      for (const char* p : {"0:0", "0:1", "1:0", "1:1"}) {
        if (!full && p[0] != p[2]) continue;
        const bool diagonal = p[0] == p[2];
        expressions.push_back(std::string("Gain:") + p + (ap ? ":Ampl" : ":Real"));
        kinds.push_back(diagonal ? 1 : 6);
        expressions.push_back(std::string("Gain:") + p + (ap ? ":Phase" : ":Imag"));
        kinds.push_back(ap ? 0 : 6);
      }
      break;
    }
    case 3:
    case 4: {
      const bool tec = r.Chance(0.5), two = r.Chance(0.5);
      c.type = tec ? GainType::kTec : GainType::kClock;
      correction = tec ? "tec" : "clock";
      for (int i = 0; i < (two ? 2 : 1); ++i) {
        expressions.push_back((tec ? "TEC" : "Clock") + (two ? ":" + std::to_string(i) : ""));
        kinds.push_back(tec ? 2 : 3);
      }
      break;
    }
    case 5:
      c.type = GainType::kRotationAngle;
      correction = r.Chance(0.5) ? "rotationangle" : "commonrotationangle";
      expressions.push_back(r.Chance(0.5) ? "CommonRotationAngle" : "RotationAngle");
      kinds.push_back(0);
      break;
    case 6:
      c.type = r.Chance(0.5) ? GainType::kScalarPhase : GainType::kScalarAmplitude;
      correction = c.type == GainType::kScalarPhase ? "scalarphase" : "commonscalaramplitude";
      expressions.push_back(std::string(r.Chance(0.5) ? "Common" : "") + (c.type == GainType::kScalarPhase ? "ScalarPhase" : "ScalarAmplitude"));
      kinds.push_back(c.type == GainType::kScalarPhase ? 0 : 1);
      break;
    default:
      c.type = GainType::kRotationMeasure;
      correction = "rotationmeasure";
      expressions.push_back("RotationMeasure");
      kinds.push_back(4);
      break;
  }
  c.full = JonesParameters::HasFourValues(c.type);
  const std::string postfix = r.Chance(0.2) ? ":phase_center" : "";
  const bool bad = r.Chance(0.3);
  const bool defaults = r.Chance(0.5);  // antennas without values
  const bool only_defaults = r.Chance(0.15);
  using F = std::function<double(double, double)>;
  std::vector<std::vector<F>> values(s.nant);
  for (size_t a = 0; a < s.nant; ++a) {
    const bool has = !only_defaults && (a == 0 || !defaults || r.Chance(0.6));
    for (size_t e = 0; e < expressions.size(); ++e) {
      const int kind = kinds[e];
      const std::string name = expressions[e] + ":" + s.antennas[a] + (only_defaults ? "" : postfix);
      if (has) {
        const uint64_t id = seed + 17 * a + 131 * e;
        const double t0 = s.t0, dt = s.dt, f0 = s.freqs[0];
        F f = [=](double t, double freq) {
          const double x = (t - t0) / dt, y = (freq - f0) / 1e6;
          const long slot = std::lround(x), chan = std::lround(y);
          if (bad && Noise(id, 99, slot, chan) > 0.8) return static_cast<double>(NAN);
          const double z = 0.6 * Noise(id, 1) + 0.3 * std::sin(x * 0.8 + 2 * Noise(id, 2)) * std::cos(y * 0.7 + Noise(id, 3));
          return kind == 6 ? 0.15 * z : RawValue(kind, z);
        };
        db.values[name] = f;
        values[a].push_back(f);
      } else {
        double v = 0;
        int where = only_defaults && !gain ? r.In(0, 1) : gain ? r.In(0, 2) : r.In(0, 1);
        // Two polarizations are recognised by the name of an antenna.
        if (only_defaults && (kind == 2 || kind == 3)) where = 0;
        v = kind == 6 ? 0.1 * Noise(seed, a, e) : RawValue(kind, Noise(seed, a, e));
        if (where == 0) {
          db.defaults[name] = v;
        } else if (where == 1) {
          // For all antennas.
          const std::string all = expressions[e];
          if (!db.defaults.count(all)) db.defaults[all] = v;
          v = db.defaults[all];
        } else {
          v = 0;
        }
        if (where == 2 && db.defaults.count(expressions[e])) v = db.defaults[expressions[e]];
        if (where == 2 && !db.defaults.count(expressions[e])) db.defaults[name] = v;
        values[a].push_back([=](double, double) { return v; });
      }
    }
  }
  c.keys.push_back({"parmdb", file});
  std::string text = correction;
  if (r.Chance(0.2)) text[0] = std::toupper(text[0]);
  if (text != "gain" || r.Chance(0.5)) c.keys.push_back({"correction", text});
  const Setting set = s;
  c.gain = [=, type = c.type](size_t ant, size_t slot, size_t chan, size_t) {
    std::vector<double> v;
    for (const F& f : values[ant]) v.push_back(f(set.times[slot], set.freqs[chan]));
    return JonesParameters::FromParameters(type, v, set.freqs[chan]);
  };
  // Without a value the kind of parameter is not known.
  if (only_defaults && expressions[0].compare(0, 6, "Common") == 0) c.refused_data = false;
}

/// Solutions that an earlier step left in the buffers.
using Stored = std::map<std::string, std::vector<std::vector<std::complex<double>>>>;
Stored MakeStored(uint64_t seed, size_t slot, const Setting& s, bool full, int ndir) {
  Stored out;
  const size_t npol = full ? 4 : 2;
  for (int d = 0; d < ndir; ++d) {
    auto& v = out["d" + std::to_string(d)];
    v.resize(s.nchan);
    for (size_t c = 0; c < s.nchan; ++c)
      for (size_t a = 0; a < s.nant; ++a)
        for (size_t p = 0; p < npol; ++p) {
          const uint64_t id = seed + d * 7919;
          const bool off = full && (p == 1 || p == 2);
          std::complex<double> x = std::polar(off ? 0.1 : 1.2 + 0.6 * Noise(id, slot, c, a * 4 + p), 3 * Noise(id + 1, slot, c, a * 4 + p));
          if (seed % 3 == 0 && Noise(id + 2, slot, c, a * 4 + p) > 0.9) x = NAN;
          v[c].push_back(x);
        }
  }
  return out;
}

bool Finite(const Jones& j, bool full) {
  for (size_t i = 0; i < (full ? 4u : 2u); ++i)
    if (!std::isfinite(j[i].real()) || !std::isfinite(j[i].imag())) return false;
  return true;
}
M2 Matrix(const Jones& j, bool full) {
  std::complex<double> d[4] = {j[0], j[1], j[2], j[3]};
  return hs::ToMatrix(d, full ? 4 : 2);
}

/// One slot as it is on its way through the corrections.
struct State {
  std::vector<h::C> data;
  std::vector<std::complex<double>> want;
  std::vector<double> weights;
  std::vector<char> flags, vague;  // vague: the weight is not judged
  std::map<std::string, std::vector<std::complex<double>>> model;
};

class ModelSink : public h::Sink {
 public:
  using h::Sink::Sink;
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    std::map<std::string, std::vector<h::C>> m;
    if (buffer) {
      sim::Quiet q;
      for (const std::string& name : buffer->GetDataNames()) {
        if (name.empty()) continue;
        const auto& d = buffer->GetData(name);
        m[name].assign(d.data(), d.data() + d.size());
      }
    }
    models.push_back(m);
    return h::Sink::process(std::move(buffer));
  }
  std::vector<std::map<std::string, std::vector<h::C>>> models;
};

void Cleanup() {
  MiniDisk::Get().files.clear();
  MiniDisk::Get().hook = nullptr;
  MiniParmDisk::Get().files.clear();
  MiniParmDisk::Get().hook = nullptr;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  if (o.kind == kCorrection) return std::string("correction from ") + kSourceNames[o.Arg(0) % kSources] + ", seed " + std::to_string(o.Arg(1));
  return "time slot (data " + std::to_string(o.Arg(0)) + ", flag mode " + std::to_string(o.Arg(1)) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["threads"] = rng.In(1, 4);
  k["races"] = rng.Chance(0.5);
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Below(2);
  k["nchan"] = rng.In(1, 4);
  k["extra_ntime"] = rng.Chance(0.3) ? rng.In(1, 4) : 0;
  k["update"] = rng.Chance(0.2) ? 0 : rng.In(1, 5);  // time slots per update; 0: the default
  k["steps"] = rng.Chance(0.4);
  if (rng.Chance(0.1)) k["throw_at"] = rng.In(1, 4);
  if (rng.Chance(0.15)) k["rate_table_read_error"] = rng.In(300, 2500);
  const int nc = k["steps"] ? rng.In(1, 3) : 1;
  for (int i = 0; i < nc; ++i) plan.Add(kCorrection, {rng.In(0, kSources - 1), static_cast<int64_t>(rng.Below(1 << 28))});
  const int n = static_cast<int>(rng.In(1, 8));
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4), rng.Chance(0.3), rng.Chance(0.3)});
}

void Execute(const sim::Plan& plan) {
  Cleanup();
  Setting s;
  s.nant = plan.Knob("nant", 2);
  s.nchan = plan.Knob("nchan", 1);
  s.t0 = 4.8e9;
  s.dt = 2.5;
  std::vector<const sim::Op*> slots, corrections;
  for (const sim::Op& o : plan.ops) (o.kind == kSlot ? slots : corrections).push_back(&o);
  if (slots.empty() || corrections.empty()) return;
  const bool sub = plan.Knob("steps");
  if (!sub) corrections.resize(1);
  s.nslots = slots.size();
  const dp3::base::DPInfo base_info = h::MakeInfo(s.nant, plan.Knob("autos"), s.nchan, 4, s.nslots + plan.Knob("extra_ntime"), s.t0, s.dt);
  dp3::base::DPInfo info = base_info;
  s.antennas = info.antennaNames();
  s.freqs = info.chanFreqs();
  for (size_t i = 0; i < s.nslots; ++i) s.times.push_back(s.t0 + i * s.dt);
  const size_t nbl = info.nbaselines();

  // The corrections and their settings.
  std::vector<Correction> cs;
  int stored_dirs = 0;
  bool stored_full = false;
  uint64_t stored_seed = 0;
  std::set<std::string> model_names;
  dp3::common::ParameterSet parset;
  std::string names;
  sim::Rng style(corrections[0]->Arg(1) + 5);
  for (size_t i = 0; i < corrections.size(); ++i) {
    Correction c;
    c.source = corrections[i]->Arg(0) % kSources;
    const uint64_t seed = corrections[i]->Arg(1);
    sim::Rng r(seed + 11);
    if (c.source == kModel && !model_names.empty()) c.source = kH5;
    c.name = "c" + std::to_string(i);
    c.invert = r.Chance(0.7);
    c.update_weights = r.Chance(0.5) && c.source != kModel;
    if (c.source == kH5 || c.source == kModel) {
      MakeH5(c, seed, s, i, c.source == kModel);
      for (const std::string& d : c.directions) model_names.insert(d);
    } else if (c.source == kParmDb) {
      MakeParmDb(c, seed, s, i);
    } else {
      if (stored_dirs == 0) {
        stored_seed = seed;
        stored_dirs = r.Chance(0.5) ? 1 : r.In(2, 3);
        stored_full = r.Chance(0.4);
      }
      c.full = stored_full;
      c.type = stored_full ? GainType::kFullJonesRealImaginary : GainType::kDiagonalRealImaginary;
      if (stored_full) c.keys.push_back({"correction", "fulljones"});
      const int dir = r.Below(stored_dirs);
      if (stored_dirs > 1 || r.Chance(0.3)) c.keys.push_back({"direction", "d" + std::to_string(dir)});
      c.keys.push_back({"parmdb", ""});
      c.gain = [=](size_t ant, size_t slot, size_t chan, size_t) {
        const Stored st = MakeStored(stored_seed, slot, s, stored_full, stored_dirs);
        const auto& v = st.at("d" + std::to_string(dir))[chan];
        Jones j{};
        for (size_t p = 0; p < (stored_full ? 4u : 2u); ++p) j[p] = std::complex<float>(v[ant * (stored_full ? 4 : 2) + p]);
        return j;
      };
    }
    if (c.full && c.update_weights && !c.invert) {
      // Not implemented, and refused.
      if (c.type == GainType::kFullJones && c.source == kH5) c.refused_settings = true;
      else c.update_weights = false;
    }
    if (!c.invert || r.Chance(0.3)) c.keys.push_back({"invert", c.invert ? "true" : "false"});
    if (c.update_weights || r.Chance(0.3)) c.keys.push_back({"updateweights", c.update_weights ? "true" : "false"});
    if (plan.Knob("update") && !sub) c.keys.push_back({"timeslotsperparmupdate", std::to_string(plan.Knob("update"))});
    names += (i ? "," : "") + c.name;
    cs.push_back(c);
  }
  // A setting of the step itself holds for the corrections that do not have it.
  std::map<std::string, std::string> common;
  if (sub) {
    parset.add("a.steps", "[" + names + "]");
    if (plan.Knob("update")) parset.add("a.timeslotsperparmupdate", std::to_string(plan.Knob("update")));
    const std::vector<std::string> defaults = {"interpolation", "missingantennabehavior", "invert", "updateweights", "parmdb", "correction", "soltab", "direction", "usemodeldata"};
    for (const std::string& key : defaults) {
      // Only if all corrections have it.
      bool all = true;
      std::vector<std::string> values;
      for (const Correction& c : cs) {
        bool has = false;
        for (const auto& [k, v] : c.keys)
          if (k == key) {
            has = true;
            values.push_back(v);
          }
        all = all && has;
      }
      if (all && style.Chance(0.6)) common[key] = values[style.Below(values.size())];
    }
    for (const auto& [k, v] : common) parset.add("a." + k, v);
  }
  for (const Correction& c : cs)
    for (const auto& [k, v] : c.keys) {
      const auto it = common.find(k);
      if (sub && it != common.end() && it->second == v) continue;
      parset.replace("a." + (sub ? c.name + "." : std::string()) + k, v);
    }
  for (const std::string& d : model_names) info.GetDirections()[d] = dp3::base::Direction(0.1, 0.2);

  // What must come out.
  std::vector<Slot> in;
  std::vector<std::map<std::string, std::vector<h::C>>> models(s.nslots);
  for (size_t i = 0; i < s.nslots; ++i) {
    const sim::Op& o = *slots[i];
    in.push_back(h::MakeSlot(o.Arg(0), nbl, s.nchan, 4, s.times[i], s.dt, o.Arg(1), o.Arg(2), o.Arg(3)));
    sim::Rng r(o.Arg(0) + 3);
    for (const std::string& d : model_names)
      for (size_t j = 0; j < in[i].data.size(); ++j) models[i][d].push_back(h::C(r.In(-20, 20), r.In(-20, 20)));
  }
  bool refused_settings = false, refused_data = false;
  for (const Correction& c : cs) {
    refused_settings = refused_settings || c.refused_settings;
    refused_data = refused_data || c.refused_data;
  }
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<ModelSink>(throw_at);

  bool faults = false;
  auto hook = [&](const char* what, const std::string& file) {
    if (sim::ShouldFault(sim::kTableReadError)) {
      faults = true;
      throw H5::FileIException("simulated error of " + file);
    }
  };
  MiniDisk::Get().hook = hook;
  MiniParmDisk::Get().hook = hook;
  bool threw = false, made = false;
  std::string why;
  std::vector<std::string> counts;
  size_t passed = 0;
  {
    h::Threads threads(plan.Knob("threads", 1));
    sim::FaultScope scope;
    try {
      auto step = std::make_shared<dp3::steps::ApplyCal>(parset, "a.");
      made = true;
      step->setNextStep(sink);
      step->setInfo(info);
      for (size_t i = 0; i < s.nslots; ++i) {
        std::unique_ptr<dp3::base::DPBuffer> b;
        {
          sim::Quiet q;
          b = h::ToBuffer(in[i]);
          for (const auto& [name, data] : models[i]) {
            b->AddData(name);
            std::copy(data.begin(), data.end(), b->GetData(name).data());
          }
          if (stored_dirs) {
            const size_t npol = stored_full ? 4 : 2;
            const Stored st = MakeStored(stored_seed, i, s, stored_full, stored_dirs);
            std::vector<std::string> names;
            std::vector<std::vector<std::complex<double>>> all(s.nchan);
            for (int d = 0; d < stored_dirs; ++d) names.push_back("d" + std::to_string(d));
            for (size_t c = 0; c < s.nchan; ++c)
              for (size_t a = 0; a < s.nant; ++a)
                for (const std::string& n : names)
                  for (size_t q = 0; q < npol; ++q) all[c].push_back(st.at(n)[c][a * npol + q]);
            b->SetSolution(all, s.nant, npol, names);
          }
        }
        if (!step->process(std::move(b))) sim::Fail("refused", "the step refused a time slot");
        ++passed;
      }
      step->finish();
      sim::Quiet q;
      for (std::shared_ptr<dp3::steps::Step> one = step->getNextStep(); one && one != sink; one = one->getNextStep()) {
        std::ostringstream os;
        one->showCounts(os);
        counts.push_back(os.str());
      }
    } catch (const h::StepError& e) {
      threw = true;
      why = e.what();
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
  }
  sim::Quiet q;
  h::HashSlots(sink->slots);
  sim::Event(threw);
  const bool next_threw = throw_at >= 0 && static_cast<size_t>(throw_at) < s.nslots;
  const std::string problem = threw ? why : "";
  Setting keep = s;
  if (faults && !threw) sim::Fail("error-hidden", "an error while reading solutions was swallowed");
  if (!faults && refused_settings) {
    if (made) sim::Fail("not-refused", "settings that cannot be followed were accepted");
    sim::Probe("refused settings");
    Cleanup();
    return;
  }
  if (!faults && refused_data) {
    if (!threw || passed) sim::Fail("not-refused", "an antenna without solutions was accepted");
    sim::Probe("missing antenna");
    Cleanup();
    return;
  }
  if (!faults && next_threw && !threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
  if (threw && !faults && !next_threw) sim::Fail("spurious-error", "the step failed: " + why);
  if (!threw && sink->finished != 1) sim::Fail("not-finished", "the next step was not finished");
  if (sink->slots.size() != (threw ? std::min(passed, s.nslots) : s.nslots))
    sim::Fail("slot-count", std::to_string(sink->slots.size()) + " time slots came out");

  // The reference.
  std::vector<dp3::base::FlagCounter> counters(cs.size());
  for (auto& c : counters) c.init(base_info);
  for (size_t t = 0; t < sink->slots.size(); ++t) {
    State st;
    for (const h::C& v : in[t].data) st.want.push_back(v);
    for (float w : in[t].weights) st.weights.push_back(w);
    st.flags = in[t].flags;
    st.vague.assign(st.flags.size(), 0);
    for (const auto& [name, data] : models[t])
      for (const h::C& v : data) st.model[name].push_back(v);
    for (size_t n = 0; n < cs.size(); ++n) {
      const Correction& c = cs[n];
      const size_t ndir = c.source == kModel ? c.directions.size() : 1;
      for (size_t d = 0; d < ndir; ++d)
        for (size_t ch = 0; ch < s.nchan; ++ch) {
          std::vector<Jones> j;
          std::vector<char> ok;
          for (size_t a = 0; a < s.nant; ++a) {
            j.push_back(c.gain(a, t, ch, d));
            bool good = Finite(j[a], c.full);
            if (good && c.invert) {
              if (c.full) {
                const std::complex<double> det = std::complex<double>(j[a][0]) * std::complex<double>(j[a][3]) -
                                                 std::complex<double>(j[a][1]) * std::complex<double>(j[a][2]);
                good = std::abs(det) > 1e-6;
              } else {
                good = std::abs(j[a][0]) > 0 && std::abs(j[a][1]) > 0;
              }
            }
            ok.push_back(good);
          }
          for (size_t b = 0; b < nbl; ++b) {
            const size_t at = in[t].At(b, ch, 0), a1 = info.getAnt1()[b], a2 = info.getAnt2()[b];
            if (!ok[a1] || !ok[a2]) {
              if (!st.flags[at]) {
                counters[n].incrBaseline(b);
                counters[n].incrChannel(ch);
              }
              for (int p = 0; p < 4; ++p) st.flags[at + p] = 1;
              continue;
            }
            M2 g1 = Matrix(j[a1], c.full), g2 = Matrix(j[a2], c.full);
            if (c.invert)
              for (M2* m : {&g1, &g2}) {
                const std::complex<double> det = m->v[0] * m->v[3] - m->v[1] * m->v[2];
                *m = {{m->v[3] / det, -m->v[1] / det, -m->v[2] / det, m->v[0] / det}};
              }
            auto& data = c.source == kModel ? st.model[c.directions[d]] : st.want;
            M2 v{{data[at], data[at + 1], data[at + 2], data[at + 3]}};
            v = g1 * v * g2.Herm();
            for (int p = 0; p < 4; ++p) data[at + p] = v.v[p];
            if (c.update_weights) {
              // The variance of each correlation.
              double w[4];
              for (int r1 = 0; r1 < 2; ++r1)
                for (int r2 = 0; r2 < 2; ++r2) {
                  double var = 0;
                  for (int k1 = 0; k1 < 2; ++k1)
                    for (int k2 = 0; k2 < 2; ++k2) {
                      const double f = std::norm(g1.v[2 * r1 + k1]) * std::norm(g2.v[2 * r2 + k2]);
                      if (f != 0) var += f / st.weights[at + 2 * k1 + k2];
                    }
                  w[2 * r1 + r2] = 1 / var;
                  if (var == 0)
                    for (int p = 0; p < 4; ++p) st.vague[at + p] = 1;
                }
              for (int p = 0; p < 4; ++p) st.weights[at + p] = w[p];
            }
          }
        }
    }
    const Slot& g = sink->slots[t];
    if (g.time != in[t].time || g.exposure != in[t].exposure) sim::Fail("time", "a time slot has another time or exposure");
    if (g.uvw != in[t].uvw) sim::Fail("uvw", "UVW coordinates changed");
    if (g.data.size() != st.want.size() || g.weights.size() != st.weights.size()) sim::Fail("shape", "a time slot has another shape");
    for (size_t i = 0; i < st.want.size(); ++i) {
      const std::string where = h::Where(t, i / (4 * s.nchan), i / 4 % s.nchan, i % 4);
      if ((g.flags[i] != 0) != (st.flags[i] != 0))
        sim::Fail("flag", where + (st.flags[i] ? " must be flagged: it has no valid solution" : " must not be flagged"));
      auto compare = [&](h::C got, const std::vector<std::complex<double>>& want, const char* what) {
        double scale = 0;
        bool nan = false;
        for (size_t p = 0; p < 4; ++p) {
          const std::complex<double> v = want[i - i % 4 + p];
          scale = std::max(scale, std::abs(v));
          nan = nan || std::isnan(v.real()) || std::isnan(v.imag());
        }
        if (nan) return;
        if (!(std::abs(std::complex<double>(got) - want[i]) <= 2e-4 * (1 + scale)))
          sim::Fail("value", where + what + h::Str(got.real()) + "," + h::Str(got.imag()) + " instead of " + h::Str(want[i].real()) + "," + h::Str(want[i].imag()));
      };
      compare(g.data[i], st.want, ": ");
      if (!st.vague[i] && !(std::abs(g.weights[i] - st.weights[i]) <= 1e-3 * st.weights[i]))
        sim::Fail("weight", where + ": weight " + h::Str(g.weights[i]) + " instead of " + h::Str(st.weights[i]));
      for (const auto& [name, want] : st.model) {
        const auto it = sink->models[t].find(name);
        if (it == sink->models[t].end()) sim::Fail("model", "the model data " + name + " were removed");
        compare(it->second.at(i), want, (", model " + name + ": ").c_str());
      }
    }
  }
  if (!threw) {
    if (counts.size() != cs.size()) sim::Fail("steps", "another number of corrections was made");
    for (size_t n = 0; n < cs.size(); ++n) {
      std::ostringstream os;
      counters[n].showBaseline(os, s.nslots);
      counters[n].showChannel(os, s.nslots);
      if (counts[n].find(os.str()) == std::string::npos)
        sim::Fail("count", "the flag counts of correction " + std::to_string(n) + " are wrong:" + counts[n] + "\ninstead of" + os.str());
    }
    sim::Probe("compared");
  }
  if (plan.Knob("threads", 1) > 1) sim::Probe("parallel loop");
  Cleanup();
}
