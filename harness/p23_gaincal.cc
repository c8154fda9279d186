// P23: GainCal solves each interval from its own valid data, writes what it
// found and corrects the data with it.
#include "calib.h"

#include "parmdb/ParmDB.h"
#include "parmdb/ParmDBMeta.h"
#include "steps/ApplyBeam.h"
#include "steps/GainCal.h"

#include "mini_tables.h"

#include <iostream>

const char* const kProperty = "P23";
using h::C;
using h::Slot;
using hs::M2;
using schaapcommon::h5parm::MiniDisk;
using schaapcommon::h5parm::MiniTab;
typedef std::complex<double> D;

namespace dp3::steps {
ApplyBeam::ApplyBeam(const common::ParameterSet&, const std::string&, bool) {
  throw std::runtime_error("the beam is not simulated");
}
bool ApplyBeam::ProcessData(std::unique_ptr<base::DPBuffer>) { return false; }
bool ApplyBeam::ProcessModelData(std::unique_ptr<base::DPBuffer>) { return false; }
void ApplyBeam::finish() {}
void ApplyBeam::updateInfo(const base::DPInfo&) {}
void ApplyBeam::show(std::ostream&) const {}
void ApplyBeam::showTimings(std::ostream&, double) const {}
}  // namespace dp3::steps

namespace {
enum { kSlot = 1 };  // seed, flag mode, station without data (-1: none)

enum Type { kDiagonal, kFullJones, kScalarPhase, kDiagonalPhase, kScalarAmplitude, kDiagonalAmplitude, kTec, kTecAndPhase, kTypes };
const char* const kNames[] = {"diagonal", "fulljones", "scalarphase", "diagonalphase", "scalaramplitude", "diagonalamplitude", "tec", "tecandphase"};
enum Source { kReuse, kPredict, kColumn };
const double kTecFactor = 8.44797245e9;

struct Case {
  int type = 0, source = 0;
  size_t nant = 4, nchan = 4, ncorr = 4, ntime = 4, solint = 1, cell = 1, ncell = 1;
  int unused = -1;
  double t0 = 4.5e9, dt = 2, uvmin = 0, level = 0, tolerance = 1e-5;
  size_t maxiter = 50, chunk = 500;
  bool autos = false, propagate = true, apply = false, stalling = true, h5 = true, pol_weights = false, all_times = false;
  std::vector<int> a1, a2;
  std::vector<char> selected;      // per baseline
  std::vector<size_t> used;        // antennas with baselines
  std::string baselines;           // the selection, "" for all
  bool Tec() const { return type == kTec || type == kTecAndPhase; }
  bool Scalar() const { return type == kScalarPhase || type == kScalarAmplitude || Tec(); }
  bool Phase() const { return type == kScalarPhase || type == kDiagonalPhase || Tec(); }
  bool Amplitude() const { return type == kScalarAmplitude || type == kDiagonalAmplitude; }
  size_t NPol() const { return type == kFullJones ? 4 : Scalar() ? 1 : 2; }
  double Freq(size_t ch) const { return 100e6 + ch * 1e6; }
  double CellFreq(size_t k) const {
    double sum = 0;
    size_t n = 0;
    for (size_t ch = k * cell; ch < std::min(nchan, (k + 1) * cell); ++ch, ++n) sum += Freq(ch);
    return sum / n;
  }
  size_t Intervals() const { return (ntime + solint - 1) / solint; }
  size_t UsedIndex(size_t ant) const { return std::find(used.begin(), used.end(), ant) - used.begin(); }
};

Case MakeCase(const sim::Plan& plan) {
  Case c;
  c.type = plan.Knob("type");
  c.source = plan.Knob("source");
  c.nant = plan.Knob("nant", 4);
  c.nchan = plan.Knob("nchan", 4);
  c.ncorr = plan.Knob("ncorr", 4);
  for (const sim::Op& o : plan.ops) (void)o;
  c.ntime = plan.ops.size();
  c.all_times = plan.Knob("solint", 1) == 0;
  c.solint = c.all_times ? c.ntime : plan.Knob("solint", 1);
  const size_t n = plan.Knob("cell", 1);
  c.cell = n == 0 ? (c.type >= kTec ? 1 : c.nchan) : std::min(n, c.nchan);
  c.ncell = (c.nchan + c.cell - 1) / c.cell;
  c.unused = plan.Knob("unused", -1);
  c.uvmin = plan.Knob("uvmin") ? plan.Knob("uvmin") + 0.5 : 0;
  const double levels[] = {0, 0.01, 0.4};
  c.level = levels[plan.Knob("level")];
  c.maxiter = plan.Knob("maxiter", 50);
  c.tolerance = std::pow(10.0, -plan.Knob("tolerance", 5));
  c.chunk = plan.Knob("chunk", 500);
  c.autos = plan.Knob("autos");
  c.propagate = plan.Knob("propagate", 1);
  c.apply = plan.Knob("apply");
  c.stalling = plan.Knob("stalling", 1);
  c.h5 = plan.Knob("h5", 1);
  c.pol_weights = plan.Knob("pol_weights");
  sim::Rng r(plan.Knob("select_seed", 1));
  std::vector<char> seen(c.nant, 0);
  for (size_t i = 0; i < c.nant; ++i)
    for (size_t j = c.autos ? i : i + 1; j < c.nant; ++j) {
      if (int(i) == c.unused || int(j) == c.unused) continue;
      c.a1.push_back(i);
      c.a2.push_back(j);
      seen[i] = seen[j] = 1;
      c.selected.push_back(!plan.Knob("select") || r.Chance(0.7));
    }
  for (size_t i = 0; i < c.nant; ++i)
    if (seen[i]) c.used.push_back(i);
  if (plan.Knob("select")) {
    if (std::find(c.selected.begin(), c.selected.end(), 1) == c.selected.end()) c.selected[0] = 1;
    for (size_t b = 0; b < c.a1.size(); ++b)
      if (c.selected[b])
        c.baselines += (c.baselines.empty() ? "" : ",") + ("[ant" + std::to_string(c.a1[b]) + ",ant" + std::to_string(c.a2[b]) + "]");
    c.baselines = "[" + c.baselines + "]";
  }
  return c;
}

std::string AntName(size_t i) { return "ant" + std::to_string(i); }

struct Observation {
  std::vector<Slot> slots;
  std::vector<std::vector<C>> model;      // per slot
  std::vector<std::vector<char>> usable;  // per slot and sample of correlation 0: may be used to solve
};

/// The true gain of an antenna.
M2 Truth(const Case& c, uint64_t seed, size_t interval, size_t ant, size_t cell) {
  if (c.propagate || c.Tec()) interval = 0;  // slowly changing: here not at all
  auto rnd = [&](int what, bool per_cell) {
    sim::Rng r(seed * 1009 + ((interval * 64 + ant) * 64 + (per_cell ? cell : 63)) * 16 + what);
    r.Below(3);
    return 2 * r.Unit() - 1;
  };
  D g[4] = {0, 0, 0, 0};
  if (c.Tec()) {
    double phase = -kTecFactor * 0.01 * rnd(0, false) / c.CellFreq(cell);
    if (c.type == kTecAndPhase) phase += 1.5 * rnd(1, false);
    g[0] = g[3] = std::polar(1.0, phase);
  } else {
    for (int p = 0; p < 2; ++p) {
      const int q = c.Scalar() ? 0 : p;
      const double amp = c.Phase() ? 1 : 1 + 0.3 * rnd(2 + q, true);
      const double phase = c.Amplitude() ? 0 : 1.0 * rnd(4 + q, true);
      g[3 * p] = std::polar(amp, phase);
    }
    if (c.type == kFullJones) {
      g[1] = D(0.1 * rnd(6, true), 0.1 * rnd(7, true));
      g[2] = D(0.1 * rnd(8, true), 0.1 * rnd(9, true));
    }
  }
  return {{g[0], g[1], g[2], g[3]}};
}

Observation Observe(const Case& c, const sim::Plan& plan, uint64_t salt) {
  Observation o;
  const size_t nbl = c.a1.size();
  const uint64_t gain_seed = plan.Knob("gain_seed", 1) + salt;
  for (size_t t = 0; t < c.ntime; ++t) {
    const sim::Op& op = plan.ops[t];
    sim::Rng r(op.Arg(0) + salt * 77777);
    Slot s;
    s.time = c.t0 + t * c.dt;
    s.exposure = c.dt;
    s.nbl = nbl;
    s.nchan = c.nchan;
    s.ncorr = c.ncorr;
    std::vector<C> model;
    std::vector<char> usable;
    const bool equal_weights = !c.pol_weights;
    for (size_t b = 0; b < nbl; ++b)
      for (int k = 0; k < 3; ++k) s.uvw.push_back(r.In(-1000, 1000));
    for (size_t b = 0; b < nbl; ++b) {
      const double u = s.uvw[3 * b], v = s.uvw[3 * b + 1];
      const bool near = c.uvmin > 0 && std::sqrt(u * u + v * v) < c.uvmin;
      const bool dead = c.a1[b] == op.Arg(2, -1) || c.a2[b] == op.Arg(2, -1);
      const bool bad_baseline = op.Arg(1) == 3 && r.Chance(0.4);
      for (size_t ch = 0; ch < c.nchan; ++ch) {
        const size_t cell = ch / c.cell, interval = t / c.solint;
        M2 m;
        for (int p = 0; p < 4; ++p) {
          const double base = p == 0 || p == 3 ? 1 : 0.1;
          m.v[p] = D(base * (1 + 0.5 * (2 * r.Unit() - 1)), 0.5 * base * (2 * r.Unit() - 1));
        }
        const M2 g1 = Truth(c, gain_seed, interval, c.a1[b], cell), g2 = Truth(c, gain_seed, interval, c.a2[b], cell);
        M2 d = g1 * m * g2.Herm();
        const bool flag = op.Arg(1) == 4 || (op.Arg(1) == 1 && r.Chance(0.15)) || (op.Arg(1) == 2 && r.Chance(0.6)) || bad_baseline || dead;
        const float w = plan.Knob("zero_weights") && r.Chance(0.1) ? 0.0f : static_cast<float>(0.5 + r.Unit());
        for (size_t p = 0; p < c.ncorr; ++p) {
          const size_t q = c.ncorr == 2 ? 3 * p : p;
          C x(d.v[q] + c.level * D(2 * r.Unit() - 1, 2 * r.Unit() - 1));
          if (flag && r.Chance(0.3)) x = C(NAN, NAN);
          s.data.push_back(x);
          model.push_back(C(m.v[q]));
          s.weights.push_back(equal_weights ? w : r.Chance(0.3) ? 0.0f : w);
          s.flags.push_back(flag);
        }
        if (!equal_weights && r.Chance(0.5))
          for (size_t p = 1; p < c.ncorr; ++p) s.weights[s.weights.size() - p] = 0;
        usable.push_back(!flag && !near && c.selected[b] && c.a1[b] != c.a2[b]);
      }
    }
    o.slots.push_back(std::move(s));
    o.model.push_back(std::move(model));
    o.usable.push_back(std::move(usable));
  }
  return o;
}

/// Changes everything that may not influence the solutions.
void Disturb(const Case& c, Observation& o, uint64_t seed) {
  sim::Rng r(seed);
  for (size_t t = 0; t < o.slots.size(); ++t) {
    Slot& s = o.slots[t];
    for (size_t b = 0; b < s.nbl; ++b)
      for (size_t ch = 0; ch < s.nchan; ++ch)
        if (!o.usable[t][b * s.nchan + ch])
          for (size_t p = 0; p < s.ncorr; ++p) {
            s.data[s.At(b, ch, p)] = C(r.In(-50, 50), r.In(-50, 50));
            o.model[t][s.At(b, ch, p)] = C(r.In(-50, 50), r.In(-50, 50));
            s.weights[s.At(b, ch, p)] = r.In(0, 20);
          }
  }
}

/// The solutions of a run: [interval][cell][used antenna][polarization].
struct Solutions {
  std::vector<std::vector<std::vector<std::array<D, 4>>>> gain;
  std::vector<std::vector<double>> tec, phase;  // [interval][antenna]
};

struct Result {
  std::vector<Slot> out;
  bool threw = false, step_error = false;
  std::string why;
  int finished = 0;
};

dp3::base::DPInfo MakeInfo(const Case& c, double t0, size_t ntime) {
  dp3::base::DPInfo info = h::MakeInfo(c.nant, c.autos, c.nchan, c.ncorr, ntime, t0, c.dt);
  std::vector<std::string> names = info.antennaNames();
  std::vector<double> diameters = info.antennaDiam();
  std::vector<casacore::MPosition> positions = info.antennaPos();
  info.setAntennas(names, diameters, positions, c.a1, c.a2);
  return info;
}

dp3::common::ParameterSet MakeParset(const Case& c, const std::string& file) {
  dp3::common::ParameterSet p;
  auto add = [&](const std::string& k, const std::string& v) { p.add("cal." + k, v); };
  add("caltype", kNames[c.type]);
  add("parmdb", file);
  add("solint", c.all_times ? "0" : std::to_string(c.solint));
  add("nchan", std::to_string(c.cell));
  add("maxiter", std::to_string(c.maxiter));
  add("tolerance", h::Str(c.tolerance));
  add("propagatesolutions", c.propagate ? "true" : "false");
  add("detectstalling", c.stalling ? "true" : "false");
  add("applysolution", c.apply ? "true" : "false");
  add("timeslotsperparmupdate", std::to_string(c.chunk));
  if (c.uvmin) add("uvmmin", h::Str(c.uvmin));
  if (!c.baselines.empty()) add("baseline", c.baselines);
  if (c.source == kReuse) add("reusemodel", "given");
  if (c.source == kColumn) {
    add("usemodelcolumn", "true");
    add("modelcolumn", "COLUMN");
  }
  return p;
}

/// Runs the step over some slots.
Result RunStep(const Case& c, const Observation& o, size_t first, size_t n, const std::string& file, int64_t throw_at, bool faults = false) {
  Result result;
  std::shared_ptr<h::Sink> sink;
  {
    sim::Quiet q;
    sink = std::make_shared<h::Sink>(throw_at);
    hc::Models::Get().get = [&](const std::string&, double time) -> const std::vector<C>& {
      return o.model.at(static_cast<size_t>(std::llround((time - c.t0) / c.dt)));
    };
  }
  try {
    std::optional<sim::FaultScope> scope;
    if (faults) scope.emplace();
    const dp3::common::ParameterSet parset = MakeParset(c, file);
    auto step = std::make_shared<dp3::steps::GainCal>(parset, "cal.");
    step->setNextStep(sink);
    step->setInfo(MakeInfo(c, c.t0 + first * c.dt, n));
    {
      std::ostringstream os;
      step->show(os);
    }
    for (size_t t = first; t < first + n; ++t) {
      std::unique_ptr<dp3::base::DPBuffer> b;
      {
        sim::Quiet q;
        b = h::ToBuffer(o.slots[t]);
        if (c.source == kReuse) {
          b->AddData("given");
          std::copy(o.model[t].begin(), o.model[t].end(), b->GetData("given").data());
        }
      }
      step->process(std::move(b));
    }
    step->finish();
    std::ostringstream os;
    step->showTimings(os, 10);
  } catch (const h::StepError& e) {
    sim::Quiet q;
    result.threw = result.step_error = true;
    result.why = e.what();
  } catch (const std::exception& e) {
    sim::Quiet q;
    result.threw = true;
    result.why = e.what();
  }
  sim::Quiet q;
  result.out = sink->slots;
  result.finished = sink->finished;
  return result;
}

double Wrap(double x) { return std::remainder(x, 2 * M_PI); }

/// Reads a solution file of n intervals that start at t0.
Solutions ReadH5(const Case& c, const std::string& name, size_t n, double t0, bool check) {
  const auto it = MiniDisk::Get().files.find(name);
  if (it == MiniDisk::Get().files.end()) sim::Fail("no-file", "no solution file was written");
  const auto& file = *it->second;
  Solutions s;
  const size_t nant = c.used.size(), npol = c.NPol(), nfreq = c.Tec() ? 1 : c.ncell;
  auto tab = [&](const std::string& t, const std::string& type) -> const MiniTab& {
    const auto found = file.tabs.find(t);
    if (found == file.tabs.end()) sim::Fail("table", "the solution file has no table " + t);
    const MiniTab& m = *found->second;
    if (m.type != type) sim::Fail("table", "table " + t + " is of type " + m.type);
    if (!m.filled || m.values.size() != n * nfreq * nant * npol || m.weights.size() != m.values.size())
      sim::Fail("table", "table " + t + " has " + std::to_string(m.values.size()) + " values");
    std::string axes;
    for (const auto& a : m.axes) axes += a.name + "=" + std::to_string(a.size) + " ";
    const std::string want = "time=" + std::to_string(n) + " freq=" + std::to_string(nfreq) + " ant=" + std::to_string(nant) + " " +
                             (npol > 1 ? "pol=" + std::to_string(npol) + " " : "");
    if (axes != want) sim::Fail("axes", "table " + t + " has axes " + axes + "instead of " + want);
    if (!check) return m;
    std::vector<std::string> names;
    for (size_t a : c.used) names.push_back(AntName(a));
    if (m.antennas != names) sim::Fail("axes", "table " + t + " names other antennas");
    for (size_t i = 0; i < n; ++i)
      if (std::abs(m.times.at(i) - (t0 - c.dt / 2 + (i + 0.5) * c.solint * c.dt)) > 1e-3)
        sim::Fail("times", "interval " + std::to_string(i) + " is at " + h::Str(m.times[i] - t0) + " s");
    if (!c.Tec())
      for (size_t k = 0; k < nfreq; ++k)
        if (std::abs(m.freqs.at(k) - c.CellFreq(k)) > 1) sim::Fail("freqs", "cell " + std::to_string(k) + " is at " + h::Str(m.freqs[k]));
    if (npol == 2 && m.polarizations != std::vector<std::string>{"XX", "YY"}) sim::Fail("pols", "other polarizations");
    if (npol == 4 && m.polarizations != std::vector<std::string>{"XX", "XY", "YX", "YY"}) sim::Fail("pols", "other polarizations");
    for (size_t i = 0; i < m.values.size(); ++i)
      if (m.weights[i] != (std::isfinite(m.values[i]) ? 1 : 0))
        sim::Fail("weights", "a value " + h::Str(m.values[i]) + " of " + t + " has weight " + h::Str(m.weights[i]));
    return m;
  };
  const MiniTab* first = nullptr;
  const MiniTab* second = nullptr;
  if (c.Tec()) {
    first = &tab("tec000", "tec");
    if (c.type == kTecAndPhase) second = &tab("phase000", "phase");
  } else if (c.Amplitude()) {
    first = &tab("amplitude000", "amplitude");
  } else {
    first = &tab("phase000", "phase");
    if (!c.Phase()) second = &tab("amplitude000", "amplitude");
  }
  if (file.tabs.size() != (second ? 2u : 1u)) sim::Fail("table", "the solution file has extra tables");
  if (check && file.antenna_names.size() != c.nant) sim::Fail("antennas", "the solution file lists other antennas");
  for (size_t i = 0; i < n; ++i) {
    s.gain.emplace_back(c.ncell);
    s.tec.emplace_back();
    s.phase.emplace_back();
    for (size_t k = 0; k < c.ncell; ++k)
      for (size_t a = 0; a < nant; ++a) {
        std::array<D, 4> g{};
        for (size_t p = 0; p < npol; ++p) {
          const size_t at = ((i * nfreq + (c.Tec() ? 0 : k)) * nant + a) * npol + p;
          if (c.Tec()) {
            const double phase = second ? second->values[at] : 0;
            if (k == 0) {
              s.tec.back().push_back(first->values[at]);
              s.phase.back().push_back(phase);
            }
            g[p] = std::polar(1.0, -kTecFactor * first->values[at] / c.CellFreq(k) + phase);
          } else if (c.Amplitude()) {
            g[p] = first->values[at];
          } else {
            const D v(std::cos(first->values[at]), std::sin(first->values[at]));
            g[p] = second ? v * second->values[at] : v;
          }
        }
        s.gain.back()[k].push_back(g);
      }
  }
  return s;
}

/// Compares the parameter database with the solutions.
void CheckParmDb(const Case& c, const std::string& name, const Solutions& want) {
  using namespace dp3::parmdb;
  ParmDB db(ParmDBMeta("casa", name), false);
  std::vector<char> selected(c.nant, 0);
  for (size_t b = 0; b < c.a1.size(); ++b)
    if (c.selected[b]) selected[c.a1[b]] = selected[c.a2[b]] = 1;
  struct Parm {
    std::string prefix;
    std::function<double(size_t i, size_t k, size_t a)> value;
    bool phase;
  };
  std::vector<Parm> parms;
  auto gain = [&](size_t p, int what) {
    return [&want, p, what](size_t i, size_t k, size_t a) {
      const D g = want.gain[i][k][a][p];
      return what == 0 ? g.real() : what == 1 ? g.imag() : what == 2 ? std::arg(g) : std::abs(g);
    };
  };
  const char* const pols[] = {"0:0:", "0:1:", "1:0:", "1:1:"};
  if (c.type == kDiagonal || c.type == kFullJones) {
    for (size_t p = 0; p < c.NPol(); ++p)
      for (int what = 0; what < 2; ++what)
        parms.push_back({std::string("Gain:") + pols[c.NPol() == 4 ? p : 3 * p] + (what ? "Imag:" : "Real:"), gain(p, what), false});
  } else if (c.type == kDiagonalPhase || c.type == kDiagonalAmplitude) {
    for (size_t p = 0; p < 2; ++p)
      parms.push_back({std::string("Gain:") + pols[3 * p] + (c.Phase() ? "Phase:" : "Ampl:"), gain(p, c.Phase() ? 2 : 3), c.Phase()});
  } else if (c.type == kScalarPhase) {
    parms.push_back({"CommonScalarPhase:", gain(0, 2), true});
  } else if (c.type == kScalarAmplitude) {
    parms.push_back({"CommonScalarAmplitude:", gain(0, 3), false});
  } else {
    parms.push_back({"TEC:", [&](size_t i, size_t, size_t a) { return want.tec[i][a]; }, false});
    if (c.type == kTecAndPhase) parms.push_back({"CommonScalarPhase:", [&](size_t i, size_t, size_t a) { return want.phase[i][a]; }, false});
  }
  size_t expected = 0;
  const double width = 1e6;
  for (const Parm& parm : parms)
    for (size_t a = 0; a < c.used.size(); ++a) {
      if (!selected[c.used[a]]) continue;
      ++expected;
      const std::string full = parm.prefix + AntName(c.used[a]);
      const int id = db.getNameId(full);
      if (id < 0) sim::Fail("parameter", "the database has no parameter " + full);
      std::vector<ParmValueSet> sets(1);
      db.getValues(sets, {static_cast<unsigned>(id)}, {0}, Box());
      const size_t nfreq = c.Tec() ? 1 : c.ncell;
      std::vector<int> seen(c.Intervals() * nfreq, 0);
      for (unsigned v = 0; v < sets[0].size(); ++v) {
        const ParmValue& value = sets[0].getParmValue(v);
        const Grid& grid = value.getGrid();
        const casacore::Array<double>& values = value.getValues();
        if (values.size() != grid.size()) sim::Fail("parameter", full + " has another shape than its grid");
        for (size_t x = 0; x < grid.nx(); ++x)
          for (size_t y = 0; y < grid.ny(); ++y) {
            const Axis& fa = *grid[0];
            const Axis& ta = *grid[1];
            const double ti = (ta.lower(y) - (c.t0 - c.dt / 2)) / (c.dt * c.solint);
            const double fk = (fa.lower(x) - (c.Freq(0) - width / 2)) / (width * c.cell);
            const size_t i = std::llround(ti), k = std::llround(fk);
            if (std::abs(ti - double(i)) > 1e-3 || std::abs(fk - double(k)) > 1e-3 || i >= c.Intervals() || k >= nfreq)
              sim::Fail("grid", full + " has a value at " + h::Str(ta.lower(y) - c.t0) + " s, " + h::Str(fa.lower(x)) + " Hz");
            const double t_end = c.t0 - c.dt / 2 + std::min(c.ntime, (i + 1) * c.solint) * c.dt;
            if (std::abs(ta.upper(y) - t_end) > 1e-3)
              sim::Fail("grid", full + ": interval " + std::to_string(i) + " ends at " + h::Str(ta.upper(y) - c.t0) + " s");
            if (k + 1 < nfreq && std::abs(fa.upper(x) - (c.Freq(0) - width / 2 + (k + 1) * c.cell * width)) > 1)
              sim::Fail("grid", full + ": cell " + std::to_string(k) + " ends at " + h::Str(fa.upper(x)));
            if (seen[i * nfreq + k]++) sim::Fail("twice", full + " has two values for interval " + std::to_string(i));
            const double got = values.data()[x + y * grid.nx()], good = parm.value(i, k, a);
            const bool nan = std::isnan(good);
            // Without solution the real part tells so.
            if (nan && parm.prefix.find("Imag") != std::string::npos) continue;
            const double diff = parm.phase ? Wrap(got - good) : got - good;
            if (nan != std::isnan(got) || (!nan && std::abs(diff) > 2e-6 * (1 + std::abs(good)) * (c.Tec() ? 1e3 : 1)))
              sim::Fail("parameter-value", full + " of interval " + std::to_string(i) + " cell " + std::to_string(k) + " is " + h::Str(got) + " instead of " + h::Str(good));
          }
      }
      for (size_t j = 0; j < seen.size(); ++j)
        if (!seen[j]) sim::Fail("missing", full + " has no value for interval " + std::to_string(j / nfreq));
    }
  if (db.getNames("*").size() != expected)
    sim::Fail("parameter", "the database has " + std::to_string(db.getNames("*").size()) + " parameters instead of " + std::to_string(expected));
  ParmMap defaults;
  auto need = [&](const char* n, double v) {
    defaults.clear();
    db.getDefValues(defaults, n);
    if (defaults.size() != 1) sim::Fail("default", std::string("there is no default value of ") + n);
    if (defaults.begin()->second.getFirstParmValue().getValues().data()[0] != v) sim::Fail("default", std::string("another default of ") + n);
  };
  if (c.type == kScalarPhase || c.type == kDiagonalPhase)
    for (const char* n : {"Gain:0:0:Ampl", "Gain:1:1:Ampl"}) need(n, 1);
  if (c.Amplitude())
    for (const char* n : {"Gain:0:0:Phase", "Gain:1:1:Phase"}) need(n, 0);
  if (c.type == kDiagonal || c.type == kFullJones)
    for (const char* n : {"Gain:0:0:Real", "Gain:1:1:Real"}) need(n, 1);
}

M2 Full(const Case& c, const std::array<D, 4>& g) {
  if (c.NPol() == 4) return {{g[0], g[1], g[2], g[3]}};
  if (c.NPol() == 1) return {{g[0], 0, 0, g[0]}};
  return {{g[0], 0, 0, g[1]}};
}
M2 Inverse(const M2& m) {
  const D det = m.v[0] * m.v[3] - m.v[1] * m.v[2];
  return {{m.v[3] / det, -m.v[1] / det, -m.v[2] / det, m.v[0] / det}};
}
bool Ok(const Case& c, const std::array<D, 4>& g) {
  for (size_t p = 0; p < c.NPol(); ++p)
    if (!std::isfinite(g[p].real()) || !std::isfinite(g[p].imag())) return false;
  return true;
}
M2 At(const Slot& s, const std::vector<C>& v, size_t b, size_t ch) {
  M2 m{{0, 0, 0, 0}};
  for (size_t p = 0; p < s.ncorr; ++p) m.v[s.ncorr == 2 ? 3 * p : p] = v[s.At(b, ch, p)];
  return m;
}

/// One more step from a solution: how far does it move?
double Movement(const Case& c, const Observation& o, const Solutions& s, size_t i, size_t k) {
  double worst = 0;
  const auto& g = s.gain[i][k];
  for (size_t a = 0; a < c.used.size(); ++a) {
    if (!Ok(c, g[a])) continue;
    D num[2] = {0, 0}, zz[4] = {0, 0, 0, 0}, dz[4] = {0, 0, 0, 0};
    double den[2] = {0, 0};
    for (size_t t = i * c.solint; t < std::min(c.ntime, (i + 1) * c.solint); ++t)
      for (size_t b = 0; b < c.a1.size(); ++b) {
        const size_t x = c.UsedIndex(c.a1[b]), y = c.UsedIndex(c.a2[b]);
        if ((x != a && y != a) || !Ok(c, g[x]) || !Ok(c, g[y])) continue;
        for (size_t ch = k * c.cell; ch < std::min(c.nchan, (k + 1) * c.cell); ++ch) {
          if (!o.usable[t][b * c.nchan + ch]) continue;
          const Slot& slot = o.slots[t];
          const double w = slot.weights[slot.At(b, ch, 0)];
          M2 d = At(slot, slot.data, b, ch), m = At(slot, o.model[t], b, ch);
          if (y == a) {
            d = d.Herm();
            m = m.Herm();
          }
          const M2 z = m * Full(c, g[x == a ? y : x]).Herm();
          for (int p = 0; p < 2; ++p)
            for (int q = 0; q < 2; ++q) {
              num[p] += w * d.v[2 * p + q] * std::conj(z.v[2 * p + q]);
              den[p] += w * std::norm(z.v[2 * p + q]);
              for (int e = 0; e < 2; ++e) {
                dz[2 * p + e] += w * d.v[2 * p + q] * std::conj(z.v[2 * e + q]);
                zz[2 * p + e] += w * z.v[2 * p + q] * std::conj(z.v[2 * e + q]);
              }
            }
        }
      }
    std::array<D, 4> next{};
    if (c.type == kFullJones) {
      const M2 n = M2{{dz[0], dz[1], dz[2], dz[3]}} * Inverse({{zz[0], zz[1], zz[2], zz[3]}});
      for (int p = 0; p < 4; ++p) next[p] = n.v[p];
    } else if (c.Scalar()) {
      next[0] = (num[0] + num[1]) / (den[0] + den[1]);
    } else {
      for (int p = 0; p < 2; ++p) next[p] = num[p] / den[p];
    }
    double diff = 0, size = 0;
    for (size_t p = 0; p < c.NPol(); ++p) {
      if (c.Phase()) next[p] /= std::abs(next[p]);
      if (c.Amplitude()) next[p] = std::abs(next[p]);
      diff += std::norm(next[p] - g[a][p]);
      size += std::norm(g[a][p]);
    }
    worst = std::max(worst, std::sqrt(diff / size));
  }
  return worst;
}

}  // namespace

std::string Describe(const sim::Op& o) {
  const char* const modes[] = {"no flags", "some flags", "many flags", "flagged baselines", "all flagged"};
  return std::string("time slot with ") + modes[o.Arg(1)] + (o.Arg(2, -1) >= 0 ? ", antenna " + std::to_string(o.Arg(2, -1)) + " without data" : "");
}

void Generate(sim::Plan& plan, sim::Rng& r) {
  const int type = r.Below(kTypes);
  plan.knobs["type"] = type;
  plan.knobs["source"] = r.Below(3);
  const bool clean = r.Chance(0.4);  // so that the solution can be judged by itself
  const int nant = clean ? 5 : r.In(2, 6);
  plan.knobs["nant"] = nant;
  plan.knobs["nchan"] = type >= kTec ? r.In(3, 7) : r.In(1, clean ? 4 : 6);
  plan.knobs["ncorr"] = 4;
  plan.knobs["solint"] = r.Chance(0.1) ? 0 : r.In(1, 4);
  plan.knobs["cell"] = r.Chance(0.2) ? 0 : r.In(1, 4);
  if (r.Chance(0.15)) plan.knobs["unused"] = r.Below(nant > 3 ? nant : 1) - (nant > 3 ? 0 : 1);
  if (r.Chance(0.25)) plan.knobs["uvmin"] = r.In(100, 700);
  plan.knobs["level"] = clean ? r.Below(2) : r.Below(3);
  plan.knobs["propagate"] = r.Chance(0.5);
  plan.knobs["apply"] = r.Chance(0.5);
  plan.knobs["stalling"] = r.Chance(0.6);
  plan.knobs["maxiter"] = r.Chance(0.3) ? r.In(1, 5) : r.In(20, 60);
  plan.knobs["tolerance"] = r.In(3, 7);
  plan.knobs["chunk"] = r.In(1, 4);
  plan.knobs["autos"] = r.Chance(0.3);
  plan.knobs["h5"] = r.Chance(0.5);
  plan.knobs["before"] = r.Chance(0.3);
  plan.knobs["threads"] = r.In(1, 4);
  plan.knobs["gain_seed"] = r.Below(1000000);
  plan.knobs["select_seed"] = r.Below(1000000);
  if (clean) {
    plan.knobs["clean"] = 1;
    plan.knobs["uvmin"] = 0;
    plan.knobs["maxiter"] = 80;
    plan.knobs["tolerance"] = 7;
    plan.knobs["stalling"] = 0;
    plan.knobs["unused"] = -1;
  } else {
    plan.knobs["select"] = r.Chance(0.25);
    plan.knobs["zero_weights"] = r.Chance(0.25);
    if (type < kTec && r.Chance(0.15)) {
      plan.knobs["pol_weights"] = 1;
    }
    if (r.Chance(0.15) && type != kFullJones) {
      const bool one = plan.Knob("type") != kDiagonal && plan.Knob("type") != kDiagonalPhase && plan.Knob("type") != kDiagonalAmplitude && r.Chance(0.5);
      plan.knobs["ncorr"] = one ? 1 : 2;
      plan.knobs["source"] = kReuse;
      plan.knobs["apply"] = 0;
    }
  }
  const int ntime = r.In(1, clean ? 2 : 7);
  const int mode = clean ? r.Below(2) : r.Below(5);
  const int dead_from = r.Below(ntime), dead = !clean && r.Chance(0.35) ? r.Below(nant) : -1;
  for (int t = 0; t < ntime; ++t) {
    const int m = mode == 0 ? 0 : mode == 4 ? r.Below(5) : r.Chance(0.7) ? mode : 0;
    plan.Add(kSlot, {int64_t(r.Below(1u << 30)), clean ? std::min<int64_t>(m, 1) : m, t >= dead_from && r.Chance(0.8) ? dead : -1});
  }
  if (r.Chance(0.15)) {
    if (r.Chance(0.3))
      plan.knobs["throw_at"] = r.Below(ntime + 1);
    else if (r.Chance(0.5))
      plan.knobs["rate_table_write_error"] = r.In(50, 1500);
    else
      plan.knobs[r.Chance(0.7) ? "rate_alloc_fail" : "rate_thread_create_fail"] = r.In(2, 40);
  }
  if (r.Chance(0.3)) plan.knobs["rate_spurious_wakeup"] = r.In(10, 200);
  plan.knobs["races"] = 1;
  plan.knobs["max_steps"] = 3000000000;
}

void Execute(const sim::Plan& plan) {
  sim::EnableFaults(false);
  Case c;
  Observation o, disturbed, earlier;
  {
    sim::Quiet q;
    hc::ResetSolutionDisk();
    casacore::mini_detail::Disk().clear();
    casacore::mini_detail::table_hook = [](char op, const std::string& table, const std::string& column) {
      sim::Yield();
      sim::Quiet q;
      if (!sim::FaultsEnabled()) return;
      const bool write = op != 'r' && op != 'o';
      if (sim::ShouldFault(write ? sim::kTableWriteError : sim::kTableReadError))
        throw casacore::TableError("injected error on table " + table + " " + column);
    };
    c = MakeCase(plan);
    o = Observe(c, plan, 0);
    disturbed = o;
    Disturb(c, disturbed, plan.Knob("gain_seed", 1) + 5);
    earlier = Observe(c, plan, 1);
  }
  const std::string file = c.h5 ? "out.h5" : "out.pdb";
  const int64_t throw_at = plan.Knob("throw_at", -1);

  // A run over other data may have left its solutions.
  if (plan.Knob("before")) {
    h::Threads pool(1);
    RunStep(c, earlier, 0, c.ntime, file, -1);
    sim::Probe("existing solutions");
  }

  Result got;
  bool faults;
  {
    h::Threads pool(plan.Knob("threads", 1));
    const uint64_t fired = sim::TotalFaultsFired();
    got = RunStep(c, o, 0, c.ntime, file, throw_at, true);
    faults = sim::TotalFaultsFired() - fired > sim::FaultsFired(sim::kSpuriousWakeup);
  }
  h::HashSlots(got.out);
  sim::Event(got.threw);
  const bool next_throws = throw_at >= 0 && throw_at < int64_t(c.ntime);
  if (got.threw && !faults && !next_throws) sim::Fail("spurious-error", "the step failed: " + got.why);
  if (next_throws && !got.threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
  if (got.threw && next_throws && !faults && !got.step_error) sim::Fail("error-changed", "an error of the next step became: " + got.why);
  if (!got.threw && got.finished != 1) sim::Fail("not-finished", "the next step was not finished");
  if (!got.threw && got.out.size() != c.ntime) sim::Fail("slot-count", std::to_string(got.out.size()) + " time slots came out");
  if (got.threw) sim::Probe("reported error");

  // The reference: one thread, other values wherever data may not be used, and
  // if intervals are independent each interval by itself.
  const size_t n = c.Intervals();
  Solutions want;
  {
    h::Threads pool(1);
    Case rc = c;
    rc.apply = false;
    rc.all_times = false;
    for (size_t i = 0; i < (c.propagate ? 1 : n); ++i) {
      const size_t first = c.propagate ? 0 : i * c.solint, slots = c.propagate ? c.ntime : std::min(c.solint, c.ntime - first);
      MiniDisk::Get().files.erase("ref.h5");
      const Result r = RunStep(rc, disturbed, first, slots, "ref.h5", -1);
      if (r.threw) sim::Fail("spurious-error", "the reference failed: " + r.why);
      sim::Quiet q;
      const Solutions s = ReadH5(rc, "ref.h5", c.propagate ? n : 1, c.t0 + first * c.dt, false);
      for (size_t j = 0; j < s.gain.size(); ++j) {
        want.gain.push_back(s.gain[j]);
        want.tec.push_back(s.tec[j]);
        want.phase.push_back(s.phase[j]);
      }
    }
  }
  sim::Quiet q;
  if (!got.threw) {
    if (c.h5) {
      const Solutions s = ReadH5(c, file, n, c.t0, true);
      for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < c.ncell; ++k)
          for (size_t a = 0; a < c.used.size(); ++a)
            for (size_t p = 0; p < c.NPol(); ++p) {
              const D x = s.gain[i][k][a][p], y = want.gain[i][k][a][p];
              const bool nan = std::isnan(y.real());
              if (nan != std::isnan(x.real()) || (!nan && std::abs(x - y) > (c.Tec() ? 1e-4 : 1e-6) * (1 + std::abs(y))))
                sim::Fail("solution", "antenna " + AntName(c.used[a]) + " interval " + std::to_string(i) + " cell " + std::to_string(k) + " pol " +
                                          std::to_string(p) + ": " + h::Str(x.real()) + "," + h::Str(x.imag()) + " instead of " + h::Str(y.real()) + "," + h::Str(y.imag()));
            }
      sim::Probe("compared h5parm");
    } else {
      CheckParmDb(c, file, want);
      sim::Probe("compared parmdb");
    }
  }

  // Which antennas have data?
  std::vector<std::vector<std::vector<char>>> has(n, std::vector<std::vector<char>>(c.ncell, std::vector<char>(c.used.size(), 0)));
  for (size_t t = 0; t < c.ntime; ++t)
    for (size_t b = 0; b < c.a1.size(); ++b)
      for (size_t ch = 0; ch < c.nchan; ++ch)
        if (o.usable[t][b * c.nchan + ch] && o.slots[t].weights[o.slots[t].At(b, ch, 0)] > 0)
          for (int a : {c.a1[b], c.a2[b]}) has[t / c.solint][ch / c.cell][c.UsedIndex(a)] = 1;
  std::vector<size_t> fitted(n, 0);  // TEC: cells that take part, per interval
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < c.ncell; ++k)
      for (size_t a = 0; a < c.used.size(); ++a) {
        if (c.Tec()) {
          if (!std::isfinite(want.tec[i][a])) sim::Fail("finite", "a TEC value is not finite");
          bool any = false;
          for (size_t kk = 0; kk < c.ncell; ++kk) any = any || (has[i][kk][a] && has[i][kk][0]);
          if (!any && (want.tec[i][a] != 0 || want.phase[i][a] != 0)) sim::Fail("no-data", "a TEC value without data is not zero");
        } else if (!c.pol_weights && Ok(c, want.gain[i][k][a]) != bool(has[i][k][a])) {
          sim::Fail(has[i][k][a] ? "missing" : "no-data",
                    "antenna " + AntName(c.used[a]) + " interval " + std::to_string(i) + " cell " + std::to_string(k) +
                        (has[i][k][a] ? " has no valid solution although it has data" : " has a solution without data"));
        }
      }

  // The output.
  if (got.out.size() > c.ntime) sim::Fail("slot-count", "too many time slots came out");
  for (size_t t = 0; t < got.out.size(); ++t) {
    const Slot& g = got.out[t];
    const Slot& in = o.slots[t];
    if (g.time != in.time || g.exposure != in.exposure) sim::Fail("time", "a time slot has another time or exposure");
    if (g.uvw != in.uvw) sim::Fail("uvw", "UVW coordinates changed");
    if (g.weights != in.weights) sim::Fail("weights", "weights changed");
    if (g.data.size() != in.data.size()) sim::Fail("shape", "a time slot has another shape");
    const size_t i = t / c.solint;
    for (size_t b = 0; b < c.a1.size(); ++b)
      for (size_t ch = 0; ch < c.nchan; ++ch) {
        const size_t x = c.UsedIndex(c.a1[b]), y = c.UsedIndex(c.a2[b]), k = ch / c.cell;
        const std::string where = h::Where(t, b, ch, 0);
        if (!c.apply) {
          for (size_t p = 0; p < c.ncorr; ++p)
            if (!h::SameC(g.data[in.At(b, ch, p)], in.data[in.At(b, ch, p)]) || g.flags[in.At(b, ch, p)] != in.flags[in.At(b, ch, p)])
              sim::Fail("changed", where + ": data or flags changed although solutions are not applied");
          continue;
        }
        std::array<D, 4> g1 = want.gain[i][k][x], g2 = want.gain[i][k][y];
        bool ok = Ok(c, g1) && Ok(c, g2);
        if (c.Tec()) {
          // The cell has a valid phase only if antenna 0 has data there as well.
          size_t n1 = 0, n2 = 0;
          for (size_t kk = 0; kk < c.ncell; ++kk) {
            n1 += has[i][kk][x] && has[i][kk][0];
            n2 += has[i][kk][y] && has[i][kk][0];
          }
          ok = has[i][k][x] && has[i][k][y] && has[i][k][0];
          if (ok && (n1 < 2 || n2 < 2)) continue;  // not fitted
        }
        if (ok) {
          // A gain of zero has no inverse.
          for (const auto& gg : {g1, g2}) {
            const M2 m = Full(c, gg);
            if (std::abs(m.v[0] * m.v[3] - m.v[1] * m.v[2]) < 1e-6) ok = false;
          }
          if (!ok) continue;
        }
        const M2 expect = Inverse(Full(c, g1)) * At(in, in.data, b, ch) * Inverse(Full(c, g2)).Herm();
        double scale = 0;
        for (int p = 0; p < 4; ++p) scale += std::abs(expect.v[p]);
        for (size_t p = 0; p < 4; ++p) {
          const size_t at = in.At(b, ch, p);
          if (bool(g.flags[at]) != (in.flags[at] || !ok))
            sim::Fail("flag", where + (ok ? " must keep its flag" : " must be flagged: it has no valid solution"));
          // Averaging two iterations leaves phases with another length than one.
          const double longer = c.Phase() && std::abs(D(g.data[at])) > 0.01 * std::abs(expect.v[p]) && std::abs(D(g.data[at])) < 100 * std::abs(expect.v[p])
                                    ? std::abs(D(g.data[at])) / std::abs(expect.v[p])
                                    : 1.0;
          if (ok && std::isfinite(scale) && !(std::abs(D(g.data[at]) / longer - expect.v[p]) <= (c.Tec() ? 3e-3 : 2e-4) * (1 + scale)))
            sim::Fail("value", h::Where(t, b, ch, p) + ": " + h::Str(g.data[at].real()) + "," + h::Str(g.data[at].imag()) + " instead of " +
                                   h::Str(expect.v[p].real()) + "," + h::Str(expect.v[p].imag()));
        }
      }
  }
  if (c.apply && !got.out.empty()) sim::Probe("applied");

  // The solution solves the equations.
  if (plan.Knob("clean")) {
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < c.ncell; ++k) {
        if (!c.Tec()) {
          const double m = Movement(c, o, want, i, k);
          if (m > 1e-3) sim::Fail("not-a-solution", "interval " + std::to_string(i) + " cell " + std::to_string(k) + ": another iteration moves the solution by " + h::Str(m));
          sim::Probe("fixed point");
        }
        if (c.level == 0 && (!c.Tec() || c.ncell > 2))
          for (size_t t = i * c.solint; t < std::min(c.ntime, (i + 1) * c.solint); ++t)
            for (size_t b = 0; b < c.a1.size(); ++b)
              for (size_t ch = k * c.cell; ch < std::min(c.nchan, (k + 1) * c.cell); ++ch) {
                if (!o.usable[t][b * c.nchan + ch]) continue;
                const M2 g1 = Full(c, want.gain[i][k][c.UsedIndex(c.a1[b])]), g2 = Full(c, want.gain[i][k][c.UsedIndex(c.a2[b])]);
                const M2 d = At(o.slots[t], o.slots[t].data, b, ch), m = g1 * At(o.slots[t], o.model[t], b, ch) * g2.Herm();
                double diff = 0, size = 0;
                for (int p = 0; p < 4; ++p) {
                  diff += std::norm(d.v[p] - m.v[p]);
                  size += std::norm(d.v[p]);
                }
                if (!(std::sqrt(diff / size) < 0.05)) sim::Fail("not-recovered", h::Where(t, b, ch, 0) + ": the solutions of noise-free data leave " + h::Str(std::sqrt(diff / size)) + " of the signal");
                sim::Probe("recovered");
              }
      }
  }
  if (plan.Knob("threads", 1) > 1) sim::Probe("parallel loop");
  casacore::mini_detail::Disk().clear();
  MiniDisk::Get().files.clear();
}
