// P20: the direction dependent calibration step (steps/DDECal).
#include "calib.h"

#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "steps/DDECal.h"

#include <numeric>

const char* const kProperty = "P20";

std::string Describe(const sim::Op& op) {
  return "time slot with flag pattern " + std::to_string(op.Arg(0)) + (op.Arg(1) ? ", a non-finite value" : "");
}

namespace {

using h::C;

namespace dd = dp3::ddecal;
using hs::D;
using hs::Observation;
using hs::Solutions;
using schaapcommon::h5parm::MiniDisk;
using schaapcommon::h5parm::MiniTab;

enum Mode {
  kmScalar,
  kmScalarPhase,
  kmScalarAmplitude,
  kmDiagonal,
  kmDiagonalPhase,
  kmDiagonalAmplitude,
  kmJones,
  kmLeakage,
  kmLeakageAmplitude,
  kmTec,
  kmTecPhase,
  kmTecDelay,
  kmRotation,
  kmRotationDiagonal,
  kmFaraday,
  kModes
};
const char* const kModeNames[] = {"scalar",   "scalarphase",      "scalaramplitude", "diagonal",  "diagonalphase",
                                  "diagonalamplitude", "fulljones", "leakage",       "leakageamplitude", "tec",
                                  "tecandphase", "tec+delay",      "rotation",        "rotation+diagonal", "faradayrotation"};
bool Tec(int m) { return m == kmTec || m == kmTecPhase || m == kmTecDelay || m == kmFaraday; }
size_t ModePol(int m) {
  if (m <= kmScalarAmplitude || m == kmTec || m == kmTecPhase || m == kmTecDelay) return 1;
  if (m <= kmDiagonalAmplitude) return 2;
  return 4;
}
bool PhaseOnly(int m) {
  return m == kmScalarPhase || m == kmDiagonalPhase || m == kmTec || m == kmTecPhase || m == kmTecDelay;
}
enum Source { kReuse, kPredict, kIdg, kColumn };

struct Case {
  size_t nant, nchan, ntime, solint, blocks, ndir;
  int mode, algorithm, datause;  // algorithm 0 solve, 1 iterative, 2 hybrid; datause 0 full, 1 dual, 2 single
  bool autos, subtract, keep, only_predict, propagate, converged_only, store;
  size_t maxiter;
  bool converges;
  double t0, dt;
  std::vector<size_t> used, n_sub;
  std::vector<int> a1, a2;  // numbers of all antennas
  std::vector<std::string> names, bare, table_names;
  std::vector<int> source;
  std::vector<bool> doubled;
  std::vector<double> freqs, block_freqs;
  double minvis, uvmin, core, smooth;
  bool weighted_constraints, flag_unconverged, flag_diverged;
  bool initial, averaging;
  size_t idg_buffers;
  std::vector<Observation> intervals;  // solint slots each
  std::vector<std::vector<double>> uvw;
  size_t NInt() const { return (ntime + solint - 1) / solint; }
  size_t NPol() const { return ModePol(mode); }
  size_t Sub() const { return std::accumulate(n_sub.begin(), n_sub.end(), size_t(0)); }
  double Time(size_t t) const { return t0 + t * dt; }
  size_t Slots(size_t i) const { return std::min(solint, ntime - i * solint); }
};

Case Make(const sim::Plan& plan) {
  Case c;
  sim::Rng r(plan.Knob("seed"));
  c.ntime = plan.ops.size();
  c.nant = plan.Knob("nant", 3);
  c.nchan = plan.Knob("nchan", 1);
  c.solint = plan.Knob("solint", 1);
  if (c.solint == 0) c.solint = std::max<size_t>(c.ntime, 1);
  const size_t n_channels = plan.Knob("solchan", 0);
  c.blocks = n_channels == 0 || n_channels > c.nchan ? 1 : c.nchan / n_channels;
  c.mode = plan.Knob("mode");
  c.algorithm = plan.Knob("algorithm");
  c.datause = plan.Knob("datause");
  c.autos = plan.Knob("autos");
  c.subtract = plan.Knob("subtract");
  c.keep = plan.Knob("keep");
  c.only_predict = plan.Knob("only_predict");
  c.propagate = plan.Knob("propagate");
  c.converged_only = plan.Knob("converged_only");
  c.store = plan.Knob("store");
  c.maxiter = plan.Knob("maxiter", 2);
  c.converges = plan.Knob("converges");
  c.minvis = plan.Knob("minvis") * 0.1 + (plan.Knob("minvis") ? 0.003 : 0);
  c.uvmin = plan.Knob("uvmin") ? plan.Knob("uvmin") + 0.5 : 0;
  c.core = plan.Knob("core") * 100.0 + (plan.Knob("core") ? 50 : 0);
  c.smooth = plan.Knob("smooth") * 1e6;
  c.weighted_constraints = plan.Knob("weighted");
  c.flag_unconverged = plan.Knob("flag_unconverged");
  c.flag_diverged = plan.Knob("flag_diverged");
  c.initial = plan.Knob("initial");
  c.averaging = plan.Knob("averaging");
  c.idg_buffers = plan.Knob("idg_buffers", 1);
  const double t0s[] = {0.5, 100, 4.9e9, 5.01234567e9};
  const double dts[] = {1, 10, 8.01112064, 1.00139, 0.1};
  c.t0 = t0s[plan.Knob("t0") % 4];
  c.dt = dts[plan.Knob("dt") % 5];
  for (size_t i = 0; i < c.nant; ++i)
    if (!(plan.Knob("unused") >> i & 1)) c.used.push_back(i);
  for (size_t i = 0; i < c.used.size(); ++i)
    for (size_t j = c.autos ? i : i + 1; j < c.used.size(); ++j) {
      c.a1.push_back(c.used[i]);
      c.a2.push_back(c.used[j]);
    }
  for (size_t i = 0; i < c.nchan; ++i) c.freqs.push_back(120e6 + i * 1e6);
  for (size_t b = 0; b < c.blocks; ++b) {
    double sum = 0;
    const size_t first = b * c.nchan / c.blocks, end = (b + 1) * c.nchan / c.blocks;
    for (size_t i = first; i < end; ++i) sum += c.freqs[i];
    c.block_freqs.push_back(sum / (end - first));
  }
  // Directions: columns, then images, then predicted, then reused ones.
  const char* const base[] = {"COL", "fac", "src", "re"};
  const size_t counts[] = {size_t(plan.Knob("columns")), size_t(plan.Knob("facets")), size_t(plan.Knob("predicts")),
                           size_t(plan.Knob("reuse"))};
  const int kinds[] = {kColumn, kIdg, kPredict, kReuse};
  for (size_t k = 0; k < 4; ++k)
    for (size_t i = 0; i < counts[k]; ++i) {
      const std::string bare = base[k] + std::to_string(i);
      c.source.push_back(kinds[k]);
      c.bare.push_back(bare);
      c.names.push_back((kinds[k] == kReuse ? "earlier." : "cal.") + bare);
      c.table_names.push_back("[" + bare + "]");
      c.doubled.push_back(kinds[k] != kReuse && plan.Knob("double") >> (c.names.size() - 1) & 1);
    }
  c.ndir = c.names.size();
  for (size_t d = 0; d < c.ndir; ++d) {
    size_t n = plan.Knob("sub" + std::to_string(d), 1);
    if (c.solint % n) n = 1;
    c.n_sub.push_back(n);
  }
  for (size_t i = 0; i < c.NInt(); ++i) {
    Observation o;
    o.nant = c.used.size();
    o.nchan = c.nchan;
    o.ndir = c.ndir;
    o.nblocks = c.blocks;
    o.n_sol = c.n_sub;
    o.names = c.names;
    hs::Fill(o, r.Next(), c.solint, c.autos, c.NPol(), plan.Knob("noise") * 0.05, PhaseOnly(c.mode), false);
    c.intervals.push_back(std::move(o));
  }
  for (size_t t = 0; t < c.ntime; ++t) {
    auto& x = c.intervals[t / c.solint].times[t % c.solint];
    const int pattern = plan.ops[t].Arg(0);
    const size_t nbl = c.a1.size();
    for (size_t b = 0; b < nbl; ++b)
      for (size_t ch = 0; ch < c.nchan; ++ch)
        for (size_t p = 0; p < 4; ++p) {
          const size_t i = (b * c.nchan + ch) * 4 + p;
          if (pattern == 1) x.flags[i] = r.Chance(0.1);
          if (pattern == 2) x.flags[i] = r.Chance(0.6);
          if (pattern == 3) x.flags[i] = 1;
          if (pattern == 4) x.flags[i] = ch % 2;
          if (pattern == 5) x.flags[i] = c.a1[b] == static_cast<int>(c.used[0]) || c.a2[b] == static_cast<int>(c.used[0]);
        }
    if (plan.ops[t].Arg(1)) x.data[r.Below(x.data.size())] = C(NAN, 1);
    std::vector<double> uvw;
    for (size_t b = 0; b < nbl * 3; ++b) uvw.push_back(r.In(-60, 60));
    c.uvw.push_back(uvw);
  }
  return c;
}

std::vector<std::array<double, 3>> Positions(const Case& c, bool only_used) {
  std::vector<std::array<double, 3>> p;
  for (size_t i = 0; i < c.nant; ++i)
    if (!only_used || std::find(c.used.begin(), c.used.end(), i) != c.used.end())
      p.push_back({100.0 * i * i, 10.0 * i, 0});
  return p;
}
std::string AntName(size_t i) { return "ant" + std::to_string(i); }

dp3::base::DPInfo Info(const Case& c) {
  dp3::base::DPInfo info(4, c.nchan);
  info.setTimes(c.t0, c.Time(c.ntime - 1), c.dt);
  info.setChannels(std::vector<double>(c.freqs), std::vector<double>(c.nchan, 1e6));
  std::vector<std::string> names;
  std::vector<casacore::MPosition> pos;
  for (size_t i = 0; i < c.nant; ++i) {
    names.push_back(AntName(i));
    pos.emplace_back(casacore::MVPosition(100.0 * i * i, 10.0 * i, 0), casacore::MPosition::ITRF);
  }
  info.setAntennas(names, std::vector<double>(c.nant, 70), pos, c.a1, c.a2);
  for (size_t d = 0; d < c.ndir; ++d)
    if (c.source[d] == kReuse) info.GetDirections()[c.names[d]] = hc::DirectionOf(c.bare[d]);
  return info;
}

dp3::common::ParameterSet Parset(const Case& c, const sim::Plan& plan) {
  dp3::common::ParameterSet p;
  const auto add = [&](const std::string& k, const std::string& v) { p.add("cal." + k, v); };
  const auto flag = [&](const std::string& k, bool v) { add(k, v ? "true" : "false"); };
  if (!c.only_predict) add("h5parm", plan.Knob("no_file") ? "" : "out.h5");
  add("mode", kModeNames[c.mode]);
  const char* const algorithms[] = {"directionsolve", "directioniterative", "hybrid"};
  add("solveralgorithm", algorithms[c.algorithm]);
  const char* const uses[] = {"full", "dual", "single"};
  add("datause", uses[c.datause]);
  add("solint", std::to_string(plan.Knob("solint", 1)));
  add("nchan", std::to_string(plan.Knob("solchan", 0)));
  add("maxiter", std::to_string(c.maxiter));
  add("tolerance", c.converges ? "1e9" : "1e-200");
  add("detectstalling", "false");
  flag("subtract", c.subtract);
  flag("keepmodel", c.keep);
  flag("onlypredict", c.only_predict);
  flag("propagatesolutions", c.propagate);
  flag("propagateconvergedonly", c.converged_only);
  flag("storebuffer", c.store);
  flag("flagunconverged", c.flag_unconverged);
  flag("flagdivergedonly", c.flag_diverged);
  flag("model_weighted_constraints", c.weighted_constraints);
  if (c.minvis) add("minvisratio", h::Str(c.minvis));
  if (c.uvmin) add("uvmmin", h::Str(c.uvmin));
  if (c.core) add("coreconstraint", h::Str(c.core));
  if (c.smooth) add("smoothnessconstraint", h::Str(c.smooth));
  if (c.averaging) add("antenna_averaging_factors", "[ant*:1," + AntName(c.used[0]) + ":2]");
  if (c.mode == kmRotationDiagonal && plan.Knob("rotation_reference")) add("rotationreference", "true");
  std::string columns, predicts, reuse, subs;
  for (size_t d = 0; d < c.ndir; ++d) {
    std::string* list = c.source[d] == kColumn ? &columns : c.source[d] == kPredict ? &predicts : nullptr;
    if (list) *list += (list->empty() ? "" : ",") + (c.source[d] == kPredict ? "[" + c.bare[d] + "]" : c.bare[d]);
    if (c.source[d] == kReuse) reuse = "earlier.*";
    subs += (subs.empty() ? "" : ",") + std::to_string(c.n_sub[d]);
    if (c.doubled[d]) add("modelnextsteps." + c.bare[d], "[double]");
  }
  if (!columns.empty()) add("modeldatacolumns", "[" + columns + "]");
  add("directions", predicts.empty() ? "[]" : "[" + predicts + "]");
  if (!reuse.empty()) add("reusemodel", "[" + reuse + "]");
  if (plan.Knob("facets")) add("idg.images", "[image.fits]");
  if (c.Sub() != c.ndir) add("solutions_per_direction", "[" + subs + "]");
  if (c.initial) add("initialsolutions.h5parm", "start.h5");
  return p;
}

/// A solution file to start from.
void MakeInitial(const Case& c, uint64_t seed) {
  sim::Rng r(seed);
  auto file = std::make_shared<schaapcommon::h5parm::MiniFile>();
  for (size_t d = 0; d < c.ndir; ++d) {
    const auto dir = hc::DirectionOf(c.bare[d]);
    file->source_names.push_back(c.table_names[d]);
    file->source_directions.emplace_back(dir.ra, dir.dec);
  }
  const size_t npol = c.NPol() == 4 ? 4 : 2;
  const size_t nt = 3 + c.ntime;
  for (const char* name : {"amplitude000", "phase000"}) {
    auto tab = std::make_shared<MiniTab>();
    tab->name = name;
    tab->type = name[0] == 'a' ? "amplitude" : "phase";
    tab->axes = {{"time", unsigned(nt)}, {"freq", unsigned(c.blocks)}, {"ant", unsigned(c.nant)},
                 {"dir", unsigned(c.ndir)}, {"pol", unsigned(npol)}};
    size_t n = nt * c.blocks * c.nant * c.ndir * npol;
    for (size_t i = 0; i < n; ++i) {
      const bool off = npol == 4 && (i % 4 == 1 || i % 4 == 2);
      tab->values.push_back(tab->type == "phase" ? r.Unit() - 0.5 : off ? 0.1 * r.Unit() : 0.7 + 0.6 * r.Unit());
    }
    tab->weights.assign(n, 1);
    for (size_t i = 0; i < nt; ++i) tab->times.push_back(c.t0 + (double(i) * 0.83 - 0.631) * c.dt);
    tab->freqs = c.block_freqs;
    for (size_t i = 0; i < c.nant; ++i) tab->antennas.push_back(AntName(i));
    tab->sources = c.table_names;
    file->tabs[name] = tab;
  }
  MiniDisk::Get().files["start.h5"] = file;
}

/// Start values at a time, from that file.
void ReadInitial(const Case& c, double time, Solutions& s) {
  auto& tabs = MiniDisk::Get().files["start.h5"]->tabs;
  const MiniTab &amp = *tabs["amplitude000"], &phase = *tabs["phase000"];
  size_t best = 0;
  for (size_t i = 1; i < amp.times.size(); ++i)
    if (std::abs(amp.times[i] - time) < std::abs(amp.times[best] - time)) best = i;
  const size_t filepol = c.NPol() == 4 ? 4 : 2, npol = c.NPol();
  for (size_t b = 0; b < c.blocks; ++b) {
    s[b].clear();
    for (size_t a = 0; a < c.used.size(); ++a)
      for (size_t d = 0; d < c.ndir; ++d)
        for (size_t k = 0; k < c.n_sub[d]; ++k)
          for (size_t p = 0; p < npol; ++p) {
            const size_t i = (((best * c.blocks + b) * c.nant + c.used[a]) * c.ndir + d) * filepol + p;
            s[b].push_back(npol == 4 ? D(C(std::polar(amp.values[i], phase.values[i])))
                                     : D(C(amp.values[i]) * C(std::polar(1.0, phase.values[i]))));
          }
  }
}

int SolverType(const Case& c, int algorithm) {
  const size_t npol = c.NPol();
  if (algorithm == 0) return npol == 1 ? hs::kScalar : npol == 2 ? hs::kDiagonal : hs::kJones;
  if (npol == 4) return hs::kIterJones;
  if (npol == 2) return c.datause == 0 ? hs::kIterDiagonal : hs::kIterDiagonalDuo;
  return c.datause == 0 ? hs::kIterScalar : c.datause == 1 ? hs::kIterScalarDuo : hs::kIterScalarUni;
}

std::unique_ptr<dd::SolverBase> Single(const Case& c, const sim::Plan& plan, int algorithm) {
  using dp3::base::CalType;
  auto solver = hs::MakeSolver(SolverType(c, algorithm));
  solver->SetPhaseOnly(PhaseOnly(c.mode));
  std::vector<std::unique_ptr<dd::Constraint>> list;
  if (c.core) list.push_back(std::make_unique<dd::AntennaConstraint>());
  if (c.averaging) {
    std::vector<size_t> f(c.used.size(), 1);
    f[0] = 2;
    list.push_back(std::make_unique<dd::AntennaIntervalConstraint>(f));
  }
  if (c.smooth) list.push_back(std::make_unique<dd::SmoothnessConstraint>(c.smooth, 0.0, -1.0, true));
  switch (c.mode) {
    case kmScalarAmplitude:
    case kmDiagonalAmplitude:
      list.push_back(std::make_unique<dd::AmplitudeOnlyConstraint>());
      break;
    case kmLeakageAmplitude:
      list.push_back(std::make_unique<dd::AmplitudeOnlyConstraint>());
      [[fallthrough]];
    case kmLeakage:
      list.push_back(std::make_unique<dd::PolarizationLeakageConstraint>());
      break;
    case kmTec:
    case kmTecPhase: {
      auto t = std::make_unique<dd::TecConstraint>(c.mode == kmTec ? dd::TecConstraint::Mode::kTecOnly
                                                                   : dd::TecConstraint::Mode::kTecAndCommonScalar);
      t->setDoPhaseReference(true);
      list.push_back(std::move(t));
      break;
    }
    case kmTecDelay:
      list.push_back(std::make_unique<dd::TecOffsetDelayConstraint>(false, 5, true));
      break;
    case kmRotation:
      list.push_back(std::make_unique<dd::RotationConstraint>());
      break;
    case kmRotationDiagonal: {
      auto t = std::make_unique<dd::RotationAndDiagonalConstraint>(CalType::kDiagonal);
      t->SetDoRotationReference(plan.Knob("rotation_reference"));
      list.push_back(std::move(t));
      break;
    }
    case kmFaraday:
      list.push_back(std::make_unique<dd::FaradayConstraint>(CalType::kRotation, std::nullopt));
      break;
    default:
      break;
  }
  const auto positions = Positions(c, true);
  for (auto& x : list) {
    x->Initialize(c.used.size(), std::vector<uint32_t>(c.n_sub.begin(), c.n_sub.end()), c.block_freqs);
    if (auto* s = dynamic_cast<dd::SmoothnessConstraint*>(x.get())) {
      s->SetAntennaFactors(std::vector<double>(c.used.size(), 1.0));
      s->SetDdSmoothingFactors(std::vector<double>(c.Sub(), 1.0));
    }
    if (auto* s = dynamic_cast<dd::AntennaConstraint*>(x.get())) {
      std::set<size_t> core;
      for (size_t i = 0; i < positions.size(); ++i) {
        double sum = 0;
        for (int k = 0; k < 3; ++k) sum += (positions[i][k] - positions[0][k]) * (positions[i][k] - positions[0][k]);
        if (sum <= c.core * c.core) core.insert(i);
      }
      s->SetAntennaSets({core});
    }
    solver->AddConstraint(std::move(x));
  }
  return solver;
}

void Tune(const Case& c, dd::SolverBase& s, size_t maxiter) {
  s.SetMaxIterations(maxiter);
  s.SetAccuracy(c.converges ? 1e9 : 1e-200);
  s.SetConstraintAccuracy(0.0);
  s.SetStepSize(0.2);
  s.SetDetectStalling(false, 0.1);
}

struct Expected {
  std::vector<Solutions> solutions;
  std::vector<std::vector<std::vector<dd::ConstraintResult>>> results;
  std::vector<double> noise;
  bool Vague(size_t interval) const { return noise[interval] > 1e-4; }
  double Tol(size_t interval, double base) const { return base + 20 * noise[interval]; }
};

/// Solves every interval by itself, one after the other.
Expected Reference(const Case& c, const sim::Plan& plan, bool perturb) {
  Expected e;
  sim::Rng rng(12345);
  std::vector<size_t> iterations;
  for (size_t i = 0; i < c.NInt(); ++i) {
    Observation o = c.intervals[i];
    if (perturb)
      for (auto& x : o.times)
        for (auto& v : x.data) v *= 1.0f + static_cast<float>(4e-6 * (rng.Unit() - 0.5));
    // The weights of the antennas and the number of visibilities.
    std::vector<double> weights(c.used.size() * c.blocks, 0.0);
    std::vector<size_t> good(c.blocks, 0), all(c.blocks, 0);
    for (size_t t = 0; t < o.times.size(); ++t) {
      auto& x = o.times[t];
      if (t >= c.Slots(i)) {
        std::fill(x.flags.begin(), x.flags.end(), 1);
        continue;
      }
      const auto& uvw = c.uvw[i * c.solint + t];
      for (size_t b = 0; b < o.a1.size(); ++b) {
        const double u = uvw[3 * b], v = uvw[3 * b + 1];
        if (c.uvmin && std::sqrt(u * u + v * v) < c.uvmin)
          for (size_t k = 0; k < c.nchan * 4; ++k) x.flags[b * c.nchan * 4 + k] = 1;
        for (size_t block = 0; block < c.blocks; ++block)
          for (size_t k = o.First(block) * 4; k < o.First(block + 1) * 4; ++k) {
            const size_t at = b * c.nchan * 4 + k;
            const double w = x.flags[at] ? 0.0 : x.weights[at];
            weights[o.a1[b] * c.blocks + block] += w;
            weights[o.a2[b] * c.blocks + block] += w;
            good[block] += w > 0;
            ++all[block];
          }
      }
    }
    for (double& w : weights) w *= 1.0 / (c.nchan * (c.used.size() - 1) * 4.0 * c.solint);
    for (size_t block = 0; block < c.blocks; ++block)
      if (c.minvis && double(good[block]) / all[block] < c.minvis) {
        for (size_t a = 0; a < c.used.size(); ++a) weights[a * c.blocks + block] = 0;
        for (auto& x : o.times)
          for (size_t b = 0; b < o.a1.size(); ++b)
            for (size_t k = o.First(block) * 4; k < o.First(block + 1) * 4; ++k) x.flags[b * c.nchan * 4 + k] = 1;
      }
    // A new solver every time: nothing can be left of earlier intervals.
    std::unique_ptr<dd::SolverBase> solver;
    if (c.algorithm == 2) {
      auto hybrid = std::make_unique<dd::HybridSolver>();
      auto a = Single(c, plan, 0), b = Single(c, plan, 1);
      Tune(c, *a, std::max<size_t>(1, c.maxiter / 6));
      Tune(c, *b, c.maxiter);
      hybrid->AddSolver(std::move(a));
      hybrid->AddSolver(std::move(b));
      solver = std::move(hybrid);
    } else {
      solver = Single(c, plan, c.algorithm);
    }
    Tune(c, *solver, c.maxiter);
    solver->Initialize(c.used.size(), c.n_sub, c.blocks);
    for (dd::SolverBase* s : solver->ConstraintSolvers())
      for (const auto& x : s->GetConstraints()) x->SetWeights(weights);
    Solutions s(c.blocks);
    if (c.propagate && i > 0 && !(c.converged_only && iterations.back() > c.maxiter)) {
      s = e.solutions.back();
    } else if (c.initial) {
      double mean = 0;
      for (size_t t = 0; t < c.Slots(i); ++t) mean += c.Time(i * c.solint + t);
      ReadInitial(c, mean / c.Slots(i), s);
    } else {
      for (auto& block : s)
        for (size_t k = 0; k < c.used.size() * c.Sub() * c.NPol(); ++k)
          block.push_back(c.NPol() == 4 && (k % 4 == 1 || k % 4 == 2) ? 0.0 : 1.0);
    }
    auto buffers = hs::Weighted(o, true);
    dd::SolverBase::SolveResult result;
    const auto run = [&](const auto& data) {
      if (c.weighted_constraints) solver->SetDdConstraintWeights(data.GetSolutionWeights());
      result = solver->Solve(data, s, 0.0);
    };
    if (c.datause == 2)
      run(dd::UniSolveData(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2));
    else if (c.datause == 1)
      run(dd::DuoSolveData(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2));
    else
      run(dd::FullSolveData(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2));
    iterations.push_back(result.iterations);
    const bool unconverged = result.iterations > c.maxiter && c.flag_unconverged;
    for (auto& list : result.results)
      for (auto& x : list)
        for (double& w : x.weights) {
          if (unconverged && !c.flag_diverged)
            w = 0;
          else if (w < 0)
            w = unconverged ? 0 : 1;
        }
    e.solutions.push_back(s);
    e.results.push_back(result.results);
  }
  return e;
}

bool Same(D a, D b, double tol = 1e-6) {
  if (!hs::Finite(a) || !hs::Finite(b)) return hs::Finite(a) == hs::Finite(b);
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}

/// How much the solutions of each interval change when the data hardly do.
std::vector<double> Sensitivity(const Expected& a, const Expected& b) {
  std::vector<double> n;
  const auto difference = [](D x, D y) {
    if (hs::Finite(x) && hs::Finite(y)) return std::abs(x - y) / (1 + std::abs(x));
    return hs::Finite(x) == hs::Finite(y) ? 0.0 : 1e9;
  };
  for (size_t i = 0; i < a.solutions.size(); ++i) {
    double m = 0;
    for (size_t block = 0; block < a.solutions[i].size(); ++block)
      for (size_t k = 0; k < a.solutions[i][block].size(); ++k)
        m = std::max(m, difference(a.solutions[i][block][k], b.solutions[i][block][k]));
    for (size_t k = 0; k < a.results[i].size(); ++k)
      for (size_t j = 0; j < a.results[i][k].size(); ++j)
        for (size_t l = 0; l < a.results[i][k][j].vals.size(); ++l)
          m = std::max(m, difference(a.results[i][k][j].vals[l], b.results[i][k][j].vals[l]));
    n.push_back(m);
  }
  return n;
}

/// What the step passed on.
class Catcher : public dp3::steps::Step {
 public:
  Catcher(const Case& c, int64_t throw_at) : c_(c), throw_at_(throw_at) {}
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    sim::Quiet q;
    if (finished) sim::Fail("after-finish", "a time slot was passed on after the end");
    if (!buffer) sim::Fail("no-buffer", "no buffer was passed on");
    if (static_cast<int64_t>(got.size()) == throw_at_) throw h::StepError("injected failure of the next step");
    if (got.size() >= c_.ntime) sim::Fail("extra-slot", "more time slots left the step than entered it");
    got.push_back(std::move(buffer));
    return true;
  }
  void finish() override {
    if (finished++) sim::Fail("finish-twice", "the next step was finished twice");
  }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  std::vector<std::unique_ptr<dp3::base::DPBuffer>> got;
  int finished = 0;

 private:
  const Case& c_;
  int64_t throw_at_;
};

void CheckSlot(const Case& c, const Expected& e, size_t t, const dp3::base::DPBuffer& b) {
  const Observation& o = c.intervals[t / c.solint];
  const auto& x = o.times[t % c.solint];
  const size_t interval = t / c.solint;
  const std::string slot = "time slot " + std::to_string(t);
  if (b.GetTime() != c.Time(t)) sim::Fail("order", slot + " left the step with another time");
  if (b.GetData().size() != x.data.size() || b.GetFlags().size() != x.flags.size() ||
      b.GetWeights().size() != x.weights.size() || b.GetUvw().size() != c.uvw[t].size())
    sim::Fail("shape", slot + " left the step with another shape");
  for (size_t i = 0; i < x.flags.size(); ++i) {
    char f;
    std::memcpy(&f, b.GetFlags().data() + i, 1);
    if (f != x.flags[i]) sim::Fail("flags", slot + ": the flags changed");
    if (b.GetWeights().data()[i] != x.weights[i]) sim::Fail("weights", slot + ": the weights changed");
  }
  for (size_t i = 0; i < c.uvw[t].size(); ++i)
    if (b.GetUvw().data()[i] != c.uvw[t][i]) sim::Fail("uvw", slot + ": the coordinates changed");
  const size_t npol = c.NPol(), nsub = c.Sub();
  for (size_t d = 0; d < c.ndir; ++d)
    if (b.HasData(c.names[d]) != c.keep)
      sim::Fail("model-data", slot + ": model data of " + c.names[d] + (c.keep ? " are missing" : " were left behind"));
  for (size_t bl = 0; bl < o.a1.size(); ++bl)
    for (size_t block = 0; block < c.blocks; ++block)
      for (size_t ch = o.First(block); ch < o.First(block + 1); ++ch) {
        D want[4];
        double scale = 1;
        for (size_t p = 0; p < 4; ++p) {
          want[p] = c.only_predict && !c.keep ? D(0) : D(x.data[o.At(bl, ch, p)]);
          scale += std::isfinite(std::abs(want[p])) ? std::abs(want[p]) : 0;
        }
        for (size_t d = 0; d < c.ndir; ++d) {
          hs::M2 m;
          for (size_t p = 0; p < 4; ++p)
            m.v[p] = D(x.model[d][o.At(bl, ch, p)]);
          hs::M2 v = m;
          if (!c.only_predict) {
            const auto& s = e.solutions[interval][block];
            v = hs::ToMatrix(&s[(o.a1[bl] * nsub + d) * npol], npol) * m *
                hs::ToMatrix(&s[(o.a2[bl] * nsub + d) * npol], npol).Herm();
          }
          for (size_t p = 0; p < 4; ++p) {
            if (std::isfinite(std::abs(v.v[p]))) scale += std::abs(v.v[p]);
            if (c.only_predict && !c.keep) want[p] += m.v[p];
            if (!c.only_predict && c.subtract) want[p] -= v.v[p];
          }
          if (c.keep)
            for (size_t p = 0; p < 4; ++p) {
              const D got = D(b.GetData(c.names[d]).data()[o.At(bl, ch, p)]);
              if ((c.only_predict || !e.Vague(interval)) &&
                  (hs::Finite(got) != hs::Finite(v.v[p]) ||
                   std::abs(got - v.v[p]) > e.Tol(interval, 1e-4) * (scale + std::abs(v.v[p]))))
                sim::Fail("kept-model", h::Where(t, bl, ch, p) + ": the kept model data of " + c.names[d] +
                                            (c.only_predict ? " are not the model" : " are not the model with the solutions applied") +
                                            ": " + h::Str(got.real()) + " instead of " + h::Str(v.v[p].real()));
            }
        }
        for (size_t p = 0; p < 4; ++p) {
          const C got = b.GetData().data()[o.At(bl, ch, p)];
          const bool changed = c.only_predict ? !c.keep : c.subtract;
          if (!changed) {
            if (!h::SameC(got, x.data[o.At(bl, ch, p)])) sim::Fail("data", h::Where(t, bl, ch, p) + ": the data changed");
          } else if (!c.only_predict && e.Vague(interval)) {
            continue;
          } else if (hs::Finite(D(got)) != hs::Finite(want[p]) || std::abs(D(got) - want[p]) > e.Tol(interval, 1e-4) * scale) {
            sim::Fail(c.only_predict ? "predicted" : "residual",
                      h::Where(t, bl, ch, p) + (c.only_predict ? " is not the sum of the models"
                                                               : " is not the data minus the model with the solutions of its interval applied") +
                          ": " + h::Str(got.real()) + " instead of " + h::Str(want[p].real()));
          }
        }
      }
  if (c.store && !c.only_predict) {
    const auto& stored = b.GetSolution();
    if (t % c.solint) {
      if (!stored.empty()) sim::Fail("stored-solution", slot + " has solutions but is not the first of its interval");
    } else {
      for (size_t d = 0; d < c.ndir; ++d) {
        if (!stored.count(c.names[d])) sim::Fail("stored-solution", slot + ": no solutions for " + c.names[d]);
        const auto& s = stored.at(c.names[d]);
        if (s.size() != c.blocks * c.used.size() * npol) sim::Fail("stored-solution", slot + ": wrong number of solutions");
        for (size_t block = 0; block < c.blocks; ++block)
          for (size_t a = 0; a < c.used.size(); ++a)
            for (size_t p = 0; p < npol; ++p)
              if (!e.Vague(interval) &&
                  !Same(s(block, a, p), e.solutions[interval][block][(a * nsub + d) * npol + p], e.Tol(interval, 1e-6)))
                sim::Fail("stored-solution", slot + ": the stored solutions are not those of the interval");
      }
    }
  }
}

size_t Lcm(const std::vector<size_t>& v) {
  size_t l = 1;
  for (size_t x : v) l = std::lcm(l, x);
  return l;
}

void CheckFile(const Case& c, const Expected& e) {
  const auto& files = MiniDisk::Get().files;
  if (!files.count("out.h5")) sim::Fail("no-solutions", "there is no solution file");
  const auto& file = *files.at("out.h5");
  if (file.antenna_names.size() != c.nant) sim::Fail("file-antennas", "the solution file has not all antennas");
  const auto positions = Positions(c, false);
  for (size_t i = 0; i < c.nant; ++i)
    if (file.antenna_names[i] != AntName(i) || file.antenna_positions[i] != positions[i])
      sim::Fail("file-antennas", "the antennas of the solution file are wrong");
  if (file.source_names != c.table_names) sim::Fail("file-directions", "the directions of the solution file are wrong");
  for (size_t d = 0; d < c.ndir; ++d) {
    const auto dir = hc::DirectionOf(c.bare[d]);
    if (file.source_directions[d] != std::make_pair(dir.ra, dir.dec))
      sim::Fail("file-directions", "the position of a direction in the solution file is wrong");
  }
  // The time steps of the file and how many of them start within the data.
  // With several solutions per direction, a file may have more times than needed.
  size_t sub = 1;
  if (c.Sub() != c.ndir) {
    sub = Lcm(c.n_sub);
    for (const auto& [name, tab] : file.tabs)
      if (!tab->times.empty()) {
        const double n = c.solint / (2 * (tab->times[0] - c.t0) / c.dt + 1);
        for (size_t k = sub; k <= c.solint; k += sub)
          if (c.solint % k == 0 && std::abs(n - k) < 1e-3) {
            sub = k;
            break;
          }
      }
  }
  const size_t slots = c.solint / sub;  // data slots per time of the file
  const size_t ntimes = (c.ntime + slots - 1) / slots;
  std::vector<std::string> ants;
  for (size_t a : c.used) ants.push_back(AntName(a));
  const auto check_axes = [&](const MiniTab& tab) {
    if (!tab.filled) sim::Fail("file-values", "the table " + tab.name + " has no values");
    if (tab.times.size() != ntimes || tab.axes.at(0).name != "time" || tab.axes.at(0).size != ntimes)
      sim::Fail("file-times", "the table " + tab.name + " has " + std::to_string(tab.times.size()) + " times for " +
                                  std::to_string(ntimes) + " solution intervals");
    for (size_t t = 0; t < ntimes; ++t)
      if (std::abs(tab.times[t] - (c.t0 + ((t + 0.5) * slots - 0.5) * c.dt)) > 1e-4)
        sim::Fail("file-times", "the time of interval " + std::to_string(t) + " of " + tab.name + " is not its centre");
    if (tab.antennas != ants) sim::Fail("file-antennas", "the antennas of the table " + tab.name + " are wrong");
    if (tab.sources != c.table_names) sim::Fail("file-directions", "the directions of the table " + tab.name + " are wrong");
  };
  const auto sub_index = [&](size_t d, size_t s) {
    size_t n = 0;
    for (size_t i = 0; i < d; ++i) n += c.n_sub[i];
    return n + s * c.n_sub[d] / sub;
  };
  bool constrained = false;
  for (const auto& list : e.results.at(0)) constrained |= !list.empty();
  size_t tables = 0;
  if (!constrained) {
    const size_t npol = c.NPol();
    const bool phase = c.mode != kmScalarAmplitude && c.mode != kmDiagonalAmplitude && c.mode != kmLeakageAmplitude;
    const bool amplitude = !PhaseOnly(c.mode);
    for (int k = 0; k < 2; ++k) {
      const std::string name = k ? "amplitude000" : "phase000";
      if (!(k ? amplitude : phase)) continue;
      ++tables;
      if (!file.tabs.count(name)) sim::Fail("file-tables", "the table " + name + " is missing");
      const MiniTab& tab = *file.tabs.at(name);
      check_axes(tab);
      if (tab.freqs.size() != c.blocks) sim::Fail("file-frequencies", "wrong number of frequencies");
      for (size_t b = 0; b < c.blocks; ++b)
        if (std::abs(tab.freqs[b] - c.block_freqs[b]) > 1) sim::Fail("file-frequencies", "wrong frequency");
      if (tab.values.size() != ntimes * c.blocks * ants.size() * c.ndir * npol)
        sim::Fail("file-values", "wrong number of values");
      size_t at = 0;
      for (size_t t = 0; t < ntimes; ++t)
        for (size_t b = 0; b < c.blocks; ++b)
          for (size_t a = 0; a < ants.size(); ++a)
            for (size_t d = 0; d < c.ndir; ++d)
              for (size_t p = 0; p < npol; ++p, ++at) {
                const D s = e.solutions[t / sub][b][(a * c.Sub() + sub_index(d, t % sub)) * npol + p];
                const double got = tab.values[at];
                const double tol = e.Tol(t / sub, 1e-6);
                bool ok;
                if (!hs::Finite(s))
                  ok = !std::isfinite(got);
                else if (k)
                  ok = std::isfinite(got) && std::abs(got - std::abs(s)) <= tol * (1 + std::abs(s));
                else
                  ok = std::isfinite(got) && (std::abs(s) < tol || std::abs(std::polar(1.0, got) - s / std::abs(s)) < 10 * tol * (1 + 1 / std::abs(s)));
                if (!ok && !e.Vague(t / sub))
                  sim::Fail("file-values", name + " has " + h::Str(got) + " instead of " + h::Str(k ? std::abs(s) : std::arg(s)) +
                                               " for time " + std::to_string(t) + ", block " + std::to_string(b) + ", antenna " +
                                               std::to_string(a) + ", direction " + std::to_string(d) + ", polarization " + std::to_string(p));
              }
    }
  } else {
    for (size_t k = 0; k < e.results[0].size(); ++k)
      for (size_t n = 0; n < e.results[0][k].size(); ++n) {
        const auto& first = e.results[0][k][n];
        ++tables;
        const std::string name = first.name + "000";
        if (!file.tabs.count(name)) sim::Fail("file-tables", "the table " + name + " is missing");
        const MiniTab& tab = *file.tabs.at(name);
        check_axes(tab);
        // Axes are ant, dir and the rest.
        const size_t nsub = first.dims.at(1);
        size_t rest = 1;
        for (size_t i = 2; i < first.dims.size(); ++i) rest *= first.dims[i];
        if (nsub != c.Sub()) sim::HarnessError("result without a direction axis");
        size_t at = 0;
        if (tab.values.size() != ntimes * ants.size() * c.ndir * rest) sim::Fail("file-values", "wrong number of values in " + name);
        for (size_t t = 0; t < ntimes; ++t)
          for (size_t a = 0; a < ants.size(); ++a)
            for (size_t d = 0; d < c.ndir; ++d)
              for (size_t i = 0; i < rest; ++i, ++at) {
                const auto& r = e.results[t / sub][k][n];
                const size_t from = (a * nsub + sub_index(d, t % sub)) * rest + i;
                if (e.Vague(t / sub)) continue;
                if (!Same(tab.values[at], r.vals[from], e.Tol(t / sub, 1e-5)))
                  sim::Fail("file-values", name + " has " + h::Str(tab.values[at]) + " instead of " + h::Str(r.vals[from]));
                if (!r.weights.empty() && std::isfinite(r.vals[from]) && !Same(tab.weights[at], r.weights[from], 1e-5))
                  sim::Fail("file-weights", name + " has weight " + h::Str(tab.weights[at]) + " instead of " + h::Str(r.weights[from]));
              }
      }
  }
  if (file.tabs.size() != tables) sim::Fail("file-tables", "the solution file has tables that were not solved for");
}

}  // namespace

void Generate(sim::Plan& plan, sim::Rng& r) {
  auto& k = plan.knobs;
  k["max_steps"] = 200000000;
  k["seed"] = r.Below(1u << 30);
  k["nant"] = r.In(3, 5);
  if (r.Chance(0.3)) k["unused"] = 1 << r.Below(k["nant"]);
  k["nchan"] = r.In(1, 5);
  k["solchan"] = r.In(0, 3);
  k["solint"] = r.Chance(0.1) ? 0 : r.In(1, 4);
  k["mode"] = r.Chance(0.7) ? r.Below(kmTec) : r.Below(kModes);
  if (Tec(k["mode"])) {
    k["nchan"] = r.In(3, 5);
    k["solchan"] = 1;
  }
  k["algorithm"] = r.Below(3);
  const size_t npol = ModePol(k["mode"]);
  if (k["algorithm"] == 1 && npol < 4) k["datause"] = r.Below(npol == 1 ? 3 : 2);
  k["autos"] = r.Chance(0.2);
  int directions = r.In(1, 3);
  while (directions-- > 0) {
    const char* const kinds[] = {"columns", "facets", "predicts", "reuse"};
    ++k[kinds[r.Chance(0.4) ? 3 : r.Below(4)]];
  }
  if (r.Chance(0.2)) k["double"] = r.Below(8);
  const bool single = k["algorithm"] != 1 || r.Chance(0.5);
  if (!single)
    for (int d = 0; d < 3; ++d) k["sub" + std::to_string(d)] = r.In(1, 4);
  if (single) {
    k["subtract"] = r.Chance(0.4);
    k["keep"] = r.Chance(0.25);
    k["store"] = r.Chance(0.15);
  } else if (r.Chance(0.3) && k["solint"] > 1) {
    k["averaging"] = 1;
    k["sub0"] = k["solint"];
  }
  k["only_predict"] = r.Chance(0.1);
  if (k["only_predict"]) k["subtract"] = 0;
  k["propagate"] = r.Chance(0.3);
  k["converged_only"] = r.Chance(0.4);
  k["maxiter"] = r.Chance(0.1) && !Tec(k["mode"]) ? 7 : r.In(1, 3);
  k["converges"] = r.Chance(0.3);
  k["noise"] = r.Below(3);
  if (r.Chance(0.25)) k["minvis"] = r.In(1, 9);
  if (r.Chance(0.25)) k["uvmin"] = r.In(5, 60);
  if (r.Chance(0.15)) k["core"] = r.In(0, 16);
  if (r.Chance(0.2)) k["smooth"] = r.In(1, 4);
  k["weighted"] = r.Chance(0.15);
  k["flag_unconverged"] = r.Chance(0.3);
  k["flag_diverged"] = r.Chance(0.3);
  k["rotation_reference"] = r.Chance(0.5);
  k["initial"] = !Tec(k["mode"]) && r.Chance(0.15);
  k["idg_buffers"] = r.In(1, 16);
  k["t0"] = r.Below(4);
  k["dt"] = r.Below(5);
  k["no_file"] = r.Chance(0.03);
  k["threads"] = r.In(1, 4);
  if (r.Chance(0.1)) k["throw_at"] = r.In(1, 6);
  if (r.Chance(0.1)) k["rate_spurious_wakeup"] = r.In(10, 300);
  if (r.Chance(0.1)) k["rate_stall_thread"] = r.In(10, 300);
  if (r.Chance(0.15)) {
    k["rate_table_write_error"] = r.In(50, 2000);
    k["rate_table_read_error"] = r.In(0, 300);
  }
  const int n = r.In(1, 8);
  for (int i = 0; i < n; ++i) plan.Add(0, {r.Chance(0.5) ? 0 : r.In(1, 5), r.Chance(0.05)});
}

void Execute(const sim::Plan& plan) {
  if (plan.ops.empty()) return;
  std::unique_ptr<Case> owner;
  Expected expected;
  {
    sim::Quiet q;
    owner = std::make_unique<Case>(Make(plan));
    hc::ResetSolutionDisk();
  }
  Case& c = *owner;
  if (c.used.size() < 2 || c.ndir == 0 || c.NPol() == 4 && c.datause) return;
  // A fit with up to three parameters; rounding may decide between equally good ones.
  if (Tec(c.mode) && c.blocks < 3) return;
  if (c.averaging && *std::max_element(c.n_sub.begin(), c.n_sub.end()) < 2) c.averaging = false;
  if (c.Sub() != c.ndir && (c.subtract || c.keep || c.store || plan.Knob("solint", 1) == 0)) return;
  if (c.Sub() != c.ndir && plan.Knob("algorithm") != 1) return;
  for (size_t d = 0; d < c.ndir; ++d)
    if (c.doubled[d]) {
      // The step after the model doubles it: the effective model.
      for (auto& o : c.intervals)
        for (auto& x : o.times)
          for (auto& v : x.model[d]) v *= 2.0f;
    }
  if (c.initial) MakeInitial(c, plan.Knob("seed") + 99);
  std::vector<std::vector<std::vector<C>>> raw(c.ndir, std::vector<std::vector<C>>(c.ntime));
  for (size_t d = 0; d < c.ndir; ++d)
    for (size_t t = 0; t < c.ntime; ++t) {
      raw[d][t] = c.intervals[t / c.solint].times[t % c.solint].model[d];
      if (c.doubled[d])
        for (auto& v : raw[d][t]) v *= 0.5f;
    }
  auto& models = hc::Models::Get();
  models.facets.clear();
  models.readers_inside = 0;
  models.idg_buffers = c.idg_buffers;
  for (size_t d = 0; d < c.ndir; ++d)
    if (c.source[d] == kIdg) models.facets.push_back(c.bare[d]);
  models.get = [&](const std::string& name, double time) -> const std::vector<C>& {
    for (size_t d = 0; d < c.ndir; ++d)
      if (c.bare[d] == name)
        for (size_t t = 0; t < c.ntime; ++t)
          if (c.Time(t) == time) return raw[d][t];
    sim::HarnessError("model of an unknown direction or time");
  };

  {
    // The same number of threads, because it decides about the rounding of the sums.
    h::Threads pool(plan.Knob("threads", 1));
    expected = Reference(c, plan, false);
    expected.noise = Sensitivity(expected, Reference(c, plan, true));
    for (size_t i = 0; i < expected.noise.size(); ++i) sim::Probe(expected.Vague(i) ? "vague" : "sharp");
  }
  auto catcher = std::make_shared<Catcher>(c, plan.Knob("throw_at", 0) ? plan.Knob("throw_at") - 1 : -1);
  bool failed = false;
  {
    h::Threads pool(plan.Knob("threads", 1));
    sim::FaultScope faults;
    try {
      const dp3::common::ParameterSet parset = Parset(c, plan);
      dp3::steps::DDECal step(parset, "cal.");
      step.setNextStep(catcher);
      step.setInfo(Info(c));
      const auto& out = step.getInfoOut();
      for (size_t d = 0; d < c.ndir; ++d)
        if (out.GetDirections().count(c.names[d]) != (c.keep ? 1 : 0))
          sim::Fail("directions", "the list of directions for later steps is wrong");
      for (size_t t = 0; t < c.ntime; ++t) {
        std::unique_ptr<dp3::base::DPBuffer> b;
        {
          sim::Quiet q;
          h::Slot s;
          const auto& x = c.intervals[t / c.solint].times[t % c.solint];
          s.time = c.Time(t);
          s.exposure = c.dt;
          s.nbl = c.a1.size();
          s.nchan = c.nchan;
          s.ncorr = 4;
          s.data = x.data;
          s.weights = x.weights;
          s.flags = x.flags;
          s.uvw = c.uvw[t];
          b = h::ToBuffer(s);
          for (size_t d = 0; d < c.ndir; ++d)
            if (c.source[d] == kReuse) {
              b->AddData(c.names[d]);
              std::copy(raw[d][t].begin(), raw[d][t].end(), b->GetData(c.names[d]).data());
            }
        }
        step.process(std::move(b));
        if (catcher->got.size() > t + 1) sim::Fail("too-early", "time slots left the step before they entered it");
      }
      step.finish();
      sim::Probe("finished");
    } catch (const h::StepError&) {
      failed = true;
      if (!plan.Knob("throw_at")) throw;
    } catch (const std::exception& e) {
      failed = true;
      if (!sim::TotalFaultsFired())
        sim::Fail("error", std::string("the step failed without a reason: ") + e.what());
    }
  }
  sim::Quiet q;
  for (size_t t = 0; t < catcher->got.size(); ++t) CheckSlot(c, expected, t, *catcher->got[t]);
  sim::Event(catcher->got.size());
  if (failed) {
    sim::Probe("failed");
    return;
  }
  if (sim::FaultsFired(sim::kTableWriteError)) sim::Fail("hidden-error", "a failed write of the solutions was not reported");
  if (plan.Knob("throw_at") && plan.Knob("throw_at") <= static_cast<int64_t>(c.ntime))
    sim::Fail("hidden-error", "a failure of the next step was not reported");
  if (catcher->got.size() != c.ntime)
    sim::Fail("lost-slot", std::to_string(catcher->got.size()) + " of " + std::to_string(c.ntime) + " time slots left the step");
  if (!catcher->finished) sim::Fail("no-finish", "the next step was not finished");
  if (!c.only_predict && !plan.Knob("no_file")) {
    CheckFile(c, expected);
    for (const auto& [name, tab] : MiniDisk::Get().files["out.h5"]->tabs)
      for (double v : tab->values) sim::EventDouble(v);
  } else if (MiniDisk::Get().files.count("out.h5")) {
    sim::Fail("unwanted-file", "a solution file was written that was not asked for");
  }
}
