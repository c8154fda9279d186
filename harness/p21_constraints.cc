// P21: what the calibration constraints do to the solutions, whatever the
// history of the constraint object, the number of threads and the schedule.
#include "steps.h"

#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"

#include <aocommon/xt/span.h>

#include <new>

const char* const kProperty = "P21";
namespace dd = dp3::ddecal;
using dp3::base::CalType;
using D = std::complex<double>;

namespace {
enum { kApply = 1 };
// args: seed, mode, weights seed, prepare, set weights
enum Kind {
  kAmplitude, kLeakage, kAntenna, kInterval, kSmooth, kRotation, kRotDiag, kFaraday,
  kTec, kTecPhase, kApprox, kTecDelay, kTecOffsetDelay, kKinds
};
enum Mode { kNoiseless, kNoisy, kRandom, kConstant };
const char* const kNames[] = {"amplitude-only", "leakage", "antenna", "antenna-interval", "smoothness", "rotation",
                              "rotation+diagonal", "faraday", "tec", "tec+phase", "approximate tec", "tec+delay",
                              "tec+phase+delay"};
const char* const kModes[] = {"noiseless", "noisy", "random", "constant"};
const CalType kDiagonals[] = {CalType::kDiagonal, CalType::kDiagonalAmplitude, CalType::kDiagonalPhase,
                              CalType::kScalar,   CalType::kScalarAmplitude,   CalType::kScalarPhase,
                              CalType::kRotation};
constexpr double kTecFactor = -8.44797245e9;
constexpr double kLight = 299792458.0;

bool Phases(int kind) { return kind >= kTec; }
bool Fits(int kind) { return kind == kSmooth || kind >= kFaraday; }
bool Finite(const D& v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }
double Turn(double v) { return std::remainder(v, 2 * M_PI); }

struct Setup {
  int kind = 0;
  size_t nant = 1, nch = 1, npol = 1, nsub = 1;
  std::vector<uint32_t> per_dir;
  std::vector<double> freq;
  CalType diag = CalType::kDiagonal;
  bool rotation_reference = false, phase_reference = false, truncate = false;
  double limit = 0;  // of the rotation measure, 0: none
  double bandwidth = 1e6, ref_freq = 0, exponent = -1;
  std::vector<double> antenna_factor, dd_factor;
  std::vector<std::set<size_t>> sets;
  std::vector<size_t> averaging;
  size_t chunk = 0, wraps = 1, approx_iterations = 50;
  bool tec_common = false, sub_weights = false;
  size_t At(size_t ch, size_t a, size_t s, size_t p) const { return ((ch * nant + a) * nsub + s) * npol + p; }
};

struct Input {
  std::vector<D> solutions;
  std::vector<double> weights;                   // [ant][ch]
  std::vector<std::vector<double>> sub_weights;  // [sub][ant][ch], empty: not used
  std::vector<double> rm;                        // [ant][sub], of a noiseless faraday input
  bool flagged = false;                          // some values are not finite or have no weight
  int mode = 0, prepare = 0;
  double Weight(const Setup& s, size_t a, size_t sub, size_t ch) const {
    return (sub_weights.empty() ? weights : sub_weights[sub])[a * s.nch + ch];
  }
};

struct Output {
  std::vector<D> solutions;
  std::vector<dd::ConstraintResult> results;
  bool satisfied = true;
};

bool Vary(const Setup& s, double share, sim::Rng& r) { return share > 0 && r.Chance(share); }

Input Make(const Setup& s, const sim::Op& op) {
  sim::Rng r(op.Arg(0) + 1);
  Input in;
  in.mode = op.Arg(1);
  in.prepare = op.Arg(3);
  in.solutions.resize(s.nch * s.nant * s.nsub * s.npol);
  in.rm.assign(s.nant * s.nsub, 0);
  const double noise = in.mode == kNoisy ? 0.05 : 0;
  // A third of the inputs has flags: these are drawn first, such that the
  // values do not depend on them.
  const bool flags = r.Chance(0.5);
  const double bad = flags ? r.Unit() * 0.4 : 0;
  const int dead = flags && r.Chance(0.4) ? static_cast<int>(r.Below(s.nant)) : -1;
  const double outlier = s.kind == kRotDiag && in.mode == kRandom && r.Chance(0.5) ? 0.1 : 0;
  for (size_t a = 0; a < s.nant; ++a)
    for (size_t u = 0; u < s.nsub; ++u) {
      const double x0 = r.Unit() * 2 - 1, x1 = r.Unit() * 2 - 1, x2 = r.Unit() * 2 - 1, x3 = r.Unit() * 2 - 1;
      const double g0 = 0.6 + r.Unit(), g1 = 0.6 + r.Unit();
      double max_slope = 0.4 * M_PI;
      if (s.kind == kFaraday) {
        double step = 1e9;
        for (size_t c = 1; c < s.nch; ++c)
          step = std::min(step, std::pow(kLight / s.freq[c - 1], 2) - std::pow(kLight / s.freq[c], 2));
        max_slope = std::min(8.0, 0.35 * M_PI / step);
        if (s.limit > 0) max_slope = s.limit;
        in.rm[a * s.nsub + u] = 0.95 * max_slope * x0;
      }
      for (size_t c = 0; c < s.nch; ++c) {
        D* v = &in.solutions[s.At(c, a, u, 0)];
        const double f = s.freq[c], fr = f / s.freq[0];
        const double lambda2 = std::pow(kLight / f, 2);
        if (s.npol == 4) {
          double angle = s.kind == kFaraday ? in.rm[a * s.nsub + u] * lambda2 : 1.5 * x0 + 0.2 * x1 * c;
          D d[2] = {std::polar(g0 * (1 + 0.1 * c), 2 * x2 + 0.1 * c), std::polar(g1, 2 * x3 - 0.2 * c)};
          if (s.kind == kRotation || s.diag == CalType::kRotation) d[0] = d[1] = s.kind == kRotation ? g0 : 1.0;
          switch (s.kind == kRotation ? CalType::kDiagonal : s.diag) {
            case CalType::kDiagonalAmplitude: d[0] = std::abs(d[0]); d[1] = std::abs(d[1]); break;
            case CalType::kDiagonalPhase: d[0] /= std::abs(d[0]); d[1] /= std::abs(d[1]); break;
            case CalType::kScalar: d[1] = d[0]; break;
            case CalType::kScalarAmplitude: d[1] = d[0] = std::abs(d[0]); break;
            case CalType::kScalarPhase: d[1] = d[0] = d[0] / std::abs(d[0]); break;
            default: break;
          }
          // A phase difference beyond a quarter turn moves the best rotation.
          if (s.kind != kRotation && (s.diag == CalType::kDiagonal || s.diag == CalType::kDiagonalPhase)) {
            d[1] = std::polar(std::abs(d[1]), std::arg(d[0]) + 1.2 * x3);
          }
          if (outlier > 0 && r.Chance(outlier)) d[r.Below(2)] *= r.Chance(0.5) ? 40.0 : 0.02;
          v[0] = d[0] * std::cos(angle);
          v[1] = -d[0] * std::sin(angle);
          v[2] = d[1] * std::sin(angle);
          v[3] = d[1] * std::cos(angle);
        } else if (Phases(s.kind)) {
          double phase;
          if (s.kind == kApprox)
            phase = 0.5 * x0 + 0.5 * x1 * (f - s.freq[0]) / (s.freq.back() - s.freq[0] + 1);
          else if (s.kind == kTecDelay || s.kind == kTecOffsetDelay) {
            // No wrapping: the fit starting from zero is exact.
            const double b = s.kind == kTecOffsetDelay ? x1 : 0;
            phase = 0.5 * (x0 / fr + b + x2 * fr / (s.freq.back() / s.freq[0]));
          } else
            phase = 0.5 * x0 * kTecFactor / f + (s.tec_common ? 3 * x1 : 0);
          v[0] = std::polar(g0, phase);
        } else
          for (size_t p = 0; p < s.npol; ++p) v[p] = std::polar(g0 + 0.1 * p, x0 + x1 * p + 0.3 * x2 * c);
        for (size_t p = 0; p < s.npol; ++p) {
          if (in.mode == kRandom && outlier == 0) v[p] = D(r.Unit() * 4 - 2, r.Unit() * 4 - 2);
          if (in.mode == kConstant) v[p] = D(g0, x0 + 0.1 * p);
          if (noise > 0) v[p] += noise * D(r.Unit() - 0.5, r.Unit() - 0.5);
        }
      }
    }
  for (size_t c = 0; c < s.nch; ++c)
    for (size_t a = 0; a < s.nant; ++a)
      for (size_t u = 0; u < s.nsub; ++u) {
        const bool all = static_cast<int>(a) == dead || (r.Chance(bad) && r.Chance(0.7));
        for (size_t p = 0; p < s.npol; ++p)
          if (all || r.Chance(bad * 0.1)) {
            in.solutions[s.At(c, a, u, p)] =
                s.kind <= kSmooth && r.Chance(0.2) ? D(1, INFINITY) : D(NAN, r.Chance(0.5) ? NAN : 1.0);
            in.flagged = true;
          }
      }
  sim::Rng w(op.Arg(2) + 7);
  const int style = w.Below(3);
  auto fill = [&](std::vector<double>& v) {
    v.resize(s.nant * s.nch);
    for (size_t i = 0; i < v.size(); ++i) {
      v[i] = style == 0 ? 1.0 : style == 1 ? 0.5 + w.Unit() : w.Chance(0.2) ? 0.0 : std::pow(2.0, w.In(-3, 8)) * (1 + w.Unit());
      if (v[i] == 0) in.flagged = true;
    }
    if (style == 2 && w.Chance(0.2)) {
      const size_t a = w.Below(s.nant);
      for (size_t c = 0; c < s.nch; ++c) v[a * s.nch + c] = 0;
      in.flagged = true;
    }
  };
  fill(in.weights);
  if (s.sub_weights) {
    in.sub_weights.resize(s.nsub);
    for (auto& v : in.sub_weights) fill(v);
  }
  return in;
}

std::unique_ptr<dd::Constraint> Build(const Setup& s) {
  std::unique_ptr<dd::Constraint> c;
  switch (s.kind) {
    case kAmplitude: c = std::make_unique<dd::AmplitudeOnlyConstraint>(); break;
    case kLeakage: c = std::make_unique<dd::PolarizationLeakageConstraint>(); break;
    case kAntenna: {
      auto x = std::make_unique<dd::AntennaConstraint>();
      auto sets = s.sets;
      x->SetAntennaSets(std::move(sets));
      c = std::move(x);
      break;
    }
    case kInterval: c = std::make_unique<dd::AntennaIntervalConstraint>(s.averaging); break;
    case kSmooth:
      c = std::make_unique<dd::SmoothnessConstraint>(s.bandwidth, s.ref_freq, s.exponent, s.truncate);
      break;
    case kRotation: c = std::make_unique<dd::RotationConstraint>(); break;
    case kRotDiag: {
      auto x = std::make_unique<dd::RotationAndDiagonalConstraint>(s.diag);
      x->SetDoRotationReference(s.rotation_reference);
      c = std::move(x);
      break;
    }
    case kFaraday:
      c = std::make_unique<dd::FaradayConstraint>(s.diag, s.limit > 0 ? std::optional<double>(s.limit) : std::nullopt);
      break;
    case kTec:
    case kTecPhase: {
      auto x = std::make_unique<dd::TecConstraint>(s.kind == kTec ? dd::TecConstraint::Mode::kTecOnly
                                                                  : dd::TecConstraint::Mode::kTecAndCommonScalar);
      x->setDoPhaseReference(s.phase_reference);
      c = std::move(x);
      break;
    }
    case kApprox: {
      auto x = std::make_unique<dd::ApproximateTECConstraint>(
          s.tec_common ? dd::TecConstraint::Mode::kTecAndCommonScalar : dd::TecConstraint::Mode::kTecOnly);
      x->setDoPhaseReference(s.phase_reference);
      x->SetFittingChunkSize(s.chunk);
      x->SetMaxApproximatingIterations(s.approx_iterations);
      c = std::move(x);
      break;
    }
    default:
      c = std::make_unique<dd::TecOffsetDelayConstraint>(s.kind == kTecOffsetDelay, s.wraps, s.phase_reference);
  }
  c->Initialize(s.nant, s.per_dir, s.freq);
  if (s.kind == kSmooth) {
    auto* x = static_cast<dd::SmoothnessConstraint*>(c.get());
    x->SetAntennaFactors(std::vector<double>(s.antenna_factor));
    x->SetDdSmoothingFactors(s.dd_factor);
  }
  return c;
}

void Weigh(const Input& in, dd::Constraint& c) {
  c.SetWeights(in.weights);
  if (!in.sub_weights.empty()) c.SetSubSolutionWeights(in.sub_weights);
}

Output Apply(const Setup& s, const Input& in, dd::Constraint& c) {
  Output out;
  out.solutions = in.solutions;
  const std::array<size_t, 4> shape{s.nch, s.nant, s.nsub, s.npol};
  dd::SolutionSpan span = aocommon::xt::CreateSpan<D, 4>(out.solutions.data(), shape);
  c.PrepareIteration(in.prepare & 1, (in.prepare >> 1) & 7, (in.prepare >> 4) & 1);
  c.Apply(span, 0.0);
  out.results = c.GetResult();
  out.satisfied = c.Satisfied();
  return out;
}

Output Fresh(const Setup& s, const Input& in) {
  h::Threads pool(1);
  auto c = Build(s);
  Weigh(in, *c);
  return Apply(s, in, *c);
}

bool SameValue(double a, double b, double tol = 0) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b || std::abs(a - b) <= tol * (1 + std::abs(b));
}
bool SameValue(const D& a, const D& b, double tol = 0) {
  if (!Finite(a) || !Finite(b)) return !Finite(a) && !Finite(b);
  return std::abs(a - b) <= tol * (1 + std::abs(b));
}

std::string At(const Setup& s, size_t i) {
  return std::string(kNames[s.kind]) + ": channel block " + std::to_string(i / (s.npol * s.nsub * s.nant)) + " antenna " +
         std::to_string(i / (s.npol * s.nsub) % s.nant) + " solution " + std::to_string(i / s.npol % s.nsub) +
         " polarization " + std::to_string(i % s.npol);
}
std::string Text(const D& v) { return "(" + h::Str(v.real()) + "," + h::Str(v.imag()) + ")"; }

void Expect(const Setup& s, const char* cls, const Output& got, size_t i, const D& want, double tol = 1e-9) {
  if (!SameValue(got.solutions[i], want, tol))
    sim::Fail(cls, At(s, i) + ": " + Text(got.solutions[i]) + " instead of " + Text(want));
}

const dd::ConstraintResult* Find(const Output& o, const std::string& name) {
  for (const dd::ConstraintResult& r : o.results)
    if (r.name == name) return &r;
  return nullptr;
}
const dd::ConstraintResult& Get(const Setup& s, const Output& o, const std::string& name) {
  const dd::ConstraintResult* r = Find(o, name);
  if (!r) sim::Fail("result-missing", std::string(kNames[s.kind]) + " gives no result named " + name);
  return *r;
}

void Compare(const Setup& s, const char* cls, const Output& a, const Output& b, double tol, bool weights,
             const std::vector<char>* skip = nullptr) {
  for (size_t i = 0; i < a.solutions.size(); ++i)
    if (!(skip && (*skip)[i]) && !SameValue(a.solutions[i], b.solutions[i], tol))
      sim::Fail(cls, At(s, i) + ": " + Text(a.solutions[i]) + " instead of " + Text(b.solutions[i]));
  if (a.results.size() != b.results.size() || a.satisfied != b.satisfied)
    sim::Fail(cls, std::string(kNames[s.kind]) + ": not the same results");
  for (size_t k = 0; k < a.results.size(); ++k) {
    const dd::ConstraintResult &x = a.results[k], &y = b.results[k];
    if (x.name != y.name || x.dims != y.dims || x.axes != y.axes || x.vals.size() != y.vals.size() ||
        (weights && x.weights.size() != y.weights.size()))
      sim::Fail(cls, std::string(kNames[s.kind]) + ": results of another shape");
    const bool per_channel = x.dims.size() > 2 && x.dims[2] == s.nch && s.nch > 1;
    for (size_t i = 0; i < x.vals.size(); ++i) {
      if (skip && per_channel) continue;
      if (!SameValue(x.vals[i], y.vals[i], tol))
        sim::Fail(cls, std::string(kNames[s.kind]) + ": value " + std::to_string(i) + " of " + x.name + " is " +
                           h::Str(x.vals[i]) + " instead of " + h::Str(y.vals[i]));
    }
    for (size_t i = 0; weights && i < x.weights.size(); ++i)
      if (!SameValue(x.weights[i], y.weights[i], 1e-12))
        sim::Fail(cls, std::string(kNames[s.kind]) + ": weight " + std::to_string(i) + " of " + x.name + " is " +
                           h::Str(x.weights[i]) + " instead of " + h::Str(y.weights[i]));
  }
}

void CheckShapes(const Setup& s, const Output& o) {
  for (const dd::ConstraintResult& r : o.results) {
    size_t n = 1;
    for (size_t d : r.dims) n *= d;
    const size_t axes = 1 + std::count(r.axes.begin(), r.axes.end(), ',');
    if (r.vals.size() != n || axes != r.dims.size())
      sim::Fail("result-shape", std::string(kNames[s.kind]) + ": " + r.name + " has " + std::to_string(r.vals.size()) +
                                    " values for axes " + r.axes);
    if (r.weights.size() != n)
      sim::Fail("result-weights-shape", std::string(kNames[s.kind]) + ": " + r.name + " has " +
                                            std::to_string(r.weights.size()) + " weights for " + std::to_string(n) +
                                            " values");
    if (r.dims.size() < 2 || r.dims[0] != s.nant || r.dims[1] != s.nsub)
      sim::Fail("result-shape", std::string(kNames[s.kind]) + ": dimensions of " + r.name);
  }
}

void Weight(const Setup& s, const dd::ConstraintResult& r, size_t i, double want) {
  if (!SameValue(r.weights[i], want, 1e-9))
    sim::Fail("result-weight", std::string(kNames[s.kind]) + ": weight " + std::to_string(i) + " of " + r.name + " (" +
                                   r.axes + ") is " + h::Str(r.weights[i]) + " instead of " + h::Str(want));
}
void Value(const Setup& s, const dd::ConstraintResult& r, size_t i, double want, bool angle, double tol = 1e-8) {
  const bool same = angle && std::isfinite(want) ? std::abs(Turn(r.vals[i] - want)) <= tol : SameValue(r.vals[i], want, tol);
  if (!same)
    sim::Fail("result-value", std::string(kNames[s.kind]) + ": value " + std::to_string(i) + " of " + r.name + " (" +
                                  r.axes + ") is " + h::Str(r.vals[i]) + " instead of " + h::Str(want));
}

void Constrain(std::array<D, 2>& d, CalType type) {
  switch (type) {
    case CalType::kDiagonalAmplitude: d = {std::abs(d[0]), std::abs(d[1])}; break;
    case CalType::kDiagonalPhase: d = {d[0] / std::abs(d[0]), d[1] / std::abs(d[1])}; break;
    case CalType::kScalar: d[0] = d[1] = 0.5 * (d[0] + d[1]); break;
    case CalType::kScalarAmplitude: d[0] = d[1] = std::abs(0.5 * (d[0] + d[1])); break;
    case CalType::kScalarPhase: d[0] = 0.5 * (d[0] + d[1]); d[1] = d[0] = d[0] / std::abs(d[0]); break;
    case CalType::kRotation: d = {1.0, 1.0}; break;
    default: break;
  }
}

double Angle(const D* v) {
  const D i(0, 1);
  return 0.5 * (std::arg(v[0] + v[3] + i * (v[2] - v[1])) - std::arg(v[0] + v[3] - i * (v[2] - v[1])));
}

void CheckDiagonal(const Setup& s, const Output& o, const std::array<D, 2>& d, size_t ch, size_t a, size_t u) {
  if (s.diag == CalType::kRotation) return;
  const bool two = s.diag == CalType::kDiagonal || s.diag == CalType::kDiagonalAmplitude || s.diag == CalType::kDiagonalPhase;
  const bool amplitude = s.diag != CalType::kDiagonalPhase && s.diag != CalType::kScalarPhase;
  const bool phase = s.diag != CalType::kDiagonalAmplitude && s.diag != CalType::kScalarAmplitude;
  const size_t n = two ? 2 : 1;
  for (size_t p = 0; p < n; ++p) {
    const size_t i = ((a * s.nsub + u) * s.nch + ch) * n + p;
    if (amplitude) Value(s, Get(s, o, "amplitude"), i, std::abs(d[p]), false);
    if (phase) Value(s, Get(s, o, "phase"), i, std::arg(d[p]), true);
  }
  if (o.results.size() != size_t(1 + amplitude + phase)) sim::Fail("result-missing", "number of results");
}

void CheckDiagonalWeight(const Setup& s, const Output& o, size_t ch, size_t a, size_t u, double want) {
  for (const dd::ConstraintResult& r : o.results) {
    if (r.name != "amplitude" && r.name != "phase") continue;
    const size_t n = r.dims.size() == 4 ? r.dims[3] : 1;
    for (size_t p = 0; p < n; ++p) Weight(s, r, ((a * s.nsub + u) * s.nch + ch) * n + p, want);
  }
}

void CheckRotDiag(const Setup& s, const Input& in, const Output& o) {
  for (size_t u = 0; u < s.nsub; ++u)
    for (size_t c = 0; c < s.nch; ++c) {
      double mean[2] = {0, 0};
      size_t n = 0;
      bool edge = false;
      std::vector<double> angle(s.nant, NAN);
      std::vector<std::array<D, 2>> diag(s.nant);
      for (size_t a = 0; a < s.nant; ++a) {
        const D* v = &in.solutions[s.At(c, a, u, 0)];
        if (!Finite(v[0]) || !Finite(v[1]) || !Finite(v[2]) || !Finite(v[3])) continue;
        double x = Angle(v);
        x -= M_PI * std::floor(x / M_PI + 0.5);
        edge |= std::abs(std::abs(x) - M_PI / 2) < 1e-7;
        angle[a] = x;
        diag[a] = {v[0] * std::cos(x) - v[1] * std::sin(x), v[3] * std::cos(x) + v[2] * std::sin(x)};
        for (int p = 0; p < 2; ++p) mean[p] += std::abs(diag[a][p]);
        ++n;
      }
      if (edge) continue;
      bool diverged = false, unsure = false;
      double first = NAN;
      std::vector<char> limited(s.nant, 0);
      for (size_t a = 0; a < s.nant; ++a)
        for (int p = 0; p < 2 && !std::isnan(angle[a]); ++p) {
          const double m = mean[p] / n, ratio = std::abs(diag[a][p]) / m;
          if (!(m > 0)) continue;
          unsure |= std::abs(ratio - 5) < 1e-6 || std::abs(ratio - 0.2) < 1e-6;
          if (ratio > 5 || ratio < 0.2) {
            diverged = true;
            limited[a] = 1;
          }
        }
      if (unsure) continue;
      if (diverged) sim::Probe("amplitudes diverge");
      for (size_t a = 0; a < s.nant; ++a) {
        const size_t i = (a * s.nsub + u) * s.nch + c;
        const dd::ConstraintResult& rotation = Get(s, o, "rotation");
        if (std::isnan(angle[a])) {
          Value(s, rotation, i, NAN, false);
          Weight(s, rotation, i, -1);
          CheckDiagonal(s, o, {D(NAN, NAN), D(NAN, NAN)}, c, a, u);
          CheckDiagonalWeight(s, o, c, a, u, -1);
          continue;
        }
        double x = angle[a];
        if (s.rotation_reference) {
          if (std::isnan(first)) first = x;
          x -= first;
          x -= M_PI * std::floor(x / M_PI + 0.5);
          if (std::abs(std::abs(x) - M_PI / 2) < 1e-7) continue;
        }
        const double w = diverged ? -1 : in.Weight(s, a, u, c);
        Weight(s, rotation, i, w);
        CheckDiagonalWeight(s, o, c, a, u, w);
        Value(s, rotation, i, x, false);
        const D* out = &o.solutions[s.At(c, a, u, 0)];
        if (limited[a]) {
          if (s.diag == CalType::kDiagonal || s.diag == CalType::kDiagonalAmplitude)
            for (int p = 0; p < 2; ++p) {
              const double amp = std::hypot(std::abs(out[2 * p]), std::abs(out[2 * p + 1])), m = mean[p] / n;
              if (std::abs(diag[a][p]) > 0 && !(amp <= 5 * m * (1 + 1e-9) && amp >= m / 5 * (1 - 1e-9)))
                sim::Fail("not-limited", At(s, s.At(c, a, u, 2 * p)) + ": amplitude " + h::Str(amp) +
                                             " is not within a factor 5 of the mean " + h::Str(m));
            }
          continue;
        }
        std::array<D, 2> d = diag[a];
        Constrain(d, s.diag);
        CheckDiagonal(s, o, d, c, a, u);
        const D want[4] = {d[0] * std::cos(x), -d[0] * std::sin(x), d[1] * std::sin(x), d[1] * std::cos(x)};
        for (size_t p = 0; p < 4; ++p) Expect(s, "wrong-solution", o, s.At(c, a, u, p), want[p], 1e-8);
      }
    }
}

void CheckFaraday(const Setup& s, const Input& in, const Output& o) {
  const dd::ConstraintResult& r = Get(s, o, "rotationmeasure");
  for (size_t a = 0; a < s.nant; ++a)
    for (size_t u = 0; u < s.nsub; ++u) {
      const double rm = r.vals[a * s.nsub + u];
      double sum = 0;
      for (size_t c = 0; c < s.nch; ++c) sum += in.Weight(s, a, u, c);
      Weight(s, r, a * s.nsub + u, sum);
      if (!std::isfinite(rm)) sim::Fail("result-value", "the rotation measure is not a number");
      for (size_t c = 0; c < s.nch; ++c) {
        const D* v = &in.solutions[s.At(c, a, u, 0)];
        const double x = rm * std::pow(kLight / s.freq[c], 2);
        std::array<D, 2> d{v[0] * std::cos(x) - v[1] * std::sin(x), v[2] * std::sin(x) + v[3] * std::cos(x)};
        const bool fine = s.diag == CalType::kRotation || (Finite(d[0]) && Finite(d[1])) || s.diag != CalType::kDiagonal;
        Constrain(d, s.diag);
        CheckDiagonalWeight(s, o, c, a, u, in.Weight(s, a, u, c));
        if (!fine || std::abs(d[0]) < 1e-5 || std::abs(d[1]) < 1e-5) continue;
        CheckDiagonal(s, o, d, c, a, u);
        const D want[4] = {d[0] * std::cos(x), -d[0] * std::sin(x), d[1] * std::sin(x), d[1] * std::cos(x)};
        for (size_t p = 0; p < 4; ++p) Expect(s, "wrong-solution", o, s.At(c, a, u, p), want[p], 1e-7);
        if (in.mode == kNoiseless && !in.flagged)
          for (size_t p = 0; p < 4; ++p) {
            const D got = o.solutions[s.At(c, a, u, p)];
            if (std::abs(got - v[p]) > 1e-4)
              sim::Fail("not-recovered", At(s, s.At(c, a, u, p)) + ": " + Text(got) + " for noiseless input " +
                                             Text(v[p]) + ", rotation measure " + h::Str(rm) + " instead of " +
                                             h::Str(in.rm[a * s.nsub + u]));
          }
      }
    }
}

void CheckSmooth(const Setup& s, const Input& in, const Output& o) {
  for (size_t a = 0; a < s.nant; ++a)
    for (size_t u = 0; u < s.nsub; ++u)
      for (size_t p = 0; p < s.npol; ++p)
        for (size_t c = 0; c < s.nch; ++c) {
          double local = s.ref_freq == 0 ? s.bandwidth : s.bandwidth * s.freq[c] / s.ref_freq;
          const double scale = std::pow(local / s.bandwidth, s.exponent) / (s.dd_factor.empty() ? 1.0 : s.dd_factor[u]) /
                               s.antenna_factor[a];
          if (s.truncate && scale * local < 2 * s.bandwidth * (1 + 1e-9) && in.mode != kConstant) continue;
          D sum = 0;
          double total = 0;
          bool edge = false;
          for (size_t j = 0; j < s.nch; ++j) {
            const D& v = in.solutions[s.At(j, a, u, p)];
            if (!Finite(v)) continue;
            const double x = (s.freq[c] - s.freq[j]) * scale / s.bandwidth;
            edge |= std::abs(std::abs(x) - 1) < 1e-9;
            if (s.truncate && std::abs(x) > 1) continue;
            const double w = std::exp(-9 * x * x) * in.Weight(s, a, u, j);
            sum += w * v;
            total += w;
          }
          if ((edge && s.truncate) || (total > 0 && total < 1e-250)) continue;
          const size_t i = s.At(c, a, u, p);
          if (s.truncate && in.mode == kConstant) {
            if (!Finite(o.solutions[i])) continue;
            sum = 0;
            for (size_t j = 0; j < s.nch; ++j)
              if (Finite(in.solutions[s.At(j, a, u, p)])) sum = in.solutions[s.At(j, a, u, p)];
            Expect(s, "wrong-solution", o, i, sum);
          } else
            Expect(s, "wrong-solution", o, i, total > 0 ? sum / total : D(NAN, NAN));
        }
}

void Referenced(const Setup& s, std::vector<D>& v) {
  if (!s.phase_reference) return;
  size_t ref = 0;
  for (; ref < s.nant; ++ref) {
    size_t n = 0;
    for (size_t c = 0; c < s.nch; ++c) n += Finite(v[s.At(c, ref, 0, 0)]);
    if (n > 0.2 * s.nch) break;
  }
  if (ref == s.nant) ref = 0;
  for (size_t c = 0; c < s.nch; ++c)
    for (size_t u = 0; u < s.nsub; ++u) {
      const D r = v[s.At(c, ref, u, 0)];
      for (size_t a = 0; a < s.nant; ++a) v[s.At(c, a, u, 0)] = a == ref ? 1.0 : v[s.At(c, a, u, 0)] / r;
    }
}

void CheckPhases(const Setup& s, const Input& in, const Output& o) {
  std::vector<D> ref = in.solutions;
  Referenced(s, ref);
  for (size_t i = 0; i < o.solutions.size(); ++i)
    if (Finite(o.solutions[i]) && std::abs(std::abs(o.solutions[i]) - 1) > 1e-9)
      sim::Fail("not-a-phase", At(s, i) + ": " + Text(o.solutions[i]));
  const bool final_stage = s.kind != kApprox || (in.prepare & 1) || (in.prepare >> 4 & 1) ||
                           static_cast<size_t>(in.prepare >> 1 & 7) >= s.approx_iterations;
  if (o.satisfied != final_stage) sim::Fail("satisfied", "the constraint is satisfied in the wrong stage");
  if (!final_stage) {
    if (!o.results.empty()) sim::Fail("result-early", "results before the final stage");
    sim::Probe("approximate stage");
    if ((in.mode != kNoiseless && in.mode != kConstant) || in.flagged) return;
    for (size_t i = 0; i < o.solutions.size(); ++i)
      if (std::abs(o.solutions[i] - ref[i] / std::abs(ref[i])) > 1e-5)
        sim::Fail("not-recovered", At(s, i) + ": " + Text(o.solutions[i]) + " for noiseless input " + Text(ref[i]));
    return;
  }
  const bool delays = s.kind == kTecDelay || s.kind == kTecOffsetDelay;
  const bool offset = s.kind == kTecPhase || s.kind == kTecOffsetDelay || (s.kind == kApprox && s.tec_common);
  const dd::ConstraintResult& tec = Get(s, o, "tec");
  const dd::ConstraintResult* phase = offset ? &Get(s, o, "phase") : nullptr;
  const dd::ConstraintResult* delay = delays ? &Get(s, o, "delay") : nullptr;
  const dd::ConstraintResult* error = delays ? nullptr : &Get(s, o, "error");
  if (o.results.size() != size_t(2 + offset)) sim::Fail("result-missing", "number of results");
  // The TEC search is not exhaustive: it can end in another minimum for
  // few channels, low frequencies or one dominating weight, and without an
  // offset.
  const bool recover = in.mode == kNoiseless && !in.flagged && s.kind != kApprox &&
                       (delays || (s.nch >= 5 && s.freq[0] >= 150e6 &&
                                   *std::max_element(in.weights.begin(), in.weights.end()) <=
                                       3 * *std::min_element(in.weights.begin(), in.weights.end())));
  for (size_t a = 0; a < s.nant; ++a)
    for (size_t u = 0; u < s.nsub; ++u) {
      const size_t k = a * s.nsub + u;
      double sum = 0, cost = 0;
      for (size_t c = 0; c < s.nch; ++c)
        if (Finite(ref[s.At(c, a, u, 0)])) sum += in.weights[a * s.nch + c];
      for (const dd::ConstraintResult& r : o.results) Weight(s, r, k, sum);
      for (size_t c = 0; c < s.nch; ++c) {
        double x = tec.vals[k] * kTecFactor / s.freq[c];
        if (phase) x += phase->vals[k];
        if (delay) x += 2 * M_PI * delay->vals[k] * s.freq[c];
        const size_t i = s.At(c, a, u, 0);
        Expect(s, "model-mismatch", o, i, std::polar(1.0, x), 1e-6);
        if (!Finite(ref[i])) continue;
        cost += std::abs(Turn(std::arg(ref[i]) - x)) * in.weights[a * s.nch + c];
        if (recover && std::abs(o.solutions[i] - ref[i] / std::abs(ref[i])) > (delays ? 1e-4 : 0.1))
          sim::Fail("not-recovered", At(s, i) + ": " + Text(o.solutions[i]) + " for noiseless input " + Text(ref[i]));
      }
      if (error) Value(s, *error, k, sum > 0 ? cost / sum : 0, false, 1e-5);
    }
}

void Check(const Setup& s, const Input& in, const Output& o) {
  CheckShapes(s, o);
  switch (s.kind) {
    case kAmplitude:
      for (size_t i = 0; i < o.solutions.size(); ++i) {
        const double amp = std::abs(in.solutions[i]);
        Expect(s, "wrong-solution", o, i, std::isfinite(amp) ? D(amp) : D(NAN, NAN));
      }
      break;
    case kLeakage:
      for (size_t i = 0; i < o.solutions.size(); ++i)
        Expect(s, "wrong-solution", o, i, i % 4 == 0 || i % 4 == 3 ? D(1.0) : in.solutions[i], 0);
      break;
    case kAntenna:
    case kInterval: {
      std::vector<D> want = in.solutions;
      auto average = [&](const std::vector<size_t>& group) {
        D sum = 0;
        size_t n = 0;
        for (size_t i : group)
          if (Finite(in.solutions[i])) {
            sum += in.solutions[i];
            ++n;
          }
        for (size_t i : group) want[i] = n ? sum / double(n) : D(NAN, NAN);
      };
      for (size_t c = 0; c < s.nch; ++c)
        for (size_t p = 0; p < s.npol; ++p) {
          if (s.kind == kAntenna) {
            for (size_t u = 0; u < s.nsub; ++u)
              for (const auto& set : s.sets) {
                std::vector<size_t> group;
                for (size_t a : set) group.push_back(s.At(c, a, u, p));
                average(group);
              }
            continue;
          }
          for (size_t a = 0; a < s.nant; ++a) {
            size_t begin = 0;
            for (uint32_t n : s.per_dir) {
              for (size_t u = 0; u < n; u += s.averaging[a]) {
                std::vector<size_t> group;
                for (size_t j = u; j < std::min<size_t>(n, u + s.averaging[a]); ++j)
                  group.push_back(s.At(c, a, begin + j, p));
                average(group);
              }
              begin += n;
            }
          }
        }
      for (size_t i = 0; i < want.size(); ++i) Expect(s, "wrong-solution", o, i, want[i]);
      break;
    }
    case kSmooth: CheckSmooth(s, in, o); break;
    case kRotation: {
      const dd::ConstraintResult& r = Get(s, o, "rotation");
      for (size_t c = 0; c < s.nch; ++c)
        for (size_t a = 0; a < s.nant; ++a)
          for (size_t u = 0; u < s.nsub; ++u) {
            const size_t i = (a * s.nsub + u) * s.nch + c;
            const double x = Angle(&in.solutions[s.At(c, a, u, 0)]);
            Weight(s, r, i, in.weights[a * s.nch + c]);
            // The angle is known up to half a turn.
            const double got = r.vals[i];
            if (std::isnan(x) != std::isnan(got) || std::abs(std::remainder(got - x, M_PI)) > 1e-9)
              Value(s, r, i, x, false);
            const D want[4] = {std::cos(got), -std::sin(got), std::sin(got), std::cos(got)};
            for (size_t p = 0; p < 4; ++p) Expect(s, "wrong-solution", o, s.At(c, a, u, p), want[p]);
          }
      break;
    }
    case kRotDiag: CheckRotDiag(s, in, o); break;
    case kFaraday: CheckFaraday(s, in, o); break;
    default: CheckPhases(s, in, o);
  }
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return std::string("apply to ") + kModes[o.Arg(1) & 3] + " solutions " + std::to_string(o.Arg(0)) + " with weights " +
         std::to_string(o.Arg(2)) + (o.Arg(4) ? "" : " (of before)");
}

void Generate(sim::Plan& plan, sim::Rng& r) {
  auto& k = plan.knobs;
  k["kind"] = r.Below(kKinds);
  k["threads"] = r.In(1, 4);
  k["seed"] = r.Below(1 << 28);
  k["nant"] = r.In(1, 4);
  k["nch"] = r.In(1, 7);
  k["ndir"] = r.In(1, 3);
  k["intervals"] = r.Chance(0.5) ? 1 : r.In(2, 4);
  k["npol"] = r.Below(3);
  k["spacing"] = r.In(1, 40);
  k["diag"] = r.Below(7);
  if (r.Chance(0.15)) k["rate_spurious_wakeup"] = r.In(10, 500);
  if (r.Chance(0.2)) k["rate_stall_thread"] = r.In(10, 500);
  if (r.Chance(0.2)) k["rate_alloc_fail"] = r.In(20, 500);
  const int n = r.In(1, 4);
  for (int i = 0; i < n; ++i)
    plan.Add(kApply, {static_cast<int64_t>(r.Below(1 << 28)), r.Chance(0.1) ? kConstant : static_cast<int64_t>(r.Below(3)),
                      static_cast<int64_t>(r.Below(1 << 20)), r.Chance(0.7) ? static_cast<int64_t>(r.Below(8)) * 2 : static_cast<int64_t>(r.Below(32)),
                      r.Chance(0.7)});
}

void Execute(const sim::Plan& plan) {
  Setup s;
  std::vector<Input> inputs;
  {
    sim::Quiet q;
    s.kind = plan.Knob("kind") % kKinds;
    sim::Rng r(plan.Knob("seed") + 3);
    s.nant = plan.Knob("nant", 1);
    s.nch = plan.Knob("nch", 1);
    if (s.kind == kTecDelay || s.kind == kTecOffsetDelay) s.nch = std::max<size_t>(s.nch, 3);
    if (Phases(s.kind) || s.kind == kFaraday) s.nch = std::max<size_t>(s.nch, 2);
    s.nsub = 0;
    for (int64_t d = 0; d < plan.Knob("ndir", 1); ++d) {
      s.per_dir.push_back(d == 0 ? plan.Knob("intervals", 1) : r.In(1, plan.Knob("intervals", 1)));
      s.nsub += s.per_dir.back();
    }
    const size_t pols[] = {1, 2, 4};
    s.npol = pols[plan.Knob("npol") % 3];
    if (Phases(s.kind)) s.npol = 1;
    if (s.kind == kLeakage || (s.kind >= kRotation && s.kind <= kFaraday)) s.npol = 4;
    const double f0 = 120e6 + 60e6 * r.Unit(), df = plan.Knob("spacing", 10) * 0.2e6;
    for (size_t c = 0; c < s.nch; ++c) s.freq.push_back((c ? s.freq.back() : f0) + df * (0.7 + 0.6 * r.Unit()));
    s.diag = kDiagonals[plan.Knob("diag") % (s.kind == kFaraday ? 7 : 6)];
    s.rotation_reference = r.Chance(0.4);
    s.phase_reference = r.Chance(0.5);
    s.truncate = r.Chance(0.5);
    s.bandwidth = df * (0.3 + 4 * r.Unit());
    s.ref_freq = r.Chance(0.5) ? 0 : f0 * (0.7 + 0.6 * r.Unit());
    s.exponent = r.Chance(0.6) ? -1 : r.Unit() * 4 - 2;
    for (size_t a = 0; a < s.nant; ++a) s.antenna_factor.push_back(r.Chance(0.5) ? 1 : 0.2 + 2 * r.Unit());
    if (r.Chance(0.5))
      for (size_t u = 0; u < s.nsub; ++u) s.dd_factor.push_back(0.1 + 0.9 * r.Unit());
    std::vector<size_t> order(s.nant);
    for (size_t a = 0; a < s.nant; ++a) order[a] = a;
    for (size_t a = s.nant; a > 1; --a) std::swap(order[a - 1], order[r.Below(a)]);
    for (size_t a : order) {
      if (r.Chance(0.2)) continue;
      if (s.sets.empty() || r.Chance(0.4)) s.sets.emplace_back();
      s.sets.back().insert(a);
    }
    const uint32_t most = *std::max_element(s.per_dir.begin(), s.per_dir.end());
    for (size_t a = 0; a < s.nant; ++a) s.averaging.push_back(r.In(1, most));
    s.chunk = r.Chance(0.3) ? 0 : r.In(1, 6);
    s.wraps = r.In(1, 2);
    s.approx_iterations = r.In(1, 8);
    s.tec_common = s.kind == kTecPhase || (s.kind == kApprox && r.Chance(0.5));
    s.sub_weights = (s.kind == kSmooth || s.kind == kFaraday) && r.Chance(0.4);
    if (s.kind == kFaraday && r.Chance(0.4)) {
      double step = 1e9;
      for (size_t c = 1; c < s.nch; ++c)
        step = std::min(step, std::pow(kLight / s.freq[c - 1], 2) - std::pow(kLight / s.freq[c], 2));
      s.limit = std::min(6.0, 0.35 * M_PI / step) * (0.1 + 0.9 * r.Unit());
    }
    for (const sim::Op& op : plan.ops) {
      inputs.push_back(Make(s, op));
      if (!op.Arg(4, 1) && inputs.size() > 1) {
        Input& in = inputs.back();
        const Input& before = inputs[inputs.size() - 2];
        in.weights = before.weights;
        in.sub_weights = before.sub_weights;
        in.flagged = true;
      }
    }
  }

  std::vector<Output> outputs(inputs.size());
  std::vector<char> done(inputs.size(), 0);
  {
    h::Threads pool(plan.Knob("threads", 1));
    std::unique_ptr<dd::Constraint> c = Build(s);
    for (size_t j = 0; j < inputs.size(); ++j) {
      if (plan.ops[j].Arg(4, 1) || j == 0) Weigh(inputs[j], *c);
      try {
        sim::FaultScope faults;
        outputs[j] = Apply(s, inputs[j], *c);
        done[j] = 1;
      } catch (const std::bad_alloc&) {
        if (!sim::FaultsFired(sim::kAllocFail)) sim::Fail("bad-alloc", "memory runs out without a fault");
        sim::Probe("no memory");
      }
    }
  }

  sim::Quiet q;
  for (size_t j = 0; j < inputs.size(); ++j) {
    if (!done[j]) continue;
    const Input& in = inputs[j];
    const Output& o = outputs[j];
    const bool weighed = plan.ops[j].Arg(4, 1) || j == 0;
    for (const D& v : o.solutions) sim::EventDouble(v.real());
    // Another history and schedule
    const Output fresh = Fresh(s, in);
    Compare(s, "depends-on-history", o, fresh, 1e-12, weighed);
    if (!weighed) {
      // Weights of before: the reference has those of this input.
      continue;
    }
    Check(s, in, o);
    if (!Fits(s.kind)) continue;
    // The scale of the weights does not matter.
    for (double scale : {0.0009765625, 1024.0}) {
      // Ill-conditioned: several fits are as good.
      if (s.kind == kTecDelay || s.kind == kTecOffsetDelay) break;
      Input scaled = in;
      for (double& w : scaled.weights) w *= scale;
      for (auto& v : scaled.sub_weights)
        for (double& w : v) w *= scale;
      Output x = Fresh(s, scaled);
      if (s.kind == kSmooth)
        CheckSmooth(s, scaled, x);  // allows for underflow
      else
        Compare(s, "weight-scale", x, o, 1e-6, false);
    }
    // A failed solution does not count, whatever its weight.
    if (s.kind == kFaraday) {
      Setup setup = s;
      Input weightless = in;
      if (!s.sub_weights) {
        setup.sub_weights = true;
        weightless.sub_weights.assign(s.nsub, in.weights);
      }
      bool failed = false;
      for (size_t c = 0; c < s.nch; ++c)
        for (size_t a = 0; a < s.nant; ++a)
          for (size_t u = 0; u < s.nsub; ++u) {
            bool all = in.Weight(s, a, u, c) > 0;
            for (size_t p = 0; p < s.npol; ++p) all = all && !Finite(in.solutions[s.At(c, a, u, p)]);
            if (!all) continue;
            weightless.sub_weights[u][a * s.nch + c] = 0;
            failed = true;
          }
      if (failed) {
        sim::Probe("failed solutions");
        const Output x = Fresh(setup, weightless);
        Compare(s, "failed-solution-counts", x, o, 1e-6, false);
      }
    }
    // Values without weight do not matter.
    // (The sliding fit guesses the wrapping from all values of a window.)
    if ((s.phase_reference && Phases(s.kind)) || s.kind == kApprox) continue;
    Input other = in;
    std::vector<char> skip(in.solutions.size(), 0);
    sim::Rng r(j + 17);
    bool any = false;
    for (size_t c = 0; c < s.nch; ++c)
      for (size_t a = 0; a < s.nant; ++a)
        for (size_t u = 0; u < s.nsub; ++u)
          if (in.Weight(s, a, u, c) == 0)
            for (size_t p = 0; p < s.npol; ++p) {
              other.solutions[s.At(c, a, u, p)] = D(r.Unit() - 0.5, r.Unit() - 0.5);
              any = true;
              if (s.kind == kFaraday)
                skip[s.At(c, a, u, p)] = 1;
            }
    if (!any) continue;
    sim::Probe("values without weight");
    const Output x = Fresh(s, other);
    Compare(s, "zero-weight-counts", x, o, 1e-6, false, &skip);
  }
}
