// Shared by the harnesses of the calibration steps: sources of model data (in
// place of Predict, IDGPredict and MsColumnReader, whose libraries are not
// here), the solution disk, and the few functions of base/DP3.cc they use.
#ifndef VERIF_CALIB_H
#define VERIF_CALIB_H

#include "solvers.h"

#include "base/DP3.h"
#include "common/ParameterValue.h"
#include "ddecal/gain_solvers/DiagonalLowRankSolver.h"
#include "steps/IDGPredict.h"
#include "steps/MsColumnReader.h"
#include "steps/Predict.h"

#include <schaapcommon/h5parm/h5parm.h>

namespace hc {

using h::C;

struct ModelError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

/// What the model steps of the run produce: filled in by the harness.
struct Models {
  // Model visibilities of a direction at a time, baselines x channels x 4.
  std::function<const std::vector<C>&(const std::string& direction, double time)> get;
  std::vector<std::string> facets;
  size_t idg_buffers = 1;
  int readers_inside = 0;
  int order = 0;
  static Models& Get() {
    static Models m;
    return m;
  }
};

inline dp3::base::Direction DirectionOf(const std::string& name) {
  uint64_t x = 1469598103934665603ULL;
  for (char c : name) x = (x ^ c) * 1099511628211ULL;
  sim::Rng r(x);
  return dp3::base::Direction(r.Unit() * 3, r.Unit() - 0.5);
}

inline void FillModel(const std::string& direction, dp3::base::DPBuffer& buffer) {
  sim::Yield();
  sim::Quiet q;
  const std::vector<C>& m = Models::Get().get(direction, buffer.GetTime());
  if (m.size() != buffer.GetData().size()) sim::HarnessError("model of another size");
  std::copy(m.begin(), m.end(), buffer.GetData().data());
}

/// Solution files fail as the plan says.
inline void ResetSolutionDisk() {
  auto& disk = schaapcommon::h5parm::MiniDisk::Get();
  disk.files.clear();
  disk.hook = [](const char* what, const std::string& file) {
    if (!sim::FaultsEnabled()) return;
    const bool write = what[0] == 'w' || what[0] == 'c';
    if (sim::ShouldFault(write ? sim::kTableWriteError : sim::kTableReadError))
      throw H5::FileIException(std::string("injected failure to ") + what + " " + file);
  };
  schaapcommon::h5parm::JonesParameters::Observer() = nullptr;
}

}  // namespace hc

namespace dp3::steps {

// --- Predict -----------------------------------------------------------------
namespace {
struct PredictState {
  std::string name;
  size_t nbl = 0, nchan = 0;
  bool busy = false;
};
std::map<const void*, PredictState>& PredictStates() {
  static std::map<const void*, PredictState> m;
  return m;
}
void Produce(const void* self, const std::string& what, base::DPBuffer& buffer) {
  PredictState* state;
  {
    sim::Quiet q;
    state = &PredictStates()[self];
    if (state->busy) sim::Fail("model-step-reentered", "the " + what + " was called by two threads at once");
    state->busy = true;
    buffer.GetData().resize({state->nbl, state->nchan, 4});
  }
  sim::Yield();
  hc::FillModel(state->name, buffer);
  sim::Yield();
  sim::Quiet q;
  state->busy = false;
}
void Learn(const void* self, const base::DPInfo& info) {
  sim::Quiet q;
  PredictStates()[self].nbl = info.nbaselines();
  PredictStates()[self].nchan = info.nchan();
}
void Name(const void* self, const std::string& name) {
  sim::Quiet q;
  PredictStates()[self] = PredictState();
  PredictStates()[self].name = name;
}
}  // namespace

Predict::Predict(const common::ParameterSet&, const std::string&, MsType type) : ms_type_(type) { Name(this, ""); }
Predict::Predict(const common::ParameterSet&, const std::string&, const std::vector<std::string>& patterns, MsType type)
    : ms_type_(type) {
  Name(this, patterns.front());
}
bool Predict::process(std::unique_ptr<base::DPBuffer> buffer) {
  Produce(this, "predict step", *buffer);
  return getNextStep()->process(std::move(buffer));
}
void Predict::finish() { getNextStep()->finish(); }
void Predict::show(std::ostream&) const {}
void Predict::setNextStep(std::shared_ptr<Step> next) { Step::setNextStep(next); }
base::Direction Predict::GetFirstDirection() const { return hc::DirectionOf(PredictStates()[this].name); }
void Predict::SetOperation(const std::string&) {}
void Predict::updateInfo(const base::DPInfo& info) {
  Step::updateInfo(info);
  Learn(this, info);
}
void Predict::SetThreadData(std::mutex*) {}
void Predict::SetNumThreads(size_t) {}

// --- IDGPredict: keeps slots until it is full or flushed ----------------------
namespace {
struct IdgState {
  std::vector<std::unique_ptr<base::DPBuffer>> buffers;
  size_t size = 1;
};
std::map<const void*, IdgState>& IdgStates() {
  static std::map<const void*, IdgState> m;
  return m;
}
}  // namespace
IDGPredict::IDGPredict(const common::ParameterSet&, const std::string&, const std::vector<aocommon::FitsReader>&,
                       std::vector<schaapcommon::facets::Facet>&& facets, const std::string&) {
  Name(this, facets.front().DirectionLabel());
  sim::Quiet q;
  IdgStates()[this] = IdgState();
  IdgStates()[this].size = hc::Models::Get().idg_buffers;
}
IDGPredict::IDGPredict(const common::ParameterSet&, const std::string&) { throw std::runtime_error("not simulated"); }
void IDGPredict::updateInfo(const base::DPInfo& info) {
  Step::updateInfo(info);
  Learn(this, info);
}
bool IDGPredict::process(std::unique_ptr<base::DPBuffer> buffer) {
  IdgState* state;
  {
    sim::Quiet q;
    state = &IdgStates()[this];
  }
  state->buffers.push_back(std::move(buffer));
  if (state->buffers.size() >= state->size) flush();
  return false;
}
void IDGPredict::flush() {
  IdgState* state;
  {
    sim::Quiet q;
    state = &IdgStates()[this];
  }
  for (auto& b : state->buffers) {
    Produce(this, "image predict step", *b);
    getNextStep()->process(std::move(b));
  }
  state->buffers.clear();
}
void IDGPredict::finish() {
  flush();
  getNextStep()->finish();
}
void IDGPredict::show(std::ostream&) const {}
void IDGPredict::showTimings(std::ostream&, double) const {}
std::vector<aocommon::xt::UTensor<std::complex<float>, 3>> IDGPredict::Predict(size_t) { return {}; }
bool IDGPredict::IsStarted() const { return true; }
base::Direction IDGPredict::GetFirstDirection() const { return hc::DirectionOf(PredictStates()[this].name); }
void IDGPredict::SetBufferSize(size_t n) {
  sim::Quiet q;
  IdgStates()[this].size = n;
}
size_t IDGPredict::GetBufferSize() const { return IdgStates()[this].size; }
std::vector<aocommon::FitsReader> IDGPredict::GetReaders(const std::vector<std::string>& files) {
  return std::vector<aocommon::FitsReader>(std::max<size_t>(1, files.size()));
}
std::vector<schaapcommon::facets::Facet> IDGPredict::GetFacets(const std::string&, const double, const double,
                                                               const double, const double, const size_t,
                                                               const size_t) {
  return GetFacets("", aocommon::FitsReader());
}
std::vector<schaapcommon::facets::Facet> IDGPredict::GetFacets(const std::string&, const aocommon::FitsReader&) {
  std::vector<schaapcommon::facets::Facet> f;
  for (const std::string& name : hc::Models::Get().facets) f.emplace_back(name);
  return f;
}

// --- MsColumnReader: the tables under it are not thread safe -------------------
namespace {
std::map<const void*, std::string>& Columns() {
  static std::map<const void*, std::string> m;
  return m;
}
}  // namespace
MsColumnReader::MsColumnReader(const common::ParameterSet&, const std::string&, MsType type, const std::string& column)
    : input_ms_type_(type) {
  sim::Quiet q;
  Columns()[this] = column;
  Name(this, column);
}
bool MsColumnReader::process(std::unique_ptr<base::DPBuffer> buffer) {
  auto& models = hc::Models::Get();
  {
    sim::Quiet q;
    if (models.readers_inside++) sim::Fail("parallel-table-access", "two model columns were read at the same time");
  }
  Produce(this, "column reader", *buffer);
  {
    sim::Quiet q;
    --models.readers_inside;
  }
  return getNextStep()->process(std::move(buffer));
}
void MsColumnReader::updateInfo(const base::DPInfo& info) {
  Step::updateInfo(info);
  Learn(this, info);
}
void MsColumnReader::finish() { getNextStep()->finish(); }
void MsColumnReader::show(std::ostream&) const {}
void MsColumnReader::showTimings(std::ostream&, double) const {}
base::Direction MsColumnReader::GetFirstDirection() const { return hc::DirectionOf(Columns()[this]); }

#ifndef VERIF_CALIB_BDA
bool Predict::process(std::unique_ptr<base::BdaBuffer>) { throw std::runtime_error("not simulated"); }
bool MsColumnReader::process(std::unique_ptr<base::BdaBuffer>) { throw std::runtime_error("not simulated"); }
#endif

}  // namespace dp3::steps

namespace hc {
/// A step that can follow a model step: doubles the data.
class Doubler : public dp3::steps::Step {
 public:
  bool process(std::unique_ptr<dp3::base::DPBuffer> b) override {
    for (size_t i = 0; i < b->GetData().size(); ++i) b->GetData().data()[i] *= 2.0f;
    return getNextStep()->process(std::move(b));
  }
  void finish() override { getNextStep()->finish(); }
  void show(std::ostream&) const override {}
  dp3::common::Fields getRequiredFields() const override { return kDataField; }
  dp3::common::Fields getProvidedFields() const override { return kDataField; }
};
}  // namespace hc

namespace dp3::base {
std::shared_ptr<steps::Step> MakeStepsFromParset(const common::ParameterSet& parset, const std::string& prefix,
                                                 const std::string& key, const std::string&, bool,
                                                 steps::Step::MsType) {
  std::shared_ptr<steps::Step> first;
  for (const std::string& name : parset.getStringVector(prefix + key)) {
    if (name != "double") throw std::runtime_error("unknown model step " + name);
    auto s = std::make_shared<hc::Doubler>();
    if (first) s->setNextStep(first);
    first = s;
  }
  return first;
}
common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step> first) {
  // Everything that a model step may want, except the data it provides itself.
  return steps::Step::kUvwField | steps::Step::kFlagsField | steps::Step::kWeightsField;
}
}  // namespace dp3::base

namespace dp3::ddecal {
SolverBase::SolveResult DiagonalLowRankSolver::Solve(const FullSolveData&, std::vector<std::vector<DComplex>>&, double) {
  throw std::runtime_error("the low rank solver is not simulated");
}
}  // namespace dp3::ddecal

namespace dp3::sky_model {
std::vector<std::vector<std::string>> MakeDirectionList(const std::vector<std::string>& packed, const std::string&) {
  std::vector<std::vector<std::string>> directions;
  for (const std::string& d : packed) directions.push_back(common::ParameterValue(d).getStringVector());
  return directions;
}
}  // namespace dp3::sky_model

#endif
