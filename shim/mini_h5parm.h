// Stand-in for schaapcommon's h5parm library: solution files are kept in memory,
// and the disk under them can fail.
#ifndef VERIF_MINI_H5PARM_H
#define VERIF_MINI_H5PARM_H

#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "mini_casa.h"

typedef unsigned long long hsize_t;

namespace H5 {
class Exception : public std::runtime_error {
 public:
  explicit Exception(const std::string& m = "hdf5 error") : std::runtime_error(m) {}
  const char* getCDetailMsg() const { return what(); }
  std::string getDetailMsg() const { return what(); }
  std::string getFuncName() const { return ""; }
  static void dontPrint() {}
};
class FileIException : public Exception {
 public:
  using Exception::Exception;
};
class DataSetIException : public Exception {
 public:
  using Exception::Exception;
};
class GroupIException : public Exception {
 public:
  using Exception::Exception;
};
}  // namespace H5

namespace schaapcommon::h5parm {

struct AxisInfo {
  std::string name;
  unsigned int size;
};

struct MiniTab {
  std::string name, type;
  std::vector<AxisInfo> axes;
  std::vector<double> values, weights;
  std::string history;
  bool filled = false;
  std::vector<std::string> antennas, sources, polarizations;
  std::vector<double> freqs, times;
};

struct MiniFile {
  std::vector<std::string> antenna_names;
  std::vector<std::array<double, 3>> antenna_positions;
  std::vector<std::string> source_names;
  std::vector<std::pair<double, double>> source_directions;
  std::map<std::string, std::shared_ptr<MiniTab>> tabs;
};

/// All solution files of the run. The hook is asked before every operation.
struct MiniDisk {
  std::map<std::string, std::shared_ptr<MiniFile>> files;
  std::function<void(const char* what, const std::string& file)> hook;
  static MiniDisk& Get() {
    static MiniDisk d;
    return d;
  }
  void Touch(const char* what, const std::string& file) {
    if (hook) hook(what, file);
  }
};

class SolTab {
 public:
  SolTab() = default;
  SolTab(std::string file, std::shared_ptr<MiniTab> tab) : file_(std::move(file)), tab_(std::move(tab)) {}

  const std::string& GetName() const { return tab_->name; }
  const std::string& GetType() const { return tab_->type; }
  std::vector<AxisInfo> GetAxes() const { return tab_->axes; }
  size_t NumAxes() const { return tab_->axes.size(); }
  bool HasAxis(const std::string& name) const {
    for (const AxisInfo& a : tab_->axes)
      if (a.name == name) return true;
    return false;
  }
  AxisInfo GetAxis(unsigned int i) const { return tab_->axes.at(i); }
  AxisInfo GetAxis(const std::string& name) const { return tab_->axes[GetAxisIndex(name)]; }
  size_t GetAxisIndex(const std::string& name) const {
    for (size_t i = 0; i < tab_->axes.size(); ++i)
      if (tab_->axes[i].name == name) return i;
    throw std::runtime_error("Axis " + name + " does not exist in SolTab " + tab_->name);
  }

  void SetValues(const std::vector<double>& vals, const std::vector<double>& weights, const std::string& history = "") {
    Touch("write");
    size_t expected = 1;
    for (const AxisInfo& a : tab_->axes) expected *= a.size;
    if (expected != vals.size())
      throw std::runtime_error("Values for H5Parm do not have the expected size: they have size " +
                               std::to_string(vals.size()) + ", expected is " + std::to_string(expected));
    if (!weights.empty() && weights.size() != vals.size())
      throw std::runtime_error("Weights and values for H5Parm do not have the same size");
    tab_->values = vals;
    tab_->weights = weights.empty() ? std::vector<double>(vals.size(), 1.0) : weights;
    for (size_t i = 0; i < vals.size(); ++i)
      if (!std::isfinite(vals[i])) tab_->weights[i] = 0.0;
    tab_->history = history;
    tab_->filled = true;
  }
  void SetComplexValues(const std::vector<std::complex<double>>& vals, const std::vector<double>& weights,
                        bool to_amplitudes, const std::string& history = "") {
    std::vector<double> real;
    for (const std::complex<double>& v : vals) real.push_back(to_amplitudes ? std::abs(v) : std::arg(v));
    SetValues(real, weights, history);
  }
  void SetAntennas(const std::vector<std::string>& v) { SetAxis("ant", tab_->antennas, v); }
  void SetSources(const std::vector<std::string>& v) { SetAxis("dir", tab_->sources, v); }
  void SetPolarizations(const std::vector<std::string>& v) { SetAxis("pol", tab_->polarizations, v); }
  void SetFreqs(const std::vector<double>& v) { SetAxis("freq", tab_->freqs, v); }
  void SetTimes(const std::vector<double>& v) { SetAxis("time", tab_->times, v); }

  std::vector<std::string> GetStringAxis(const std::string& name) const {
    if (name == "ant") return tab_->antennas;
    if (name == "dir") return tab_->sources;
    if (name == "pol") return tab_->polarizations;
    throw std::runtime_error("no string axis " + name);
  }
  std::vector<double> GetRealAxis(const std::string& name) const {
    if (name == "freq") return tab_->freqs;
    if (name == "time") return tab_->times;
    throw std::runtime_error("no real axis " + name);
  }
  hsize_t GetDirIndex(const std::string& name) const { return Find(tab_->sources, name, "Direction"); }
  hsize_t GetAntIndex(const std::string& name) const { return Find(tab_->antennas, name, "Antenna"); }
  bool HasAntenna(const std::string& name) const {
    return std::find(tab_->antennas.begin(), tab_->antennas.end(), name) != tab_->antennas.end();
  }

  /// Value at given positions along the axes; axes that are absent are ignored.
  double At(const std::map<std::string, size_t>& position, bool weight = false) const {
    size_t index = 0;
    for (const AxisInfo& a : tab_->axes) {
      const auto it = position.find(a.name);
      const size_t i = it == position.end() ? 0 : it->second;
      if (i >= a.size) throw std::runtime_error("position outside axis " + a.name + " of " + tab_->name);
      index = index * a.size + i;
    }
    return weight ? tab_->weights.at(index) : tab_->values.at(index);
  }
  const MiniTab& Tab() const { return *tab_; }
  const std::string& File() const { return file_; }
  void Touch(const char* what) const { MiniDisk::Get().Touch(what, file_); }

 private:
  template <class T>
  void SetAxis(const std::string& name, std::vector<T>& target, const std::vector<T>& v) {
    Touch("write");
    if (HasAxis(name) && GetAxis(name).size != v.size())
      throw std::runtime_error("Axis " + name + " of SolTab " + tab_->name + " has size " +
                               std::to_string(GetAxis(name).size) + ", got " + std::to_string(v.size()) + " values");
    target = v;
  }
  static hsize_t Find(const std::vector<std::string>& v, const std::string& name, const char* kind) {
    const auto it = std::find(v.begin(), v.end(), name);
    if (it == v.end()) throw std::runtime_error(std::string(kind) + " " + name + " not found in SolTab");
    return it - v.begin();
  }

  std::string file_;
  std::shared_ptr<MiniTab> tab_;
};

class H5Parm {
 public:
  H5Parm(const std::string& filename, bool force_new = false, bool force_new_sol_set = false,
         const std::string& sol_set_name = "", const std::vector<std::string>& tables = {})
      : filename_(filename) {
    MiniDisk& disk = MiniDisk::Get();
    disk.Touch(force_new ? "create" : "open", filename);
    std::shared_ptr<MiniFile>& f = disk.files[filename];
    if (force_new)
      f = std::make_shared<MiniFile>();
    else if (!f) {
      disk.files.erase(filename);
      throw H5::FileIException("unable to open file " + filename);
    }
    file_ = f;
    Load();
  }
  H5Parm(const std::string& filename, const std::vector<std::string>& tables) : H5Parm(filename, false) {}

  void AddAntennas(const std::vector<std::string>& names, const std::vector<std::array<double, 3>>& positions) {
    MiniDisk::Get().Touch("write", filename_);
    if (names.size() != positions.size()) throw std::runtime_error("as many antenna names as positions are needed");
    file_->antenna_names = names;
    file_->antenna_positions = positions;
  }
  void AddSources(const std::vector<std::string>& names, const std::vector<std::pair<double, double>>& directions) {
    MiniDisk::Get().Touch("write", filename_);
    if (names.size() != directions.size()) throw std::runtime_error("as many source names as directions are needed");
    file_->source_names = names;
    file_->source_directions = directions;
  }
  SolTab& CreateSolTab(const std::string& name, const std::string& type, const std::vector<AxisInfo>& axes) {
    MiniDisk::Get().Touch("write", filename_);
    if (file_->tabs.count(name)) throw H5::GroupIException("SolTab " + name + " exists");
    auto tab = std::make_shared<MiniTab>();
    tab->name = name;
    tab->type = type;
    tab->axes = axes;
    file_->tabs[name] = tab;
    return tabs_[name] = SolTab(filename_, tab);
  }
  SolTab& GetSolTab(const std::string& name) {
    const auto it = tabs_.find(name);
    if (it == tabs_.end()) throw std::runtime_error("SolTab " + name + " does not exist in " + filename_);
    return it->second;
  }
  bool HasSolTab(const std::string& name) const { return tabs_.count(name); }
  size_t NumSolTabs() const { return tabs_.size(); }
  std::string GetSolSetName() const { return "sol000"; }
  size_t GetNumSources() const { return file_->source_names.size(); }
  std::vector<std::string> GetSourceNames() const { return file_->source_names; }
  std::string GetNearestSource(double ra, double dec) const {
    if (file_->source_names.empty()) throw std::runtime_error("the solution file has no sources");
    size_t best = 0;
    double best_cos = -2;
    for (size_t i = 0; i < file_->source_names.size(); ++i) {
      const auto& [r, d] = file_->source_directions[i];
      const double c = std::sin(dec) * std::sin(d) + std::cos(dec) * std::cos(d) * std::cos(ra - r);
      if (c > best_cos) {
        best_cos = c;
        best = i;
      }
    }
    return file_->source_names[best];
  }

 private:
  void Load() {
    for (auto& [name, tab] : file_->tabs) tabs_[name] = SolTab(filename_, tab);
  }
  std::string filename_;
  std::shared_ptr<MiniFile> file_;
  std::map<std::string, SolTab> tabs_;
};

enum class GainType {
  kDiagonalComplex,
  kScalarComplex,
  kFullJones,
  kTec,
  kClock,
  kDelay = kClock,
  kRotationAngle,
  kScalarPhase,
  kDiagonalPhase,
  kRotationMeasure,
  kScalarAmplitude,
  kDiagonalAmplitude,
  kDiagonalRealImaginary,
  kFullJonesRealImaginary
};

class JonesParameters {
 public:
  enum class InterpolationType { NEAREST, LINEAR };
  enum class MissingAntennaBehavior { kError, kFlag, kUnit };

  /// From a solution table.
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times,
                  const std::vector<std::string>& antennas, GainType type, InterpolationType interpolation,
                  hsize_t direction, SolTab* first, SolTab* second = nullptr, bool invert = false,
                  size_t n_parm_values = 0, MissingAntennaBehavior missing = MissingAntennaBehavior::kError) {
    if (Observer()) Observer()(freqs, times, antennas, direction);
    first->Touch("read");
    // The second table is that of the phases; other types do not look at it.
    if (type != GainType::kFullJones && type != GainType::kDiagonalComplex && type != GainType::kScalarComplex) second = nullptr;
    const bool full = HasFourValues(type);
    const size_t npol = full ? 4 : 2;
    parms_.resize(npol, antennas.size(), freqs.size() * times.size());
    for (size_t a = 0; a < antennas.size(); ++a) {
      const bool known = !first->HasAxis("ant") || first->HasAntenna(antennas[a]);
      if (!known && missing == MissingAntennaBehavior::kError)
        throw std::runtime_error("SolTab has no element for antenna " + antennas[a]);
      for (size_t t = 0; t < times.size(); ++t)
        for (size_t f = 0; f < freqs.size(); ++f) {
          std::array<std::complex<float>, 4> j{};
          if (!known) {
            const float v = missing == MissingAntennaBehavior::kUnit ? 1.0f : NAN;
            if (full)
              j = {v, missing == MissingAntennaBehavior::kUnit ? 0.0f : v,
                   missing == MissingAntennaBehavior::kUnit ? 0.0f : v, v};
            else
              j = {v, v};
          } else {
            j = Value(type, interpolation, direction, first, second, antennas[a], times[t], freqs[f]);
            if (invert) Invert(j, full);
          }
          for (size_t p = 0; p < npol; ++p) parms_(p, a, t * freqs.size() + f) = j[p];
        }
    }
  }
  /// From gridded parameters (parameter database): parameter, antenna, time and frequency.
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times,
                  const std::vector<std::string>& antennas, GainType type, InterpolationType, hsize_t,
                  std::vector<std::vector<std::vector<double>>>&& values, bool invert = false) {
    const bool full = HasFourValues(type);
    const size_t npol = full ? 4 : 2;
    parms_.resize(npol, antennas.size(), freqs.size() * times.size());
    for (size_t a = 0; a < antennas.size(); ++a)
      for (size_t tf = 0; tf < freqs.size() * times.size(); ++tf) {
        std::vector<double> v;
        for (size_t i = 0; i < values.size(); ++i) v.push_back(values[i].at(a).at(tf));
        std::array<std::complex<float>, 4> j = FromParameters(type, v, freqs[tf % freqs.size()]);
        if (invert) Invert(j, full);
        for (size_t p = 0; p < npol; ++p) parms_(p, a, tf) = j[p];
      }
  }
  /// From solutions in a buffer: channel; antenna and polarization.
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times,
                  const std::vector<std::string>& antennas, GainType,
                  const std::vector<std::vector<std::complex<double>>>& solutions, bool invert = false) {
    const size_t npol = solutions.at(0).size() / antennas.size();
    parms_.resize(npol, antennas.size(), freqs.size() * times.size());
    for (size_t a = 0; a < antennas.size(); ++a)
      for (size_t t = 0; t < times.size(); ++t)
        for (size_t f = 0; f < freqs.size(); ++f) {
          std::array<std::complex<float>, 4> j{};
          for (size_t p = 0; p < npol; ++p) j[p] = std::complex<float>(solutions.at(f).at(a * npol + p));
          if (invert) Invert(j, npol == 4);
          for (size_t p = 0; p < npol; ++p) parms_(p, a, t * freqs.size() + f) = j[p];
        }
  }

  static bool HasFourValues(GainType type) {
    return type == GainType::kFullJones || type == GainType::kFullJonesRealImaginary || type == GainType::kRotationAngle ||
           type == GainType::kRotationMeasure;
  }
  /// The Jones matrix for the parameters of one antenna, time and frequency; also used by the oracles.
  static std::array<std::complex<float>, 4> FromParameters(GainType type, const std::vector<double>& v, double freq) {
    const auto polar = [](double a, double p) {
      return std::complex<float>(static_cast<float>(a * std::cos(p)), static_cast<float>(a * std::sin(p)));
    };
    const auto rotation = [](double a) {
      const float c = std::cos(a), s = std::sin(a);
      return std::array<std::complex<float>, 4>{c, -s, s, c};
    };
    const auto last = [&](size_t i) { return v.at(std::min(i, v.size() - 1)); };
    switch (type) {
      case GainType::kDiagonalComplex: return {polar(v.at(0), v.at(1)), polar(v.at(2), v.at(3))};
      case GainType::kDiagonalRealImaginary:
        return {std::complex<float>(v.at(0), v.at(1)), std::complex<float>(v.at(2), v.at(3))};
      case GainType::kFullJones: return {polar(v.at(0), v.at(1)), polar(v.at(2), v.at(3)), polar(v.at(4), v.at(5)), polar(v.at(6), v.at(7))};
      case GainType::kFullJonesRealImaginary:
        return {std::complex<float>(v.at(0), v.at(1)), std::complex<float>(v.at(2), v.at(3)), std::complex<float>(v.at(4), v.at(5)),
                std::complex<float>(v.at(6), v.at(7))};
      case GainType::kTec: return {polar(1, last(0) * -8.44797245e9 / freq), polar(1, last(1) * -8.44797245e9 / freq)};
      case GainType::kClock: return {polar(1, last(0) * 2 * M_PI * freq), polar(1, last(1) * 2 * M_PI * freq)};
      case GainType::kScalarPhase: return {polar(1, v.at(0)), polar(1, v.at(0))};
      case GainType::kScalarAmplitude: return {polar(v.at(0), 0), polar(v.at(0), 0)};
      case GainType::kRotationAngle: return rotation(v.at(0));
      case GainType::kRotationMeasure: return rotation(v.at(0) * (299792458.0 / freq) * (299792458.0 / freq));
      default: throw std::runtime_error("gain type not simulated");
    }
  }

  const casacore::Cube<std::complex<float>>& GetParms() const { return parms_; }

  static GainType H5ParmTypeStringToGainType(const std::string& type) {
    if (type == "gain" || type == "diagonal") return GainType::kDiagonalComplex;
    if (type == "fulljones") return GainType::kFullJones;
    if (type == "tec") return GainType::kTec;
    if (type == "clock" || type == "delay") return GainType::kClock;
    if (type == "rotation" || type == "rotationangle" || type == "commonrotationangle") return GainType::kRotationAngle;
    if (type == "scalarphase" || type == "commonscalarphase") return GainType::kScalarPhase;
    if (type == "phase") return GainType::kDiagonalPhase;
    if (type == "rotationmeasure") return GainType::kRotationMeasure;
    if (type == "scalaramplitude" || type == "commonscalaramplitude") return GainType::kScalarAmplitude;
    if (type == "amplitude") return GainType::kDiagonalAmplitude;
    throw std::runtime_error("Unknown correction type: " + type);
  }
  static std::string GainTypeToHumanReadableString(GainType) { return "gain"; }
  static MissingAntennaBehavior StringToMissingAntennaBehavior(const std::string& s) {
    if (s == "error") return MissingAntennaBehavior::kError;
    if (s == "flag") return MissingAntennaBehavior::kFlag;
    if (s == "unit") return MissingAntennaBehavior::kUnit;
    throw std::runtime_error("missingantennabehavior should be error, flag or unit");
  }
  static std::string MissingAntennaBehaviorToString(MissingAntennaBehavior b) {
    return b == MissingAntennaBehavior::kError ? "error" : b == MissingAntennaBehavior::kFlag ? "flag" : "unit";
  }

  typedef std::function<void(const std::vector<double>&, const std::vector<double>&, const std::vector<std::string>&,
                             hsize_t)>
      ObserverType;
  static ObserverType& Observer() {
    static ObserverType o;
    return o;
  }

  /// The Jones matrix of a table at one place; also used by the oracles.
  static std::array<std::complex<float>, 4> Value(GainType type, InterpolationType interpolation, hsize_t direction,
                                                  const SolTab* first, const SolTab* second, const std::string& antenna,
                                                  double time, double freq) {
    const auto get = [&](const SolTab& tab, size_t pol) {
      return Lookup(tab, interpolation, direction, antenna, time, freq, pol);
    };
    const auto polar = [](double a, double p) {
      return std::complex<float>(static_cast<float>(a * std::cos(p)), static_cast<float>(a * std::sin(p)));
    };
    switch (type) {
      case GainType::kFullJones: {
        std::array<std::complex<float>, 4> j;
        for (size_t p = 0; p < 4; ++p) j[p] = polar(get(*first, p), second ? get(*second, p) : 0.0);
        return j;
      }
      case GainType::kDiagonalComplex:
        return {polar(get(*first, 0), second ? get(*second, 0) : 0.0),
                polar(get(*first, 1), second ? get(*second, 1) : 0.0)};
      case GainType::kScalarPhase:
        return {polar(1, get(*first, 0)), polar(1, get(*first, 0))};
      case GainType::kDiagonalPhase:
        return {polar(1, get(*first, 0)), polar(1, get(*first, 1))};
      case GainType::kScalarAmplitude:
        return {polar(get(*first, 0), 0), polar(get(*first, 0), 0)};
      case GainType::kDiagonalAmplitude:
        return {polar(get(*first, 0), 0), polar(get(*first, 1), 0)};
      case GainType::kTec:
        return {polar(1, get(*first, 0) * -8.44797245e9 / freq), polar(1, get(*first, 1) * -8.44797245e9 / freq)};
      case GainType::kClock:
        return {polar(1, get(*first, 0) * 2 * M_PI * freq), polar(1, get(*first, 1) * 2 * M_PI * freq)};
      case GainType::kRotationAngle:
      case GainType::kRotationMeasure:
        return FromParameters(type, {get(*first, 0)}, freq);
      default:
        throw std::runtime_error("gain type not simulated");
    }
  }

 private:
  static double Lookup(const SolTab& tab, InterpolationType interpolation, hsize_t direction, const std::string& antenna,
                       double time, double freq, size_t pol) {
    std::map<std::string, size_t> at;
    at["dir"] = direction;
    if (tab.HasAxis("ant")) at["ant"] = tab.GetAntIndex(antenna);
    if (tab.HasAxis("pol")) at["pol"] = std::min<size_t>(pol, tab.GetAxis("pol").size - 1);
    const std::vector<double>& times = tab.Tab().times;
    const std::vector<double>& freqs = tab.Tab().freqs;
    const auto nearest = [](const std::vector<double>& v, double x) {
      size_t best = 0;
      for (size_t i = 1; i < v.size(); ++i)
        if (std::abs(v[i] - x) < std::abs(v[best] - x)) best = i;
      return best;
    };
    at["freq"] = nearest(freqs, freq);
    if (interpolation == InterpolationType::NEAREST || times.size() < 2) {
      at["time"] = nearest(times, time);
      return tab.At(at);
    }
    size_t k = 1;
    while (k + 1 < times.size() && times[k] < time) ++k;
    const double w = std::clamp((time - times[k - 1]) / (times[k] - times[k - 1]), 0.0, 1.0);
    at["time"] = k - 1;
    const double a = tab.At(at);
    at["time"] = k;
    return a + w * (tab.At(at) - a);
  }
  static void Invert(std::array<std::complex<float>, 4>& j, bool full) {
    if (!full) {
      j[0] = 1.0f / j[0];
      j[1] = 1.0f / j[1];
      return;
    }
    const std::complex<float> det = j[0] * j[3] - j[1] * j[2];
    j = {j[3] / det, -j[1] / det, -j[2] / det, j[0] / det};
  }

  casacore::Cube<std::complex<float>> parms_;
};

}  // namespace schaapcommon::h5parm
#endif
