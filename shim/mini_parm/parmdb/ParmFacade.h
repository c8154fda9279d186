// Stand-in for the parameter database: parameters are functions of time and
// frequency, kept in memory; reading them can fail.
#ifndef VERIF_MINI_PARMFACADE_H
#define VERIF_MINI_PARMFACADE_H

#include <casacore/casa/Arrays/Array.h>
#include <casacore/casa/Arrays/Vector.h>

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace dp3 {
namespace parmdb {

struct MiniParmDb {
  std::map<std::string, std::function<double(double time, double freq)>> values;
  std::map<std::string, double> defaults;
};
struct MiniParmDisk {
  std::map<std::string, MiniParmDb> files;
  std::function<void(const char* what, const std::string& file)> hook;
  static MiniParmDisk& Get() {
    static MiniParmDisk d;
    return d;
  }
};

class MiniRecord {
 public:
  size_t size() const { return v_.size(); }
  size_t nfields() const { return v_.size(); }
  void get(size_t i, casacore::Array<double>& out) const {
    casacore::Vector<double> v(1);
    v[0] = v_.at(i);
    out.resize(v.shape());
    out = v;
  }
  std::vector<double> v_;
};

/// Shell patterns with * and {a,b}.
inline bool MatchParmPattern(const std::string& pattern, const std::string& name) {
  const size_t open = pattern.find('{');
  if (open != std::string::npos) {
    const size_t close = pattern.find('}', open);
    const std::string inner = pattern.substr(open + 1, close - open - 1);
    size_t at = 0;
    while (true) {
      const size_t comma = inner.find(',', at);
      const std::string one = inner.substr(at, comma == std::string::npos ? std::string::npos : comma - at);
      if (MatchParmPattern(pattern.substr(0, open) + one + pattern.substr(close + 1), name)) return true;
      if (comma == std::string::npos) return false;
      at = comma + 1;
    }
  }
  const size_t star = pattern.find('*');
  if (star == std::string::npos) return pattern == name;
  if (name.compare(0, star, pattern, 0, star) != 0) return false;
  for (size_t i = star; i <= name.size(); ++i)
    if (MatchParmPattern(pattern.substr(star + 1), name.substr(i))) return true;
  return false;
}

class ParmFacade {
 public:
  explicit ParmFacade(const std::string& name, bool = false) : name_(name) {
    Touch("open");
    if (!MiniParmDisk::Get().files.count(name)) throw std::runtime_error("Table " + name + " does not exist");
  }
  std::vector<std::string> getNames(const std::string& pattern = "", bool include_defaults = false) const {
    Touch("read");
    std::vector<std::string> out;
    for (const auto& [name, f] : Db().values)
      if (pattern.empty() || MatchParmPattern(pattern, name)) out.push_back(name);
    return out;
  }
  std::vector<std::string> getDefNames(const std::string& pattern = "") const {
    Touch("read");
    std::vector<std::string> out;
    for (const auto& [name, f] : Db().defaults)
      if (pattern.empty() || MatchParmPattern(pattern, name)) out.push_back(name);
    return out;
  }
  MiniRecord getDefValues(const std::string& pattern = "") const {
    Touch("read");
    MiniRecord r;
    for (const auto& [name, v] : Db().defaults)
      if (pattern.empty() || MatchParmPattern(pattern, name)) r.v_.push_back(v);
    return r;
  }
  std::map<std::string, std::vector<double>> getValuesMap(const std::string& pattern, double f1, double f2, double df, double t1,
                                                          double t2, double dt, bool start_end = false, bool = false) const {
    Touch("read");
    if (!start_end) throw std::runtime_error("only domains given by start and end are simulated");
    const long nf = std::max(1l, std::lround((f2 - f1) / df)), nt = std::max(1l, std::lround((t2 - t1) / dt));
    std::map<std::string, std::vector<double>> out;
    for (const auto& [name, f] : Db().values) {
      if (!MatchParmPattern(pattern, name)) continue;
      std::vector<double>& v = out[name];
      for (long t = 0; t < nt; ++t)
        for (long c = 0; c < nf; ++c) v.push_back(f(t1 + (t + 0.5) * (t2 - t1) / nt, f1 + (c + 0.5) * (f2 - f1) / nf));
    }
    return out;
  }

 private:
  const MiniParmDb& Db() const { return MiniParmDisk::Get().files.at(name_); }
  void Touch(const char* what) const {
    if (MiniParmDisk::Get().hook) MiniParmDisk::Get().hook(what, name_);
  }
  std::string name_;
};

}  // namespace parmdb
}  // namespace dp3
#endif
