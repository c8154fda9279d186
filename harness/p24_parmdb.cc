// P24: a parameter database gives back exactly what is stored in it, whatever
// happened to it before.
#include "../sim/sim.h"

#include "parmdb/Axis.h"
#include "parmdb/Grid.h"
#include "parmdb/Parm.h"
#include "parmdb/ParmCache.h"
#include "parmdb/ParmDB.h"
#include "parmdb/ParmDBMeta.h"
#include "parmdb/ParmFacadeLocal.h"
#include "parmdb/ParmSet.h"
#include "parmdb/ParmValue.h"

#include "mini_tables.h"

#include <cmath>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

const char* const kProperty = "P24";
using namespace dp3::parmdb;
typedef casacore::Array<double> Arr;
typedef std::vector<double> Vec;

namespace casacore {
void MiniIndexError(const char* what) { sim::Fail("bad-index", std::string("an index is out of range: ") + what); }
}  // namespace casacore

namespace {
enum { kAdd, kPut, kUpdate, kSolve, kGet, kPredict, kNative, kCoeff, kDelete, kPutDef, kDeleteDef, kGetDef, kSteps, kReopen, kClear, kNames, kRange, kGrid, kExtend, kOps };
const char* const kOpNames[] = {"addValues", "putValues", "update", "solve", "getValues", "predict", "getValuesGrid", "getCoeff", "deleteValues", "putDefValue",
                                "deleteDefValues", "getDefValue", "defaultSteps", "reopen", "clearTables", "getNames", "getRange", "axes", "extend"};
const char* const kParms[] = {"Gain:0:0:Real:A", "Gain:0:0:Imag:A", "Gain:1:1:Real:B", "Gain:1:1:Real:AB", "Clock:A", "Poly:A", "Poly:B:x"};
const char* const kDefs[] = {"Gain", "Gain:0", "Gain:0:0", "Gain:1:1:Real:B", "Clock:A", "Poly", "Poly:B", "Poly:A"};
const char* const kPatterns[] = {"*", "", "Gain:*", "*:A", "Gain:0:?:Real:*", "Poly*", "Gain:1:1:Real:B", "Poly:B:?", "Clock:A", "none*"};
const size_t kNParms = 7, kNDefs = 8, kNPatterns = 10, kChunks = 6;
const char* const kTable = "sols.pdb";

bool Glob(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return Glob(p + 1, s) || (*s && Glob(p, s + 1));
  return *s && (*p == '?' || *p == *s) && Glob(p + 1, s + 1);
}
bool Matches(const std::string& pattern, const std::string& name) { return pattern.empty() || Glob(pattern.c_str(), name.c_str()); }
bool IsPoly(const std::string& name) { return name.rfind("Poly", 0) == 0; }
bool Close(double a, double b, double tol = 1e-12) { return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
std::string S(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.12g", v);
  return b;
}

struct Cells {
  Vec low, up;
  size_t size() const { return low.size(); }
  Vec Centers() const {
    Vec v;
    for (size_t i = 0; i < size(); ++i) v.push_back(0.5 * (low[i] + up[i]));
    return v;
  }
  Vec Widths() const {
    Vec v;
    for (size_t i = 0; i < size(); ++i) v.push_back(up[i] - low[i]);
    return v;
  }
  // The cell that certainly contains x, or -1.
  int Find(double x) const {
    for (size_t i = 0; i < size(); ++i)
      if (x > low[i] + 1e-2 * (up[i] - low[i]) && x < up[i] - 1e-2 * (up[i] - low[i])) return i;
    return -1;
  }
};
struct Region {
  double x0 = 0, x1 = 0, y0 = 0, y1 = 0;
  bool Overlaps(const Region& o) const {  // o is a query: an empty range means everything
    const bool x = !(o.x0 < o.x1) || (o.x0 < x1 && !Close(o.x0, x1) && o.x1 > x0 && !Close(o.x1, x0));
    const bool y = !(o.y0 < o.y1) || (o.y0 < y1 && !Close(o.y0, y1) && o.y1 > y0 && !Close(o.y1, y0));
    return x && y;
  }
  Box ToBox() const { return Box(Point(x0, y0), Point(x1, y1)); }
};
struct Row {
  Region r;
  Cells x, y;  // of a scalar
  size_t nx = 1, ny = 1;
  Vec values, errors;
};
struct Par {
  bool poly = false;
  double pert = 1e-6;
  bool rel = true;
  std::vector<char> mask;
  std::vector<Row> rows;
};
struct Def {
  bool poly = false;
  size_t nx = 1, ny = 1;
  Vec values;
  double pert = 1e-6;
  bool rel = true;
  std::vector<char> mask;
  Region scale;
};
struct Model {
  std::map<std::string, Par> pars;
  std::vector<std::string> ids;
  std::map<std::string, Def> defs;
  double steps[2] = {1000, 1};
  const Def* Default(std::string name) const {
    while (true) {
      auto it = defs.find(name);
      if (it != defs.end()) return &it->second;
      const size_t i = name.rfind(':');
      if (i == std::string::npos) return nullptr;
      name = name.substr(0, i);
    }
  }
  std::vector<const Row*> Select(const std::string& name, const Region& q) const {
    std::vector<const Row*> v;
    auto it = pars.find(name);
    if (it == pars.end()) return v;
    for (const Row& r : it->second.rows)
      if (r.r.Overlaps(q)) v.push_back(&r);
    std::sort(v.begin(), v.end(), [](const Row* a, const Row* b) { return a->r.y0 != b->r.y0 ? a->r.y0 < b->r.y0 : a->r.x0 < b->r.x0; });
    return v;
  }
};

struct World {
  size_t pieces = 1, px = 2, py = 1;
  double t0 = 4.5e9;
  Vec freq, time;  // the edges
  Model m;
  std::unique_ptr<ParmDB> db;
  std::unique_ptr<ParmFacadeLocal> facade;
};
struct Outcome {
  bool threw = false, fault = false;
  std::string why;
};
template <class F>
Outcome Try(F f) {
  Outcome o;
  const uint64_t before = sim::TotalFaultsFired();
  try {
    sim::FaultScope scope;
    f();
  } catch (const std::exception& e) {
    o.threw = true;
    o.why = e.what();
  }
  o.fault = sim::TotalFaultsFired() != before;
  return o;
}

Arr ToArr(const Vec& v, size_t nx, size_t ny) {
  Arr a(casacore::IPosition(2, nx, ny));
  std::copy(v.begin(), v.end(), a.data());
  return a;
}
Arr ToArr1(const Vec& v) {
  Arr a(casacore::IPosition(1, v.size()));
  std::copy(v.begin(), v.end(), a.data());
  return a;
}
casacore::Array<bool> ToMask(const std::vector<char>& v, size_t nx, size_t ny) {
  casacore::Array<bool> a(casacore::IPosition(2, nx, ny));
  std::copy(v.begin(), v.end(), a.data());
  return a;
}
Axis::ShPtr ToAxis(const Cells& c, bool regular, sim::Rng& r) {
  if (regular && r.Chance(0.5)) return std::make_shared<RegularAxis>(c.low.front(), c.up.back(), c.size(), true);
  if (r.Chance(0.5)) return std::make_shared<OrderedAxis>(c.low, c.up, true);
  return Axis::makeAxis(c.low, c.up);
}

// Cells between two edges: regular, irregular, or (if allowed) with holes.
Cells MakeCells(sim::Rng& r, double a, double b, size_t max, bool holes, bool& regular) {
  const size_t n = 1 + r.Below(max);
  const int kind = n == 1 ? 0 : r.Below(holes ? 4 : 3);
  Cells c;
  regular = kind < 2;
  if (kind < 2) {
    for (size_t i = 0; i < n; ++i) {
      c.low.push_back(a + (b - a) * i / n);
      c.up.push_back(a + (b - a) * (i + 1) / n);
    }
  } else if (kind == 2) {
    double w[8], sum = 0;
    for (size_t i = 0; i < n; ++i) sum += w[i] = 1 + r.Below(3);
    double at = 0;
    for (size_t i = 0; i < n; ++i) {
      c.low.push_back(i ? c.up.back() : a);
      at += w[i];
      c.up.push_back(i + 1 == n ? b : a + (b - a) * at / sum);
    }
  } else {
    const double w = (b - a) / (2 * n - 1);
    for (size_t i = 0; i < n; ++i) {
      c.low.push_back(a + 2 * i * w);
      c.up.push_back(i + 1 == n ? b : a + (2 * i + 1) * w);
    }
    sim::Probe("cells with holes");
  }
  return c;
}
Cells FreqCells(const World& w, size_t parm, size_t piece) {
  sim::Rng r(1000 + parm * 7 + piece * 131 + w.px);
  bool regular;
  return MakeCells(r, w.freq[piece], w.freq[piece + 1], 3, true, regular);
}
Vec Random(sim::Rng& r, size_t n) {
  Vec v;
  for (size_t i = 0; i < n; ++i) v.push_back(r.Below(2000001) * 1e-5 - 10);
  return v;
}
std::vector<char> RandomMask(sim::Rng& r, size_t n) {
  std::vector<char> v;
  for (size_t i = 0; i < n; ++i) v.push_back(r.Chance(0.6));
  return v;
}

// The rows of a parameter in one chunk of time.
std::vector<Row> MakeRows(const World& w, size_t parm, size_t chunk, sim::Rng& r) {
  std::vector<Row> rows;
  bool regular;
  const Cells y = MakeCells(r, w.time[chunk], w.time[chunk + 1], 4, true, regular);
  const bool errors = r.Chance(0.4);
  for (size_t p = 0; p < w.pieces; ++p) {
    Row row;
    row.r = {w.freq[p], w.freq[p + 1], w.time[chunk], w.time[chunk + 1]};
    if (IsPoly(kParms[parm])) {
      row.nx = w.px;
      row.ny = w.py;
    } else {
      row.x = FreqCells(w, parm, p);
      row.y = y;
      row.nx = row.x.size();
      row.ny = row.y.size();
    }
    row.values = Random(r, row.nx * row.ny);
    if (errors) row.errors = Random(r, row.nx * row.ny);
    rows.push_back(row);
  }
  return rows;
}
bool Regular(const Cells& c) {
  for (size_t i = 0; i < c.size(); ++i)
    if (!Close(c.up[i] - c.low[i], c.up[0] - c.low[0], 1e-9) || (i && c.low[i] != c.up[i - 1])) return false;
  return true;
}
std::shared_ptr<ParmValue> ToValue(const Row& row, bool poly, sim::Rng& r) {
  auto v = std::make_shared<ParmValue>();
  if (poly)
    v->setCoeff(ToArr(row.values, row.nx, row.ny));
  else
    v->setScalars(Grid(ToAxis(row.x, Regular(row.x), r), ToAxis(row.y, Regular(row.y), r)), ToArr(row.values, row.nx, row.ny));
  if (!row.errors.empty()) v->setErrors(ToArr(row.errors, row.nx, row.ny));
  return v;
}

Region Query(const World& w, int64_t seed, bool all_freq) {
  sim::Rng r(seed);
  Region q;
  if (all_freq || r.Chance(0.5)) {
    if (r.Chance(0.5)) {
      q.x0 = w.freq.front();
      q.x1 = w.freq.back();
    }
  } else {
    const double a = w.freq.front() - 10e6 + r.Below(13) * 10e6;
    q.x0 = a;
    q.x1 = a + (1 + r.Below(5)) * 10e6;
  }
  if (r.Chance(0.8)) {
    if (r.Chance(0.5)) {
      const size_t a = r.Below(kChunks), n = 1 + r.Below(kChunks - a);
      q.y0 = w.time[a];
      q.y1 = w.time[a + n];
    } else {
      q.y0 = w.t0 - 2.3 + r.Below(30) * 1.1;
      q.y1 = q.y0 + 0.7 + r.Below(20) * 1.3;
    }
  }
  return q;
}

[[noreturn]] void Bad(const std::string& what, const std::string& name, const std::string& why) { sim::Fail(what, name + ": " + why); }

void CompareAxis(const Axis& a, const Cells& c, const std::string& name) {
  if (a.size() != c.size()) Bad("cells", name, std::to_string(a.size()) + " cells instead of " + std::to_string(c.size()));
  for (size_t i = 0; i < c.size(); ++i)
    if (!Close(a.lower(i), c.low[i]) || !Close(a.upper(i), c.up[i]))
      Bad("cells", name, "cell " + std::to_string(i) + " is " + S(a.lower(i)) + ".." + S(a.upper(i)) + " instead of " + S(c.low[i]) + ".." + S(c.up[i]));
}
void CompareArr(const Arr& a, const Vec& v, size_t nx, size_t ny, const std::string& cls, const std::string& name) {
  if (a.ndim() != 2 || size_t(a.shape()[0]) != nx || size_t(a.shape()[1]) != ny) Bad(cls, name, "the shape changed");
  const std::vector<double> got = a.tovector();
  for (size_t i = 0; i < v.size(); ++i)
    if (got[i] != v[i]) Bad(cls, name, "element " + std::to_string(i) + " is " + S(got[i]) + " instead of " + S(v[i]));
}
void CompareMask(const casacore::Array<bool>& a, const std::vector<char>& m, const std::string& name) {
  const std::vector<bool> got = a.tovector();
  if (got.size() != m.size()) Bad("mask", name, "a mask of " + std::to_string(got.size()) + " instead of " + std::to_string(m.size()) + " values");
  for (size_t i = 0; i < m.size(); ++i)
    if (got[i] != bool(m[i])) Bad("mask", name, "the mask changed");
}
void CompareSet(const World& w, const std::string& name, const ParmValueSet& set, const Region& q) {
  const std::vector<const Row*> rows = w.m.Select(name, q);
  const Par& par = w.m.pars.at(name);
  if (set.size() != rows.size()) Bad("selection", name, std::to_string(set.size()) + " values instead of " + std::to_string(rows.size()));
  if ((set.getType() != ParmValue::Scalar) != par.poly) Bad("type", name, "the type changed");
  if (set.getPerturbation() != par.pert || set.getPertRel() != par.rel) Bad("perturbation", name, "the perturbation changed");
  CompareMask(set.getSolvableMask(), par.mask, name);
  if (set.getGrid().size() != rows.size()) Bad("domains", name, "the grid of domains has a wrong size");
  for (size_t i = 0; i < rows.size(); ++i) {
    const Row& r = *rows[i];
    const ParmValue& v = set.getParmValue(i);
    const Box b = set.getGrid().getCell(i);
    if (!Close(b.lowerX(), r.r.x0) || !Close(b.upperX(), r.r.x1) || !Close(b.lowerY(), r.r.y0) || !Close(b.upperY(), r.r.y1))
      Bad("domains", name, "domain " + std::to_string(i) + " changed");
    CompareArr(v.getValues(), r.values, r.nx, r.ny, "values", name);
    if (v.hasErrors() != !r.errors.empty()) Bad("errors", name, v.hasErrors() ? "errors appeared" : "errors were lost");
    if (v.hasErrors()) CompareArr(v.getErrors(), r.errors, r.nx, r.ny, "errors", name);
    if (!par.poly) {
      CompareAxis(*v.getGrid().getAxis(0), r.x, name);
      CompareAxis(*v.getGrid().getAxis(1), r.y, name);
    }
    if (v.getRowId() < 0) Bad("row", name, "a stored value has no row");
  }
}
// Everything in the database, except the parameter that may have changed.
void CompareAll(World& w, const std::string& except) {
  sim::Quiet q;
  ParmMap map;
  if (except.empty())
    w.db->getValues(map, "*", Box());
  else
    for (auto& e : w.m.pars)
      if (e.first != except && e.first != w.m.ids[0]) w.db->getValues(map, e.first, Box());
  for (auto& [name, par] : w.m.pars) {
    // A row that could not be completed may look like one of the first parameter.
    if (!except.empty() && (name == except || name == w.m.ids[0])) continue;
    auto it = map.find(name);
    if (it == map.end()) {
      if (!par.rows.empty()) Bad("lost", name, "its values are gone");
      continue;
    }
    CompareSet(w, name, it->second, Region());
  }
  for (auto& e : map)
    if (e.first != except && !w.m.pars.count(e.first)) Bad("appeared", e.first, "a parameter appeared");
}

double Eval(const Row& r, double x, double y) {
  const double u = (x - r.r.x0) / (r.r.x1 - r.r.x0), v = (y - r.r.y0) / (r.r.y1 - r.r.y0);
  double sum = 0;
  for (size_t j = 0; j < r.ny; ++j)
    for (size_t i = 0; i < r.nx; ++i) sum += r.values[i + j * r.nx] * std::pow(u, i) * std::pow(v, j);
  return sum;
}
// The value at a point, if the point is certainly in a stored cell.
std::optional<double> At(const std::vector<const Row*>& rows, bool poly, double x, double y) {
  for (const Row* r : rows) {
    if (poly) {
      const double mx = 1e-3 * (r->r.x1 - r->r.x0), my = 1e-3 * (r->r.y1 - r->r.y0);
      if (x > r->r.x0 + mx && x < r->r.x1 - mx && y > r->r.y0 + my && y < r->r.y1 - my) return Eval(*r, x, y);
    } else {
      const int i = r->x.Find(x), j = r->y.Find(y);
      if (i >= 0 && j >= 0) return r->values[i + j * r->nx];
    }
  }
  return std::nullopt;
}
std::string Name(const sim::Op& op) { return kParms[op.Arg(0) % kNParms]; }

void SetValues(World& w, const std::string& name, const std::vector<Row>& rows, double pert, bool rel, const std::vector<char>& mask) {
  if (!w.m.pars.count(name)) {
    Par& p = w.m.pars[name];
    p.poly = IsPoly(name);
    p.pert = pert;
    p.rel = rel;
    p.mask = mask;
    w.m.ids.push_back(name);
  }
  Par& p = w.m.pars[name];
  for (const Row& r : rows) p.rows.push_back(r);
}
void Open(World& w, bool force, bool facade_first) {
  if (facade_first) {
    w.facade = std::make_unique<ParmFacadeLocal>(kTable, force);
    w.db = std::make_unique<ParmDB>(ParmDBMeta("casa", kTable), false);
  } else {
    w.db = std::make_unique<ParmDB>(ParmDBMeta("casa", kTable), force);
    w.facade = std::make_unique<ParmFacadeLocal>(kTable, false);
  }
}
void Unexpected(const Outcome& o, const char* op, const std::string& name) {
  if (o.threw && !o.fault) sim::Fail("unexpected-error", std::string(op) + " of " + name + ": " + o.why);
}
}  // namespace

std::string Describe(const sim::Op& op) {
  std::string s = kOpNames[op.kind % kOps];
  for (size_t i = 0; i < op.a.size(); ++i) s += (i ? "," : "(") + std::to_string(op.a[i]);
  return op.a.empty() ? s : s + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  plan.knobs["pieces"] = rng.Chance(0.7) ? 1 : 2;
  plan.knobs["px"] = 1 + rng.Below(3);
  plan.knobs["py"] = 1 + rng.Below(3);
  plan.knobs["time_seed"] = rng.Below(1000);
  plan.knobs["t0"] = rng.Below(3);
  plan.knobs["parms"] = 1 + rng.Below(kNParms);
  plan.knobs["races"] = 0;
  if (rng.Chance(0.4)) {
    plan.knobs["rate_table_read_error"] = 1 + rng.Below(30);
    plan.knobs["rate_table_write_error"] = rng.Below(20);
  }
  const int weights[kOps] = {14, 12, 8, 8, 8, 10, 6, 5, 6, 6, 2, 5, 2, 4, 1, 3, 3, 3, 8};
  int total = 0;
  for (int x : weights) total += x;
  const size_t n = 4 + rng.Below(40), first = rng.Below(kNParms), np = plan.knobs["parms"];
  for (size_t i = 0; i < n; ++i) {
    int at = rng.Below(total), kind = 0;
    while (at >= weights[kind]) at -= weights[kind++];
    const int64_t parm = (first + rng.Below(np)) % kNParms, seed = rng.Below(1 << 30);
    switch (kind) {
      case kAdd:
      case kPut:
      case kUpdate:
      case kSolve:
      case kExtend: plan.Add(kind, {parm, int64_t(rng.Below(kChunks)), seed}); break;
      case kPutDef:
      case kDeleteDef: plan.Add(kind, {int64_t(rng.Below(kNDefs)), seed}); break;
      case kGetDef: plan.Add(kind, {parm, seed}); break;
      case kReopen: plan.Add(kind, {int64_t(rng.Chance(0.15)), int64_t(rng.Below(2))}); break;
      case kClear: plan.Add(kind, {}); break;
      default: plan.Add(kind, {int64_t(rng.Chance(0.3) ? kNPatterns + parm : rng.Below(kNPatterns)), seed}); break;
    }
  }
}

namespace {
std::string Pattern(const sim::Op& op) {
  const size_t i = op.Arg(0) % (kNPatterns + kNParms);
  return i < kNPatterns ? kPatterns[i] : kParms[i - kNPatterns];
}

casacore::Record ToRecord(const Row& row, bool poly, bool with_type, const std::vector<char>& mask) {
  casacore::Record rec;
  if (row.values.size() == 1 && row.nx == 1 && row.ny == 1 && !poly)
    rec.define("values", row.values[0]);
  else
    rec.define("values", ToArr(row.values, row.nx, row.ny));
  if (!row.errors.empty()) rec.define("errors", ToArr(row.errors, row.nx, row.ny));
  Cells x = row.x, y = row.y;
  if (poly) {
    x.low = {row.r.x0};
    x.up = {row.r.x1};
    y.low = {row.r.y0};
    y.up = {row.r.y1};
  }
  rec.define("freqs", ToArr1(x.Centers()));
  rec.define("freqwidths", ToArr1(x.Widths()));
  rec.define("times", ToArr1(y.Centers()));
  rec.define("timewidths", ToArr1(y.Widths()));
  if (with_type) rec.define("type", std::string(poly ? "polc" : "scalar"));
  if (!mask.empty()) rec.define("mask", ToMask(mask, row.nx, row.ny));
  return rec;
}

// Store new values with the facade; false ends the run.
bool DoAdd(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  const bool poly = IsPoly(name);
  const size_t chunk = op.Arg(1) % kChunks;
  sim::Rng r(op.Arg(2));
  std::vector<Row> rows;
  std::vector<char> mask;
  casacore::Record rec;
  bool exists, known;
  {
    sim::Quiet q;
    known = w.m.pars.count(name);
    rows = MakeRows(w, op.Arg(0) % kNParms, chunk, r);
    if (poly && r.Chance(0.3)) mask = RandomMask(r, rows[0].nx * rows[0].ny);
    Region all = rows.front().r;
    all.x1 = rows.back().r.x1;
    exists = !w.m.Select(name, all).empty();
    rec = casacore::Record();
  }
  const Def* def = w.m.Default(name);
  // The mask of a default value must fit the coefficients.
  if (poly && !known && mask.empty() && def && !def->mask.empty() && (def->nx != w.px || def->ny != w.py)) return true;
  for (size_t i = 0; i < rows.size(); ++i) {
    casacore::Record one;
    {
      sim::Quiet q;
      one.defineRecord(name, ToRecord(rows[i], poly, !known || r.Chance(0.3), known ? std::vector<char>() : mask));
    }
    const Outcome o = Try([&] { w.facade->addValues(one); });
    if (exists) {
      if (!o.threw) Bad("overwritten", name, "adding values to a domain that has values succeeded");
      if (o.fault) return true;
      break;
    }
    Unexpected(o, "addValues", name);
    if (o.fault) {
      if (!o.threw) Bad("error-hidden", name, "an error while adding values was not reported");
      sim::Probe("failed write");
      CompareAll(w, name);
      return false;
    }
    sim::Quiet q;
    // Of a new parameter the properties are those of its default value.
    SetValues(w, name, {rows[i]}, def ? def->pert : 1e-6, def ? def->rel : true, mask.empty() && def ? def->mask : mask);
    sim::Probe("added");
  }
  if (exists) sim::Probe("add to an existing domain");
  return true;
}

bool DoPut(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  const bool poly = IsPoly(name);
  sim::Rng r(op.Arg(2));
  const size_t chunk = op.Arg(1) % kChunks;
  std::vector<Row> rows;
  std::unique_ptr<ParmValueSet> set;
  std::vector<char> mask;
  double pert;
  bool rel;
  {
    sim::Quiet q;
    rows = MakeRows(w, op.Arg(0) % kNParms, chunk, r);
    Region all = rows.front().r;
    all.x1 = rows.back().r.x1;
    if (!w.m.Select(name, all).empty()) return true;
    pert = 1e-3 * (1 + r.Below(5));
    rel = r.Chance(0.5);
    if (r.Chance(0.3)) mask = RandomMask(r, rows[0].nx * rows[0].ny);
    std::vector<ParmValue::ShPtr> values;
    std::vector<Box> boxes;
    for (const Row& row : rows) {
      values.push_back(ToValue(row, poly, r));
      boxes.push_back(row.r.ToBox());
    }
    set = std::make_unique<ParmValueSet>(Grid(boxes), values, ParmValue(), poly ? ParmValue::Polc : ParmValue::Scalar, pert, rel);
    if (!mask.empty()) set->setSolvableMask(ToMask(mask, rows[0].nx, rows[0].ny));
  }
  const Outcome o = Try([&] {
    int id = w.db->getNameId(name);
    w.db->putValues(name, id, *set);
    if (id < 0) sim::Fail("name-id", name + ": no id after putValues");
  });
  Unexpected(o, "putValues", name);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", name, "an error while storing values was not reported");
    CompareAll(w, name);
    return false;
  }
  sim::Quiet q;
  SetValues(w, name, rows, pert, rel, mask);
  sim::Probe("put");
  return true;
}

bool DoUpdate(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  const bool poly = IsPoly(name);
  sim::Rng r(op.Arg(2));
  Region q;
  {
    sim::Quiet quiet;
    q = Query(w, op.Arg(2), true);
    if (w.m.Select(name, q).empty()) return true;
  }
  ParmMap map;
  Outcome o = Try([&] { w.db->getValues(map, name, q.ToBox()); });
  Unexpected(o, "getValues", name);
  if (o.threw) return true;
  auto it = map.find(name);
  if (it == map.end()) Bad("lost", name, "its values are gone");
  CompareSet(w, name, it->second, q);
  std::vector<Row> changed;
  {
    sim::Quiet quiet;
    double last = -1;
    Cells y;
    bool reshape = false;
    for (const Row* row : w.m.Select(name, q)) {
      Row n = *row;
      if (n.r.y0 != last) {
        reshape = !poly && r.Chance(0.3);
        bool regular;
        y = MakeCells(r, n.r.y0, n.r.y1, 4, true, regular);
        // A value with the same number of cells keeps its cells.
        reshape = reshape && y.size() != n.ny;
        last = n.r.y0;
      }
      if (reshape) {
        n.y = y;
        n.ny = y.size();
      }
      n.values = Random(r, n.nx * n.ny);
      if (!n.errors.empty() || r.Chance(0.2)) n.errors = Random(r, n.nx * n.ny);
      ParmValue& v = it->second.getParmValue(changed.size());
      if (poly)
        v.setCoeff(ToArr(n.values, n.nx, n.ny));
      else
        v.setScalars(reshape ? Grid(ToAxis(n.x, Regular(n.x), r), ToAxis(n.y, Regular(n.y), r)) : v.getGrid(), ToArr(n.values, n.nx, n.ny));
      if (!n.errors.empty()) v.setErrors(ToArr(n.errors, n.nx, n.ny));
      if (reshape) sim::Probe("other cells");
      changed.push_back(n);
    }
  }
  o = Try([&] {
    int id = w.db->getNameId(name);
    w.db->putValues(name, id, it->second);
  });
  Unexpected(o, "putValues", name);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", name, "an error while updating values was not reported");
    CompareAll(w, name);
    return false;
  }
  sim::Quiet quiet;
  std::vector<const Row*> rows = w.m.Select(name, q);
  for (size_t i = 0; i < rows.size(); ++i) *const_cast<Row*>(rows[i]) = changed[i];
  sim::Probe("updated");
  return true;
}

// Solve for a chunk: set the solve grid, store coefficients, write them.
// What a new domain starts with when it is solved.
void CheckStart(World& w, const std::string& name, const Def& def, const Region& cell, bool poly, const std::vector<double>& start) {
  sim::Quiet q;
  if (!poly) {
    if (start.size() != 1 || (def.values.size() == 1 && start[0] != def.values[0])) Bad("start", name, "a new value is not the default");
    return;
  }
  if (start.size() != def.values.size()) Bad("start", name, "a wrong number of coefficients");
  if (!(def.scale.x0 < def.scale.x1)) {
    if (start != def.values) Bad("start", name, "new coefficients are not the default");
    return;
  }
  for (double u : {0.25, 0.8})
    for (double v : {0.3, 0.9}) {
      const double a = (cell.x0 + u * (cell.x1 - cell.x0) - def.scale.x0) / (def.scale.x1 - def.scale.x0);
      const double b = (cell.y0 + v * (cell.y1 - cell.y0) - def.scale.y0) / (def.scale.y1 - def.scale.y0);
      double want = 0, got = 0, size = 1;
      for (size_t j = 0; j < def.ny; ++j)
        for (size_t i = 0; i < def.nx; ++i) {
          const double x = def.values[i + j * def.nx] * std::pow(a, i) * std::pow(b, j);
          want += x;
          size += std::abs(x);
          got += start[i + j * def.nx] * std::pow(u, i) * std::pow(v, j);
        }
      if (std::abs(got - want) > 1e-5 * size) Bad("start", name, "a new polynomial is " + S(got) + " instead of " + S(want));
      sim::Probe("rescaled default");
    }
}

bool DoSolve(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  const bool poly = IsPoly(name);
  const size_t chunk = op.Arg(1) % kChunks;
  sim::Rng r(op.Arg(2));
  if (!poly && w.pieces > 1) return true;
  const Def* def = w.m.Default(name);
  const bool known = w.m.pars.count(name);
  std::vector<const Row*> rows;
  const bool later = r.Chance(0.3);
  const std::vector<char> mask = known ? w.m.pars[name].mask : def ? def->mask : std::vector<char>();
  std::vector<Row> result;
  Cells x, y;
  Region work;
  std::optional<Grid> grid;
  {
    sim::Quiet q;
    work = {w.freq.front(), w.freq.back(), w.time[chunk], w.time[chunk + 1]};
    rows = w.m.Select(name, work);
    if (rows.empty() && poly && (!def || def->nx != w.px || def->ny != w.py)) return true;
    if (poly) {
      for (size_t p = 0; p < w.pieces; ++p) {
        x.low.push_back(w.freq[p]);
        x.up.push_back(w.freq[p + 1]);
      }
      if (!rows.empty()) {
        for (size_t i = 0; i < rows.size(); i += w.pieces) {
          y.low.push_back(rows[i]->r.y0);
          y.up.push_back(rows[i]->r.y1);
        }
      } else {
        bool regular;
        y = MakeCells(r, work.y0, work.y1, 3, false, regular);
      }
    } else if (!rows.empty()) {
      x = rows[0]->x;
      y = rows[0]->y;
    } else {
      bool regular;
      x = FreqCells(w, op.Arg(0) % kNParms, 0);
      y = MakeCells(r, work.y0, work.y1, 4, true, regular);
    }
    grid.emplace(ToAxis(x, Regular(x), r), ToAxis(y, Regular(y), r));
    if (poly) {
      for (size_t j = 0; j < y.size(); ++j)
        for (size_t i = 0; i < x.size(); ++i) {
          Row row;
          row.r = {x.low[i], x.up[i], y.low[j], y.up[j]};
          row.nx = w.px;
          row.ny = w.py;
          row.values = Random(r, row.nx * row.ny);
          row.errors = Random(r, row.nx * row.ny);
          result.push_back(row);
        }
    } else {
      Row row;
      row.r = work;
      row.x = x;
      row.y = y;
      row.nx = x.size();
      row.ny = y.size();
      row.values = Random(r, row.nx * row.ny);
      row.errors = Random(r, row.nx * row.ny);
      result.push_back(row);
    }
  }
  bool written = false;
  const Outcome o = Try([&] {
    ParmSet set;
    if (later) set.addParm(*w.db, "Unused:parm");
    ParmId id = later ? 0 : set.addParm(*w.db, name);
    ParmCache cache(set, work.ToBox());
    if (later) {
      id = set.addParm(*w.db, name);
      cache.cacheValues();
    }
    Parm parm(cache, id);
    parm.setSolveGrid(*grid);
    for (size_t j = 0; j < y.size(); ++j)
      for (size_t i = 0; i < x.size(); ++i) {
        if (rows.empty() && def) {
          // The solution starts with the default value.
          const std::vector<double> start = parm.getCoeff(Grid::Location(i, j), false);
          CheckStart(w, name, *def, Region{x.low[i], x.up[i], y.low[j], y.up[j]}, poly, start);
        }
        if (poly) {
          Row& row = result[i + j * x.size()];
          if (parm.getCoeffSize(false) != row.values.size()) sim::Fail("coeff-size", name + ": a wrong number of coefficients");
          parm.setCoeff(Grid::Location(i, j), row.values.data(), row.values.size(), row.errors.data(), false);
          if (parm.getCoeff(Grid::Location(i, j), false) != row.values) sim::Fail("coeff", name + ": the coefficients are not those set");
          if (mask.size() == row.values.size()) {
            // Replace the coefficients that can be solved.
            Vec v, e;
            for (size_t k = 0; k < mask.size(); ++k)
              if (mask[k]) {
                v.push_back(row.values[k] += 1.5 + k);
                e.push_back(row.errors[k] += 0.5 + k);
              }
            if (parm.getCoeffSize(true) != v.size()) sim::Fail("coeff-size", name + ": a wrong number of solvable coefficients");
            if (!v.empty()) parm.setCoeff(Grid::Location(i, j), v.data(), v.size(), e.data(), true);
            if (parm.getCoeff(Grid::Location(i, j), true) != v || parm.getErrors(Grid::Location(i, j), true) != e) sim::Fail("coeff", name + ": the solvable coefficients are not those set");
            if (parm.getCoeff(Grid::Location(i, j), false) != row.values) sim::Fail("coeff", name + ": other coefficients than the solvable ones have changed");
            sim::Probe("solved with a mask");
          }
        } else {
          parm.setCoeff(Grid::Location(i, j), &result[0].values[i + j * x.size()], 1, &result[0].errors[i + j * x.size()]);
          const std::vector<double> got = parm.getCoeff(Grid::Location(i, j));
          if (got.size() != 1 || got[0] != result[0].values[i + j * x.size()]) sim::Fail("coeff", name + ": the value is not the one set");
        }
      }
    written = true;
    cache.flush();
  });
  Unexpected(o, "solving", name);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", name, "an error while solving was not reported");
    CompareAll(w, name);
    return !written;
  }
  sim::Quiet q;
  if (rows.empty()) {
    SetValues(w, name, result, def ? def->pert : 1e-6, def ? def->rel : true, def ? def->mask : std::vector<char>());
    sim::Probe("solved a new domain");
  } else {
    for (size_t i = 0; i < rows.size(); ++i) {
      Row* row = const_cast<Row*>(rows[i]);
      row->values = result[i].values;
      row->errors = result[i].errors;
    }
    sim::Probe("solved an existing domain");
  }
  (void)known;
  return true;
}

// Solve next to the existing values of a parameter, which are extended.
bool DoExtend(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  const bool poly = IsPoly(name);
  if (!poly && w.pieces > 1) return true;
  const size_t chunk = op.Arg(1) % (kChunks - 1);
  sim::Rng r(op.Arg(2));
  std::vector<const Row*> rows;
  Cells x, old, y;    // the old cells, and those that are solved
  std::vector<Row> result;
  Region work;
  std::optional<Grid> grid;
  size_t first = 0;   // of the old cells, of those that are solved again
  bool before;        // the new cells are before the old ones
  size_t fresh;       // the number of new cells
  {
    sim::Quiet q;
    work = {w.freq.front(), w.freq.back(), w.time[chunk], w.time[chunk + 2]};
    rows = w.m.Select(name, work);
    if (rows.empty()) return true;
    for (const Row* row : rows)
      if (row->r.y0 < work.y0 || row->r.y1 > work.y1) return true;
    before = rows.front()->r.y0 != work.y0;
    if (before ? rows.back()->r.y1 != work.y1 || rows.front()->r.y0 != w.time[chunk + 1] : rows.back()->r.y1 != w.time[chunk + 1]) return true;
    if (!poly && rows.size() != 1) return true;
    bool regular;
    Cells add = MakeCells(r, before ? work.y0 : w.time[chunk + 1], before ? w.time[chunk + 1] : work.y1, 3, false, regular);
    fresh = add.size();
    if (poly) {
      for (size_t p = 0; p < w.pieces; ++p) {
        x.low.push_back(w.freq[p]);
        x.up.push_back(w.freq[p + 1]);
      }
      for (size_t i = 0; i < rows.size(); i += w.pieces) {
        old.low.push_back(rows[i]->r.y0);
        old.up.push_back(rows[i]->r.y1);
      }
    } else {
      x = rows[0]->x;
      old = rows[0]->y;
    }
    // Solve the new cells and perhaps some of the old ones next to them.
    const size_t again = r.Chance(0.4) ? 0 : r.Below(old.size() + 1);
    first = before ? 0 : old.size() - again;
    if (before) y = add;
    for (size_t i = first; i < first + again; ++i) {
      y.low.push_back(old.low[i]);
      y.up.push_back(old.up[i]);
    }
    if (!before) {
      y.low.insert(y.low.end(), add.low.begin(), add.low.end());
      y.up.insert(y.up.end(), add.up.begin(), add.up.end());
    }
    if (again) sim::Probe("extended with overlap");
    grid.emplace(ToAxis(x, Regular(x), r), ToAxis(y, Regular(y), r));
    const size_t shift = before ? fresh : 0, ny = old.size() + fresh;
    if (poly) {
      for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < x.size(); ++i) {
          if (j >= shift && j - shift < old.size()) {
            result.push_back(*rows[i + (j - shift) * x.size()]);
          } else {
            const size_t k = before ? j : j - old.size();
            Row row;
            row.nx = w.px;
            row.ny = w.py;
            row.values.resize(row.nx * row.ny);
            row.r = {x.low[i], x.up[i], add.low[k], add.up[k]};
            result.push_back(row);
          }
        }
    } else {
      Row row = *rows[0];
      row.r = work;
      row.y = before ? add : old;
      const Cells& tail = before ? old : add;
      row.y.low.insert(row.y.low.end(), tail.low.begin(), tail.low.end());
      row.y.up.insert(row.y.up.end(), tail.up.begin(), tail.up.end());
      row.ny = ny;
      const size_t more = row.nx * fresh;
      row.values.insert(before ? row.values.begin() : row.values.end(), more, 0);
      if (row.errors.empty()) row.errors.resize(row.nx * old.size(), 0);
      row.errors.insert(before ? row.errors.begin() : row.errors.end(), more, 0);
      result.push_back(row);
    }
  }
  const size_t start = before ? 0 : first;  // of the solve grid in all cells
  bool written = false;
  const Outcome o = Try([&] {
    ParmSet set;
    const ParmId id = set.addParm(*w.db, name);
    ParmCache cache(set, work.ToBox());
    Parm parm(cache, id);
    parm.setSolveGrid(*grid);
    for (size_t j = 0; j < y.size(); ++j)
      for (size_t i = 0; i < x.size(); ++i) {
        const size_t at = i + (j + start) * x.size();
        if (poly) {
          Row& row = result[at];
          row.values = Random(r, row.values.size());
          row.errors = Random(r, row.values.size());
          parm.setCoeff(Grid::Location(i, j), row.values.data(), row.values.size(), row.errors.data(), false);
        } else {
          result[0].values[at] = r.Below(1000) * 0.25;
          result[0].errors[at] = 1 + r.Below(1000) * 0.25;
          parm.setCoeff(Grid::Location(i, j), &result[0].values[at], 1, &result[0].errors[at]);
        }
      }
    written = true;
    cache.flush();
  });
  Unexpected(o, "extending", name);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", name, "an error while extending was not reported");
    CompareAll(w, name);
    return !written;
  }
  sim::Quiet q;
  Par& par = w.m.pars.at(name);
  std::vector<Row> keep;
  for (const Row& row : par.rows)
    if (!row.r.Overlaps(work)) keep.push_back(row);
  par.rows.swap(keep);
  for (const Row& row : result) par.rows.push_back(row);
  sim::Probe("extended");
  return true;
}

void DoGet(World& w, const sim::Op& op) {
  const std::string pattern = Pattern(op);
  const Region q = Query(w, op.Arg(1), false);
  ParmMap map;
  const Outcome o = Try([&] { w.db->getValues(map, pattern, q.ToBox()); });
  Unexpected(o, "getValues", pattern);
  if (o.threw) return;
  sim::Quiet quiet;
  for (auto& [name, par] : w.m.pars) {
    const bool want = Matches(pattern, name) && !w.m.Select(name, q).empty();
    auto it = map.find(name);
    if (want != (it != map.end())) Bad("selection", name, want ? "its values are not found" : "it has no values there");
    if (want) CompareSet(w, name, it->second, q);
  }
  sim::Probe("got values");
}

void DoPredict(World& w, const sim::Op& op) {
  const std::string pattern = Pattern(op);
  sim::Rng r(op.Arg(1));
  Cells x, y;
  const bool lists = r.Chance(0.4), start_end = r.Chance(0.5), defaults = r.Chance(0.4);
  casacore::Record rec;
  Outcome o;
  Region q;
  if (lists) {
    bool regular;
    x = MakeCells(r, w.freq[0] + r.Below(3) * 7e6, w.freq.back() - r.Below(3) * 7e6, 4, true, regular);
    y = MakeCells(r, w.time[0] + r.Below(4) * 0.9, w.time[2] + r.Below(20) * 0.8, 6, true, regular);
    const Vec x1 = start_end ? x.low : x.Centers(), x2 = start_end ? x.up : x.Widths();
    const Vec y1 = start_end ? y.low : y.Centers(), y2 = start_end ? y.up : y.Widths();
    o = Try([&] { rec = w.facade->getValues(pattern, x1, x2, y1, y2, start_end, defaults); });
  } else {
    const size_t nx = 1 + r.Below(4), ny = 1 + r.Below(6);
    const double x0 = w.freq[0] + r.Below(4) * 7e6, dx = 3e6 * (1 + r.Below(9));
    const double y0 = w.time[0] + r.Below(14) * 0.9, dy = 0.4 * (1 + r.Below(8));
    for (size_t i = 0; i < nx; ++i) {
      x.low.push_back(x0 + i * dx);
      x.up.push_back(x0 + (i + 1) * dx);
    }
    for (size_t i = 0; i < ny; ++i) {
      y.low.push_back(y0 + i * dy);
      y.up.push_back(y0 + (i + 1) * dy);
    }
    double fs = dx, ts = dy;
    if (w.m.steps[0] == dx) fs = 0;
    if (w.m.steps[1] == dy) ts = -1;
    if (start_end)
      o = Try([&] { rec = w.facade->getValues(pattern, x0, x0 + nx * dx, fs, y0, y0 + ny * dy, ts, true, defaults); });
    else {
      // Given as a centre and a width.
      o = Try([&] { rec = w.facade->getValues(pattern, x0, x0 + nx * dx, dx, y0, y0 + ny * dy, dy, true, defaults); });
    }
  }
  if (o.fault && o.threw) return;
  sim::Quiet quiet;
  q = {x.low.front(), x.up.back(), y.low.front(), y.up.back()};
  const Vec cx = x.Centers(), cy = y.Centers();
  if (o.threw) {
    // A cell of which the centre has no stored value may be refused.
    bool outside = false;
    for (auto& e : w.m.pars) {
      const std::vector<const Row*> rows = Matches(pattern, e.first) ? w.m.Select(e.first, q) : std::vector<const Row*>();
      if (!rows.empty())
        for (double a : cx)
          for (double b : cy) outside = outside || !At(rows, e.second.poly, a, b);
    }
    if (!outside) Unexpected(o, "predicting", pattern);
    sim::Probe("refused to predict");
    return;
  }
  size_t expected = 0;
  std::map<std::string, int> names;
  for (auto& e : w.m.pars) names[e.first] = 1;
  if (defaults)
    for (auto& e : w.m.defs) names[e.first] = 1;
  for (auto& e : names) {
    const std::string& name = e.first;
    if (!Matches(pattern, name)) continue;
    const std::vector<const Row*> rows = w.m.Select(name, q);
    if (rows.empty() && !defaults) {
      if (rec.isDefined(name)) Bad("selection", name, "values where none are stored");
      continue;
    }
    ++expected;
    if (!rec.isDefined(name)) Bad("selection", name, "no values although some are stored");
    const casacore::Record sub = rec.subRecord(name);
    const Arr a = sub.toArrayDouble("values");
    if (a.ndim() != 2 || size_t(a.shape()[0]) != x.size() || size_t(a.shape()[1]) != y.size()) Bad("predict", name, "the shape is wrong");
    const std::vector<double> v = a.tovector();
    const std::vector<double> f = sub.toArrayDouble("freqs").tovector(), t = sub.toArrayDouble("times").tovector();
    const std::vector<double> fw = sub.toArrayDouble("freqwidths").tovector(), tw = sub.toArrayDouble("timewidths").tovector();
    for (size_t i = 0; i < x.size(); ++i)
      if (!Close(f[i], cx[i]) || !Close(fw[i], x.up[i] - x.low[i], 1e-3)) Bad("predict", name, "the frequencies are wrong");
    for (size_t j = 0; j < y.size(); ++j)
      if (!Close(t[j], cy[j]) || !Close(tw[j], y.up[j] - y.low[j], 1e-3)) Bad("predict", name, "the times are wrong");
    for (size_t j = 0; j < y.size(); ++j)
      for (size_t i = 0; i < x.size(); ++i) {
        std::optional<double> want;
        if (rows.empty()) {
          const Def* d = w.m.Default(name);
          if (!d)
            want = 0;
          else if (d->values.size() == 1)
            want = d->values[0];
          sim::Probe("predicted default");
        } else {
          want = At(rows, IsPoly(name), cx[i], cy[j]);
          if (want) sim::Probe(IsPoly(name) ? "predicted polynomial" : "predicted value");
        }
        if (want && std::abs(v[i + j * x.size()] - *want) > 3e-4 * (1 + std::abs(*want)))
          Bad("predict", name, "cell " + std::to_string(i) + "," + std::to_string(j) + " is " + S(v[i + j * x.size()]) + " instead of " + S(*want));
      }
  }
  if (rec.nfields() != expected) sim::Fail("selection", pattern + ": other parameters are predicted");
}

// The values on their own grid, or with their errors.
void DoNative(World& w, const sim::Op& op, bool coeff) {
  const std::string pattern = Pattern(op);
  Region q = Query(w, op.Arg(1), false);
  if (!(q.x0 < q.x1)) q.x0 = w.freq.front(), q.x1 = w.freq.back();
  if (!(q.y0 < q.y1)) q.y0 = w.time.front(), q.y1 = w.time.back();
  {
    // Perhaps borders of stored cells.
    sim::Quiet quiet;
    sim::Rng r(op.Arg(1) + 5);
    std::vector<const Row*> rows;
    if (r.Chance(0.4))
      for (auto& [name, par] : w.m.pars)
        if (!par.poly && Matches(pattern, name))
          for (const Row& row : par.rows) rows.push_back(&row);
    if (!rows.empty()) {
      const Row& row = *rows[r.Below(rows.size())];
      const size_t i = r.Below(row.nx), j = r.Below(row.ny);
      q = {row.x.low[i], row.x.up[i + r.Below(row.nx - i)], row.y.low[j], row.y.up[j + r.Below(row.ny - j)]};
      sim::Probe("native on cell borders");
    }
  }
  casacore::Record rec;
  const Outcome o = Try([&] {
    rec = coeff ? w.facade->getCoeff(pattern, q.x0, q.x1, q.y0, q.y1, true) : w.facade->getValuesGrid(pattern, q.x0, q.x1, q.y0, q.y1, true);
  });
  Unexpected(o, coeff ? "getCoeff" : "getValuesGrid", pattern);
  if (o.threw) return;
  sim::Quiet quiet;
  for (auto& [name, par] : w.m.pars) {
    const std::vector<const Row*> rows = Matches(pattern, name) ? w.m.Select(name, q) : std::vector<const Row*>();
    if (rows.empty()) {
      if (rec.isDefined(name)) Bad("selection", name, "values where none are stored");
      continue;
    }
    // The cells that have a value and are in the domain.
    size_t needed = 0;
    for (const Row* r : rows)
      if (par.poly)
        ++needed;
      else
        for (size_t j = 0; j < r->ny; ++j)
          for (size_t i = 0; i < r->nx; ++i) needed += Region{r->x.low[i], r->x.up[i], r->y.low[j], r->y.up[j]}.Overlaps(q);
    if (!rec.isDefined(name)) {
      if (needed) Bad("selection", name, "no values although some are stored");
      continue;
    }
    if (!needed) continue;
    const casacore::Record sub = rec.subRecord(name);
    const std::vector<double> f = sub.toArrayDouble("freqs").tovector(), t = sub.toArrayDouble("times").tovector();
    const std::vector<double> fw = sub.toArrayDouble("freqwidths").tovector(), tw = sub.toArrayDouble("timewidths").tovector();
    const std::vector<double> v = sub.toArrayDouble("values").tovector();
    std::vector<double> e;
    if (coeff) e = sub.toArrayDouble("errors").tovector();
    size_t found = 0;
    for (size_t j = 0; j < t.size(); ++j)
      for (size_t i = 0; i < f.size(); ++i) {
        bool ok = false;
        for (const Row* r : rows) {
          if (par.poly) {
            if (!Close(f[i], 0.5 * (r->r.x0 + r->r.x1)) || !Close(t[j], 0.5 * (r->r.y0 + r->r.y1))) continue;
            if (!Close(fw[i], r->r.x1 - r->r.x0, 1e-5) || !Close(tw[j], r->r.y1 - r->r.y0, 1e-3)) continue;
            ok = true;
            ++found;
            if (!coeff) {
              const double want = Eval(*r, f[i], t[j]);
              if (std::abs(v[i + j * f.size()] - want) > 3e-4 * (1 + std::abs(want))) Bad("native", name, "a value is " + S(v[i + j * f.size()]) + " instead of " + S(want));
            } else {
              const size_t n = r->values.size();
              if (v.size() != n * f.size() * t.size()) Bad("native", name, "the number of coefficients is wrong");
              for (size_t k = 0; k < n; ++k) {
                const size_t at = k + n * (i + j * f.size());
                if (v[at] != r->values[k]) Bad("native", name, "a coefficient is " + S(v[at]) + " instead of " + S(r->values[k]));
                if (e[at] != (r->errors.empty() ? -1 : r->errors[k])) Bad("native", name, "the error of a coefficient is wrong");
              }
            }
          } else {
            for (size_t b = 0; b < r->ny; ++b)
              for (size_t a = 0; a < r->nx; ++a) {
                if (!Close(f[i], 0.5 * (r->x.low[a] + r->x.up[a])) || !Close(t[j], 0.5 * (r->y.low[b] + r->y.up[b]))) continue;
                if (!Close(fw[i], r->x.up[a] - r->x.low[a], 1e-5) || !Close(tw[j], r->y.up[b] - r->y.low[b], 1e-3)) continue;
                ok = true;
                found += Region{r->x.low[a], r->x.up[a], r->y.low[b], r->y.up[b]}.Overlaps(q);
                const double got = v.at(i + j * f.size());
                if (got != r->values[a + b * r->nx]) Bad("native", name, "a value is " + S(got) + " instead of " + S(r->values[a + b * r->nx]));
                if (coeff && e.at(i + j * f.size()) != (r->errors.empty() ? -1 : r->errors[a + b * r->nx])) Bad("native", name, "an error is wrong");
              }
          }
        }
        if (!ok) Bad("native", name, "a cell at " + S(f[i]) + "," + S(t[j]) + " of " + S(fw[i]) + " by " + S(tw[j]) + " that is not stored");
      }
    if (found != needed) Bad("native", name, std::to_string(found) + " stored cells instead of " + std::to_string(needed));
    sim::Probe(coeff ? "got coefficients" : "got native grid");
  }
}

bool DoDelete(World& w, const sim::Op& op) {
  const std::string pattern = Pattern(op);
  sim::Rng r(op.Arg(1));
  Region q = Query(w, op.Arg(1), w.pieces > 1);
  const bool facade = r.Chance(0.5);
  const Outcome o = Try([&] {
    if (facade)
      w.facade->deleteValues(pattern, q.x0, q.x1, q.y0, q.y1, true);
    else
      w.db->deleteValues(pattern, q.ToBox());
  });
  Unexpected(o, "deleteValues", pattern);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", pattern, "an error while deleting values was not reported");
    return false;
  }
  sim::Quiet quiet;
  for (auto& [name, par] : w.m.pars)
    if (Matches(pattern, name)) {
      std::vector<Row> keep;
      for (const Row& row : par.rows)
        if (!row.r.Overlaps(q)) keep.push_back(row);
      if (keep.size() != par.rows.size()) sim::Probe("deleted");
      par.rows.swap(keep);
    }
  CompareAll(w, "");
  return true;
}

bool DoPutDef(World& w, const sim::Op& op) {
  const std::string name = kDefs[op.Arg(0) % kNDefs];
  sim::Rng r(op.Arg(1));
  Def d;
  std::unique_ptr<ParmValueSet> set;
  casacore::Record rec;
  const bool facade = r.Chance(0.4), check = w.m.defs.count(name) || r.Chance(0.5);
  {
    sim::Quiet q;
    d.poly = IsPoly(name);
    if (d.poly && r.Chance(0.8)) {
      d.nx = w.px;
      d.ny = w.py;
    }
    d.values = Random(r, d.nx * d.ny);
    d.pert = 1e-3 * (1 + r.Below(9));
    d.rel = r.Chance(0.5);
    if (r.Chance(0.3)) d.mask = RandomMask(r, d.nx * d.ny);
    if (!facade && d.poly && r.Chance(0.4)) d.scale = {w.freq.front(), w.freq.back(), w.time[0], w.time[1 + r.Below(4)]};
    if (facade) {
      casacore::Record one;
      one.define("value", ToArr(d.values, d.nx, d.ny));
      if (d.poly || r.Chance(0.5)) one.define("type", std::string(d.poly ? "polc" : "scalar"));
      one.define("perturbation", d.pert);
      one.define("pertrel", d.rel);
      if (!d.mask.empty()) one.define("mask", ToMask(d.mask, d.nx, d.ny));
      rec.defineRecord(name, one);
    } else {
      ParmValue v(d.values[0]);
      if (d.poly) v.setCoeff(ToArr(d.values, d.nx, d.ny));
      set = std::make_unique<ParmValueSet>(v, d.poly ? ParmValue::Polc : ParmValue::Scalar, d.pert, d.rel, d.scale.x1 > 0 ? d.scale.ToBox() : Box());
      if (!d.mask.empty()) set->setSolvableMask(ToMask(d.mask, d.nx, d.ny));
    }
  }
  const Outcome o = Try([&] {
    if (facade)
      w.facade->addDefValues(rec, check);
    else
      w.db->putDefValue(name, *set, check);
  });
  Unexpected(o, "putDefValue", name);
  if (o.fault) {
    if (!o.threw) Bad("error-hidden", name, "an error while storing a default was not reported");
    return false;
  }
  sim::Quiet q;
  w.m.defs[name] = d;
  sim::Probe("default");
  return true;
}

void CompareDef(const ParmValueSet& got, const Def* d, const std::string& name) {
  const ParmValue& v = got.getFirstParmValue();
  if (!d) {
    CompareArr(v.getValues(), {4.25}, 1, 1, "default", name);
    return;
  }
  CompareArr(v.getValues(), d->values, d->nx, d->ny, "default", name);
  if ((got.getType() != ParmValue::Scalar) != d->poly) Bad("default", name, "the type changed");
  if (got.getPerturbation() != d->pert || got.getPertRel() != d->rel) Bad("default", name, "the perturbation changed");
  CompareMask(got.getSolvableMask(), d->mask, name);
  if (d->poly) {
    const Box b = got.getScaleDomain();
    if (b.lowerX() != d->scale.x0 || b.upperX() != d->scale.x1 || b.lowerY() != d->scale.y0 || b.upperY() != d->scale.y1)
      Bad("default", name, "the domain of the default changed");
  }
}
void DoGetDef(World& w, const sim::Op& op) {
  const std::string name = Name(op);
  sim::Rng r(op.Arg(1));
  ParmValueSet set;
  Outcome o = Try([&] { set = w.db->getDefValue(name, ParmValue(4.25)); });
  Unexpected(o, "getDefValue", name);
  if (!o.threw) {
    sim::Quiet q;
    CompareDef(set, w.m.Default(name), name);
  }
  const std::string pattern = kPatterns[r.Below(kNPatterns)];
  ParmMap map;
  casacore::Record rec;
  std::vector<std::string> names;
  o = Try([&] {
    if (!pattern.empty()) w.db->getDefValues(map, pattern);
    rec = w.facade->getDefValues(pattern);
    names = w.facade->getDefNames(pattern);
  });
  Unexpected(o, "getDefValues", pattern);
  if (o.threw) return;
  sim::Quiet q;
  size_t n = 0;
  for (auto& [def, d] : w.m.defs) {
    if (!Matches(pattern, def)) continue;
    ++n;
    if (!pattern.empty()) {
      if (map.find(def) == map.end()) Bad("default", def, "it is not found");
      CompareDef(map.find(def)->second, &d, def);
    }
    if (!rec.isDefined(def)) Bad("default", def, "it is not found");
    CompareArr(rec.toArrayDouble(def), d.values, d.nx, d.ny, "default", def);
    if (std::find(names.begin(), names.end(), def) == names.end()) Bad("default", def, "its name is not found");
  }
  if (names.size() != n || rec.nfields() != n || (!pattern.empty() && map.size() != n)) sim::Fail("default", pattern + ": other defaults are found");
  sim::Probe("compared defaults");
}
void DoNames(World& w, const sim::Op& op) {
  const std::string pattern = Pattern(op);
  std::vector<std::string> a, b;
  std::vector<int> ids;
  const Outcome o = Try([&] {
    a = w.db->getNames(pattern);
    b = w.facade->getNames(pattern, true);
    for (const char* p : kParms) ids.push_back(w.db->getNameId(p));
  });
  Unexpected(o, "getNames", pattern);
  if (o.threw) return;
  sim::Quiet q;
  std::vector<std::string> want;
  for (const std::string& n : w.m.ids)
    if (Matches(pattern, n)) want.push_back(n);
  if (a != want) sim::Fail("names", pattern + ": the names are wrong");
  for (auto& e : w.m.defs)
    if (Matches(pattern, e.first) && !w.m.pars.count(e.first)) want.push_back(e.first);
  std::sort(want.begin(), want.end());
  std::sort(b.begin(), b.end());
  if (b != want) sim::Fail("names", pattern + ": the names with defaults are wrong");
  for (size_t i = 0; i < kNParms; ++i) {
    const auto it = std::find(w.m.ids.begin(), w.m.ids.end(), kParms[i]);
    if (ids[i] != (it == w.m.ids.end() ? -1 : int(it - w.m.ids.begin()))) Bad("name-id", kParms[i], "its id changed");
  }
  sim::Probe("compared names");
}
void DoRange(World& w, const sim::Op& op) {
  const std::string pattern = Pattern(op);
  Box a, b;
  Vec c;
  std::vector<std::string> list;
  for (const auto& e : w.m.pars)
    if (Matches(pattern, e.first)) list.push_back(e.first);
  const Outcome o = Try([&] {
    a = w.db->getRange(pattern);
    c = w.facade->getRange(pattern);
    if (!list.empty()) b = w.db->getRange(list);
  });
  Unexpected(o, "getRange", pattern);
  if (o.threw) return;
  sim::Quiet q;
  Region want;
  bool any = false;
  for (const std::string& n : list)
    for (const Row& r : w.m.pars.at(n).rows) {
      want.x0 = any ? std::min(want.x0, r.r.x0) : r.r.x0;
      want.x1 = any ? std::max(want.x1, r.r.x1) : r.r.x1;
      want.y0 = any ? std::min(want.y0, r.r.y0) : r.r.y0;
      want.y1 = any ? std::max(want.y1, r.r.y1) : r.r.y1;
      any = true;
    }
  auto same = [&](double x0, double x1, double y0, double y1) { return Close(x0, want.x0) && Close(x1, want.x1) && Close(y0, want.y0) && Close(y1, want.y1); };
  if (!same(a.lowerX(), a.upperX(), a.lowerY(), a.upperY()) || !same(c[0], c[1], c[2], c[3])) sim::Fail("range", pattern + ": the range is wrong");
  if (!list.empty() && !same(b.lowerX(), b.upperX(), b.lowerY(), b.upperY())) sim::Fail("range", pattern + ": the range of the names is wrong");
  sim::Probe("compared range");
}
// A grid and its domains describe the same cells.
void DoGrid(World& w, const sim::Op& op) {
  sim::Quiet q;
  sim::Rng r(op.Arg(1));
  bool rx, ry;
  const Cells x = MakeCells(r, w.freq.front(), w.freq.back(), 4, true, rx), y = MakeCells(r, w.time[0], w.time[2], 5, true, ry);
  const Grid grid(ToAxis(x, rx, r), ToAxis(y, ry, r));
  CompareAxis(*grid.getAxis(0), x, "grid");
  CompareAxis(*grid.getAxis(1), y, "grid");
  std::vector<Box> boxes;
  grid.toDomains(boxes);
  if (boxes.size() != x.size() * y.size()) sim::Fail("grid", "a wrong number of domains");
  for (size_t i = 0; i < boxes.size(); ++i) {
    const size_t a = i % x.size(), b = i / x.size();
    if (!Close(boxes[i].lowerX(), x.low[a]) || !Close(boxes[i].upperX(), x.up[a]) || !Close(boxes[i].lowerY(), y.low[b]) || !Close(boxes[i].upperY(), y.up[b]))
      sim::Fail("grid", "a domain is not that of its cell");
  }
  for (size_t i = boxes.size(); i > 1; --i) std::swap(boxes[i - 1], boxes[r.Below(i)]);
  const Grid back(boxes, true);
  CompareAxis(*back.getAxis(0), x, "grid of domains");
  CompareAxis(*back.getAxis(1), y, "grid of domains");
  for (int k = 0; k < 4; ++k) {
    const size_t a = r.Below(y.size());
    const double at = y.low[a] + (0.1 + 0.2 * r.Below(5)) * (y.up[a] - y.low[a]);
    const std::pair<size_t, bool> f = grid.getAxis(1)->find(at, r.Chance(0.5), r.Below(y.size() + 1));
    if (!f.second || f.first != a) sim::Fail("grid", "a point is not found in its cell");
  }
  sim::Probe("axes");
}
}  // namespace

void Execute(const sim::Plan& plan) {
  World w;
  {
    sim::Quiet q;
    casacore::mini_detail::Disk().clear();
    casacore::mini_detail::table_hook = [](char op, const std::string& table, const std::string& column) {
      sim::Quiet q;
      if (!sim::FaultsEnabled()) return;
      const bool write = op != 'r' && op != 'o';
      if (sim::ShouldFault(write ? sim::kTableWriteError : sim::kTableReadError))
        throw casacore::TableError("injected error on table " + table + " " + column);
    };
    w.pieces = plan.Knob("pieces", 1);
    w.px = plan.Knob("px", 2);
    w.py = plan.Knob("py", 1);
    const double t0[] = {4.5e9, 1000, 5.1e9 + 0.375};
    w.t0 = t0[plan.Knob("t0") % 3];
    w.freq = w.pieces == 1 ? Vec{100e6, 200e6} : Vec{100e6, 140e6, 200e6};
    sim::Rng r(plan.Knob("time_seed"));
    w.time.push_back(w.t0);
    const double widths[] = {2, 3, 5, 10};
    for (size_t i = 0; i < kChunks; ++i) w.time.push_back(w.time.back() + widths[r.Chance(0.5) ? 2 : r.Below(4)]);
    Open(w, true, plan.Knob("time_seed") & 1);
  }
  bool go = true;
  for (const sim::Op& op : plan.ops) {
    sim::Event(op.kind);
    switch (op.kind % kOps) {
      case kAdd: go = DoAdd(w, op); break;
      case kPut: go = DoPut(w, op); break;
      case kUpdate: go = DoUpdate(w, op); break;
      case kSolve: go = DoSolve(w, op); break;
      case kExtend: go = DoExtend(w, op); break;
      case kGet: DoGet(w, op); break;
      case kPredict: DoPredict(w, op); break;
      case kNative: DoNative(w, op, false); break;
      case kCoeff: DoNative(w, op, true); break;
      case kDelete: go = DoDelete(w, op); break;
      case kPutDef: go = DoPutDef(w, op); break;
      case kDeleteDef: {
        sim::Rng r(op.Arg(1));
        const std::string pattern = r.Chance(0.5) ? kPatterns[2 + r.Below(kNPatterns - 2)] : kDefs[op.Arg(0) % kNDefs];
        const Outcome o = Try([&] { w.facade->deleteDefValues(pattern); });
        Unexpected(o, "deleteDefValues", pattern);
        if (o.fault) {
          if (!o.threw) Bad("error-hidden", pattern, "an error while deleting defaults was not reported");
          CompareAll(w, "");
          go = false;
          break;
        }
        sim::Quiet q;
        for (auto it = w.m.defs.begin(); it != w.m.defs.end();) it = Matches(pattern, it->first) ? w.m.defs.erase(it) : std::next(it);
        break;
      }
      case kGetDef: DoGetDef(w, op); break;
      case kSteps: {
        sim::Rng r(op.Arg(1));
        const Vec s{3e6 * (1 + r.Below(9)), 0.4 * (1 + r.Below(8))};
        const Outcome o = Try([&] { w.facade->setDefaultSteps(s); });
        Unexpected(o, "setDefaultSteps", "");
        if (o.fault) {
          if (!o.threw) sim::Fail("error-hidden", "an error while storing the steps was not reported");
          go = false;
          break;
        }
        w.m.steps[0] = s[0];
        w.m.steps[1] = s[1];
        if (w.db->getDefaultSteps() != s) sim::Fail("steps", "the default steps are not those set");
        break;
      }
      case kReopen: {
        {
          sim::Quiet q;
          w.db.reset();
          w.facade.reset();
        }
        const bool force = op.Arg(0);
        const Outcome o = Try([&] { Open(w, force, op.Arg(1)); });
        Unexpected(o, "opening", kTable);
        if (o.threw) {
          w.db.reset();
          w.facade.reset();
          if (force) return;
          sim::Quiet q;
          Open(w, false, op.Arg(1));
        }
        if (force) w.m = Model();
        const Vec s = w.facade->getDefaultSteps();
        if (s.size() != 2 || s[0] != w.m.steps[0] || s[1] != w.m.steps[1]) sim::Fail("steps", "the default steps changed");
        CompareAll(w, "");
        sim::Probe("reopened");
        break;
      }
      case kClear: {
        const Outcome o = Try([&] { w.facade->clearTables(); });
        Unexpected(o, "clearTables", "");
        if (o.fault) {
          if (!o.threw) sim::Fail("error-hidden", "an error while clearing was not reported");
          return;
        }
        sim::Quiet q;
        w.m.pars.clear();
        w.m.ids.clear();
        w.m.defs.clear();
        CompareAll(w, "");
        sim::Probe("cleared");
        break;
      }
      case kNames: DoNames(w, op); break;
      case kRange: DoRange(w, op); break;
      case kGrid: DoGrid(w, op); break;
    }
    if (!go) return;
  }
  CompareAll(w, "");
  sim::Quiet q;
  w.db.reset();
  w.facade.reset();
  Open(w, false, false);
  CompareAll(w, "");
}
