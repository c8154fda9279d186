// Shared by the harnesses of the calibration solvers: observations, a
// recording constraint, and a double precision reference of one iteration.
#ifndef VERIF_SOLVERS_H
#define VERIF_SOLVERS_H

#include "steps.h"

#include "ddecal/constraints/Constraint.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/ScalarSolver.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"

namespace hs {

namespace dd = dp3::ddecal;
using D = std::complex<double>;
using h::C;
using Solutions = std::vector<std::vector<D>>;

enum Type {
  kScalar,
  kDiagonal,
  kJones,
  kIterScalar,
  kIterScalarDuo,
  kIterScalarUni,
  kIterDiagonal,
  kIterDiagonalDuo,
  kIterJones,
  kTypes
};
inline const char* TypeName(int t) {
  static const char* const n[] = {"scalar",           "diagonal",           "full-Jones",
                                  "iterative scalar", "iterative duo scalar", "iterative uni scalar",
                                  "iterative diagonal", "iterative duo diagonal", "iterative full-Jones"};
  return n[t];
}
inline bool Iterative(int t) { return t >= kIterScalar; }
inline size_t NPol(int t) {
  switch (t) {
    case kDiagonal:
    case kIterDiagonal:
    case kIterDiagonalDuo:
      return 2;
    case kJones:
    case kIterJones:
      return 4;
    default:
      return 1;
  }
}
inline std::unique_ptr<dd::SolverBase> MakeSolver(int t) {
  using aocommon::MC2x2F;
  using aocommon::MC2x2FDiag;
  switch (t) {
    case kScalar: return std::make_unique<dd::ScalarSolver>();
    case kDiagonal: return std::make_unique<dd::DiagonalSolver>();
    case kJones: return std::make_unique<dd::FullJonesSolver>();
    case kIterScalar: return std::make_unique<dd::IterativeScalarSolver<MC2x2F>>();
    case kIterScalarDuo: return std::make_unique<dd::IterativeScalarSolver<MC2x2FDiag>>();
    case kIterScalarUni: return std::make_unique<dd::IterativeScalarSolver<std::complex<float>>>();
    case kIterDiagonal: return std::make_unique<dd::IterativeDiagonalSolver<MC2x2F>>();
    case kIterDiagonalDuo: return std::make_unique<dd::IterativeDiagonalSolver<MC2x2FDiag>>();
    default: return std::make_unique<dd::IterativeFullJonesSolver>();
  }
}

inline bool Finite(D v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

/// One solution interval of observed data with its model.
struct Observation {
  size_t nant = 0, nchan = 0, ndir = 0, nblocks = 0;
  std::vector<int> a1, a2;
  std::vector<size_t> n_sol;  // per direction
  std::vector<std::string> names;
  struct Time {
    std::vector<C> data;
    std::vector<std::vector<C>> model;
    std::vector<float> weights;
    std::vector<char> flags;
  };
  std::vector<Time> times;
  size_t NSub() const {
    size_t n = 0;
    for (size_t x : n_sol) n += x;
    return n;
  }
  size_t SubIndex(size_t dir, size_t t) const {
    size_t n = 0;
    for (size_t i = 0; i < dir; ++i) n += n_sol[i];
    return n + t * n_sol[dir] / times.size();
  }
  size_t At(size_t b, size_t c, size_t p) const { return (b * nchan + c) * 4 + p; }
  size_t First(size_t block) const { return block * nchan / nblocks; }
  /// A sample that must not have any influence.
  bool Dead(size_t t, size_t b, size_t c) const {
    const Time& x = times[t];
    auto bad = [](C v) { return !std::isfinite(v.real()) || !std::isfinite(v.imag()); };
    for (size_t p = 0; p < 4; ++p) {
      const size_t i = At(b, c, p);
      if (x.flags[i] || bad(x.data[i])) return true;
      for (const auto& m : x.model)
        if (bad(m[i])) return true;
    }
    return false;
  }
};

inline double Gauss(sim::Rng& r) { return (r.Unit() + r.Unit() + r.Unit() + r.Unit() - 2) * 1.7; }
inline D Cplx(sim::Rng& r) { return {Gauss(r), Gauss(r)}; }

struct M2 {
  D v[4];
  M2 operator*(const M2& o) const {
    return {{v[0] * o.v[0] + v[1] * o.v[2], v[0] * o.v[1] + v[1] * o.v[3], v[2] * o.v[0] + v[3] * o.v[2],
             v[2] * o.v[1] + v[3] * o.v[3]}};
  }
  M2 Herm() const { return {{std::conj(v[0]), std::conj(v[2]), std::conj(v[1]), std::conj(v[3])}}; }
};
inline M2 ToMatrix(const D* s, size_t npol) {
  if (npol == 1) return {{s[0], 0, 0, s[0]}};
  if (npol == 2) return {{s[0], 0, 0, s[1]}};
  return {{s[0], s[1], s[2], s[3]}};
}

/// Fills the observation from random gains; noise 0 makes it exact.
inline void Fill(Observation& o, uint64_t seed, size_t ntimes, bool autos, size_t npol, double noise, bool phase_only,
                 bool flat_weights) {
  sim::Rng r(seed);
  for (size_t i = 0; i < o.nant; ++i)
    for (size_t j = autos ? i : i + 1; j < o.nant; ++j) {
      o.a1.push_back(i);
      o.a2.push_back(j);
    }
  o.times.resize(ntimes);
  const size_t n = o.a1.size() * o.nchan * 4;
  const size_t nsub = o.NSub();
  std::vector<std::vector<M2>> gain(o.nblocks, std::vector<M2>(o.nant * nsub));
  for (auto& block : gain)
    for (auto& g : block) {
      auto value = [&] { return phase_only ? std::polar(1.0, 0.8 * Gauss(r)) : D(1, 0) + 0.25 * Cplx(r); };
      g = {{value(), 0, 0, 0}};
      g.v[3] = npol == 1 ? g.v[0] : value();
      if (npol == 4) {
        g.v[1] = 0.15 * Cplx(r);
        g.v[2] = 0.15 * Cplx(r);
      }
    }
  for (size_t t = 0; t < ntimes; ++t) {
    auto& x = o.times[t];
    x.data.resize(n);
    x.model.assign(o.ndir, std::vector<C>(n));
    x.weights.resize(n);
    x.flags.assign(n, 0);
    for (size_t b = 0; b < o.a1.size(); ++b)
      for (size_t block = 0; block < o.nblocks; ++block)
        for (size_t c = o.First(block); c < o.First(block + 1); ++c) {
          M2 sum{{0, 0, 0, 0}};
          for (size_t d = 0; d < o.ndir; ++d) {
            M2 m;
            m.v[0] = 1.5 + Cplx(r);
            m.v[3] = 1.5 + Cplx(r);
            m.v[1] = 0.3 * Cplx(r);
            m.v[2] = 0.3 * Cplx(r);
            for (size_t p = 0; p < 4; ++p) {
              x.model[d][o.At(b, c, p)] = C(m.v[p]);
              m.v[p] = D(x.model[d][o.At(b, c, p)]);
            }
            const size_t s = o.SubIndex(d, t);
            const M2 v =
                gain[block][o.a1[b] * nsub + s] * m * gain[block][o.a2[b] * nsub + s].Herm();
            for (size_t p = 0; p < 4; ++p) sum.v[p] += v.v[p];
          }
          const float w = 0.25f + 2 * r.Unit();
          for (size_t p = 0; p < 4; ++p) {
            x.data[o.At(b, c, p)] = C(sum.v[p] + noise * Cplx(r));
            x.weights[o.At(b, c, p)] = flat_weights ? w : 0.25f + 2 * r.Unit();
          }
        }
  }
}

/// What the solver gets: weighted data.
inline std::vector<dp3::base::DPBuffer> Weighted(const Observation& o, bool keep) {
  std::vector<std::unique_ptr<dp3::base::DPBuffer>> in;
  {
    sim::Quiet q;
    for (const auto& x : o.times) {
      auto b = std::make_unique<dp3::base::DPBuffer>();
      const std::array<std::size_t, 3> shape{o.a1.size(), o.nchan, 4};
      b->GetData().resize(shape);
      b->GetWeights().resize(shape);
      b->GetFlags().resize(shape);
      std::copy(x.data.begin(), x.data.end(), b->GetData().begin());
      std::copy(x.weights.begin(), x.weights.end(), b->GetWeights().begin());
      std::copy(x.flags.begin(), x.flags.end(), b->GetFlags().begin());
      for (size_t d = 0; d < o.ndir; ++d) {
        b->AddData(o.names[d]);
        std::copy(x.model[d].begin(), x.model[d].end(), b->GetData(o.names[d]).begin());
      }
      in.push_back(std::move(b));
    }
  }
  std::vector<dp3::base::DPBuffer> out(in.size());
  dd::AssignAndWeight(in, o.names, out, keep, false);
  sim::Quiet q;
  for (size_t t = 0; t < in.size(); ++t) {
    const auto& x = o.times[t];
    for (size_t b = 0; b < o.a1.size(); ++b)
      for (size_t c = 0; c < o.nchan; ++c) {
        const bool dead = o.Dead(t, b, c);
        for (size_t p = 0; p < 4; ++p) {
          const size_t i = o.At(b, c, p);
          for (size_t d = 0; d <= o.ndir; ++d) {
            const C was = d == o.ndir ? x.data[i] : x.model[d][i];
            const D want = dead ? D(0) : D(was) * std::sqrt(double(x.weights[i]));
            const D got = D(out[t].GetData(d == o.ndir ? "" : o.names[d]).data()[i]);
            if (!(std::abs(got - want) <= 1e-5 * std::abs(want)))
              sim::Fail("weighting", h::Where(t, b, c, p) + (dead ? " is unusable but its value reaches the solver"
                                                                  : " is not weighted with the root of its weight"));
            if (d == o.ndir || keep) {
              const C now = in[t]->GetData(d == o.ndir ? "" : o.names[d]).data()[i];
              if (!h::SameC(now, was)) sim::Fail("input-changed", h::Where(t, b, c, p) + ": the input data changed");
            }
          }
        }
      }
  }
  return out;
}

/// Records what the solver proposes in each iteration.
class Recorder : public dd::Constraint {
 public:
  struct Call {
    int id;
    bool reached, final_iteration;
    size_t iteration, solve;
    double time;
    std::vector<D> in, out;
  };
  struct Log {
    std::vector<Call> calls;
    size_t solve = 0;
    std::vector<std::string> errors;
  };
  /// mode 0: nothing, 1: unit amplitude, 2: average over the blocks.
  Recorder(std::shared_ptr<Log> log, int id, int mode, size_t satisfied_after)
      : log_(std::move(log)), id_(id), mode_(mode), satisfied_after_(satisfied_after) {}
  void PrepareIteration(bool reached, size_t iteration, bool final_iteration) override {
    sim::Quiet q;
    reached_ = reached;
    iteration_ = iteration;
    final_ = final_iteration;
    if (!reached && iteration == 0 && !final_iteration) applied_ = 0;
  }
  bool Satisfied() const override { return applied_ >= satisfied_after_; }
  void Apply(dd::SolutionSpan& s, double time) override {
    sim::Quiet q;
    Call c;
    c.id = id_;
    c.reached = reached_;
    c.final_iteration = final_;
    c.iteration = iteration_;
    c.solve = log_->solve;
    c.time = time;
    c.in.assign(s.data(), s.data() + s.size());
    c.out = c.in;
    Project(c.out, s.shape(0));
    std::copy(c.out.begin(), c.out.end(), s.data());
    ++applied_;
    log_->calls.push_back(std::move(c));
  }
  std::vector<dd::ConstraintResult> GetResult() const override {
    std::vector<dd::ConstraintResult> r(1);
    r[0].vals = {double(id_), double(applied_)};
    r[0].name = "recorder";
    return r;
  }
  void Project(std::vector<D>& v, size_t blocks) const {
    if (mode_ == 1) {
      for (D& x : v)
        if (Finite(x) && x != 0.0) x /= std::abs(x);
    } else if (mode_ == 2) {
      const size_t n = v.size() / blocks;
      for (size_t i = 0; i < n; ++i) {
        D sum = 0;
        for (size_t b = 0; b < blocks; ++b) sum += v[b * n + i];
        for (size_t b = 0; b < blocks; ++b) v[b * n + i] = sum / double(blocks);
      }
    }
  }

 private:
  std::shared_ptr<Log> log_;
  int id_, mode_;
  size_t satisfied_after_, applied_ = 0, iteration_ = 0;
  bool reached_ = false, final_ = false;
};

/// The least squares problem of one antenna and one row of its solution.
struct Lsq {
  size_t n = 0;
  std::vector<D> ata, atb;
  void Init(size_t k) {
    n = k;
    ata.assign(k * k, 0);
    atb.assign(k, 0);
  }
  void Row(const D* c, D rhs) {
    for (size_t i = 0; i < n; ++i) {
      for (size_t j = 0; j < n; ++j) ata[i * n + j] += std::conj(c[i]) * c[j];
      atb[i] += std::conj(c[i]) * rhs;
    }
  }
  /// 0: solved, 1: no data at all, 2: too badly determined to compare.
  int Solve(std::vector<D>& x) {
    double scale = 0;
    for (size_t i = 0; i < n; ++i) scale = std::max(scale, std::abs(ata[i * n + i]));
    if (scale == 0) return 1;
    std::vector<D> a = ata;
    x = atb;
    for (size_t i = 0; i < n; ++i) {
      size_t best = i;
      for (size_t j = i + 1; j < n; ++j)
        if (std::abs(a[j * n + i]) > std::abs(a[best * n + i])) best = j;
      if (std::abs(a[best * n + i]) < 3e-3 * scale) return 2;
      for (size_t k = 0; k < n; ++k) std::swap(a[i * n + k], a[best * n + k]);
      std::swap(x[i], x[best]);
      for (size_t j = i + 1; j < n; ++j) {
        const D f = a[j * n + i] / a[i * n + i];
        for (size_t k = i; k < n; ++k) a[j * n + k] -= f * a[i * n + k];
        x[j] -= f * x[i];
      }
    }
    for (size_t i = n; i-- > 0;) {
      for (size_t k = i + 1; k < n; ++k) x[i] -= a[i * n + k] * x[k];
      x[i] /= a[i * n + i];
    }
    return 0;
  }
};

/// One iteration of the reference. `old` are the solutions before it;
/// sure[i] is false where the result can not be compared.
struct Reference {
  const Observation& o;
  int type;
  double step;
  bool phase_only;
  std::vector<std::vector<dp3::base::DPBuffer>> unused;

  struct Vis {
    int a1, a2;
    M2 d;
    std::vector<M2> m;
    std::vector<size_t> sub;
  };
  std::vector<std::vector<Vis>> blocks;

  Reference(const Observation& obs, int t, double s, bool phase) : o(obs), type(t), step(s), phase_only(phase) {
    blocks.resize(o.nblocks);
    for (size_t cb = 0; cb < o.nblocks; ++cb)
      for (size_t t = 0; t < o.times.size(); ++t)
        for (size_t b = 0; b < o.a1.size(); ++b) {
          if (o.a1[b] == o.a2[b]) continue;
          for (size_t c = o.First(cb); c < o.First(cb + 1); ++c) {
            if (o.Dead(t, b, c)) continue;
            Vis v;
            v.a1 = o.a1[b];
            v.a2 = o.a2[b];
            auto get = [&](const std::vector<C>& x) {
              M2 m;
              for (size_t p = 0; p < 4; ++p)
                m.v[p] = D(x[o.At(b, c, p)]) * std::sqrt(double(o.times[t].weights[o.At(b, c, p)]));
              return m;
            };
            v.d = get(o.times[t].data);
            for (size_t d = 0; d < o.ndir; ++d) {
              v.m.push_back(get(o.times[t].model[d]));
              v.sub.push_back(o.SubIndex(d, t));
            }
            blocks[cb].push_back(std::move(v));
          }
        }
  }

  // Adds the equations of one visibility to the problem of its first antenna.
  void Equations(std::vector<Lsq>& sys, const M2& data, const std::vector<const M2*>& model,
                 const std::vector<M2>& other) const {
    const size_t nd = model.size();
    std::vector<D> c(sys[0].n);
    if (type == kIterScalarUni) {
      c[0] = 0.5 * (model[0]->v[0] + model[0]->v[3]) * std::conj(other[0].v[0]);
      sys[0].Row(c.data(), 0.5 * (data.v[0] + data.v[3]));
      return;
    }
    const bool duo = type == kIterScalarDuo || type == kIterDiagonalDuo;
    const size_t npol = NPol(type);
    for (size_t p = 0; p < 2; ++p)
      for (size_t q = 0; q < 2; ++q) {
        if (duo && p != q) continue;
        for (size_t s = 0; s < nd; ++s) {
          if (npol == 4) {
            const M2 mj = *model[s] * other[s].Herm();
            c[2 * s] = mj.v[q];
            c[2 * s + 1] = mj.v[2 + q];
          } else {
            c[s] = model[s]->v[2 * p + q] * std::conj(other[s].v[3 * q]);
          }
        }
        sys[npol == 1 ? 0 : p].Row(c.data(), data.v[2 * p + q]);
      }
  }

  void Iterate(const std::vector<D>& old_all, std::vector<D>& next, std::vector<char>& sure) const {
    const size_t nsub = o.NSub(), npol = NPol(type), per = o.nant * nsub * npol;
    next.assign(old_all.size(), D(NAN, NAN));
    sure.assign(old_all.size(), 1);
    for (size_t cb = 0; cb < o.nblocks; ++cb) {
      std::vector<D> old(old_all.begin() + cb * per, old_all.begin() + (cb + 1) * per);
      MakeFinite(old, npol);
      auto jones = [&](size_t ant, size_t sub) { return ToMatrix(&old[(ant * nsub + sub) * npol], npol); };
      const size_t groups = npol == 1 ? 1 : 2, width = npol == 4 ? 2 : 1;
      auto store = [&](size_t ant, size_t sub, size_t group, int rc, const D* x) {
        for (size_t k = 0; k < width; ++k) {
          const size_t i = cb * per + (ant * nsub + sub) * npol + group * width + k;
          if (rc == 0) next[i] = x[k];
          if (rc == 2) sure[i] = 0;
        }
      };
      if (!Iterative(type)) {
        std::vector<std::vector<Lsq>> sys(o.nant, std::vector<Lsq>(groups));
        for (auto& a : sys)
          for (auto& g : a) g.Init(o.ndir * width);
        for (const Vis& v : blocks[cb]) {
          std::vector<M2> herm;
          std::vector<const M2*> m, mh;
          std::vector<M2> j1, j2;
          for (const M2& x : v.m) herm.push_back(x.Herm());
          for (size_t d = 0; d < o.ndir; ++d) {
            m.push_back(&v.m[d]);
            mh.push_back(&herm[d]);
            j1.push_back(jones(v.a1, d));
            j2.push_back(jones(v.a2, d));
          }
          Equations(sys[v.a1], v.d, m, j2);
          Equations(sys[v.a2], v.d.Herm(), mh, j1);
        }
        for (size_t a = 0; a < o.nant; ++a)
          for (size_t g = 0; g < groups; ++g) {
            std::vector<D> x;
            const int rc = sys[a][g].Solve(x);
            for (size_t d = 0; d < o.ndir; ++d) store(a, d, g, rc, x.data() + d * width);
          }
      } else {
        for (size_t dir = 0; dir < o.ndir; ++dir) {
          std::vector<std::vector<Lsq>> sys(o.nant * nsub, std::vector<Lsq>(groups));
          for (auto& a : sys)
            for (auto& g : a) g.Init(width);
          for (const Vis& v : blocks[cb]) {
            M2 rest = v.d;
            for (size_t d = 0; d < o.ndir; ++d)
              if (d != dir) {
                const M2 x = jones(v.a1, v.sub[d]) * v.m[d] * jones(v.a2, v.sub[d]).Herm();
                for (size_t p = 0; p < 4; ++p) rest.v[p] -= x.v[p];
              }
            const size_t s = v.sub[dir];
            const M2 herm = v.m[dir].Herm();
            Equations(sys[v.a1 * nsub + s], rest, {&v.m[dir]}, {jones(v.a2, s)});
            Equations(sys[v.a2 * nsub + s], rest.Herm(), {&herm}, {jones(v.a1, s)});
          }
          for (size_t a = 0; a < o.nant; ++a)
            for (size_t s = 0; s < nsub; ++s) {
              bool mine = false;
              for (size_t t = 0; t < o.times.size(); ++t) mine |= o.SubIndex(dir, t) == s;
              if (!mine) continue;
              for (size_t g = 0; g < groups; ++g) {
                std::vector<D> x;
                const int rc = sys[a * nsub + s][g].Solve(x);
                store(a, s, g, rc, x.data());
              }
            }
        }
      }
      // The step towards the new solutions.
      for (size_t i = 0; i < per; ++i) {
        D& n = next[cb * per + i];
        if (!Finite(n)) continue;
        if (!phase_only) {
          n = old[i] * (1 - step) + n * step;
        } else {
          double distance = std::arg(n) - std::arg(old[i]);
          if (distance > M_PI) distance -= 2 * M_PI;
          if (distance < -M_PI) distance += 2 * M_PI;
          if (std::abs(distance) > M_PI - 0.01 || std::abs(n) < 0.05) sure[cb * per + i] = 0;
          n = std::polar(1.0, std::arg(old[i]) + step * distance);
        }
      }
    }
  }

  /// Solutions that are not known start from the mean amplitude of the others.
  static void MakeFinite(std::vector<D>& s, size_t npol) {
    std::vector<double> mean(npol, 0);
    size_t n = 0;
    auto finite = [&](size_t i) {
      for (size_t p = 0; p < npol; ++p)
        if (!Finite(s[i + p])) return false;
      return true;
    };
    for (size_t i = 0; i < s.size(); i += npol)
      if (finite(i)) {
        for (size_t p = 0; p < npol; ++p) mean[p] += std::abs(s[i + p]);
        ++n;
      }
    for (size_t p = 0; p < npol; ++p) mean[p] = n ? mean[p] / n : (npol == 4 && (p == 1 || p == 2) ? 0 : 1);
    for (size_t i = 0; i < s.size(); i += npol)
      if (!finite(i))
        for (size_t p = 0; p < npol; ++p) s[i + p] = mean[p];
  }
};

inline dd::SolverBase::SolveResult Solve(int type, dd::SolverBase& solver, const Observation& o, bool keep,
                                         Solutions& solutions, double time) {
  auto buffers = Weighted(o, keep);
  switch (type) {
    case kIterScalarDuo:
    case kIterDiagonalDuo: {
      dd::DuoSolveData data(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2);
      return solver.Solve(data, solutions, time);
    }
    case kIterScalarUni: {
      dd::UniSolveData data(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2);
      return solver.Solve(data, solutions, time);
    }
    default: {
      dd::FullSolveData data(std::move(buffers), o.names, o.nblocks, o.nant, o.n_sol, o.a1, o.a2);
      return solver.Solve(data, solutions, time);
    }
  }
}

inline std::string Place(const Observation& o, size_t npol, size_t i) {
  const size_t nsub = o.NSub();
  return "block " + std::to_string(i / (o.nant * nsub * npol)) + ", antenna " +
         std::to_string(i / (nsub * npol) % o.nant) + ", solution " + std::to_string(i / npol % nsub) +
         ", polarization " + std::to_string(i % npol);
}

}  // namespace hs
#endif
