// P06: linear least-squares solvers: reuse, concurrency, failing LAPACK, memory.
#include "ddecal/linear_solvers/LLSSolver.h"

#include "sim.h"

#include <new>
#include <string>
#include <thread>

using dp3::ddecal::LLSSolver;
using dp3::ddecal::LLSSolverType;
using C = std::complex<float>;
using D = std::complex<double>;
const char* const kProperty = "P06";
namespace simlapack {
extern thread_local int t_failed;
}

namespace {
enum { kSolve = 1 };
constexpr int kObjects = 3;
// args: thread, object, seed, zero column, use initial value, scale, column spread
const char* const kTypes[] = {"qr", "SVD", "NormalEquations"};

std::vector<D> Reference(int m, int n, int nrhs, const std::vector<C>& a, const std::vector<C>& b, int ldb) {
  // m >= n: solve A^H A x = A^H b; m < n: x = A^H (A A^H)^-1 b, in double.
  const bool tall = m >= n;
  const int k = tall ? n : m;
  std::vector<D> g(k * k), r(k * nrhs);
  auto A = [&](int i, int j) { return D(a[i + j * m]); };
  for (int i = 0; i < k; ++i)
    for (int j = 0; j < k; ++j) {
      D s = 0;
      if (tall)
        for (int l = 0; l < m; ++l) s += std::conj(A(l, i)) * A(l, j);
      else
        for (int l = 0; l < n; ++l) s += A(i, l) * std::conj(A(j, l));
      g[i + j * k] = s;
    }
  for (int p = 0; p < nrhs; ++p)
    for (int i = 0; i < k; ++i) {
      D s = 0;
      if (tall)
        for (int l = 0; l < m; ++l) s += std::conj(A(l, i)) * D(b[l + p * ldb]);
      else
        s = b[i + p * ldb];
      r[i + p * k] = s;
    }
  // Gauss with pivoting.
  for (int c = 0; c < k; ++c) {
    int piv = c;
    for (int i = c; i < k; ++i)
      if (std::abs(g[i + c * k]) > std::abs(g[piv + c * k])) piv = i;
    for (int j = 0; j < k; ++j) std::swap(g[c + j * k], g[piv + j * k]);
    for (int p = 0; p < nrhs; ++p) std::swap(r[c + p * k], r[piv + p * k]);
    for (int i = 0; i < k; ++i) {
      if (i == c) continue;
      const D f = g[i + c * k] / g[c + c * k];
      for (int j = c; j < k; ++j) g[i + j * k] -= f * g[c + j * k];
      for (int p = 0; p < nrhs; ++p) r[i + p * k] -= f * r[c + p * k];
    }
  }
  std::vector<D> x(n * nrhs);
  for (int p = 0; p < nrhs; ++p) {
    std::vector<D> y(k);
    for (int i = 0; i < k; ++i) y[i] = r[i + p * k] / g[i + i * k];
    for (int j = 0; j < n; ++j) {
      if (tall) {
        x[j + p * n] = y[j];
      } else {
        D s = 0;
        for (int i = 0; i < m; ++i) s += std::conj(A(i, j)) * y[i];
        x[j + p * n] = s;
      }
    }
  }
  return x;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "T" + std::to_string(o.Arg(0)) + " solve(object " + std::to_string(o.Arg(1)) + ", data " +
         std::to_string(o.Arg(2)) + (o.Arg(3) ? ", singular" : "") + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  const int threads = static_cast<int>(rng.In(1, 3));
  plan.knobs["threads"] = threads;
  for (int i = 0; i < kObjects; ++i) {
    const int type = static_cast<int>(rng.Below(3));
    const bool large = rng.Chance(0.1);
    const int n = static_cast<int>(rng.In(1, large ? 24 : 5));
    int m = static_cast<int>(rng.In(n, n + (large ? 40 : 8)));
    if (type != 2 && rng.Chance(0.2)) m = static_cast<int>(rng.In(1, n));
    const std::string s = std::to_string(i);
    plan.knobs["type" + s] = type;
    plan.knobs["m" + s] = m;
    plan.knobs["n" + s] = n;
    plan.knobs["nrhs" + s] = rng.Chance(0.5) ? 1 : rng.In(1, 4);
  }
  if (rng.Chance(0.5)) plan.knobs["rate_lapack_fail"] = rng.In(500, 5000);
  if (rng.Chance(0.3)) plan.knobs["rate_alloc_fail"] = rng.In(200, 3000);
  for (int t = 1; t <= threads; ++t) {
    const int k = static_cast<int>(rng.In(1, 6));
    for (int i = 0; i < k; ++i)
      plan.Add(kSolve, {t, static_cast<int64_t>(rng.Below(kObjects)), static_cast<int64_t>(rng.Below(1 << 28)),
                        rng.Chance(0.15), rng.Chance(0.5), rng.In(-12, 12), rng.Chance(0.4) ? rng.In(1, 5) : 0});
  }
}

void Execute(const sim::Plan& plan) {
  const int threads = static_cast<int>(plan.Knob("threads", 1));
  auto body = [&](int t) {
    std::unique_ptr<LLSSolver> obj[kObjects];
    for (const sim::Op& o : plan.ops) {
      if (o.Arg(0) != t) continue;
      const int k = static_cast<int>((o.Arg(1) % kObjects + kObjects) % kObjects);
      const std::string s = std::to_string(k);
      const int type = static_cast<int>(plan.Knob("type" + s));
      const int m = static_cast<int>(plan.Knob("m" + s, 1)), n = static_cast<int>(plan.Knob("n" + s, 1));
      const int nrhs = static_cast<int>(plan.Knob("nrhs" + s, 1));
      if (!obj[k]) obj[k] = LLSSolver::Make(LLSSolver::ParseType(kTypes[type]), m, n, nrhs);
      const int ldb = std::max(m, n);
      constexpr int kGuard = 4;
      const C guard(7, -7);
      std::vector<C> a(m * n + 2 * kGuard, guard), b(ldb * nrhs + 2 * kGuard, guard), a0(m * n), b0(ldb * nrhs);
      const bool singular = o.Arg(3) && m >= n && n > 1;  // LAPACK solves A = 0
      {
        sim::Rng r(o.Arg(2));
        for (int j = 0; j < n; ++j)
          for (int i = 0; i < m; ++i) {
            C v(static_cast<float>(r.Unit() - 0.5), static_cast<float>(r.Unit() - 0.5));
            v *= 0.6f / std::max(m, n);
            if (i == j || (m > n && i >= n && (i - n) % n == j)) v += C(1, 0.5f);
            if (singular && j == static_cast<int>(o.Arg(2) % n)) v = 0;
            a0[i + j * m] = v;
          }
        // Scale the whole system, and the columns relative to each other.
        const double unit = std::pow(10.0, o.Arg(5) / 4.0);
        const int spread = type == 2 ? std::min<int>(1, o.Arg(6)) : static_cast<int>(o.Arg(6));
        for (int j = 0; j < n; ++j) {
          const float f = static_cast<float>(unit * (spread ? std::pow(10.0, -0.5 * r.Below(spread + 1)) : 1.0));
          for (int i = 0; i < m; ++i) a0[i + j * m] *= f;
        }
        for (auto& v : b0) v = C(static_cast<float>(r.Unit() * 4 - 2), static_cast<float>(r.Unit() * 4 - 2));
      }
      std::copy(a0.begin(), a0.end(), a.begin() + kGuard);
      std::copy(b0.begin(), b0.end(), b.begin() + kGuard);
      std::vector<C> x0(n * nrhs, C(3, 3));
      simlapack::t_failed = 0;
      bool ok = false, nomem = false;
      sim::EnableFaultsHere(true);
      try {
        ok = o.Arg(4) ? obj[k]->Solve(a.data() + kGuard, b.data() + kGuard, x0.data())
                      : obj[k]->Solve(a.data() + kGuard, b.data() + kGuard);
      } catch (const std::bad_alloc&) {
        nomem = true;
      }
      sim::EnableFaultsHere(false);
      sim::Quiet q;
      sim::Event(ok * 2 + nomem);
      for (int i = 0; i < kGuard; ++i)
        if (a[i] != guard || b[i] != guard || a[a.size() - 1 - i] != guard || b[b.size() - 1 - i] != guard)
          sim::Fail("overrun", "a solver wrote outside the matrices it was given");
      if (nomem) {
        if (sim::FaultsFired(sim::kAllocFail) == 0) sim::Fail("bad-alloc", "memory failure without a cause");
        sim::Probe("out of memory during a solve");
        continue;
      }
      if (simlapack::t_failed) {
        sim::Probe("failing factorisation");
        if (ok) sim::Fail("failure-hidden", "a failed factorisation was reported as a solution");
        continue;
      }
      const bool solvable = !(type == 0 && m < n) && !(singular && type != 1);
      if (!solvable) {
        if (ok) sim::Fail("unsolvable-accepted", std::string(kTypes[type]) + " reported a solution for " +
                                                     (singular ? "a singular" : "an underdetermined") + " system");
        sim::Probe("unsolvable system refused");
        continue;
      }
      if (!ok)
        sim::Fail("spurious-failure", std::string(kTypes[type]) + " failed on a well-conditioned " +
                                          std::to_string(m) + "x" + std::to_string(n) + " system");
      if (singular) continue;
      const std::vector<D> x = Reference(m, n, nrhs, a0, b0, ldb);
      // The normal-equations solver packs several right-hand sides densely.
      bool good = false;
      for (int stride : {ldb, n}) {
        if (stride != ldb && type != 2) continue;
        double err = 0, norm = 1e-30;
        for (int p = 0; p < nrhs; ++p)
          for (int j = 0; j < n; ++j) {
            err = std::max(err, std::abs(D(b[kGuard + j + p * stride]) - x[j + p * n]));
            norm = std::max(norm, std::abs(x[j + p * n]));
          }
        good |= err <= 5e-3 * norm;
      }
      if (!good)
        sim::Fail("not-minimal", std::string(kTypes[type]) + " reported a solution of a " + std::to_string(m) + "x" +
                                     std::to_string(n) + " system that does not minimise the residual");
      sim::EventDouble(b[kGuard].real());
      sim::Probe("solution checked");
    }
  };
  std::vector<std::thread> pool;
  for (int t = 1; t < threads; ++t) pool.emplace_back(body, t);
  body(threads);
  for (auto& t : pool) t.join();
}
