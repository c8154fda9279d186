// P18: the calibration solvers.
#include "solvers.h"

#include <set>

const char* const kProperty = "P18";
using namespace hs;

namespace {
enum { kFlag = 1, kBad, kDeadAntenna, kUnknownStart };
}

std::string Describe(const sim::Op& o) {
  const std::string n = std::to_string(o.Arg(0)), m = std::to_string(o.Arg(1)), k = std::to_string(o.Arg(2));
  switch (o.kind) {
    case kFlag: return "flag time " + n + " baseline " + m + " channel " + k;
    case kBad: return "no number in time " + n + " baseline " + m + " channel " + k + " of field " + std::to_string(o.Arg(4));
    case kDeadAntenna: return "antenna " + n + " has no data";
    default: return "no initial solution for antenna " + n;
  }
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["type"] = rng.Below(kTypes);
  k["threads"] = rng.In(1, 4);
  k["nant"] = rng.In(3, 5);
  k["autos"] = rng.Below(2);
  k["nblocks"] = rng.In(1, 3);
  k["nchan"] = k["nblocks"] + rng.Below(3);
  k["ntimes"] = rng.In(1, 4);
  k["ndir"] = rng.Chance(0.5) ? 1 : rng.In(2, 3);
  if (k["ndir"] > 1 && !Iterative(k["type"])) k["ntimes"] = rng.In(2, 4);
  k["seed"] = rng.Below(1 << 30);
  k["iterations"] = rng.In(1, 3);
  k["step"] = rng.Chance(0.3) ? 10 : rng.In(1, 9);
  k["phase_only"] = NPol(k["type"]) != 4 && rng.Chance(0.3);
  k["keep"] = rng.Below(2);
  k["lls"] = rng.Below(3);
  k["subsolutions"] = Iterative(k["type"]) ? rng.Below(4) : 0;
  k["constraint"] = rng.Chance(0.5) ? 0 : rng.In(1, 2);
  if (rng.Chance(0.06)) {
    k["converge"] = 1;
    k["ndir"] = 1;
    k["nant"] = 5;
    k["subsolutions"] = 0;
    k["constraint"] = 0;
    return;
  }
  if (!Iterative(k["type"]) && rng.Chance(0.3)) k["rate_lapack_fail"] = rng.In(100, 2000);
  const int n = rng.Chance(0.3) ? 0 : rng.In(1, 8);
  for (int i = 0; i < n; ++i) {
    const int what = rng.In(1, 12);
    const std::vector<int64_t> where{rng.In(0, 3), rng.In(0, 14), rng.In(0, 4), rng.In(0, 3), rng.In(0, 3), rng.In(0, 2)};
    if (what <= 6)
      plan.Add(kFlag, where);
    else if (what <= 10)
      plan.Add(kBad, where);
    else
      plan.Add(what == 11 ? kDeadAntenna : kUnknownStart, {rng.In(0, 4)});
  }
}

void Execute(const sim::Plan& plan) {
  const int type = plan.Knob("type");
  const size_t npol = NPol(type);
  Observation o;
  Solutions start;
  const bool phase_only = plan.Knob("phase_only"), converge = plan.Knob("converge");
  {
    sim::Quiet q;
    o.nant = plan.Knob("nant", 3);
    o.nblocks = plan.Knob("nblocks", 1);
    o.nchan = std::max<size_t>(o.nblocks, plan.Knob("nchan", 1));
    o.ndir = plan.Knob("ndir", 1);
    const size_t ntimes = plan.Knob("ntimes", 1);
    for (size_t d = 0; d < o.ndir; ++d) {
      o.names.push_back("dir" + std::to_string(d));
      o.n_sol.push_back(std::min<size_t>(ntimes, 1 + (plan.Knob("subsolutions") >> d & 1) * (1 + d)));
    }
    Fill(o, plan.Knob("seed"), ntimes, plan.Knob("autos"), npol, converge ? 0 : 0.1, phase_only, converge);
    start.assign(o.nblocks, std::vector<D>(o.nant * o.NSub() * npol));
    sim::Rng r(plan.Knob("seed") + 5);
    for (auto& block : start)
      for (size_t i = 0; i < block.size(); ++i) {
        const bool off = npol == 4 && (i % 4 == 1 || i % 4 == 2);
        block[i] = (off ? 0.0 : 1.0) + (converge ? 0.0 : 0.2) * Cplx(r);
        if (phase_only) block[i] = std::polar(1.0, std::arg(block[i]));
      }
    for (const sim::Op& op : plan.ops) {
      const size_t t = op.Arg(0) % ntimes, b = op.Arg(1) % o.a1.size(), c = op.Arg(2) % o.nchan;
      if (op.kind == kFlag)
        for (size_t p = 0; p < 4; ++p)
          if (op.Arg(5) || p == size_t(op.Arg(3))) o.times[t].flags[o.At(b, c, p)] = 1;
      if (op.kind == kBad) {
        const float bad = op.Arg(5) ? NAN : INFINITY;
        const size_t f = op.Arg(4) % (o.ndir + 1);
        (f == o.ndir ? o.times[t].data : o.times[t].model[f])[o.At(b, c, op.Arg(3))] = op.Arg(5) == 2 ? C(1, bad) : C(bad, 0);
      }
      if (op.kind == kDeadAntenna)
        for (auto& x : o.times)
          for (size_t bl = 0; bl < o.a1.size(); ++bl)
            if (o.a1[bl] == op.Arg(0) || o.a2[bl] == op.Arg(0))
              for (size_t i = 0; i < o.nchan * 4; ++i) x.flags[bl * o.nchan * 4 + i] = 1;
      if (op.kind == kUnknownStart && size_t(op.Arg(0)) < o.nant)
        for (auto& block : start)
          for (size_t i = 0; i < o.NSub() * npol; ++i) block[op.Arg(0) * o.NSub() * npol + i] = D(NAN, NAN);
    }
  }
  const double step = converge ? 0.5 : plan.Knob("step", 5) / 10.0;
  const size_t iterations = converge ? 100 : plan.Knob("iterations", 1);
  auto run = [&](const Observation& obs, size_t threads, bool record, std::shared_ptr<Recorder::Log> log) {
    Solutions s = start;
    h::Threads pool(threads);
    auto solver = MakeSolver(type);
    solver->Initialize(obs.nant, obs.n_sol, obs.nblocks);
    solver->SetStepSize(step);
    solver->SetMinIterations(iterations);
    solver->SetMaxIterations(iterations);
    solver->SetPhaseOnly(phase_only);
    static const dd::LLSSolverType kLls[] = {dd::LLSSolverType::QR, dd::LLSSolverType::SVD,
                                             dd::LLSSolverType::NORMAL_EQUATIONS};
    solver->SetLLSSolverType(kLls[plan.Knob("lls")]);
    if (record) solver->AddConstraint(std::make_unique<Recorder>(log, 0, plan.Knob("constraint"), 0));
    Solve(type, *solver, obs, plan.Knob("keep"), s, 17.5);
    return s;
  };
  auto log = std::make_shared<Recorder::Log>();
  const size_t threads = plan.Knob("threads", 1);
  Solutions got;
  {
    sim::FaultScope faults;
    got = run(o, threads, true, log);
  }
  sim::Quiet q;
  const uint64_t failures = sim::FaultsFired(sim::kLapackFail);
  std::set<std::pair<size_t, size_t>> lost;  // iteration and equation of a failure
  const std::string name = std::string(TypeName(type)) + " solver: ";
  auto flat = [](const Solutions& s) {
    std::vector<D> v;
    for (const auto& b : s) v.insert(v.end(), b.begin(), b.end());
    return v;
  };
  for (const D& v : flat(got)) {
    sim::EventDouble(v.real());
    sim::EventDouble(v.imag());
  }
  Reference ref(o, type, step, phase_only);
  std::vector<D> now = flat(start);
  if (log->calls.size() != iterations)
    sim::Fail("iterations", name + std::to_string(log->calls.size()) + " iterations instead of " + std::to_string(iterations));
  const double tolerance = plan.Knob("lls") == 2 ? 4e-3 : 6e-4;
  for (size_t it = 0; it < (converge ? 2 : iterations); ++it) {
    std::vector<D> want;
    std::vector<char> sure;
    ref.Iterate(now, want, sure);
    const auto& call = log->calls[it];
    for (size_t i = 0; i < want.size(); ++i) {
      if (!sure[i]) {
        sim::Probe("badly determined solution");
        continue;
      }
      if (!Finite(want[i])) {
        if (Finite(call.in[i]))
          sim::Fail("no-data", name + Place(o, npol, i) + " has a solution without any usable data");
        sim::Probe("antenna without usable data");
        continue;
      }
      if (!Finite(call.in[i]) && failures) {
        // Solutions of one failed equation: all directions of an antenna.
        lost.insert({it, i / (o.NSub() * npol) * 2 + (npol == 2 ? i % 2 : 0)});
        continue;
      }
      if (!(std::abs(call.in[i] - want[i]) <= tolerance * (1 + std::abs(want[i])))) {
        char txt[200];
        std::snprintf(txt, sizeof txt, ": %g%+gi instead of %g%+gi in iteration %zu", call.in[i].real(), call.in[i].imag(),
                      want[i].real(), want[i].imag(), it);
        sim::Fail("solution", name + Place(o, npol, i) + txt);
      }
    }
    now = call.out;
  }
  if (lost.size() > failures)
    sim::Fail("failure-spread", name + std::to_string(failures) + " failed equations made " + std::to_string(lost.size()) +
                                    " antenna solutions unknown");
  if (failures) sim::Probe("failed equation");
  // What comes out is what the constraints made of the last iteration.
  auto same = [](const std::vector<D>& a, const std::vector<D>& b, double tol) -> long {
    for (size_t i = 0; i < a.size(); ++i) {
      if (!Finite(a[i]) && !Finite(b[i])) continue;
      if (tol == 0 ? a[i] != b[i] : !(std::abs(a[i] - b[i]) <= tol * (1 + std::abs(a[i])))) return i;
    }
    return -1;
  };
  if (long i = same(flat(got), log->calls.back().out, 0); i >= 0)
    sim::Fail("result", name + Place(o, npol, i) + ": the result is not the constrained solution of the last iteration");
  if (converge) {
    double res = 0, sum = 0;
    for (size_t cb = 0; cb < o.nblocks; ++cb)
      for (const auto& v : ref.blocks[cb]) {
        auto jones = [&](int a) { return ToMatrix(&got[cb][(a * o.NSub() + v.sub[0]) * npol], npol); };
        M2 p = jones(v.a1) * v.m[0] * jones(v.a2).Herm();
        M2 d = v.d;
        const bool uni = type == kIterScalarUni, duo = type == kIterScalarDuo || type == kIterDiagonalDuo;
        if (uni) {
          p.v[0] = 0.5 * (p.v[0] + p.v[3]);
          d.v[0] = 0.5 * (d.v[0] + d.v[3]);
        }
        for (size_t k = 0; k < 4; ++k) {
          if ((uni && k) || (duo && (k == 1 || k == 2))) continue;
          res += std::norm(d.v[k] - p.v[k]);
          sum += std::norm(d.v[k]);
        }
      }
    if (!(res <= 1e-3 * sum))
      sim::Fail("convergence", name + "noise-free data keep a residual of " + std::to_string(std::sqrt(res / sum)) +
                                   " of their amplitude");
    sim::Probe("noise-free data");
  }
  if (threads > 1 && !failures) {
    // Sums of several threads may be added in any order.
    auto log1 = std::make_shared<Recorder::Log>();
    const Solutions one = run(o, 1, true, log1);
    const double tol = Iterative(type) && threads / o.nblocks > 1 ? 1e-3 : 0;
    if (long i = same(log->calls[0].in, log1->calls[0].in, tol); i >= 0)
      sim::Fail("schedule", name + Place(o, npol, i) + ": the solution depends on the thread schedule");
    if (tol == 0)
      if (long i = same(flat(got), flat(one), tol); i >= 0)
        sim::Fail("schedule", name + Place(o, npol, i) + ": the solution depends on the thread schedule");
    sim::Probe("compared with one thread");
  }
  if (!plan.ops.empty() && !converge) {
    // Unusable samples can have any value.
    Observation g = o;
    sim::Rng r(plan.Knob("seed") + 9);
    for (size_t t = 0; t < o.times.size(); ++t)
      for (size_t b = 0; b < o.a1.size(); ++b)
        for (size_t c = 0; c < o.nchan; ++c)
          if (o.Dead(t, b, c))
            for (size_t p = 0; p < 4; ++p) {
              g.times[t].flags[o.At(b, c, p)] = 1;
              g.times[t].data[o.At(b, c, p)] = r.Chance(0.5) ? C(NAN, 3) : C(1e10, -4);
              for (auto& m : g.times[t].model) m[o.At(b, c, p)] = r.Chance(0.5) ? C(INFINITY, 3) : C(1e12, -4);
            }
    auto l = std::make_shared<Recorder::Log>();
    const Solutions a = run(o, 1, false, l), b = run(g, 1, false, l);
    if (long i = same(flat(a), flat(b), 0); i >= 0)
      sim::Fail("flagged-influence", name + Place(o, npol, i) + " depends on the value of unusable samples");
    sim::Probe("garbage under flags");
  }
}
