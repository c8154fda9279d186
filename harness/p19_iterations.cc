// P19: how the calibration solvers iterate, apply constraints and stop.
#include "solvers.h"

const char* const kProperty = "P19";
using namespace hs;

namespace {
enum { kSolve = 1 };
// args: seed, start (0: given, 1: previous result), unknown antenna, dead antenna

double Magnitude(const std::vector<D>& was, const std::vector<D>& now, size_t npol, double step) {
  double sum = 0;
  size_t n = 0;
  for (size_t i = 0; i < was.size(); i += npol) {
    double a = 0;
    if (npol < 4) {
      bool ok = true;
      for (size_t p = 0; p < npol; ++p) {
        ok &= was[i + p] != 0.0;
        a += std::abs((now[i + p] - was[i + p]) / was[i + p]);
      }
      if (!ok) continue;
    } else {
      const M2 s{{was[i], was[i + 1], was[i + 2], was[i + 3]}};
      const D det = s.v[0] * s.v[3] - s.v[1] * s.v[2];
      if (det == 0.0) continue;
      const M2 inv{{s.v[3] / det, -s.v[1] / det, -s.v[2] / det, s.v[0] / det}};
      M2 diff{{now[i] - was[i], now[i + 1] - was[i + 1], now[i + 2] - was[i + 2], now[i + 3] - was[i + 3]}};
      diff = diff * inv;
      for (const D& v : diff.v) a += std::abs(v);
    }
    if (!std::isfinite(a)) continue;
    sum += a;
    n += npol;
  }
  return n ? sum / step / n : 0;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "solve data set " + std::to_string(o.Arg(0)) + (o.Arg(1) ? " from the previous solutions" : "");
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["type"] = rng.Below(kTypes);
  k["threads"] = rng.In(1, 3);
  k["nant"] = rng.In(3, 4);
  k["nblocks"] = rng.In(1, 2);
  k["nchan"] = k["nblocks"] + rng.Below(2);
  k["ntimes"] = rng.In(1, 2);
  k["ndir"] = rng.Chance(0.7) ? 1 : 2;
  k["phase_only"] = NPol(k["type"]) != 4 && rng.Chance(0.3);
  k["noise"] = rng.In(0, 2);
  k["step"] = rng.Chance(0.2) ? 10 : rng.In(2, 9);
  k["max"] = rng.Chance(0.6) ? rng.In(1, 12) : rng.In(30, 60);
  k["min"] = rng.Chance(0.7) ? 0 : rng.In(1, 12);
  k["accuracy"] = rng.In(2, 9);             // 10^-(x/2)
  k["constraint_accuracy"] = rng.In(1, 8);  // 10^-(x/2)
  k["stall"] = rng.Chance(0.6) ? rng.In(1, 12) : 0;
  k["constraints"] = rng.In(1, 3);
  for (int i = 0; i < 3; ++i) {
    k["mode" + std::to_string(i)] = rng.Chance(0.5) ? 0 : rng.In(1, 2);
    k["after" + std::to_string(i)] = rng.Chance(0.6) ? 0 : rng.In(1, 8);
  }
  if (rng.Chance(0.3)) {
    k["stages"] = rng.In(2, 3);
    k["type"] = rng.Below(3) + (rng.Chance(0.5) ? 0 : 0);
    k["stop"] = rng.Below(2);
    for (int i = 0; i < 3; ++i) {
      k["stage_type" + std::to_string(i)] = rng.Below(2);
      k["stage_max" + std::to_string(i)] = rng.In(1, 25);
    }
    k["stall"] = 0;
    k["min"] = 0;
  }
  const int n = rng.In(1, 3);
  for (int i = 0; i < n; ++i)
    plan.Add(kSolve, {static_cast<int64_t>(rng.Below(1 << 28)), rng.Below(2), rng.Chance(0.2) ? rng.In(0, 3) : -1,
                      rng.Chance(0.2) ? rng.In(0, 3) : -1});
}

void Execute(const sim::Plan& plan) {
  const int type = plan.Knob("type");
  const size_t npol = NPol(type), stages = plan.Knob("stages");
  const bool phase_only = plan.Knob("phase_only") && npol != 4;
  const double step = plan.Knob("step", 5) / 10.0;
  const size_t max_iterations = plan.Knob("max", 5), min_iterations = plan.Knob("min");
  const size_t nconstraints = plan.Knob("constraints", 1);
  const double accuracy = std::pow(10, -plan.Knob("accuracy", 5) / 2.0);
  const double caccuracy = std::pow(10, -plan.Knob("constraint_accuracy", 5) / 2.0);
  const double stall = plan.Knob("stall") / 4.0;
  auto key = [](const char* s, size_t i) { return s + std::to_string(i); };

  std::vector<Observation> obs(plan.ops.size());
  std::vector<Solutions> start(plan.ops.size());
  {
    sim::Quiet q;
    for (size_t j = 0; j < obs.size(); ++j) {
      const sim::Op& op = plan.ops[j];
      Observation& o = obs[j];
      o.nant = plan.Knob("nant", 3);
      o.nblocks = plan.Knob("nblocks", 1);
      o.nchan = std::max<size_t>(o.nblocks, plan.Knob("nchan", 1));
      o.ndir = plan.Knob("ndir", 1);
      for (size_t d = 0; d < o.ndir; ++d) {
        o.names.push_back(key("dir", d));
        o.n_sol.push_back(1);
      }
      Fill(o, op.Arg(0), plan.Knob("ntimes", 1), false, npol, plan.Knob("noise") * 0.1, phase_only, true);
      sim::Rng r(op.Arg(0) + 5);
      start[j].assign(o.nblocks, std::vector<D>(o.nant * o.ndir * npol));
      for (auto& block : start[j])
        for (size_t i = 0; i < block.size(); ++i) {
          const bool off = npol == 4 && (i % 4 == 1 || i % 4 == 2);
          block[i] = (off ? 0.0 : 1.0) + 0.1 * Cplx(r);
          if (phase_only) block[i] = std::polar(1.0, std::arg(block[i]));
          if (static_cast<int64_t>(i / (npol * o.ndir)) == op.Arg(2, -1)) block[i] = D(NAN, NAN);
        }
      for (auto& x : o.times)
        for (size_t bl = 0; bl < o.a1.size(); ++bl)
          if (o.a1[bl] == op.Arg(3, -1) || o.a2[bl] == op.Arg(3, -1))
            for (size_t i = 0; i < o.nchan * 4; ++i) x.flags[bl * o.nchan * 4 + i] = 1;
    }
  }

  auto log = std::make_shared<Recorder::Log>();
  auto configure = [&](dd::SolverBase& s, size_t max, int first_id, std::shared_ptr<Recorder::Log> l) {
    s.SetStepSize(step);
    s.SetMaxIterations(max);
    s.SetMinIterations(min_iterations);
    s.SetAccuracy(accuracy);
    s.SetConstraintAccuracy(caccuracy);
    s.SetPhaseOnly(phase_only);
    s.SetDetectStalling(stall > 0, stall);
    for (size_t c = 0; c < nconstraints; ++c)
      s.AddConstraint(std::make_unique<Recorder>(l, first_id + c, plan.Knob(key("mode", c)), plan.Knob(key("after", c))));
  };
  // The solver types of the stages must solve the same thing.
  auto stage_type = [&](size_t i) {
    const bool iter = plan.Knob(key("stage_type", i));
    switch (type) {
      case kScalar: return iter ? kIterScalar : kScalar;
      case kDiagonal: return iter ? kIterDiagonal : kDiagonal;
      default: return iter ? kIterJones : kJones;
    }
  };
  auto make = [&](std::shared_ptr<Recorder::Log> l) -> std::unique_ptr<dd::SolverBase> {
    std::unique_ptr<dd::SolverBase> s;
    if (stages) {
      auto hybrid = std::make_unique<dd::HybridSolver>();
      for (size_t i = 0; i < stages; ++i) {
        auto one = MakeSolver(stage_type(i));
        configure(*one, plan.Knob(key("stage_max", i), 3), i * 10, l);
        hybrid->AddSolver(std::move(one));
      }
      hybrid->SetMaxIterations(max_iterations);
      hybrid->SetStopOnConvergence(plan.Knob("stop"));
      s = std::move(hybrid);
    } else {
      s = MakeSolver(type);
      configure(*s, max_iterations, 0, l);
    }
    s->Initialize(obs[0].nant, obs[0].n_sol, obs[0].nblocks);
    return s;
  };
  if (obs.empty()) return;

  const std::string name = stages ? "hybrid solver: " : std::string(TypeName(type)) + " solver: ";
  std::vector<Solutions> begin, end;
  std::vector<dd::SolverBase::SolveResult> results;
  {
    h::Threads pool(plan.Knob("threads", 1));
    auto solver = make(log);
    for (size_t j = 0; j < obs.size(); ++j) {
      Solutions s;
      {
        sim::Quiet q;
        s = j && plan.ops[j].Arg(1) ? end.back() : start[j];
        begin.push_back(s);
        log->solve = j;
      }
      auto result = Solve(type, *solver, obs[j], true, s, 100.0 + j);
      sim::Quiet q;
      results.push_back(result);
      end.push_back(s);
    }
  }
  sim::Quiet q;
  for (const auto& r : results) sim::Event(r.iterations);

  auto flat = [](const Solutions& s) {
    std::vector<D> v;
    for (const auto& b : s) v.insert(v.end(), b.begin(), b.end());
    return v;
  };
  auto same = [](const std::vector<D>& a, const std::vector<D>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
      if (!Finite(a[i]) && !Finite(b[i])) continue;
      if (a[i] != b[i]) return false;
    }
    return true;
  };
  size_t pos = 0;
  for (size_t j = 0; j < obs.size(); ++j) {
    std::vector<D> now = flat(begin[j]);
    size_t available = max_iterations, total = 0, ctotal = 0;
    bool converged = false, unsure = false, capped = false;
    std::vector<size_t> applied(nconstraints, 0);
    for (size_t stage = 0; stage < std::max<size_t>(1, stages); ++stage) {
      size_t max = stages ? std::min<size_t>(plan.Knob(key("stage_max", stage), 3), available) : max_iterations;
      if (stages && max < size_t(plan.Knob(key("stage_max", stage), 3))) capped = true;
      size_t iteration = 0;
      bool before = false, satisfied = false, done = false;
      converged = false;
      size_t n_stat = 0;
      double mean = 0, var = 0;
      while (!done) {
        const std::vector<D> old = now;
        satisfied = true;
        for (size_t c = 0; c < nconstraints; ++c) {
          if (pos >= log->calls.size() || log->calls[pos].solve != j)
            sim::Fail("stopped-early", name + "solve " + std::to_string(j) + " stopped after " + std::to_string(iteration) +
                                           " iterations" + (stages ? " of stage " + std::to_string(stage) : "") +
                                           " without a reason (maximum " + std::to_string(max) + ", minimum " +
                                           std::to_string(min_iterations) + ")");
          const auto& call = log->calls[pos++];
          if (call.id != int(stage * 10 + c))
            sim::Fail(call.id / 10 != int(stage) ? "stopped-early" : "constraint-order",
                      name + "constraint " + std::to_string(call.id) + " was applied where constraint " +
                          std::to_string(stage * 10 + c) + " was due in iteration " + std::to_string(iteration));
          if (c && !same(call.in, log->calls[pos - 2].out))
            sim::Fail("constraint-chain", name + "a constraint did not get the result of the one before it");
          if (call.iteration != iteration || call.time != 100.0 + j)
            sim::Fail("constraint-iteration", name + "iteration " + std::to_string(iteration) + " of solve " +
                                                  std::to_string(j) + " was announced to a constraint as " +
                                                  std::to_string(call.iteration));
          if (call.final_iteration != (iteration + 1 >= max))
            sim::Fail("constraint-final", name + "iteration " + std::to_string(iteration) + " of at most " +
                                              std::to_string(max) + (call.final_iteration ? " was" : " was not") +
                                              " announced as the last one");
          if (!unsure && call.reached != before)
            sim::Fail("constraint-reached", name + "iteration " + std::to_string(iteration) +
                                                ": a constraint was told that the precision was " +
                                                (call.reached ? "" : "not ") + "reached");
          satisfied &= iteration >= size_t(plan.Knob(key("after", c)));
          applied[c] = iteration + 1;
        }
        now = log->calls[pos - 1].out;
        std::vector<D> finite = old;
        const size_t per = finite.size() / obs[j].nblocks;
        for (size_t b = 0; b < obs[j].nblocks; ++b) {
          std::vector<D> part(finite.begin() + b * per, finite.begin() + (b + 1) * per);
          Reference::MakeFinite(part, npol);
          std::copy(part.begin(), part.end(), finite.begin() + b * per);
        }
        const double mag = Magnitude(finite, now, npol, step);
        const double limit = satisfied ? accuracy : caccuracy;
        if (std::abs(mag - limit) < 1e-6 * limit) unsure = true;
        converged = mag <= limit;
        before |= converged;
        ++iteration;
        bool stalled = false;
        if (stall > 0 && satisfied) {
          ++n_stat;
          const double d1 = mag - mean;
          mean += d1 / n_stat;
          var += d1 * (mag - mean);
          if (iteration >= 30) {
            const double sigma = stall * std::sqrt(var / n_stat);
            stalled = mean < sigma;
            if (std::abs(mean - sigma) < 1e-6 * (mean + sigma)) unsure = true;
            if (stalled) sim::Probe("stalled");
          }
        }
        if (unsure) break;
        done = iteration >= min_iterations && (iteration >= max || (converged && satisfied) || stalled);
      }
      if (unsure) break;
      if (converged && satisfied) sim::Probe("converged");
      if (!satisfied) sim::Probe("constraints not satisfied");
      const size_t reported = converged && satisfied ? iteration : iteration + 1;
      total += reported;
      if (!satisfied) ctotal += iteration + 1;
      converged = stages ? reported <= max : converged && satisfied;
      available -= converged ? reported : std::min(max, available);
      if (stages && converged && plan.Knob("stop")) break;
    }
    if (unsure) {
      sim::Probe("on the limit");
      return;
    }
    if (pos < log->calls.size() && log->calls[pos].solve == j)
      sim::Fail("too-long", name + "solve " + std::to_string(j) + " went on after it had to stop");
    if (stages && !converged) total = max_iterations + 1;
    if (capped) sim::Probe("stage limited by the total");
    if (!same(flat(end[j]), now)) sim::Fail("result", name + "the result is not the constrained solution of the last iteration");
    const auto& r = results[j];
    if (r.iterations != total)
      sim::Fail("iterations", name + "reports " + std::to_string(r.iterations) + " iterations instead of " + std::to_string(total));
    if (r.constraint_iterations != ctotal)
      sim::Fail("constraint-iterations", name + "reports " + std::to_string(r.constraint_iterations) +
                                             " constrained iterations instead of " + std::to_string(ctotal));
    if (r.results.size() != nconstraints) sim::Fail("constraint-results", name + "the results of the constraints are missing");
    for (size_t c = 0; c < nconstraints; ++c)
      if (r.results[c].size() != 1 || int(r.results[c][0].vals[0]) % 10 != int(c) || r.results[c][0].vals[1] != applied[c])
        sim::Fail("constraint-results", name + "the results of constraint " + std::to_string(c) + " are not those of the end");
  }
  // Earlier solves have no influence.
  if (plan.Knob("threads", 1) == 1 && obs.size() > 1) {
    auto l = std::make_shared<Recorder::Log>();
    h::Threads pool(1);
    auto solver = make(l);
    Solutions s = begin.back();
    const auto r = Solve(type, *solver, obs.back(), true, s, 100.0 + obs.size() - 1);
    if (r.iterations != results.back().iterations || !same(flat(s), flat(end.back())))
      sim::Fail("history", name + "the result depends on what was solved before");
    sim::Probe("history");
  }
}
