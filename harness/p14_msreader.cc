// P14: reading a MeasurementSet gives every time slot of a regular grid once
// and in order, whatever is missing in it, and read errors are reported.
#include "steps/MsReader.h"

#include "ms.h"

using h::Slot;
const char* const kProperty = "P14";

namespace {
enum Kind { kSlot = 1 };
// args: seed, flag mode, grid steps after the previous slot (<= 0: out of
// order), jitter in percent of the tolerance, row flags, bad values

class Receiver : public h::Sink {
 public:
  bool process(std::unique_ptr<dp3::base::DPBuffer> buffer) override {
    {
      sim::Quiet q;
      std::vector<size_t> r;
      for (auto v : buffer->GetRowNumbers()) r.push_back(v);
      rows.push_back(r);
      std::vector<h::C> m;
      if (buffer->HasData("MODEL_DATA")) {
        auto& d = buffer->GetData("MODEL_DATA");
        m.assign(d.data(), d.data() + d.size());
      }
      model.push_back(m);
      flags_shape.push_back(buffer->GetFlags().size());
    }
    return h::Sink::process(std::move(buffer));
  }
  using h::Sink::Sink;
  std::vector<std::vector<size_t>> rows;
  std::vector<std::vector<h::C>> model;
  std::vector<size_t> flags_shape;
};

std::string TimeString(double mjd_seconds) {
  const double whole = std::floor(mjd_seconds), frac = mjd_seconds - whole;
  int64_t s = static_cast<int64_t>(whole);
  int64_t us = std::llround(frac * 1e6);
  if (us >= 1000000) {
    us -= 1000000;
    ++s;
  }
  const int64_t day = s / 86400, sec = s % 86400;
  // MJD 55510 is 2010/11/10; the runs stay within a few days of it.
  char b[64];
  std::snprintf(b, sizeof b, "2010/11/%02d/%02d:%02d:%02d.%06d", static_cast<int>(day - 55510 + 10), static_cast<int>(sec / 3600),
                static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60), static_cast<int>(us));
  return b;
}
}  // namespace

std::string Describe(const sim::Op& op) {
  return "time slot " + std::to_string(op.Arg(2, 1)) + " grid steps later, jitter " + std::to_string(op.Arg(3)) + "%, flag mode " +
         std::to_string(op.Arg(1)) + ", row flags " + std::to_string(op.Arg(4)) + ", bad values " + std::to_string(op.Arg(5)) +
         ", seed " + std::to_string(op.Arg(0));
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  auto& k = plan.knobs;
  k["nant"] = rng.In(2, 4);
  k["autos"] = rng.Chance(0.4);
  k["nchan"] = rng.In(1, 5);
  k["interval"] = rng.In(0, 5);
  k["spectrum"] = rng.Chance(0.7);
  k["weightcol"] = rng.Chance(0.15);
  k["zero_weight"] = rng.Chance(0.3);
  k["model"] = rng.Chance(0.25);
  k["missing"] = !k["model"] && rng.Chance(0.1);
  k["useflag"] = rng.Chance(0.8);
  k["startchan"] = rng.Chance(0.5) ? 0 : rng.In(0, 5);
  k["chans"] = rng.Chance(0.6) ? 0 : rng.In(1, 6);
  k["expr"] = rng.Chance(0.15);
  k["autoweight"] = k["autos"] && rng.Chance(0.3);
  k["n_spw"] = rng.Chance(0.75) ? 1 : rng.In(2, 3);
  k["spw"] = rng.In(0, 2);
  k["baseline"] = rng.Chance(0.75) ? 0 : rng.In(1, 3);
  k["sort"] = rng.Chance(0.2);
  k["fields"] = rng.Chance(0.8) ? 15 : rng.In(0, 15);
  k["throw_at"] = rng.Chance(0.1) ? rng.In(1, 6) : 0;
  if (rng.Chance(0.3)) k["rate_table_read_error"] = rng.Chance(0.7) ? rng.In(5, 80) : rng.In(100, 600);
  const bool jitter = rng.Chance(0.35), disorder = !k["sort"] && rng.Chance(0.2);
  // Some slots come earlier than the regular grid says; the next ones follow them.
  const bool early = !jitter && !disorder && !k["sort"] && rng.Chance(0.25);
  const int n = rng.In(1, 8);
  for (int i = 0; i < n; ++i)
    plan.Add(kSlot, {static_cast<int64_t>(rng.Below(1 << 28)), rng.In(0, 4),
                     disorder && i > 0 && i + 1 < n && rng.Chance(0.35) ? -rng.In(0, 5) : rng.Chance(0.75) ? 1 : rng.In(2, 4),
                     jitter ? rng.In(-40, 40) : 0, rng.Chance(0.3), rng.Chance(0.4),
                     early && i && rng.Chance(0.4) ? rng.In(5, 25) : 0});
  // Selections in time, in grid steps relative to the first slot; in percent.
  const int mode = rng.Chance(0.5) ? 0 : rng.In(1, 3);
  k["start_mode"] = mode;  // 1: starttime, 2: starttimeslot, 3: both
  k["start"] = mode == 2 ? rng.In(-3, n + 1) : rng.In(-3, n + 3);
  k["start_frac"] = rng.Chance(0.5) ? 0 : rng.In(5, 95);
  k["end_mode"] = rng.Chance(0.5) ? 0 : rng.In(1, 3);  // 1: endtime, 2: ntimes, 3: both
  k["end"] = rng.In(-1, 8);
  k["end_frac"] = rng.Chance(0.5) ? 0 : rng.In(5, 95);
  if (early) {
    k["start_mode"] = 0;
    k["end_mode"] = 0;
  }
}

void Execute(const sim::Plan& plan) {
  using namespace casacore;
  h::ClearDisk();
  const size_t nant = plan.Knob("nant", 2), nchan = plan.Knob("nchan", 1), ncorr = 4;
  const bool autos = plan.Knob("autos");
  const double intervals[] = {1, 0.5, 2.00278016, 10.0138901, 0.1, 4};
  const double dt = intervals[plan.Knob("interval") % 6];
  const double tol = dt < 0.05 ? dt / 5 : 1e-2;
  const double t0 = 55511 * 86400.0 + 1234.5;
  const size_t n = plan.ops.size();
  const auto [all1, all2] = h::Baselines(nant, autos);
  const size_t nall = all1.size();
  bool jitter = false;
  for (const sim::Op& o : plan.ops) jitter = jitter || o.Arg(3);

  // The set on disk.
  h::MsSpec spec;
  spec.nant = nant;
  spec.autos = autos;
  spec.nchan = nchan;
  spec.ncorr = ncorr;
  spec.interval = dt;
  spec.weight_spectrum = plan.Knob("spectrum", 1);
  spec.model_column = plan.Knob("model");
  spec.n_spw = std::max<int64_t>(1, plan.Knob("n_spw", 1));
  spec.mixed = spec.n_spw > 1;
  spec.spw = std::min<int64_t>(plan.Knob("spw"), spec.n_spw - 1);
  double shift = 0;
  bool shifted = false;
  std::vector<double> shifts;
  std::vector<long> grid;   // per slot in the set
  std::vector<char> late;   // out of order, to be skipped
  long at = 0, top = 0;
  for (size_t i = 0; i < n; ++i) {
    const sim::Op& o = plan.ops[i];
    long step = o.Arg(2, 1);
    // The last row tells the end; which slot is number k only matters in order.
    if (i + 1 == n || plan.Knob("sort") || plan.Knob("start_mode") == 2) step = std::max(1L, step);
    bool skip = false;
    long g = 0;
    if (i) {
      if (step > 0) {
        at = top + step;
        g = at;
      } else {
        g = top + step - 1;
        skip = true;
        if (g == grid.back()) --g;  // equal times would be one slot
      }
    }
    if (!skip) top = std::max(top, g);
    grid.push_back(g);
    // In total less than half an interval, so that the number of slots is clear.
    if (i && o.Arg(6) && shift + o.Arg(6) / 100.0 < 0.45 && o.Arg(6) / 100.0 * dt > 2 * tol) {
      shift += o.Arg(6) / 100.0;
      shifted = true;
    }
    shifts.push_back(shift);
    late.push_back(skip);
    h::MsTime m;
    m.s = h::MakeSlot(o.Arg(0), nall, nchan, ncorr, t0 + (g - shift) * dt + (i ? o.Arg(3) : 0) / 100.0 * tol, dt * 0.9, o.Arg(1), false, true);
    sim::Rng r(o.Arg(0) ^ 0x55);
    if (o.Arg(5))
      for (h::C& v : m.s.data)
        if (r.Chance(0.1)) v = r.Chance(0.5) ? h::C(NAN, 1) : h::C(1, INFINITY);
    if (plan.Knob("zero_weight"))
      for (size_t b = 0; b < nall; ++b)
        if (r.Chance(0.3)) m.s.weights[b * nchan * ncorr + r.Below(ncorr)] = 0;
    for (size_t b = 0; b < nall; ++b) m.row_flag.push_back(o.Arg(4) && r.Chance(0.3));
    for (size_t j = 0; j < m.s.data.size(); ++j) m.model.push_back(h::C(r.In(-9, 9), j));
    spec.times.push_back(m);
  }
  const bool sort = plan.Knob("sort");
  if (sort) {
    sim::Rng r(plan.ops[0].Arg(0) + 5);
    for (size_t i = 0; i < n * nall; ++i) spec.order.push_back(i);
    for (size_t i = n * nall; i > 1; --i) std::swap(spec.order[i - 1], spec.order[r.Below(i)]);
  }
  h::MakeMs("in.ms", spec);

  // What is asked for.
  dp3::common::ParameterSet parset;
  bool invalid = false;
  long g0 = 0, g1 = top;
  double origin = spec.times[0].s.time;
  size_t skip_slots = 0;
  bool empty = false;
  const int start_mode = plan.Knob("start_mode"), end_mode = plan.Knob("end_mode");
  bool disorder = false;
  for (char c : late) disorder = disorder || c;
  const double first_ms = spec.times[0].s.time;
  double last_ms = first_ms;
  for (size_t i = 0; i < n; ++i)
    if (!late[i]) last_ms = std::max(last_ms, spec.times[i].s.time);
  if (start_mode == 1 || start_mode == 3) {
    const long k = plan.Knob("start");
    const double frac = jitter ? 0.5 : plan.Knob("start_frac") / 100.0;
    const double t = t0 + (k - frac) * dt;
    parset.add("msin.starttime", TimeString(t));
    g0 = k;
    if (t > last_ms) invalid = true;
    if (start_mode == 3 && !invalid) {
      parset.add("msin.starttimeslot", "1");
      invalid = true;
    }
  } else if (start_mode == 2) {
    const long k = plan.Knob("start");
    parset.add("msin.starttimeslot", std::to_string(k));
    if (k > 0) {
      skip_slots = k;
      if (skip_slots >= n) {
        empty = true;
      } else {
        g0 = grid[skip_slots];
      }
    } else {
      g0 = k;
    }
  }
  if (end_mode && !invalid && !empty) {
    const long k = plan.Knob("end");
    if (end_mode == 1 || end_mode == 3) {
      const double frac = jitter ? 0.5 : plan.Knob("end_frac") / 100.0;
      const double t = t0 + (g0 + k + frac) * dt;
      if (k < 0 || t < first_ms - dt / 2) {
        invalid = true;  // nothing is left
      }
      g1 = g0 + k;
      parset.add("msin.endtime", TimeString(t));
      if (end_mode == 3) {
        parset.add("msin.ntimes", "2");
        invalid = true;
      }
    } else if (k > 0) {
      parset.add("msin.ntimes", std::to_string(k));
      g1 = g0 + k - 1;
    }
  }
  if (!invalid && !empty && g1 < g0) invalid = true;

  const size_t startchan = plan.Knob("startchan");
  size_t first_chan = startchan, chans = plan.Knob("chans");
  if (plan.Knob("expr")) {
    parset.add("msin.startchan", "nchan/4");
    parset.add("msin.nchan", "nchan/2");
    first_chan = std::floor(nchan / 4.0 + 0.001);
    chans = std::floor(nchan / 2.0 + 0.0001);
  } else {
    parset.add("msin.startchan", std::to_string(startchan));
    parset.add("msin.nchan", std::to_string(chans));
  }
  if (first_chan >= nchan) invalid = true;
  chans = invalid ? 0 : chans == 0 ? nchan - first_chan : std::min(chans, nchan - first_chan);
  if (!plan.Knob("useflag", 1)) parset.add("msin.useflag", "false");
  if (plan.Knob("autoweight")) {
    parset.add("msin.autoweight", "true");
    parset.add("msin.forceautoweight", "true");
  }
  if (spec.n_spw > 1) parset.add("msin.band", std::to_string(spec.spw));
  if (plan.Knob("model")) parset.add("msin.extradatacolumns", "[MODEL_DATA]");
  if (plan.Knob("weightcol")) parset.add("msin.weightcolumn", "WEIGHT");
  if (plan.Knob("missing")) parset.add("msin.datacolumn", "CORRECTED_DATA");
  if (sort) parset.add("msin.sort", "true");
  std::vector<size_t> bl;
  for (size_t b = 0; b < nall; ++b) {
    const int sel = plan.Knob("baseline");
    if (sel == 0 || (sel == 1 && all1[b] == 0 && all2[b] == 1) || (sel == 2 && all1[b] != all2[b] && (all1[b] == 1 || all2[b] == 1)) ||
        (sel == 3 && all1[b] != all2[b]))
      bl.push_back(b);
  }
  if (plan.Knob("baseline") == 1) parset.add("msin.baseline", "ant0&ant1");
  if (plan.Knob("baseline") == 2) parset.add("msin.baseline", "ant1&*");
  if (plan.Knob("baseline") == 3) parset.add("msin.baseline", "*&*");
  const size_t nbl = bl.size();

  const int want_fields = plan.Knob("fields", 15);
  dp3::common::Fields fields;
  if (want_fields & 1) fields |= dp3::common::Fields(dp3::common::Fields::Single::kData);
  if (want_fields & 2) fields |= dp3::common::Fields(dp3::common::Fields::Single::kFlags);
  if (want_fields & 4) fields |= dp3::common::Fields(dp3::common::Fields::Single::kWeights);
  if (want_fields & 8) fields |= dp3::common::Fields(dp3::common::Fields::Single::kUvw);
  const bool autoweight = plan.Knob("autoweight") && (want_fields & 1);

  h::ArmDisk();
  const int64_t throw_at = plan.Knob("throw_at", 0) - 1;
  auto sink = std::make_shared<Receiver>(throw_at);
  bool threw = false, next_threw = false;
  std::string why, counts;
  dp3::base::DPInfo info;
  if (plan.Knob("autoweight") && !(want_fields & 1)) return;  // needs the data
  {
    sim::FaultScope faults;
    try {
      MeasurementSet ms("in.ms");
      dp3::steps::MsReader reader(ms, parset, "msin.", plan.Knob("missing"));
      reader.setFieldsToRead(fields);
      reader.setNextStep(sink);
      reader.setInfo(dp3::base::DPInfo());
      info = sink->getInfoIn();
      size_t guard = 0;
      while (reader.process(std::make_unique<dp3::base::DPBuffer>())) {
        if (++guard > 1000) sim::Fail("endless", "reading does not end");
      }
      reader.finish();
      std::ostringstream os;
      reader.showCounts(os);
      counts = os.str();
    } catch (const h::StepError&) {
      next_threw = true;
    } catch (const std::exception& e) {
      threw = true;
      why = e.what();
    }
  }
  sim::Quiet q;
  mini_detail::table_hook = nullptr;
  h::HashSlots(sink->slots);
  const uint64_t faults = sim::FaultsFired(sim::kTableReadError);
  if (faults) sim::Probe("read failed");
  if (faults && !threw && !next_threw) sim::Fail("error-hidden", "an error while reading was not reported");
  if (faults && threw) return;
  if (invalid) {
    sim::Probe("invalid selection");
    if (!threw) sim::Fail("bad-selection", "an impossible selection was accepted");
    return;
  }
  if (threw) sim::Fail("spurious-error", "reading failed without a reason: " + why);
  long nout = empty ? 0 : g1 - g0 + 1;
  if (throw_at >= 0 && throw_at < nout) {
    if (!next_threw) sim::Fail("error-hidden", "an error of the next step was swallowed");
    nout = throw_at;
  } else if (next_threw) {
    sim::Fail("bug", "unexpected exception");
  } else if (sink->finished != 1) {
    sim::Fail("not-finished", "the next step was not finished");
  }
  (void)origin;

  // The description of the data.
  if (info.nchan() != chans || info.ncorr() != ncorr || info.nbaselines() != nbl)
    sim::Fail("info", "the announced shape is wrong");
  for (size_t b = 0; b < nbl; ++b)
    if (info.getAnt1()[b] != all1[bl[b]] || info.getAnt2()[b] != all2[bl[b]]) sim::Fail("info", "the announced baselines are wrong");
  for (size_t c = 0; c < chans; ++c)
    if (info.chanFreqs()[c] != spec.freq0 + (first_chan + c) * spec.width) sim::Fail("info", "the announced frequencies are wrong");
  if (!empty && (info.ntime() != size_t(g1 - g0 + 1) || std::abs(info.firstTime() - (t0 + g0 * dt)) > 2 * tol))
    sim::Fail("info", "the announced times are wrong: " + std::to_string(info.ntime()) + " slots instead of " + std::to_string(g1 - g0 + 1));

  if (sink->slots.size() != size_t(nout))
    sim::Fail("slot-count", std::to_string(sink->slots.size()) + " time slots were read instead of " + std::to_string(nout));
  size_t inserted = 0;
  for (long i = 0; i < nout; ++i) {
    const Slot& s = sink->slots[i];
    const long g = g0 + i;
    const std::string name = "time slot " + std::to_string(i);
    const h::MsTime* m = nullptr;
    size_t slot = 0;
    for (size_t k = skip_slots; k < n; ++k)
      if (grid[k] == g && !late[k]) {
        m = &spec.times[k];
        slot = k;
      }
    double sh = 0;
    for (size_t k = skip_slots; k < n; ++k)
      if (grid[k] <= g && !late[k]) sh = shifts[k];
    if (std::abs(s.time - (t0 + (g - sh) * dt)) > 2 * tol)
      sim::Fail("time", name + " has time " + h::Str(s.time - t0) + " instead of " + h::Str((g - sh) * dt));
    if (i && !(s.time > sink->slots[i - 1].time)) sim::Fail("time-order", "the times are not increasing");
    if (sink->rows[i].size() != (m ? nbl : 0)) sim::Fail("rows", name + " has other row numbers");
    if (!m) {
      ++inserted;
      sim::Probe("slot inserted");
    } else if (!sort && spec.n_spw == 1) {
      for (size_t b = 0; b < nbl; ++b)
        if (sink->rows[i][b] != slot * nall + bl[b]) sim::Fail("rows", name + " has other row numbers");
    }
    const bool no_data = !m || plan.Knob("missing");
    const double exposure = no_data ? dt : m->s.exposure;
    if (!h::Near(s.exposure, exposure, 1e-12)) sim::Fail("exposure", name + " has another exposure");
    const size_t size = nbl * chans * ncorr;
    if ((want_fields & 1) && s.data.size() != size) sim::Fail("shape", name + " has data of another shape");
    if ((want_fields & 2) && s.flags.size() != size) sim::Fail("shape", name + " has flags of another shape");
    if ((want_fields & 4) && s.weights.size() != size) sim::Fail("shape", name + " has weights of another shape");
    if ((want_fields & 8) && s.uvw.size() != nbl * 3) sim::Fail("shape", name + " has UVW of another shape");
    for (size_t b = 0; b < nbl; ++b) {
      const size_t src = bl[b];
      for (size_t c = 0; c < chans; ++c) {
        bool any = false, stored[4], row = false;
        for (size_t p = 0; p < ncorr && m; ++p) {
          const size_t a = m->s.At(src, first_chan + c, p);
          stored[p] = m->s.flags[a] && plan.Knob("useflag", 1);
          any = any || stored[p];
          if ((want_fields & 1) && !no_data)
            any = any || !std::isfinite(m->s.data[a].real()) || !std::isfinite(m->s.data[a].imag());
        }
        if (m && m->row_flag[src] && plan.Knob("useflag", 1)) row = any = true;
        for (size_t p = 0; p < ncorr; ++p) {
          const size_t o = (b * chans + c) * ncorr + p;
          const std::string where = h::Where(i, b, c, p);
          const size_t a = m ? m->s.At(src, first_chan + c, p) : 0;
          if (want_fields & 1) {
            const h::C want = no_data ? h::C() : m->s.data[a];
            if (!h::SameC(s.data[o], want)) sim::Fail("data", "the data of " + where + " are wrong");
            if (plan.Knob("model")) {
              const h::C wm = m ? m->model[a] : h::C();
              if (!h::SameC(sink->model[i][o], wm)) sim::Fail("extra-data", "the extra data of " + where + " are wrong");
            }
          }
          if (want_fields & 2) {
            // Without data the flags of a single correlation need not spread.
            const bool must = no_data || row || ((want_fields & 1) ? any : stored[p]);
            const bool may = no_data || any;
            if ((must && !s.flags[o]) || (!may && s.flags[o]) || (s.flags[o] != 0 && s.flags[o] != 1))
              sim::Fail("flags", "the flag of " + where + " is wrong");
          }
          if (want_fields & 4) {
            double w = 0;
            if (m) {
              if (spec.weight_spectrum && !plan.Knob("weightcol"))
                w = m->s.weights[a];
              else
                w = m->s.weights[src * nchan * ncorr + p] == 0 ? 1 : m->s.weights[src * nchan * ncorr + p];
            }
            if (autoweight && m) {
              // The autocorrelations of both antennas must be selected.
              int i1 = -1, i2 = -1;
              for (size_t x = 0; x < nbl; ++x)
                if (all1[bl[x]] == all2[bl[x]]) {
                  if (all1[bl[x]] == all1[src]) i1 = x;
                  if (all1[bl[x]] == all2[src]) i2 = x;
                }
              if (i1 >= 0 && i2 >= 0) {
                const h::C *d1 = &s.data[(i1 * chans + c) * ncorr], *d2 = &s.data[(i2 * chans + c) * ncorr];
                const bool xx = d1[0].real() != 0 && d2[0].real() != 0, yy = d1[3].real() != 0 && d2[3].real() != 0;
                if (xx && (p == 0 || yy)) w *= spec.width * dt / (double(d1[p & 2 ? 3 : 0].real()) * d2[p & 1 ? 3 : 0].real());
              }
            }
            if (!(s.weights[o] == float(w) || h::Near(s.weights[o], w, 1e-5) || (std::isnan(w) && std::isnan(s.weights[o]))))
              sim::Fail("weights", "the weight of " + where + " is " + h::Str(s.weights[o]) + " instead of " + h::Str(w));
          }
        }
      }
      if (want_fields & 8) {
        if (m) {
          for (int k = 0; k < 3; ++k)
            if (s.uvw[3 * b + k] != m->s.uvw[3 * src + k]) sim::Fail("uvw", name + " has other UVW coordinates");
        } else {
          const int x1 = all1[src], x2 = all2[src];
          if (!h::Near(s.uvw[3 * b], 100.0 * (x2 * x2 - x1 * x1), 1e-9)) sim::Fail("uvw", name + " has wrong UVW coordinates");
        }
      }
    }
  }
  if (!next_threw) {
    const std::string line = std::to_string(inserted) + " missing time slots were inserted";
    if (counts.find("\n" + line) == std::string::npos) sim::Fail("counts", "the number of inserted time slots is reported wrongly:\n" + counts);
  }
  if (disorder) sim::Probe("out of order");
  if (jitter) sim::Probe("jitter");
  if (shifted) sim::Probe("early time slots");
  if (sort) sim::Probe("sorted");
  if (empty) sim::Probe("no data");
  if (start_mode) sim::Probe("start selected");
  if (end_mode) sim::Probe("end selected");
}
