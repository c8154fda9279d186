// Builds and inspects MeasurementSets on the simulated disk.
#ifndef VERIF_MS_H
#define VERIF_MS_H

#include "steps.h"

#include "mini_tables.h"

namespace h {

namespace cc = casacore;

/// The rows of one time: a slot, and per baseline whether the row is flagged.
struct MsTime {
  Slot s;
  std::vector<char> row_flag;
  std::vector<C> model;
};

struct MsSpec {
  size_t nant = 2;
  bool autos = false;
  size_t nchan = 1, ncorr = 4;
  double interval = 1;
  double freq0 = 100e6, width = 1e6;
  bool weight_spectrum = true;
  bool data_column = true;
  bool model_column = false;
  bool feed = false;   // there is a FEED table
  bool fixed = false;  // the data columns have a fixed shape
  int n_spw = 1;  // rows of SPECTRAL_WINDOW and DATA_DESCRIPTION
  // Also rows for the other spectral windows are made if mixed; spw is the one
  // of the given data.
  bool mixed = false;
  int spw = 0;
  // 1, 2: two baselines with the same first, second antenna change places.
  int swap_baselines = 0;
  // The order of the rows, as time * baselines + baseline; empty is natural.
  std::vector<size_t> order;
  std::vector<MsTime> times;
};

inline void ClearDisk() {
  cc::mini_detail::Disk().clear();
  cc::mini_detail::table_hook = nullptr;
  cc::mini_detail::table_thread = [] { return sim::Self(); };
}

/// Table operations become scheduling points and can fail.
inline void ArmDisk() {
  cc::mini_detail::table_hook = [](char op, const std::string& table, const std::string& column) {
    sim::Yield();
    if (!sim::FaultsEnabled()) return;
    const bool write = op == 'w' || op == 'a' || op == 'f' || op == 'c';
    if (sim::ShouldFault(write ? sim::kTableWriteError : sim::kTableReadError))
      throw cc::TableError(std::string("injected ") + (write ? "write" : "read") + " error in " + table +
                           (column.empty() ? "" : ", column " + column));
  };
}

inline std::pair<std::vector<int>, std::vector<int>> Baselines(size_t nant, bool autos) {
  std::pair<std::vector<int>, std::vector<int>> r;
  for (size_t i = 0; i < nant; ++i)
    for (size_t j = autos ? i : i + 1; j < nant; ++j) {
      r.first.push_back(i);
      r.second.push_back(j);
    }
  return r;
}

inline cc::Table NewTable(const std::string& name, const cc::TableDesc& d, size_t rows) {
  cc::SetupNewTable s(name, d, cc::Table::New);
  return cc::Table(s, rows);
}

inline void MakeMs(const std::string& name, const MsSpec& spec) {
  sim::Quiet q;
  using namespace casacore;
  auto [a1, a2] = Baselines(spec.nant, spec.autos);
  const size_t nbl = a1.size();
  for (size_t i = 0, done = spec.swap_baselines == 0; i < nbl && !done; ++i)
    for (size_t j = i + 1; j < nbl && !done; ++j)
      if (spec.swap_baselines == 1 ? a1[i] == a1[j] : a2[i] == a2[j]) {
        std::swap(a1[i], a1[j]);
        std::swap(a2[i], a2[j]);
        done = 1;
      }
  TableDesc d;
  for (const char* c : {"ANTENNA1", "ANTENNA2", "ARRAY_ID", "DATA_DESC_ID", "FEED1", "FEED2", "FIELD_ID", "OBSERVATION_ID",
                        "PROCESSOR_ID", "SCAN_NUMBER", "STATE_ID"})
    d.addColumn(ScalarColumnDesc<int>(c));
  for (const char* c : {"EXPOSURE", "INTERVAL", "TIME", "TIME_CENTROID"}) d.addColumn(ScalarColumnDesc<double>(c));
  d.addColumn(ScalarColumnDesc<bool>("FLAG_ROW"));
  d.addColumn(ArrayColumnDesc<double>("UVW", IPosition(1, 3)));
  d.addColumn(ArrayColumnDesc<bool>("FLAG_CATEGORY"));
  d.addColumn(ArrayColumnDesc<float>("WEIGHT"));
  d.addColumn(ArrayColumnDesc<float>("SIGMA"));
  d.addColumn(ArrayColumnDesc<Complex>("DATA"));
  d.addColumn(ArrayColumnDesc<bool>("FLAG"));
  if (spec.weight_spectrum) d.addColumn(ArrayColumnDesc<float>("WEIGHT_SPECTRUM"));
  if (spec.model_column) d.addColumn(ArrayColumnDesc<Complex>("MODEL_DATA"));
  if (spec.fixed)
    for (const char* c : {"DATA", "FLAG", "WEIGHT_SPECTRUM", "MODEL_DATA"})
      if (d.isColumn(c)) d.rwColumnDesc(c).setShape(IPosition(2, spec.ncorr, spec.nchan));
  const int copies = spec.mixed ? spec.n_spw : 1;
  Table t = NewTable(name, d, nbl * spec.times.size() * copies);
  size_t row = 0;
  for (size_t source = 0; source < nbl * spec.times.size(); ++source) {
    const size_t at_row = spec.order.empty() ? source : spec.order[source];
    const MsTime& m = spec.times[at_row / nbl];
    const size_t b = at_row % nbl;
    const Slot& s = m.s;
    for (int copy = 0; copy < copies; ++copy, ++row) {
      const int ddid = spec.mixed ? copy : spec.spw;
      ScalarColumn<int>(t, "ANTENNA1").put(row, a1[b]);
      ScalarColumn<int>(t, "ANTENNA2").put(row, a2[b]);
      ScalarColumn<int>(t, "DATA_DESC_ID").put(row, ddid);
      ScalarColumn<double>(t, "TIME").put(row, s.time);
      ScalarColumn<double>(t, "TIME_CENTROID").put(row, s.time);
      ScalarColumn<double>(t, "INTERVAL").put(row, spec.interval);
      ScalarColumn<double>(t, "EXPOSURE").put(row, s.exposure);
      ScalarColumn<bool>(t, "FLAG_ROW").put(row, b < m.row_flag.size() && m.row_flag[b]);
      Vector<double> uvw(3);
      for (int k = 0; k < 3; ++k) uvw[k] = s.uvw[3 * b + k];
      ArrayColumn<double>(t, "UVW").put(row, uvw);
      const IPosition shape(2, spec.ncorr, spec.nchan);
      Array<Complex> data(shape), model(shape);
      Array<bool> flags(shape);
      Array<float> weights(shape);
      for (size_t i = 0; i < spec.ncorr * spec.nchan; ++i) {
        const size_t at = b * spec.ncorr * spec.nchan + i;
        data.data()[i] = ddid == spec.spw ? s.data[at] : C(-77, 77);
        flags.data()[i] = s.flags[at];
        weights.data()[i] = s.weights[at];
        if (spec.model_column) model.data()[i] = m.model[at];
      }
      Vector<float> w(spec.ncorr);
      for (size_t p = 0; p < spec.ncorr; ++p) w[p] = s.weights[b * spec.ncorr * spec.nchan + p];
      ArrayColumn<float>(t, "WEIGHT").put(row, w);
      ArrayColumn<float>(t, "SIGMA").put(row, w);
      ArrayColumn<Complex>(t, "DATA").put(row, data);
      ArrayColumn<bool>(t, "FLAG").put(row, flags);
      if (spec.weight_spectrum) ArrayColumn<float>(t, "WEIGHT_SPECTRUM").put(row, weights);
      if (spec.model_column) ArrayColumn<Complex>(t, "MODEL_DATA").put(row, model);
    }
  }
  auto sub = [&](const std::string& n, const TableDesc& desc, size_t rows) {
    Table s = NewTable(name + "/" + n, desc, rows);
    t.rwKeywordSet().defineTable(n, s);
    return s;
  };
  {
    Table s = sub("ANTENNA", MSAntenna::requiredTableDesc(), spec.nant);
    for (size_t i = 0; i < spec.nant; ++i) {
      ScalarColumn<String>(s, "NAME").put(i, "ant" + std::to_string(i));
      ScalarColumn<double>(s, "DISH_DIAMETER").put(i, 70);
      Vector<double> p(3);
      p[0] = 100.0 * i * i;
      p[1] = 10.0 * i;
      p[2] = 0;
      ArrayColumn<double>(s, "POSITION").put(i, p);
    }
  }
  {
    TableDesc x;
    x.addColumn(ScalarColumnDesc<int>("NUM_CHAN"));
    x.addColumn(ScalarColumnDesc<String>("NAME"));
    x.addColumn(ScalarColumnDesc<double>("REF_FREQUENCY"));
    x.addColumn(ScalarColumnDesc<double>("TOTAL_BANDWIDTH"));
    x.addColumn(ScalarColumnDesc<int>("MEAS_FREQ_REF"));
    for (const char* c : {"CHAN_FREQ", "CHAN_WIDTH", "EFFECTIVE_BW", "RESOLUTION"}) x.addColumn(ArrayColumnDesc<double>(c));
    Table s = sub("SPECTRAL_WINDOW", x, spec.n_spw);
    for (int k = 0; k < spec.n_spw; ++k) {
      Vector<double> f(spec.nchan), w(spec.nchan);
      for (size_t i = 0; i < spec.nchan; ++i) {
        f[i] = spec.freq0 + (i + (k - spec.spw) * 10.0) * spec.width;
        w[i] = spec.width;
      }
      ScalarColumn<int>(s, "NUM_CHAN").put(k, spec.nchan);
      ScalarColumn<double>(s, "REF_FREQUENCY").put(k, f[spec.nchan / 2]);
      ScalarColumn<double>(s, "TOTAL_BANDWIDTH").put(k, spec.nchan * spec.width);
      ArrayColumn<double>(s, "CHAN_FREQ").put(k, f);
      for (const char* c : {"CHAN_WIDTH", "EFFECTIVE_BW", "RESOLUTION"}) ArrayColumn<double>(s, c).put(k, w);
    }
  }
  {
    TableDesc x;
    x.addColumn(ScalarColumnDesc<int>("SPECTRAL_WINDOW_ID"));
    x.addColumn(ScalarColumnDesc<int>("POLARIZATION_ID"));
    x.addColumn(ScalarColumnDesc<bool>("FLAG_ROW"));
    Table s = sub("DATA_DESCRIPTION", x, spec.n_spw);
    for (int k = 0; k < spec.n_spw; ++k) {
      ScalarColumn<int>(s, "SPECTRAL_WINDOW_ID").put(k, k);
      ScalarColumn<int>(s, "POLARIZATION_ID").put(k, 0);
    }
  }
  {
    TableDesc x;
    x.addColumn(ScalarColumnDesc<int>("NUM_CORR"));
    x.addColumn(ArrayColumnDesc<int>("CORR_TYPE"));
    x.addColumn(ArrayColumnDesc<int>("CORR_PRODUCT"));
    Table s = sub("POLARIZATION", x, 1);
    Vector<int> types(spec.ncorr);
    for (size_t i = 0; i < spec.ncorr; ++i) types[i] = 9 + i;
    ScalarColumn<int>(s, "NUM_CORR").put(0, spec.ncorr);
    ArrayColumn<int>(s, "CORR_TYPE").put(0, types);
  }
  {
    TableDesc x;
    x.addColumn(ScalarColumnDesc<String>("NAME"));
    for (const char* c : {"DELAY_DIR", "PHASE_DIR", "REFERENCE_DIR", "LOFAR_TILE_BEAM_DIR"}) x.addColumn(ArrayColumnDesc<double>(c));
    Table s = sub("FIELD", x, 1);
    ScalarColumn<String>(s, "NAME").put(0, "field");
    Matrix<double> dir(2, 1);
    dir(0, 0) = 0.3;
    dir(1, 0) = 0.9;
    for (const char* c : {"DELAY_DIR", "PHASE_DIR", "REFERENCE_DIR", "LOFAR_TILE_BEAM_DIR"}) ArrayColumn<double>(s, c).put(0, dir);
  }
  {
    TableDesc x;
    for (const char* c : {"TELESCOPE_NAME", "OBSERVER", "PROJECT", "LOFAR_ANTENNA_SET"}) x.addColumn(ScalarColumnDesc<String>(c));
    x.addColumn(ArrayColumnDesc<double>("TIME_RANGE"));
    Table s = sub("OBSERVATION", x, 1);
    ScalarColumn<String>(s, "TELESCOPE_NAME").put(0, "SIM");
    ScalarColumn<String>(s, "OBSERVER").put(0, "nobody");
    ScalarColumn<String>(s, "LOFAR_ANTENNA_SET").put(0, "HBA_DUAL");
    ArrayColumn<double>(s, "TIME_RANGE").put(0, Vector<double>(2, 0.0));
  }
  {
    TableDesc x;
    x.addColumn(ScalarColumnDesc<double>("TIME"));
    x.addColumn(ScalarColumnDesc<int>("OBSERVATION_ID"));
    for (const char* c : {"MESSAGE", "APPLICATION", "PRIORITY", "ORIGIN"}) x.addColumn(ScalarColumnDesc<String>(c));
    for (const char* c : {"APP_PARAMS", "CLI_COMMAND"}) x.addColumn(ArrayColumnDesc<String>(c));
    sub("HISTORY", x, 0);
  }
  if (spec.feed) {
    Table s = sub("FEED", MSFeed::requiredTableDesc(), spec.nant);
    for (size_t i = 0; i < spec.nant; ++i) {
      ScalarColumn<int>(s, "ANTENNA_ID").put(i, i);
      ScalarColumn<int>(s, "NUM_RECEPTORS").put(i, 2);
      ScalarColumn<double>(s, "INTERVAL").put(i, 100.0 + i);
    }
  }
  if (!spec.data_column) t.removeColumn("DATA");
}

/// All rows of a MeasurementSet, as slots of nbl rows.
inline std::vector<MsTime> DumpMs(const std::string& name, size_t nbl, bool model = false, const std::string& data_column = "DATA",
                                  const std::string& weight_column = "WEIGHT_SPECTRUM", const std::string& flag_column = "FLAG") {
  sim::Quiet q;
  using namespace casacore;
  std::vector<MsTime> out;
  Table t(name);
  for (size_t row = 0; row + nbl <= t.nrow(); row += nbl) {
    MsTime m;
    Slot& s = m.s;
    s.time = ScalarColumn<double>(t, "TIME")(row);
    s.exposure = ScalarColumn<double>(t, "EXPOSURE")(row);
    s.nbl = nbl;
    for (size_t b = 0; b < nbl; ++b) {
      const Array<Complex> data = ArrayColumn<Complex>(t, data_column)(row + b);
      const Array<bool> flags = ArrayColumn<bool>(t, flag_column)(row + b);
      const Array<float> weights = ArrayColumn<float>(t, weight_column)(row + b);
      const Array<double> uvw = ArrayColumn<double>(t, "UVW")(row + b);
      s.ncorr = data.shape()[0];
      s.nchan = data.shape()[1];
      data.ForEach([&](const Complex& v) { s.data.push_back(v); });
      flags.ForEach([&](const bool& v) { s.flags.push_back(v); });
      weights.ForEach([&](const float& v) { s.weights.push_back(v); });
      uvw.ForEach([&](const double& v) { s.uvw.push_back(v); });
      m.row_flag.push_back(ScalarColumn<bool>(t, "FLAG_ROW")(row + b));
      if (model) {
        const Array<Complex> md = ArrayColumn<Complex>(t, "MODEL_DATA")(row + b);
        md.ForEach([&](const Complex& v) { m.model.push_back(v); });
      }
    }
    out.push_back(m);
  }
  return out;
}

/// The contents of a table as bytes per cell; "-" is an undefined cell.
using Snapshot = std::map<std::string, std::vector<std::string>>;
inline Snapshot TakeSnapshot(const std::string& name) {
  sim::Quiet q;
  using namespace casacore::mini_detail;
  Snapshot out;
  auto it = Disk().find(name);
  if (it == Disk().end()) return out;
  auto bytes = [](const auto& v) {
    using T = std::decay_t<decltype(v)>;
    if constexpr (std::is_same_v<T, cc::String>)
      return std::string(v) + '\0';
    else
      return std::string(reinterpret_cast<const char*>(&v), sizeof v);
  };
  for (const auto& column : it->second->columns) {
    std::vector<std::string> cells;
    auto add = [&](auto tag) {
      using T = decltype(tag);
      if (auto* a = dynamic_cast<ArrayData<T>*>(column.get())) {
        for (const auto& e : a->v) {
          std::string c = e.defined ? "" : "-";
          for (const auto& x : e.v) c += bytes(x.v);
          cells.push_back(c);
        }
      } else if (auto* s = dynamic_cast<ScalarData<T>*>(column.get())) {
        for (const auto& x : s->v) cells.push_back(bytes(x.v));
      }
    };
    add(bool());
    add(int());
    add(float());
    add(double());
    add(cc::Complex());
    add(cc::String());
    out[column->desc.name()] = cells;
  }
  return out;
}
template <class T>
std::string Bytes(const std::vector<T>& v) {
  return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
inline std::string Bytes(const std::vector<char>& v) { return std::string(v.data(), v.size()); }

inline bool SameData(const std::vector<C>& a, const std::vector<C>& b) {
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(C)) == 0);
}

}  // namespace h
#endif
