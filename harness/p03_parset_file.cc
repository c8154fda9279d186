// P03: parameter sets on disk, under storage faults and crashes.
#include "common/ParameterSet.h"
#include "common/ParameterRecord.h"

#include "sim.h"
#include "simio.h"

#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using dp3::common::ParameterSet;
const char* const kProperty = "P03";

namespace {
enum Kind { kSet = 1, kWrite, kAppend, kAdopt, kConstruct, kText, kRemoveKey, kCrashWrite, kKinds };
const char* const kNames[] = {"", "set", "writeFile", "appendFile", "adoptFile",
                              "constructFromFile", "writeTextByHand", "removeKey",
                              "crashDuringWrite"};
// args: set, file, key, value, extra
constexpr int kSets = 3, kFiles = 3, kNKeys = 9;
const char* const kKeys[] = {"msin", "msout.name", "steps", "filter.baseline",
                             "a.b.c.d", "avg.timestep", "x", "demix.other",
                             "verylongkeyname.with_underscores.0.type"};

struct Value {
  std::string raw;      // as stored
  std::string plain;    // quotes removed
  int type = 0;         // 1 int, 2 double, 3 bool, 4 int vector, 5 string vector
  long i = 0;
  double d = 0;
  bool b = false;
  std::vector<int> iv;
  std::vector<std::string> sv;
};

Value MakeValue(uint64_t seed) {
  sim::Rng r(seed);
  Value v;
  switch (r.Below(10)) {
    case 0:
      break;  // empty
    case 1: {
      v.type = 1;
      v.i = r.In(-100000, 100000);
      v.raw = std::to_string(v.i);
      v.plain = v.raw;
      break;
    }
    case 2: {
      v.type = 2;
      v.d = r.In(-1000, 1000) / 8.0;
      std::ostringstream o;
      o << v.d;
      v.raw = v.plain = o.str();
      break;
    }
    case 3:
      v.type = 3;
      v.b = r.Chance(0.5);
      v.raw = v.plain = v.b ? (r.Chance(0.5) ? "true" : "Y") : (r.Chance(0.5) ? "F" : "no");
      break;
    case 4: {
      v.type = 4;
      v.raw = "[";
      const int n = static_cast<int>(r.In(0, 6));
      for (int i = 0; i < n; ++i) {
        v.iv.push_back(static_cast<int>(r.In(-50, 50)));
        if (i) v.raw += r.Chance(0.5) ? ", " : ",";
        v.raw += std::to_string(v.iv.back());
      }
      v.raw += "]";
      v.plain = v.raw;
      break;
    }
    case 5: {
      v.type = 5;
      v.raw = "[";
      const int n = static_cast<int>(r.In(1, 4));
      for (int i = 0; i < n; ++i) {
        std::string s = "s" + std::to_string(r.Below(100));
        if (i) v.raw += ",";
        if (r.Chance(0.5)) {
          s += ",]# =";
          v.raw += "'" + s + "'";
        } else {
          v.raw += s;
        }
        v.sv.push_back(s);
      }
      v.raw += "]";
      v.type = 5;
      v.plain.clear();
      break;
    }
    case 6: {
      v.plain = "has # hash = equals and  blanks";
      v.raw = "\"" + v.plain + "\"";
      break;
    }
    case 7: {
      v.plain = "it is 'quoted' here";
      v.raw = "\"it is 'quoted' here\"";
      break;
    }
    case 8: {
      // Long: makes the file span several stream buffers.
      const int n = static_cast<int>(r.In(500, 9000));
      for (int i = 0; i < n; ++i) v.raw += static_cast<char>('a' + (i * 7 + seed) % 26);
      v.plain = v.raw;
      break;
    }
    default:
      v.raw = v.plain = "CS001HBA0&RS" + std::to_string(r.Below(999));
      break;
  }
  return v;
}

using Contents = std::map<std::string, Value>;
using Entries = std::vector<std::pair<std::string, Value>>;

struct File {
  bool exists = false;
  std::string text;
  Entries entries;
};

int Idx(const sim::Op& o, int arg, int n) { return static_cast<int>(((o.Arg(arg) % n) + n) % n); }
std::string Name(int f) { return "file" + std::to_string(f) + ".parset"; }
std::string Key(const sim::Op& o) { return kKeys[Idx(o, 2, kNKeys)]; }

std::string Slurp(const std::string& name, bool* ok) {
  sim::Quiet q;
  std::ifstream f(name, std::ios::binary);
  *ok = f.is_open();
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void Spill(const std::string& name, const std::string& text) {
  sim::Quiet q;
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f << text;
}

std::string TextOf(const Contents& c) {
  std::string s;
  for (const auto& kv : c) s += kv.first + "=" + kv.second.raw + "\n";
  return s;
}

void CheckSet(const ParameterSet& ps, const Contents& want, const std::string& when) {
  sim::Quiet q;
  std::string dump;
  ps.writeBuffer(dump);
  if (dump != TextOf(want)) {
    // Name the first difference.
    for (const auto& kv : want) {
      if (!ps.isDefined(kv.first))
        sim::Fail("key-lost", "key '" + kv.first + "' missing " + when);
      if (ps.get(kv.first).get() != kv.second.raw)
        sim::Fail("value-changed", "value of '" + kv.first + "' is '" +
                                       ps.get(kv.first).get().substr(0, 80) +
                                       "' instead of '" + kv.second.raw.substr(0, 80) + "' " + when);
    }
    sim::Fail("extra-key", "keys that nobody wrote are present " + when);
  }
  sim::EventStr(dump.substr(0, 200));
  for (const auto& kv : want) {
    const Value& v = kv.second;
    if (v.type == 5) {
      if (ps.getStringVector(kv.first) != v.sv) sim::Fail("vector", "string vector differs " + when);
      continue;
    }
    if (ps.getString(kv.first) != v.plain)
      sim::Fail("string", "string value of '" + kv.first + "' differs " + when);
    if (v.type == 1 && (ps.getInt(kv.first) != v.i || ps.getInt64(kv.first) != v.i || ps.getDouble(kv.first) != v.i))
      sim::Fail("int", "integer value of '" + kv.first + "' differs " + when);
    if (v.type == 2 && ps.getDouble(kv.first) != v.d) sim::Fail("double", "double value differs " + when);
    if (v.type == 3 && ps.getBool(kv.first) != v.b) sim::Fail("bool", "bool value differs " + when);
    if (v.type == 4 && ps.getIntVector(kv.first) != v.iv) sim::Fail("vector", "int vector differs " + when);
  }
}

// A hand-written file: comments, blank lines, continuation lines, spacing.
void MakeText(uint64_t seed, File& f) {
  sim::Rng r(seed);
  f.exists = true;
  f.text.clear();
  f.entries.clear();
  const int n = static_cast<int>(r.In(0, 8));
  for (int i = 0; i < n; ++i) {
    if (r.Chance(0.2)) f.text += r.Chance(0.5) ? "# comment = nothing 'x\n" : "\n";
    if (r.Chance(0.1)) f.text += "   \t \n";
    const std::string key = kKeys[r.Below(kNKeys)];
    Value v = MakeValue(r.Next());
    std::string written = r.Chance(0.15) ? "\"" + key + "\"" : key;
    std::string line = std::string(r.Below(3), ' ') + written;
    line += r.Chance(0.5) ? " = " : "=";
    if (v.type == 4 && v.iv.size() >= 2 && r.Chance(0.5)) {
      // Continuation: split after a comma, join rule: one blank.
      v.raw = "[";
      line += "[";
      for (size_t k = 0; k < v.iv.size(); ++k) {
        const std::string t = std::to_string(v.iv[k]);
        if (k) {
          line += "," + std::string(r.Chance(0.5) ? " \\" : "") +
                  (r.Chance(0.3) ? " # tail" : "");
          // A backslash before a comment is only a continuation mark when it
          // ends the line; the comment is cut first.
          line += "\n   ";
          v.raw += ", ";
        }
        line += t;
        v.raw += t;
      }
      line += "]";
      v.raw += "]";
      v.plain = v.raw;
    } else if (v.type == 5 && r.Chance(0.4)) {
      // A text continued on the next line: quoted pieces are joined directly,
      // unquoted ones with a blank.
      v = Value();
      const bool quoted = r.Chance(0.6);
      v.raw = r.Chance(0.5) ? "'one part'" : "word";
      line += v.raw + "\n  ";
      const std::string next = quoted ? "\"and # the = rest\"" : "and the rest";
      if (!quoted) v.raw += " ";
      v.raw += next;
      line += next;
      v.plain = v.raw;
      for (const char* q : {"'", "\""})
        for (size_t at; (at = v.plain.find(q)) != std::string::npos;) v.plain.erase(at, 1);
    } else {
      line += v.raw;
    }
    if (r.Chance(0.3)) line += "  ";
    if (r.Chance(0.2)) line += " # a comment, with = and \"quotes";
    f.text += line + "\n";
    f.entries.emplace_back(key, v);
  }
}

bool IsSet(int k) { return k == kSet; }

uint64_t HardWrite() {
  return sim::FaultsFired(sim::kOpenFail) + sim::FaultsFired(sim::kWriteError) +
         sim::FaultsFired(sim::kWriteNoSpace) + sim::FaultsFired(sim::kCloseError);
}
uint64_t HardRead() {
  return sim::FaultsFired(sim::kOpenFail) + sim::FaultsFired(sim::kReadError) +
         sim::FaultsFired(sim::kCloseError);
}

struct CrashArg {
  ParameterSet* set;
  std::string name;
  bool append;
};
void DoCrashWrite(void* p) {
  auto* a = static_cast<CrashArg*>(p);
  sim::EnableFaults(true);
  try {
    a->set->writeFile(a->name, a->append);
  } catch (const std::exception&) {
  }
  sim::EnableFaults(false);
}
bool StartsWith(const std::string& s, const std::string& p) {
  return s.compare(0, p.size(), p) == 0;
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return std::string(o.kind > 0 && o.kind < kKinds ? kNames[o.kind] : "?") + "(set " +
         std::to_string(Idx(o, 0, kSets)) + ", " + Name(Idx(o, 1, kFiles)) + ", " + Key(o) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  const bool faults = rng.Chance(0.7);
  if (faults) {
    auto rate = [&](const char* n, double p, int lo, int hi) {
      if (rng.Chance(p)) plan.knobs[std::string("rate_") + n] = rng.In(lo, hi);
    };
    rate("open_fail", 0.3, 200, 3000);
    rate("read_short", 0.5, 1000, 9000);
    rate("read_eintr", 0.5, 500, 4000);
    rate("read_error", 0.4, 200, 3000);
    rate("write_short", 0.5, 1000, 9000);
    rate("write_eintr", 0.5, 500, 4000);
    rate("write_error", 0.3, 200, 3000);
    rate("write_nospace", 0.3, 200, 3000);
    rate("close_error", 0.3, 200, 3000);
    rate("crash", 0.5, 1000, 6000);
    plan.knobs["max_faults"] = rng.Chance(0.3) ? 1 : rng.In(2, 200);
  }
  const int n = static_cast<int>(rng.In(4, 22));
  for (int i = 0; i < n; ++i) {
    static const int kinds[] = {kSet, kSet, kSet, kWrite, kWrite, kAppend, kAdopt, kAdopt,
                                kConstruct, kConstruct, kText, kRemoveKey, kCrashWrite};
    plan.Add(kinds[rng.Below(13)],
             {static_cast<int64_t>(rng.Below(kSets)), static_cast<int64_t>(rng.Below(kFiles)),
              static_cast<int64_t>(rng.Below(kNKeys)), static_cast<int64_t>(rng.Below(1 << 30)),
              static_cast<int64_t>(rng.Below(4))});
  }
}

void Execute(const sim::Plan& plan) {
  std::vector<ParameterSet> sets;
  for (int i = 0; i < kSets; ++i) sets.emplace_back();
  Contents want[kSets];
  File files[kFiles];
  static const char* const kPrefix[] = {"", "", "pre.", "a.b."};
  for (const sim::Op& o : plan.ops) {
    const int s = Idx(o, 0, kSets), f = Idx(o, 1, kFiles);
    File& file = files[f];
    switch (o.kind) {
      case kSet: {
        const Value v = MakeValue(o.Arg(3));
        sets[s].replace(Key(o), v.raw);
        want[s][Key(o)] = v;
        break;
      }
      case kRemoveKey:
        sets[s].remove(Key(o));
        want[s].erase(Key(o));
        break;
      case kText:
        MakeText(o.Arg(3), file);
        Spill(Name(f), file.text);
        break;
      case kWrite:
      case kAppend: {
        const bool append = o.kind == kAppend;
        simio::ClearDiskFull();
        const uint64_t hard = HardWrite();
        bool threw = false;
        sim::EnableFaults(true);
        try {
          sets[s].writeFile(Name(f), append);
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        const bool faulted = HardWrite() != hard;
        simio::ClearDiskFull();
        if (faulted && !threw)
          sim::Fail("lost-write", "a write of " + Name(f) + " that failed was reported as success");
        if (!faulted && threw)
          sim::Fail("spurious-error", "writing " + Name(f) + " failed without an unrecoverable fault");
        bool exists;
        const std::string now = Slurp(Name(f), &exists);
        const std::string add = TextOf(want[s]);
        if (!threw) {
          const std::string expect = append ? file.text + add : add;
          if (now != expect)
            sim::Fail("file-content", std::string("after a successful ") + kNames[o.kind] +
                                          " the file does not hold exactly what was written");
          if (!append) file.entries.clear();
          file.exists = true;
          file.text = expect;
          for (const auto& kv : want[s]) file.entries.push_back(kv);
        } else {
          sim::Probe("write failure reported");
          if (append && !StartsWith(now, file.text))
            sim::Fail("append-damage", "a failed append damaged what the file already held");
          unlink(Name(f).c_str());
          file = File();
        }
        break;
      }
      case kCrashWrite: {
        const bool append = o.Arg(4) & 1;
        simio::ClearDiskFull();
        CrashArg arg{&sets[s], Name(f), append};
        const bool crashed = sim::RunUntilCrash(DoCrashWrite, &arg);
        simio::ClearDiskFull();
        bool exists;
        const std::string now = Slurp(Name(f), &exists);
        const std::string add = TextOf(want[s]);
        if (crashed) {
          sim::Probe("crash during write");
          const bool ok = append ? StartsWith(now, file.text) && StartsWith(file.text + add, now)
                                 : StartsWith(add, now) || now == file.text;
          if (!ok) sim::Fail("crash-damage", "after a crash the file holds data nobody wrote there");
          if (now != (append ? file.text + add : add)) sim::Probe("torn file after crash");
        }
        // Restart: whatever was in memory is gone.
        unlink(Name(f).c_str());
        file = File();
        if (crashed) {
          sets[s] = ParameterSet();
          want[s].clear();
        }
        break;
      }
      case kAdopt:
      case kConstruct: {
        const bool adopt = o.kind == kAdopt;
        const std::string prefix = adopt ? kPrefix[o.Arg(4) & 3] : "";
        const uint64_t hard = HardRead();
        bool threw = false;
        ParameterSet fresh;
        sim::EnableFaults(true);
        try {
          if (adopt)
            sets[s].adoptFile(Name(f), prefix);
          else
            fresh = ParameterSet(Name(f));
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        const bool faulted = HardRead() != hard;
        if (!file.exists && !threw)
          sim::Fail("missing-file", "reading a missing file succeeded");
        if (file.exists && threw && !faulted)
          sim::Fail("spurious-error", "reading " + Name(f) + " failed without an unrecoverable fault");
        if (threw) {
          if (file.exists) sim::Probe("read failure reported");
          sets[s] = ParameterSet();
          want[s].clear();
          break;
        }
        if (!adopt) {
          want[s].clear();
          sets[s] = fresh;
        }
        for (const auto& kv : file.entries) want[s][prefix + kv.first] = kv.second;
        CheckSet(sets[s], want[s],
                 std::string("after reading the file") + (faulted ? " (a fault went unreported)" : ""));
        if (!file.entries.empty()) sim::Probe("file read back");
        break;
      }
    }
  }
  for (int i = 0; i < kSets; ++i) CheckSet(sets[i], want[i], "at the end of the run");
}
