// P02: a parameter set shared between threads.
#include "common/ParameterSet.h"

#include "linear.h"
#include "sim.h"

#include <algorithm>
#include <fstream>
#include <thread>

using dp3::common::ParameterSet;
const char* const kProperty = "P02";

namespace {
enum Kind {
  kAdd = 1, kReplace, kRemove, kGet, kGetDef, kGetInt, kGetVec, kDefined,
  kSubset, kSubtract, kAdoptBuffer, kAdoptArgs, kAdoptColl, kDump, kUnused,
  kLocate, kFull, kGetRaw, kGetDouble, kGetBoolDef, kAdoptSelf, kAdoptFile, kKinds
};
const char* const kNames[] = {
    "", "add", "replace", "remove", "getString", "getStringDefault", "getInt",
    "getIntVector", "isDefined", "makeSubset", "subtractSubset", "adoptBuffer",
    "adoptArguments", "adoptCollection", "writeBuffer", "unusedKeys",
    "locateModule", "fullModuleName", "get", "getDouble", "getUintDefault",
    "adoptSelfWithPrefix", "adoptFile"};
const char* const kKeys[] = {"a.x", "a.y", "b.x", "c", "a.b.z"};
constexpr int kNKeys = 5;
const char* const kPrefix[] = {"a.", "b.", "a.b.", "zz.", "a.b.z", "c", "a.x"};
const char* const kModules[] = {"a", "b", "zz"};

std::string Key(const sim::Op& o) { return kKeys[(o.Arg(1) % kNKeys + kNKeys) % kNKeys]; }
std::string Key2(const sim::Op& o) { return kKeys[((o.Arg(1) + 2) % kNKeys + kNKeys) % kNKeys]; }
std::string Val(const sim::Op& o) { return std::to_string(1000 + o.Arg(2)); }
std::string Prefix(const sim::Op& o) { return kPrefix[(o.Arg(1) % 7 + 7) % 7]; }
std::string FileName(const sim::Op& o) { return "f" + std::to_string(o.Arg(2)); }
std::string Module(const sim::Op& o) { return kModules[(o.Arg(1) % 3 + 3) % 3]; }

std::string DumpOf(const std::map<std::string, std::string>& m) {
  std::string s;
  for (const auto& kv : m) s += kv.first + "=" + kv.second + "\n";
  return s;
}

struct Model {
  std::map<std::string, std::string> m;
  std::set<std::string> asked;
  std::string Key() const {
    std::string s = DumpOf(m) + "|";
    for (const auto& a : asked) s += a + ",";
    return s;
  }
};

std::string ModulePart(const std::string& k) {
  const size_t p = k.rfind('.');
  return p == std::string::npos ? "" : k.substr(0, p);
}
std::string LastPart(const std::string& k) {
  const size_t p = k.rfind('.');
  return p == std::string::npos ? k : k.substr(p + 1);
}

// The sequential specification.
std::string Spec(Model& st, const sim::Op& o) {
  switch (o.kind) {
    case kAdd:
      if (st.m.count(Key(o))) return "EXC";
      st.m[Key(o)] = Val(o);
      return "";
    case kReplace:
      st.m[Key(o)] = Val(o);
      return "";
    case kRemove:
      st.m.erase(Key(o));
      return "";
    case kGet: case kGetInt: case kGetVec: case kGetRaw: case kGetDouble: {
      auto it = st.m.find(Key(o));
      if (it == st.m.end()) return "EXC";
      st.asked.insert(it->first);
      return it->second;
    }
    case kGetDef: case kGetBoolDef: {
      auto it = st.m.find(Key(o));
      if (it == st.m.end()) return "77";
      st.asked.insert(it->first);
      return it->second;
    }
    case kDefined:
      return st.m.count(Key(o)) ? "1" : "0";
    case kSubset: {
      std::map<std::string, std::string> sub;
      const std::string p = Prefix(o);
      for (const auto& kv : st.m)
        if (kv.first.compare(0, p.size(), p) == 0) {
          sub["q." + kv.first.substr(p.size())] = kv.second;
          st.asked.insert(kv.first);
        }
      return DumpOf(sub);
    }
    case kSubtract: {
      const std::string p = Prefix(o);
      for (auto it = st.m.begin(); it != st.m.end();)
        it = it->first.compare(0, p.size(), p) == 0 ? st.m.erase(it)
                                                    : std::next(it);
      return "";
    }
    case kAdoptBuffer: case kAdoptArgs: case kAdoptColl: case kAdoptFile:
      st.m[Key(o)] = Val(o);
      st.m[Key2(o)] = Val(o);
      return "";
    case kAdoptSelf: {
      const auto copy = st.m;
      for (const auto& kv : copy) st.m["n." + kv.first] = kv.second;
      return "";
    }
    case kDump:
      return DumpOf(st.m);
    case kUnused: {
      std::string s;
      for (const auto& kv : st.m)
        if (!st.asked.count(kv.first)) s += kv.first + ",";
      return s;
    }
    case kLocate: {
      const std::string want = Module(o);
      for (const auto& kv : st.m)
        if (LastPart(ModulePart(kv.first)) == want) {
          std::string p = ModulePart(ModulePart(kv.first));
          return p.empty() ? p : p + ".";
        }
      return "";
    }
    case kFull: {
      // First key that has the module in its hierarchy; gives the hierarchy
      // up to and including it. For these keys (one-letter modules) the last
      // occurrence decides.
      const std::string want = Module(o);
      for (const auto& kv : st.m) {
        const std::string mod = ModulePart(kv.first);
        const size_t s = mod.rfind(want);
        if (s == std::string::npos) continue;
        const size_t e = s + want.size();
        if ((e == kv.first.size() || kv.first[e] == '.') &&
            (s == 0 || kv.first[s - 1] == '.'))
          return kv.first.substr(0, e);
      }
      return "";
    }
  }
  return "";
}

std::string Run(ParameterSet& ps, const sim::Op& o) {
  try {
    switch (o.kind) {
      case kAdd: ps.add(Key(o), Val(o)); return "";
      case kReplace: ps.replace(Key(o), Val(o)); return "";
      case kRemove: ps.remove(Key(o)); return "";
      case kGet: return ps.getString(Key(o));
      case kGetDef: return ps.getString(Key(o), "77");
      case kGetInt: return std::to_string(ps.getInt(Key(o)));
      case kGetDouble: return std::to_string(static_cast<int>(ps.getDouble(Key(o))));
      case kGetBoolDef: return std::to_string(ps.getUint(Key(o), 77));
      case kGetRaw: return ps.get(Key(o)).get();
      case kGetVec: {
        const std::vector<int> v = ps.getIntVector(Key(o));
        return v.empty() ? "empty" : std::to_string(v[0]);
      }
      case kDefined: return ps.isDefined(Key(o)) ? "1" : "0";
      case kSubset: {
        ParameterSet sub = ps.makeSubset(Prefix(o), "q.");
        std::string s;
        sub.writeBuffer(s);
        return s;
      }
      case kSubtract: ps.subtractSubset(Prefix(o)); return "";
      case kAdoptBuffer:
        ps.adoptBuffer(Key(o) + " = " + Val(o) + "  # comment\n" + Key2(o) +
                       "=" + Val(o) + "\n");
        return "";
      case kAdoptArgs:
        ps.adoptArguments({Key(o) + "=" + Val(o), "noequals",
                           Key2(o) + "=" + Val(o)});
        return "";
      case kAdoptColl: {
        ParameterSet other;
        other.add(Key(o), Val(o));
        other.replace(Key2(o), Val(o));
        ps.adoptCollection(other);
        return "";
      }
      case kAdoptFile: ps.adoptFile(FileName(o)); return "";
      case kAdoptSelf: ps.adoptCollection(ps, "n."); return "";
      case kDump: {
        std::string s;
        ps.writeBuffer(s);
        return s;
      }
      case kUnused: {
        std::string s;
        for (const std::string& k : ps.unusedKeys()) s += k + ",";
        return s;
      }
      case kLocate: return ps.locateModule(Module(o));
      case kFull: return ps.fullModuleName(Module(o));
    }
  } catch (const std::bad_alloc&) {
    return "ALLOC";
  } catch (const std::exception&) {
    return "EXC";
  }
  return "";
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return "T" + std::to_string(o.Arg(0)) + " " +
         (o.kind > 0 && o.kind < kKinds ? kNames[o.kind] : "?") + "(" + Key(o) +
         "/" + Prefix(o) + "," + Val(o) + ")";
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  const int threads = static_cast<int>(rng.In(1, 4));
  plan.knobs["threads"] = threads;
  plan.knobs["max_steps"] = 3000000;
  // Mutual adoption between two sets (lock order).
  plan.knobs["mutual"] = rng.Chance(0.1);
  std::vector<int> allowed;
  for (int k = 1; k < kKinds; ++k)
    if (rng.Chance(0.5)) allowed.push_back(k);
  if (allowed.size() < 2) allowed = {kReplace, kGet, kRemove};
  const int init = static_cast<int>(rng.In(0, 5));
  for (int i = 0; i < init; ++i)
    plan.Add(kReplace, {0, static_cast<int64_t>(rng.Below(kNKeys)), 100 + i});
  int v = 1;
  for (int t = 1; t <= threads; ++t) {
    const int n = static_cast<int>(rng.In(1, threads <= 2 ? 6 : 4));
    for (int i = 0; i < n; ++i) {
      const int kind = allowed[rng.Below(allowed.size())];
      // Files are named after their value, which must then be unique.
      const bool repeat = kind != kAdoptFile && rng.Chance(0.2);
      plan.Add(kind, {t, static_cast<int64_t>(rng.Below(35)), repeat ? 100 + rng.In(0, 3) : v++});
    }
  }
  for (int k : {kUnused, kDump}) plan.Add(k, {0, 0, 0});
}

void Execute(const sim::Plan& plan) {
  const int threads = static_cast<int>(plan.Knob("threads", 1));
  {
    sim::Quiet q;
    for (const sim::Op& o : plan.ops)
      if (o.kind == kAdoptFile) {
        std::ofstream f(FileName(o));
        f << "# adopted\n" << Key(o) << " = " << Val(o) << "\n" << Key2(o) << "=" << Val(o) << "\n";
      }
  }
  ParameterSet ps;
  std::vector<HistOp> hist;
  auto record = [&](ParameterSet& handle, int i) {
    HistOp h;
    h.id = i;
    h.inv = sim::Seq();
    std::string r = Run(handle, plan.ops[i]);
    h.ret = sim::Seq();
    sim::Quiet q;
    h.result = r;
    hist.push_back(h);
    sim::Event(h.inv * 31 + h.id);
    sim::EventStr(h.result);
  };
  // Initial contents.
  size_t tail = plan.ops.size();
  while (tail > 0 && plan.ops[tail - 1].Arg(0) == 0) --tail;
  for (size_t i = 0; i < tail; ++i)
    if (plan.ops[i].Arg(0) == 0) record(ps, static_cast<int>(i));
  std::vector<std::thread> pool;
  for (int t = 1; t <= threads; ++t)
    pool.emplace_back([&, t]() {
      ParameterSet handle(ps);  // shares the same contents
      for (size_t i = 0; i < plan.ops.size(); ++i)
        if (plan.ops[i].Arg(0) == t) record(handle, static_cast<int>(i));
    });
  ParameterSet left, right;
  if (plan.Knob("mutual")) {
    left.add("l", "1");
    right.add("r", "2");
    pool.emplace_back([&]() { left.adoptCollection(right); });
    pool.emplace_back([&]() { right.adoptCollection(left); });
  }
  for (auto& t : pool) t.join();
  for (size_t i = tail; i < plan.ops.size(); ++i)
    record(ps, static_cast<int>(i));

  sim::Quiet q;
  if (plan.Knob("mutual")) {
    if (left.getString("l", "") != "1" || left.getString("r", "") != "2" ||
        right.getString("l", "") != "1" || right.getString("r", "") != "2")
      sim::Fail("adopt-lost", "mutual adoption lost a key");
    sim::Probe("mutual adoption");
  }
  if (hist.size() > 40) return;
  bool overlap = false;
  for (const auto& a : hist)
    for (const auto& b : hist)
      overlap |= a.id != b.id && a.inv < b.ret && b.inv < a.ret;
  if (overlap) sim::Probe("overlapping operations");
  for (const auto& a : hist)
    if (a.result == "EXC") {
      sim::Probe("operation reported an unknown or duplicate key");
      break;
    }
  const bool ok = Linearizable<Model>(
      hist, Model(), [&](Model& st, int id, const std::string& result) {
        return Spec(st, plan.ops[id]) == result;
      });
  if (!ok) {
    std::string s = "no order of the operations explains the results:";
    for (const auto& a : hist) {
      std::string r = a.result;
      std::replace(r.begin(), r.end(), '\n', ';');
      s += " [" + std::to_string(a.inv) + "," + std::to_string(a.ret) + "] " +
           Describe(plan.ops[a.id]) + " -> '" + r + "';";
    }
    sim::Fail("not-linearizable", s);
  }
}
