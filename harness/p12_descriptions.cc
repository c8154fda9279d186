// P12: cluster and data set description files, under storage faults.
#include "common/ClusterDesc.h"
#include "common/NodeDesc.h"
#include "common/VdsDesc.h"
#include "common/VdsMaker.h"
#include "common/VdsPartDesc.h"

#include <casacore/casa/OS/Path.h>

#include "sim.h"
#include "simio.h"

#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using dp3::common::ClusterDesc;
using dp3::common::NodeDesc;
using dp3::common::ParameterSet;
using dp3::common::VdsDesc;
using dp3::common::VdsMaker;
using dp3::common::VdsPartDesc;
const char* const kProperty = "P12";

namespace casacore {
void MiniIndexError(const char* what) { sim::Fail("out-of-bounds", std::string("access outside an array: ") + what); }
}  // namespace casacore

namespace {
enum Kind { kCluster = 1, kPart, kCombine, kWhole, kKinds };
const char* const kNames[] = {"", "cluster description", "data set description", "combine data set descriptions",
                             "description with parts"};
// args: seed, file
constexpr int kFiles = 4;

struct Node {
  std::string name;
  int type = NodeDesc::Any;
  std::vector<std::string> fs, mounts;
};
struct Cluster {
  bool exists = false, bad = false;
  std::string name;
  std::vector<Node> nodes;
};
struct Part {
  bool exists = false;
  std::string name, file_name, file_sys, cluster;
  double start = 0, end = 0, step = 1;
  std::vector<double> starts, ends;
  std::vector<int> nchan;
  std::vector<double> f0, f1;
  std::map<std::string, std::string> extra;
};

std::string Cwd() {
  char b[4096];
  return getcwd(b, sizeof b) ? b : "";
}
void Spill(const std::string& name, const std::string& text) {
  sim::Quiet q;
  std::ofstream f(name, std::ios::binary | std::ios::trunc);
  f << text;
}
uint64_t HardWrite() {
  return sim::FaultsFired(sim::kWriteError) + sim::FaultsFired(sim::kWriteNoSpace) + simio::WriteCloseErrors();
}
uint64_t HardRead() {
  return sim::FaultsFired(sim::kOpenFail) + sim::FaultsFired(sim::kReadError) + sim::FaultsFired(sim::kCloseError);
}
std::string List(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + v[i];
  return s + "]";
}
std::string ClusterFile(int f) { return (f % 2 ? "sub/cluster" : "cluster") + std::to_string(f) + ".desc"; }
std::string PartFile(int f) { return (f % 2 ? "sub/part" : "part") + std::to_string(f) + ".vds"; }

std::string Mount(sim::Rng& r) {
  static const char* const p[] = {"/", "/data", "/data/x", "/home", "/net/a/b", "/data/scratch", "/net/a", "/automatic"};
  return p[r.Below(8)];
}
void AddFs(Node& n, const std::string& fs, std::string mount) {
  if (mount.size() > 5 && mount.compare(0, 6, "/auto/") == 0) mount = mount.substr(5);
  n.fs.push_back(fs);
  n.mounts.push_back(mount);
}

/// The deepest mount point above the file, else the root file system.
std::string FindFs(const Node& n, const std::string& file) {
  size_t best = 0;
  std::string r;
  for (size_t i = 0; i < n.mounts.size(); ++i) {
    const std::string& m = n.mounts[i];
    if (m == "/") continue;
    if (file.size() > m.size() && file.compare(0, m.size(), m) == 0 && file[m.size()] == '/' && m.size() > best) {
      best = m.size();
      r = n.fs[i];
    }
  }
  if (best == 0)
    for (size_t i = 0; i < n.mounts.size(); ++i)
      if (n.mounts[i] == "/") r = n.fs[i];
  return r;
}

void CheckCluster(const ClusterDesc& got, const Cluster& want, const std::string& when, sim::Rng& r) {
  sim::Quiet q;
  if (got.getName() != want.name) sim::Fail("cluster-name", "the cluster has another name " + when);
  const auto& nodes = got.getNodes();
  if (nodes.size() != want.nodes.size())
    sim::Fail("node-count", std::to_string(nodes.size()) + " nodes instead of " + std::to_string(want.nodes.size()) + " " + when);
  std::map<std::string, std::vector<int>> map;
  for (size_t i = 0; i < nodes.size(); ++i) {
    const Node& w = want.nodes[i];
    const NodeDesc& g = nodes[i];
    if (g.getName() != w.name || g.getType() != w.type)
      sim::Fail("node", "node " + w.name + " has another name or type " + when);
    if (g.getMountPoints() != w.mounts || g.getFileSys() != w.fs)
      sim::Fail("node-disks", "node " + w.name + " has other disks " + when + ": " + List(g.getMountPoints()) + List(g.getFileSys()) +
                                  " instead of " + List(w.mounts) + List(w.fs));
    if (got.getNode(w.name).getMountPoints() != w.mounts) sim::Fail("node-lookup", "looking up a node gives another one " + when);
    for (const std::string& f : w.fs) map[f].push_back(i);
    for (int k = 0; k < 3; ++k) {
      static const char* const files[] = {"/data/x/file", "/data/file", "/datax/f", "/file", "/net/a/b/c/d", "/net/a/bc",
                                          "/net/a/file/x", "/home/u/v/w", "/data/scratch/q", "/automatic/x"};
      const std::string file = files[r.Below(10)];
      bool twice = false;  // the same mount point given twice: either will do
      for (size_t a = 0; a < w.mounts.size(); ++a)
        for (size_t b = 0; b < a; ++b) twice |= w.mounts[a] == w.mounts[b];
      const std::string fs = g.findFileSys(file);
      if (!twice && fs != FindFs(w, file))
        sim::Fail("file-system", "node " + w.name + ": " + file + " is said to be on '" + fs + "' instead of '" + FindFs(w, file) + "' " + when);
    }
  }
  if (got.getMap() != map) sim::Fail("map", "the map of file systems to nodes is wrong " + when);
  bool threw = false;
  try {
    got.getNode("nosuchnode");
  } catch (const std::exception&) {
    threw = true;
  }
  if (!threw) sim::Fail("unknown-node", "looking up an unknown node succeeded");
}

void AddNode(Cluster& c, const Node& n, bool can_exist) {
  for (const Node& o : c.nodes)
    if (o.name == n.name) {
      if (!can_exist) c.bad = true;
      return;
    }
  c.nodes.push_back(n);
}

std::string MakeCluster(sim::Rng& r, Cluster& c, const Cluster* all, int self) {
  static const char* const types[] = {"Compute", "Storage", "Head", "Any"};
  c = Cluster();
  c.exists = true;
  c.name = "cl" + std::to_string(r.Below(100));
  std::string t = "ClusterName = " + c.name + "\n";
  const int kind = r.Below(3);
  if (kind == 0) {  // heterogeneous
    const int n = r.In(1, 4);
    for (int i = 0; i < n; ++i) {
      const std::string p = "Node" + std::to_string(i) + ".";
      Node nd;
      nd.name = "n" + std::to_string(r.Chance(0.1) ? 0 : i);
      t += p + "NodeName = " + nd.name + "\n";
      nd.type = NodeDesc::Compute;
      if (r.Chance(0.7)) {
        nd.type = r.Below(4);
        std::string y = types[nd.type];
        if (r.Chance(0.3)) y[0] = y[0] + ('a' - 'A');
        t += p + "NodeType = " + y + "\n";
      }
      const int nm = r.In(0, 3);
      for (int k = 0; k < nm; ++k) nd.mounts.push_back(Mount(r));
      t += p + "NodeMountPoints = " + List(nd.mounts) + "\n";
      if (r.Chance(0.6)) {
        for (int k = 0; k < nm; ++k) nd.fs.push_back("fs" + std::to_string(r.Below(6)));
        std::vector<std::string> w = nd.fs;
        if (r.Chance(0.05)) {
          w.push_back("extra");
          c.bad = true;
        }
        t += p + "NodeFileSys = " + List(w) + "\n";
      } else {
        nd.fs = nd.mounts;
      }
      AddNode(c, nd, false);
    }
    if (r.Chance(0.2)) t += "Node" + std::to_string(n + 1) + ".NodeName = skipped\n";  // not consecutive: not read
  } else if (kind == 1) {  // homogeneous
    std::vector<int> order;
    for (int k = 0; k < 4; ++k) {
      if (!r.Chance(0.6)) continue;
      const std::string p = k == 3 ? "" : std::string(types[k]) + ".";
      const int n = r.In(1, 3);
      std::vector<std::string> names, l, rd, rf;
      for (int i = 0; i < n; ++i) names.push_back(std::string(1, types[k][0]) + std::to_string(r.Chance(0.05) ? 0 : i));
      for (int i = r.In(0, 2); i > 0; --i) l.push_back(Mount(r));
      for (int i = r.In(0, 2); i > 0; --i) rd.push_back((r.Chance(0.3) ? "/auto" : "") + Mount(r));
      for (std::string& m : rd)
        if (m == "/auto/") m = "/auto/home";
      t += p + "Nodes = " + List(names) + "\n";
      if (!l.empty()) t += p + "LocalDisks = " + List(l) + "\n";
      if (!rd.empty()) t += p + "RemoteDisks = " + List(rd) + "\n";
      rf = rd;
      if (!rd.empty() && r.Chance(0.5)) {
        for (size_t i = 0; i < rf.size(); ++i) rf[i] = "rfs" + std::to_string(i);
        t += p + "RemoteFileSys = " + List(rf) + "\n";
      }
      const int special = r.Chance(0.3) ? static_cast<int>(r.Below(n)) : -1;
      std::vector<std::string> sl, sr, sf;
      if (special >= 0) {
        sl = {Mount(r)};
        sr = {"/special"};
        sf = sr;
        t += p + "LocalDisks." + names[special] + " = " + List(sl) + "\n";
        t += p + "RemoteDisks." + names[special] + " = " + List(sr) + "\n";
        if (r.Chance(0.5)) {
          sf = {"sfs"};
          t += p + "RemoteFileSys." + names[special] + " = [sfs]\n";
        }
      }
      for (int i = 0; i < n; ++i) {
        Node nd;
        nd.name = names[i];
        nd.type = k;
        const bool sp = special >= 0 && names[i] == names[special];
        for (size_t j = 0; j < (sp ? sr : rd).size(); ++j) AddFs(nd, (sp ? sf : rf)[j], (sp ? sr : rd)[j]);
        for (const std::string& m : sp ? sl : l) AddFs(nd, nd.name + ":" + m, m);
        AddNode(c, nd, false);
      }
    }
  } else {  // sub clusters
    std::vector<std::string> names;
    const int n = r.In(1, 3);
    for (int i = 0; i < n; ++i) {
      const int f = r.Below(kFiles);
      if (f == self) continue;
      std::string name = ClusterFile(f);
      // Relative names are relative to the directory of this file.
      if (r.Chance(0.3))
        name = Cwd() + "/" + name;
      else if (self % 2)
        name = "../" + name;
      names.push_back(name);
      const Cluster& s = all[f];
      if (!s.exists || s.bad) {
        c.bad = true;
        continue;
      }
      for (const Node& nd : s.nodes) AddNode(c, nd, true);
    }
    t += "SubClusters = " + List(names) + "\n";
  }
  return t;
}

std::string Num(double d) {
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}

Part MakePart(sim::Rng& r, VdsPartDesc& v) {
  Part p;
  p.exists = true;
  p.name = "/data/set" + std::to_string(r.Below(50)) + ".MS";
  p.file_sys = r.Chance(0.7) ? "node" + std::to_string(r.Below(9)) + ":/data" : "";
  if (r.Chance(0.2)) v.setName("/old/name.MS", "node0:/old");
  v.setName(p.name, p.file_sys);
  if (r.Chance(0.2)) {
    v.changeBaseName("other.MS");
    p.name = "/data/other.MS";
  }
  if (r.Chance(0.6)) v.setFileName(p.file_name = "/data/file" + std::to_string(r.Below(50)));
  if (r.Chance(0.6)) v.setClusterDescName(p.cluster = "/etc/cluster" + std::to_string(r.Below(5)));
  const bool empty = r.Chance(0.1);
  if (!empty) {
    p.start = 4472025600.0 + r.In(0, 100000000) * 0.25;
    static const double steps[] = {1, 10, 1.00139008, 0.1666666667, 2.00278016, 0.5};
    p.step = steps[r.Below(6)];
    const int n = r.Chance(0.5) ? static_cast<int>(r.Chance(0.1) ? 400 : r.In(1, 20)) : 0;
    for (int i = 0; i < n; ++i) {
      p.starts.push_back(p.start + i * p.step + r.In(-5, 5) * 0.01);
      p.ends.push_back(p.start + (i + 1) * p.step + r.In(-5, 5) * 0.01);
    }
    p.end = p.start + std::max(n, 1) * p.step;
    if (n)
      v.setTimes(p.start, p.end, p.step, p.starts, p.ends);
    else
      v.setTimes(p.start, p.end, p.step);
  } else {
    p.end = v.getEndTime();
    p.step = v.getStepTime();
  }
  const int nb = r.In(0, 3);
  const bool ranges = r.Chance(0.3);
  for (int b = 0; b < nb; ++b) {
    const int n = r.In(1, 5);
    const double f = 1e8 + r.In(0, 1000) * 195312.5, w = 762.939453125 * r.In(1, 64);
    p.nchan.push_back(n);
    if (ranges) {
      p.f0.push_back(f);
      p.f1.push_back(f + n * w);
      v.addBand(n, std::vector<double>{f}, std::vector<double>{f + n * w});
    } else if (r.Chance(0.5)) {
      for (int k = 0; k < n; ++k) {
        p.f0.push_back(f + k * w);
        p.f1.push_back(f + (k + 1) * w);
      }
      v.addBand(n, f, f + n * w);
    } else {
      std::vector<double> a, z;
      for (int k = 0; k < n; ++k) {
        a.push_back(f + k * w);
        z.push_back(f + (k + 1) * w);
      }
      p.f0.insert(p.f0.end(), a.begin(), a.end());
      p.f1.insert(p.f1.end(), z.begin(), z.end());
      v.addBand(n, a, z);
    }
  }
  if (r.Chance(0.5)) {
    p.extra["FieldDirectionRa"] = "[" + std::to_string(r.Below(100)) + "]";
    p.extra["FieldDirectionDec"] = "[" + std::to_string(r.Below(100)) + "]";
    if (r.Chance(0.5)) p.extra["FieldDirectionType"] = "[B1950]";
  }
  if (r.Chance(0.4)) p.extra["StationNames"] = "[CS001,RS" + std::to_string(r.Below(500)) + "]";
  for (const auto& kv : p.extra) v.addParm(kv.first, kv.second);
  return p;
}

void Close(const std::vector<double>& g, const std::vector<double>& w, double tol, const std::string& what) {
  if (g.size() != w.size()) sim::Fail("count", std::to_string(g.size()) + " " + what + " instead of " + std::to_string(w.size()));
  for (size_t i = 0; i < g.size(); ++i)
    if (!(std::abs(g[i] - w[i]) <= tol))
      sim::Fail("value", what + " " + std::to_string(i) + " is " + Num(g[i]) + " instead of " + Num(w[i]));
}

void CheckPart(const VdsPartDesc& g, const Part& w, const std::string& when) {
  sim::Quiet q;
  if (g.getName() != w.name) sim::Fail("name", "the name is '" + g.getName() + "' instead of '" + w.name + "' " + when);
  if (g.getFileName() != w.file_name)
    sim::Fail("file-name", "the file name is '" + g.getFileName() + "' instead of '" + w.file_name + "' " + when);
  if (g.getFileSys() != w.file_sys) sim::Fail("file-sys", "the file system differs " + when);
  if (g.getClusterDescName() != w.cluster) sim::Fail("cluster", "the cluster description name differs " + when);
  Close({g.getStartTime(), g.getEndTime()}, {w.start, w.end}, 2e-3, "start/end time " + when);
  Close({g.getStepTime()}, {w.step}, 1e-9 * w.step, "time step " + when);
  Close(g.getStartTimes(), w.starts, 5e-3, "start time " + when);
  Close(g.getEndTimes(), w.ends, 5e-3, "end time " + when);
  if (g.getNChan() != w.nchan) sim::Fail("nchan", "the numbers of channels differ " + when);
  Close(g.getStartFreqs(), w.f0, 1e-2, "start frequency " + when);
  Close(g.getEndFreqs(), w.f1, 1e-2, "end frequency " + when);
  std::string dump, want;
  g.getParms().writeBuffer(dump);
  for (const auto& kv : w.extra) want += kv.first + "=" + kv.second + "\n";
  if (dump != want) sim::Fail("extra", "the extra parameters differ " + when + ": " + dump);
}
}  // namespace

std::string Describe(const sim::Op& o) {
  return std::string(o.kind > 0 && o.kind < kKinds ? kNames[o.kind] : "?") + " " + std::to_string(o.Arg(1) % kFiles);
}

void Generate(sim::Plan& plan, sim::Rng& rng) {
  if (rng.Chance(0.6)) {
    auto rate = [&](const char* n, double p, int lo, int hi) {
      if (rng.Chance(p)) plan.knobs[std::string("rate_") + n] = rng.In(lo, hi);
    };
    rate("open_fail", 0.3, 200, 2000);
    rate("read_short", 0.5, 1000, 9000);
    rate("read_eintr", 0.5, 500, 4000);
    rate("read_error", 0.4, 200, 2000);
    rate("write_short", 0.5, 1000, 9000);
    rate("write_eintr", 0.5, 500, 4000);
    rate("write_error", 0.3, 200, 3000);
    rate("write_nospace", 0.3, 200, 3000);
    rate("close_error", 0.3, 200, 2000);
    plan.knobs["max_faults"] = rng.Chance(0.3) ? 1 : rng.In(2, 200);
  }
  const int n = static_cast<int>(rng.In(2, 12));
  for (int i = 0; i < n; ++i) {
    static const int kinds[] = {kCluster, kCluster, kPart, kPart, kCombine, kWhole};
    plan.Add(kinds[rng.Below(6)], {static_cast<int64_t>(rng.Below(1 << 30)), static_cast<int64_t>(rng.Below(kFiles))});
  }
}

void Execute(const sim::Plan& plan) {
  mkdir("sub", 0777);
  casacore::Path::Cwd() = Cwd();
  Cluster clusters[kFiles];
  Part parts[kFiles];
  for (const sim::Op& o : plan.ops) {
    sim::Rng r(o.Arg(0));
    const int f = static_cast<int>(o.Arg(1) % kFiles);
    switch (o.kind) {
      case kCluster: {
        Cluster& c = clusters[f];
        // A cluster may use the others; nothing uses it any more.
        for (Cluster& x : clusters) x.exists = x.exists && &x != &c;
        const std::string text = MakeCluster(r, c, clusters, f);
        Spill(ClusterFile(f), text);
        const uint64_t hard = HardRead();
        bool threw = false;
        std::string why;
        ClusterDesc desc;
        sim::EnableFaults(true);
        try {
          desc = ClusterDesc(ClusterFile(f));
        } catch (const std::exception& e) {
          threw = true;
          why = e.what();
        }
        sim::EnableFaults(false);
        const bool faulted = HardRead() != hard;
        if (c.bad && !threw) sim::Fail("bad-cluster", "an invalid cluster description was accepted:\n" + text);
        if (!c.bad && !faulted && threw) sim::Fail("spurious-error", "a valid cluster description was refused (" + why + "):\n" + text);
        if (threw && !c.bad) sim::Probe("read failure of a cluster description reported");
        if (c.bad) sim::Probe("invalid cluster description");
        if (!threw) {
          CheckCluster(desc, c, faulted ? "although a read failed" : "after reading", r);
          std::ostringstream os;
          desc.write(os);
          Spill("copy.desc", os.str());
          CheckCluster(ClusterDesc("copy.desc"), c, "after writing and reading back", r);
        }
        // As plain text for the sub clusters of later files: independent of others.
        if (c.bad) {
          unlink(ClusterFile(f).c_str());
          c = Cluster();
        } else if (text.find("SubClusters") != std::string::npos) {
          std::ostringstream os;
          os << "ClusterName = " << c.name << "\n";
          for (size_t i = 0; i < c.nodes.size(); ++i) {
            static const char* const types[] = {"Compute", "Storage", "Head", "Any"};
            const std::string p = "Node" + std::to_string(i) + ".";
            os << p << "NodeName=" << c.nodes[i].name << "\n" << p << "NodeType=" << types[c.nodes[i].type] << "\n"
               << p << "NodeMountPoints=" << List(c.nodes[i].mounts) << "\n" << p << "NodeFileSys=" << List(c.nodes[i].fs) << "\n";
          }
          Spill(ClusterFile(f), os.str());
        }
        break;
      }
      case kPart: {
        VdsPartDesc v;
        parts[f] = MakePart(r, v);
        CheckPart(v, parts[f], "before writing");
        std::ostringstream os;
        v.write(os, "");
        Spill(PartFile(f), os.str());
        const uint64_t hard = HardRead();
        bool threw = false;
        VdsPartDesc back;
        sim::EnableFaults(true);
        try {
          back = VdsPartDesc(ParameterSet(PartFile(f)));
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        if (threw && HardRead() == hard) sim::Fail("spurious-error", "a valid data set description was refused:\n" + os.str());
        if (!threw) CheckPart(back, parts[f], "after writing and reading");
        break;
      }
      case kWhole: {
        VdsPartDesc v;
        const Part whole = MakePart(r, v);
        VdsDesc desc(v);
        std::vector<Part> want;
        for (int64_t n = r.Chance(0.3) ? r.In(9, 13) : r.In(0, 4); n > 0; --n) {
          VdsPartDesc d;
          want.push_back(MakePart(r, d));
          desc.addPart(d);
        }
        std::ostringstream os;
        desc.write(os);
        Spill("whole.gds", os.str());
        const uint64_t hard = HardRead();
        bool threw = false;
        std::unique_ptr<VdsDesc> back;
        sim::EnableFaults(true);
        try {
          back = std::make_unique<VdsDesc>("whole.gds");
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        if (threw && HardRead() == hard) sim::Fail("spurious-error", "a valid description was refused:\n" + os.str());
        if (threw) break;
        CheckPart(back->getDesc(), whole, "of a description with parts");
        if (back->getParts().size() != want.size())
          sim::Fail("part-count", std::to_string(back->getParts().size()) + " parts instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); ++i)
          CheckPart(back->getParts()[i], want[i], "of part " + std::to_string(i));
        if (want.size() > 9) sim::Probe("description with many parts");
        break;
      }
      case kCombine: {
        std::vector<std::string> names;
        std::vector<Part> want;
        bool bad = false, some = false;
        const int n = r.Chance(0.05) ? 0 : r.In(1, 4);
        for (int i = 0; i < n; ++i) {
          const int k = r.Below(kFiles);
          if (!parts[k].exists && !r.Chance(0.05)) continue;
          bad |= !parts[k].exists;
          names.push_back(PartFile(k));
          want.push_back(parts[k]);
          some |= parts[k].start != 0;
        }
        bad |= names.empty() || !some;
        Part global;
        global.name = "global.gds";
        global.start = 1e30;
        for (size_t i = 0; i < want.size() && !bad; ++i) {
          Part& w = want[i];
          size_t at = 0;
          for (int nc : w.nchan) {
            const size_t len = w.f0.size() == w.nchan.size() ? 1 : nc;
            global.nchan.push_back(nc);
            global.f0.push_back(w.f0[at]);
            global.f1.push_back(w.f1[at + len - 1]);
            at += len;
          }
          if (w.start != 0) {
            global.start = std::min(global.start, w.start);
            global.end = std::max(global.end, w.end);
          }
          if (i == 0) {
            global.step = w.step;
            global.starts = w.starts;
            global.ends = w.ends;
            global.cluster = w.cluster;
            if (w.extra.count("FieldDirectionRa")) {
              global.extra = w.extra;
              global.extra.erase("StationNames");
              global.extra.emplace("FieldDirectionType", "J2000");
            }
          }
          w.file_name = w.name;
          w.name = Cwd() + "/" + names[i];
          w.extra.clear();
        }
        simio::ClearDiskFull();
        const uint64_t hard_w = HardWrite(), hard_r = HardRead();
        bool threw = false;
        sim::EnableFaults(true);
        try {
          VdsMaker::combine("global.gds", names);
        } catch (const std::exception&) {
          threw = true;
        }
        sim::EnableFaults(false);
        simio::ClearDiskFull();
        const bool faulted = HardWrite() != hard_w || HardRead() != hard_r;
        if (!threw && HardWrite() != hard_w)
          sim::Fail("lost-write", "a combined description that could not be written completely was reported as success");
        if (bad && !threw) sim::Fail("bad-combine", "combining missing, no or only empty data sets succeeded");
        if (!bad && threw && !faulted) sim::Fail("spurious-error", "combining valid data sets failed");
        if (threw) {
          sim::Probe(bad ? "invalid combination refused" : "failure to combine reported");
          break;
        }
        sim::Probe("combined");
        const VdsDesc back("global.gds");
        CheckPart(back.getDesc(), global, "in the combined description");
        if (back.getParts().size() != want.size())
          sim::Fail("parts", std::to_string(back.getParts().size()) + " parts instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); ++i)
          CheckPart(back.getParts()[i], want[i], "in part " + std::to_string(i) + " of the combined description");
        break;
      }
    }
  }
}
