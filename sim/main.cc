// Batch runner: seeded search over workloads, schedules and faults; gating,
// minimisation and replay of violations.
#include "internal.h"

#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

using namespace sim;
using namespace sim::internal;

namespace {

double Wall() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t HashStr(const char* s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
  return h;
}

uint64_t RunSeed(uint64_t base, uint64_t idx) {
  Rng r(base ^ HashStr(kProperty));
  uint64_t a = r.Next();
  Rng q(a + idx * 0x9E3779B97F4A7C15ULL);
  return q.Next();
}

void MakePlan(RunSpec& spec) {
  Rng rng(spec.seed ^ 0x5555);
  spec.plan = Plan();
  Generate(spec.plan, rng);
}

std::string g_scratch;

void RemoveTree(const std::string& dir) {
  // Only ever called on directories under g_scratch.
  if (dir.compare(0, g_scratch.size(), g_scratch) != 0 || g_scratch.size() < 8)
    return;
  const pid_t p = fork();
  if (p == 0) {
    execl("/bin/rm", "rm", "-rf", "--", dir.c_str(), nullptr);
    _exit(127);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
}

void CleanDir(const std::string& dir);

Result* NewResult() {
  void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return static_cast<Result*>(p);
}

void ResetResult(Result* r) {
  // Leaves the big arrays alone.
  const uint32_t keep = offsetof(Result, choice);
  memset(static_cast<void*>(r), 0, keep);
}

// Runs one execution in a forked child. `dir` is the private directory.
void RunOne(const RunSpec& spec, Result* r, const std::string& dir) {
  ResetResult(r);
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    if (chdir(dir.c_str()) != 0) _exit(99);
    if (!getenv("SIM_VERBOSE")) {
      const int nul = ::open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(nul, 2);
    }
    RunChild(spec, r);
  }
  int st = 0;
  // Real-time backstop far above any run; a run is bounded by its step and
  // CPU budgets.
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (r->status == kRunning) {
    r->status = kFailed;
    if (WIFSIGNALED(st))
      snprintf(r->cls, sizeof r->cls, "crash-signal-%d", WTERMSIG(st));
    else
      snprintf(r->cls, sizeof r->cls, "exit-%d", WEXITSTATUS(st));
    snprintf(r->msg, sizeof r->msg, "the run ended without a result");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      r->status = kError;
      snprintf(r->cls, sizeof r->cls, "harness");
    }
  }
  CleanDir(dir);
}

// Deletes the files a run left in its directory (one level + subdirs).
}  // namespace
#include <dirent.h>
#include <iomanip>
#include <random>
namespace {
void CleanDir(const std::string& dir) {
  if (dir.compare(0, g_scratch.size(), g_scratch) != 0 || g_scratch.size() < 8)
    return;
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (struct dirent* e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    const std::string f = dir + "/" + e->d_name;
    struct stat st;
    if (lstat(f.c_str(), &st) != 0) continue;
    if (S_ISDIR(st.st_mode)) {
      CleanDir(f);
      rmdir(f.c_str());
    } else {
      unlink(f.c_str());
    }
  }
  closedir(d);
}

RunSpec Explicit(const RunSpec& spec, const Result* r) {
  RunSpec e = spec;
  e.explicit_schedule = true;
  e.sched.assign(r->sched, r->sched + r->nsched);
  e.choice.assign(r->choice, r->choice + r->nchoice);
  e.fault.assign(r->fault, r->fault + r->nfault);
  return e;
}

void Save(const RunSpec& s, const std::string& path, const std::string& cls,
          const std::string& msg, uint64_t hash) {
  std::ofstream f(path);
  f << "# replay file of the deterministic simulator; run with: run.py replay "
       "<this file>\n";
  f << "property " << kProperty << "\n";
  f << "class " << cls << "\n";
  std::string one = msg;
  for (char& c : one)
    if (c == '\n') c = ' ';
  f << "message " << one << "\n";
  f << "hash " << hash << "\n";
  f << "seed " << s.seed << "\n";
  f << "mode " << (s.explicit_schedule ? "explicit" : "seeded") << "\n";
  for (const auto& k : s.plan.knobs)
    f << "knob " << k.first << " " << k.second << "\n";
  for (const auto& o : s.plan.ops) {
    f << "op " << o.kind;
    for (int64_t a : o.a) f << " " << a;
    f << "\n";
    f << "#    " << Describe(o) << "\n";
  }
  for (const auto& c : s.choice) f << "choice " << c.idx << " " << c.val << "\n";
  for (const auto& c : s.fault)
    f << "fault " << FaultName(c.kind) << " " << c.idx << " " << c.arg << "\n";
  for (const auto& c : s.sched) f << "switch " << c.sp << " " << c.tid << "\n";
}

bool Load(const std::string& path, RunSpec& s, std::string& cls) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string w;
    is >> w;
    if (w == "property") {
      std::string p;
      is >> p;
      if (p != kProperty) return false;
    } else if (w == "class") {
      is >> cls;
    } else if (w == "seed") {
      is >> s.seed;
    } else if (w == "mode") {
      std::string m;
      is >> m;
      s.explicit_schedule = m == "explicit";
    } else if (w == "knob") {
      std::string k;
      int64_t v;
      is >> k >> v;
      s.plan.knobs[k] = v;
    } else if (w == "op") {
      Op o;
      is >> o.kind;
      int64_t v;
      while (is >> v) o.a.push_back(v);
      s.plan.ops.push_back(o);
    } else if (w == "choice") {
      ChoiceRec c;
      is >> c.idx >> c.val;
      s.choice.push_back(c);
    } else if (w == "fault") {
      std::string n;
      FaultRec c;
      is >> n >> c.idx >> c.arg;
      c.kind = -1;
      for (int k = 0; k < kFaultKinds; ++k)
        if (n == FaultName(k)) c.kind = k;
      if (c.kind < 0) return false;
      s.fault.push_back(c);
    } else if (w == "switch") {
      SchedRec c;
      is >> c.sp >> c.tid;
      s.sched.push_back(c);
    }
  }
  return true;
}

std::string g_self;

// Replays a file in a fresh process image; returns class and hash.
bool FreshReplay(const std::string& file, std::string& cls, uint64_t& hash) {
  int fds[2];
  if (pipe(fds) != 0) return false;
  const pid_t p = fork();
  if (p == 0) {
    dup2(fds[1], 1);
    ::close(fds[0]);
    ::close(fds[1]);
    execl(g_self.c_str(), g_self.c_str(), "--replay-raw", file.c_str(), nullptr);
    _exit(127);
  }
  ::close(fds[1]);
  std::string out;
  char buf[4096];
  ssize_t n;
  while ((n = ::read(fds[0], buf, sizeof buf)) > 0) out.append(buf, n);
  ::close(fds[0]);
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  std::istringstream is(out);
  std::string tag;
  is >> tag >> cls >> hash;
  return tag == "RESULT";
}

struct WorkerTotals {
  volatile uint64_t runs, sp, sync, sim_ns, switches, threads, multi;
  volatile uint64_t fired[kFaultKinds], asked[kFaultKinds];
  volatile uint64_t rerun, rerun_mismatch;
  volatile uint64_t fault_free;
  volatile uint64_t harness_errors;
  char harness_msg[512];
};
struct Shared {
  volatile int stop;
  volatile uint64_t next;
  volatile int nfail;
};

std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

template <class T>
bool DdMin(std::vector<T>& v, double until,
           const std::function<bool(const std::vector<T>&)>& fails) {
  // Classic ddmin: remove chunks while the failure persists.
  size_t chunk = std::max<size_t>(1, v.size() / 2);
  while (!v.empty()) {
    bool removed = false;
    for (size_t i = 0; i < v.size();) {
      if (Wall() > until) return false;
      std::vector<T> c(v.begin(), v.begin() + i);
      const size_t e = std::min(v.size(), i + chunk);
      c.insert(c.end(), v.begin() + e, v.end());
      if (fails(c)) {
        v = c;
        removed = true;
      } else {
        i = e;
      }
    }
    if (chunk == 1 && !removed) break;
    if (chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
  }
  return true;
}

int Usage() {
  fprintf(stderr, "bad arguments\n");
  return 2;
}

}  // namespace

int main(int argc, char** argv) {
  // Same address-space layout and environment in every process.
  const int pers = personality(0xffffffff);
  if (!getenv("SIM_EXEC") || strcmp(getenv("OPENBLAS_NUM_THREADS") ? getenv("OPENBLAS_NUM_THREADS") : "", "1")) {
    if (pers != -1) personality(pers | ADDR_NO_RANDOMIZE);
    setenv("SIM_EXEC", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("LC_ALL", "C", 1);
    execv("/proc/self/exe", argv);
  }
  {
    // One-time initialisation of the C++ library (locale facets, caches)
    // happens here, so that every run starts from the same state.
    std::stringstream w;
    w << 1.5 << ' ' << 7 << std::fixed << std::setprecision(3) << 2.5f << true << ' ' << nullptr;
    double d;
    int k;
    w >> d >> k;
    std::ofstream o("/dev/null");
    o << w.str() << 3.25 << std::endl;
    std::ifstream f("/dev/null");
    std::string l;
    std::getline(f, l);
    std::random_device rd;
    Plan warm;
    Rng warm_rng(1);
    Generate(warm, warm_rng);
    for (const Op& op : warm.ops) Describe(op);
  }
  {
    char b[4096];
    const ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    if (n > 0) g_self.assign(b, n);
  }
  uint64_t seed = 1, runs = 1000, start = 0;
  double seconds = 30;
  int workers = 8;
  std::string out, replay_dir = ".", mode = "batch", file, known;
  double min_seconds = 30;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--seconds") seconds = atof(val().c_str());
    else if (a == "--min-seconds") min_seconds = atof(val().c_str());
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--out") out = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--known") known = val();
    else if (a == "--replay") { mode = "replay"; file = val(); }
    else if (a == "--replay-raw") { mode = "replay-raw"; file = val(); }
    else if (a == "--determinism") mode = "determinism";
    else if (a == "--one") { mode = "one"; start = strtoull(val().c_str(), nullptr, 10); }
    else return Usage();
  }
  {
    const char* base = getenv("SIM_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/dp3sim.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
      fprintf(stderr, "cannot make a scratch directory\n");
      return 3;
    }
    g_scratch = b.data();
  }
  struct Cleaner {
    pid_t owner = getpid();
    ~Cleaner() {
      if (getpid() == owner) RemoveTree(g_scratch);
    }
  };
  auto done = [&](int code) {
    RemoveTree(g_scratch);
    fflush(nullptr);
    _exit(code);
  };

  if (mode == "replay" || mode == "replay-raw" || mode == "one") {
    RunSpec s;
    std::string cls;
    if (mode == "one") {
      s.seed = RunSeed(seed, start);
      MakePlan(s);
    } else if (!Load(file, s, cls)) {
      fprintf(stderr, "cannot load %s\n", file.c_str());
      done(2);
    }
    Result* r = NewResult();
    RunOne(s, r, g_scratch);
    if (mode == "replay-raw") {
      printf("RESULT %s %llu\n", r->status == kOk ? "ok" : r->cls,
             static_cast<unsigned long long>(r->hash));
      fflush(stdout);
      done(0);
    }
    printf("status=%d class=%s hash=%llu steps=%llu threads=%llu switches=%llu "
           "faults=%u sim_us=%llu\n%s\n",
           r->status, r->cls, static_cast<unsigned long long>(r->hash),
           static_cast<unsigned long long>(r->sp),
           static_cast<unsigned long long>(r->threads),
           static_cast<unsigned long long>(r->switches), r->nfault,
           static_cast<unsigned long long>(r->sim_ns / 1000), r->msg);
    if (mode == "replay" && r->status == kFailed)
      printf("VIOLATION property=%s replay=%s\n", kProperty, file.c_str());
    fflush(stdout);
    done(r->status == kFailed ? 1 : r->status == kOk ? 0 : 3);
  }

  // Known findings of this property: class + substring of the message.
  std::vector<std::pair<std::string, std::string>> known_list;
  if (!known.empty()) {
    std::ifstream f(known);
    std::string line;
    while (std::getline(f, line)) {
      // finding: property=P01 class=<cls> match="<text>" <description>
      if (line.compare(0, 9, "finding: ") != 0) continue;
      if (line.find(std::string("property=") + kProperty + " ") ==
          std::string::npos)
        continue;
      std::string c, m;
      size_t p = line.find("class=");
      if (p != std::string::npos) c = line.substr(p + 6, line.find(' ', p) - p - 6);
      p = line.find("match=\"");
      if (p != std::string::npos) {
        const size_t e = line.find('"', p + 7);
        m = line.substr(p + 7, e - p - 7);
      }
      known_list.emplace_back(c, m);
    }
  }

  // ------------------------------------------------------------ batch
  Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  WorkerTotals* wt = static_cast<WorkerTotals*>(
      mmap(nullptr, sizeof(WorkerTotals) * workers, PROT_READ | PROT_WRITE,
           MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const double t0 = Wall();
  const bool det = mode == "determinism";
  std::vector<pid_t> pids;
  cpu_set_t all;
  CPU_ZERO(&all);
  sched_getaffinity(0, sizeof all, &all);
  std::vector<int> cpus;
  for (int c = 0; c < CPU_SETSIZE; ++c)
    if (CPU_ISSET(c, &all)) cpus.push_back(c);
  fflush(nullptr);
  for (int w = 0; w < workers; ++w) {
    const pid_t p = fork();
    if (p) {
      pids.push_back(p);
      continue;
    }
    cpu_set_t one;
    CPU_ZERO(&one);
    CPU_SET(cpus[w % cpus.size()], &one);
    sched_setaffinity(0, sizeof one, &one);
    WorkerTotals& t = wt[w];
    const std::string dir = g_scratch + "/w" + std::to_string(w);
    mkdir(dir.c_str(), 0700);
    Result* r = NewResult();
    std::unordered_set<uint64_t> il, sig;
    std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::string> samples;
    while (!sh->stop) {
      const uint64_t k = __sync_fetch_and_add(&sh->next, 1);
      if (k >= runs || Wall() - t0 > seconds) break;
      RunSpec s;
      s.seed = RunSeed(seed, start + k);
      MakePlan(s);
      RunOne(s, r, dir);
      ++t.runs;
      t.sp += r->sp;
      t.sync += r->sync_points;
      t.sim_ns += r->sim_ns - 1000000000ULL * 1000;
      t.switches += r->switches;
      t.threads += r->threads;
      t.multi += r->threads > 1;
      bool anyfault = false;
      for (int f = 0; f < kFaultKinds; ++f) {
        t.fired[f] += r->fault_fired[f];
        t.asked[f] += r->fault_asked[f];
        anyfault |= r->fault_fired[f] > 0;
      }
      t.fault_free += !anyfault;
      if (il.size() < 1000000) {
        // A distinct execution: interleaving of synchronisation events, all
        // choices and faults, and the observed values.
        il.insert(r->ilhash);
        sig.insert(r->hash);
      }
      for (uint32_t i = 0; i < r->nprobe; ++i) {
        auto& pr = probes[r->probe[i]];
        pr.first += r->probe_hits[i];
        pr.second += 1;
      }
      if (samples.size() < 2 && r->status == kOk) {
        std::ostringstream o;
        o << "run " << start + k << " seed " << s.seed << ":";
        size_t c = 0;
        for (const auto& op : s.plan.ops) {
          if (c++ == 8) {
            o << " ...";
            break;
          }
          o << " " << Describe(op) << ";";
        }
        o << " threads=" << r->threads << " switches=" << r->switches
          << " faults=" << r->nfault << " steps=" << r->sp;
        samples.push_back(o.str());
      }
      if (r->status == kError) {
        ++t.harness_errors;
        snprintf(t.harness_msg, sizeof t.harness_msg, "run %llu: %s",
                 static_cast<unsigned long long>(start + k), r->msg);
        continue;
      }
      if (r->status == kFailed) {
        bool is_known = false;
        for (const auto& kn : known_list)
          if (kn.first == r->cls &&
              std::string(r->msg).find(kn.second) != std::string::npos) {
            is_known = true;
            ++known_hits[kn.first + "|" + kn.second];
          }
        if (!is_known) {
          const std::string base =
              g_scratch + "/fail" + std::to_string(start + k);
          Save(s, base + ".seeded", r->cls, r->msg, r->hash);
          if (!r->overflow)
            Save(Explicit(s, r), base + ".explicit", r->cls, r->msg, r->hash);
          std::ofstream(base + ".idx") << start + k;
          if (__sync_add_and_fetch(&sh->nfail, 1) >= 3) sh->stop = 1;
          // Give the other workers a moment to find an earlier one, then stop.
          if (Wall() - t0 > min_seconds) sh->stop = 1;
        }
      }
      const bool rerun = det || (k % 61) == 7;
      if (rerun && r->status != kError) {
        const uint64_t h = r->hash, sp = r->sp;
        const int st = r->status;
        const std::string cls = r->cls;
        RunSpec e = Explicit(s, r);
        const bool ovf = r->overflow;
        RunOne(s, r, dir);
        ++t.rerun;
        if (r->hash != h || r->sp != sp || r->status != st) {
          ++t.rerun_mismatch;
          if (det)
            fprintf(stderr, "nondeterministic (seeded): run %llu seed %llu %s/%s\n",
                    static_cast<unsigned long long>(start + k),
                    static_cast<unsigned long long>(s.seed), cls.c_str(), r->cls);
        }
        if (det && !ovf) {
          RunOne(e, r, dir);
          ++t.rerun;
          if (r->hash != h || r->sp != sp || r->status != st) {
            ++t.rerun_mismatch;
            fprintf(stderr,
                    "nondeterministic (explicit): run %llu seed %llu sp %llu "
                    "vs %llu\n",
                    static_cast<unsigned long long>(start + k),
                    static_cast<unsigned long long>(s.seed),
                    static_cast<unsigned long long>(sp),
                    static_cast<unsigned long long>(r->sp));
          }
        }
      }
    }
    {
      std::ofstream f(g_scratch + "/stats" + std::to_string(w));
      for (const auto& p : probes)
        f << "probe " << p.second.first << " " << p.second.second << " "
          << p.first << "\n";
      for (const auto& p : known_hits)
        f << "known " << p.second << " " << p.first << "\n";
      for (const auto& s : samples) f << "sample " << s << "\n";
      std::ofstream g(g_scratch + "/il" + std::to_string(w), std::ios::binary);
      for (uint64_t h : il) g.write(reinterpret_cast<const char*>(&h), 8);
      std::ofstream g2(g_scratch + "/sig" + std::to_string(w), std::ios::binary);
      for (uint64_t h : sig) g2.write(reinterpret_cast<const char*>(&h), 8);
    }
    RemoveTree(dir);
    _exit(0);
  }
  for (pid_t p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
  }
  WorkerTotals tot;
  memset(static_cast<void*>(&tot), 0, sizeof tot);
  for (int w = 0; w < workers; ++w) {
    tot.runs += wt[w].runs;
    tot.sp += wt[w].sp;
    tot.sync += wt[w].sync;
    tot.sim_ns += wt[w].sim_ns;
    tot.switches += wt[w].switches;
    tot.threads += wt[w].threads;
    tot.multi += wt[w].multi;
    tot.fault_free += wt[w].fault_free;
    tot.rerun += wt[w].rerun;
    tot.rerun_mismatch += wt[w].rerun_mismatch;
    tot.harness_errors += wt[w].harness_errors;
    if (wt[w].harness_msg[0])
      memcpy(tot.harness_msg, wt[w].harness_msg, sizeof tot.harness_msg);
    for (int f = 0; f < kFaultKinds; ++f) {
      tot.fired[f] += wt[w].fired[f];
      tot.asked[f] += wt[w].asked[f];
    }
  }
  std::unordered_set<uint64_t> il, sig;
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
  std::map<std::string, uint64_t> known_hits;
  std::vector<std::string> samples;
  for (int w = 0; w < workers; ++w) {
    std::ifstream f(g_scratch + "/stats" + std::to_string(w));
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "probe") {
        uint64_t a, b;
        std::string n;
        is >> a >> b;
        std::getline(is, n);
        auto& pr = probes[n.substr(1)];
        pr.first += a;
        pr.second += b;
      } else if (k == "known") {
        uint64_t a;
        std::string n;
        is >> a;
        std::getline(is, n);
        known_hits[n.substr(1)] += a;
      } else if (k == "sample" && samples.size() < 6) {
        samples.push_back(line.substr(7));
      }
    }
    for (int which = 0; which < 2; ++which) {
      std::ifstream g(g_scratch + (which ? "/sig" : "/il") + std::to_string(w),
                      std::ios::binary);
      uint64_t h;
      while (g.read(reinterpret_cast<char*>(&h), 8))
        (which ? sig : il).insert(h);
    }
  }

  // ------------------------------------------------------------ failures
  std::string violation_path, vcls, vmsg;
  int code = 0;
  std::vector<uint64_t> fails;
  if (DIR* d = opendir(g_scratch.c_str())) {
    while (struct dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n.size() > 8 && n.compare(0, 4, "fail") == 0 &&
          n.compare(n.size() - 4, 4, ".idx") == 0)
        fails.push_back(strtoull(n.c_str() + 4, nullptr, 10));
    }
    closedir(d);
  }
  std::sort(fails.begin(), fails.end());
  const std::string mdir = g_scratch + "/min";
  mkdir(mdir.c_str(), 0700);
  Result* r = NewResult();
  for (uint64_t idx : fails) {
    if (!violation_path.empty()) break;
    const std::string base = g_scratch + "/fail" + std::to_string(idx);
    RunSpec s;
    std::string cls;
    if (!Load(base + ".seeded", s, cls)) continue;
    // Gate 1: the same seed twice, same class and same event hash.
    RunOne(s, r, mdir);
    const uint64_t h1 = r->hash;
    const std::string c1 = r->cls;
    RunOne(s, r, mdir);
    std::string fc;
    uint64_t fh = 0;
    const bool fresh = FreshReplay(base + ".seeded", fc, fh);
    if (r->status != kFailed || c1 != cls || r->cls != cls || r->hash != h1 ||
        !fresh || fc != cls || fh != h1) {
      fprintf(stderr,
              "run %llu failed (%s) but does not replay exactly; not reported\n",
              static_cast<unsigned long long>(idx), cls.c_str());
      code = 3;
      continue;
    }
    vcls = cls;
    vmsg = r->msg;
    RunSpec best = s;
    uint64_t best_hash = h1;
    RunSpec e;
    std::string ec;
    const double until = Wall() + 45;
    if (Load(base + ".explicit", e, ec)) {
      RunOne(e, r, mdir);
      if (r->status == kFailed && r->cls == cls) {
        auto fails_with = [&](const RunSpec& c) {
          RunOne(c, r, mdir);
          return r->status == kFailed && r->cls == cls;
        };
        best = e;
        // 1. drop all switches / faults that do not matter; 2. operations;
        // repeat once.
        for (int round = 0; round < 2; ++round) {
          DdMin<SchedRec>(best.sched, until, [&](const std::vector<SchedRec>& v) {
            RunSpec c = best;
            c.sched = v;
            return fails_with(c);
          });
          DdMin<FaultRec>(best.fault, until, [&](const std::vector<FaultRec>& v) {
            RunSpec c = best;
            c.fault = v;
            return fails_with(c);
          });
          DdMin<ChoiceRec>(best.choice, until,
                           [&](const std::vector<ChoiceRec>& v) {
                             RunSpec c = best;
                             c.choice = v;
                             return fails_with(c);
                           });
          DdMin<Op>(best.plan.ops, until, [&](const std::vector<Op>& v) {
            RunSpec c = best;
            c.plan.ops = v;
            return fails_with(c);
          });
        }
        // 3. shrink arguments towards zero.
        for (auto& o : best.plan.ops)
          for (auto& a : o.a) {
            if (Wall() > until) break;
            for (int64_t cand : {int64_t(0), a / 2, a - 1}) {
              if (cand == a || cand < 0) continue;
              const int64_t old = a;
              a = cand;
              if (fails_with(best)) break;
              a = old;
            }
          }
        RunOne(best, r, mdir);
        best_hash = r->hash;
        vmsg = r->msg;
      }
    }
    mkdir(replay_dir.c_str(), 0755);
    char name[64];
    snprintf(name, sizeof name, "/%s-%016llx.replay", kProperty,
             static_cast<unsigned long long>(best_hash));
    const std::string path = replay_dir + name;
    Save(best, path, cls, vmsg, best_hash);
    // Gate 2: the replay file, in two fresh processes.
    std::string c2, c3;
    uint64_t h2 = 0, h3 = 0;
    if (!FreshReplay(path, c2, h2) || !FreshReplay(path, c3, h3) || c2 != cls ||
        c3 != cls || h2 != h3) {
      // Fall back to the seeded replay, which passed gate 1.
      Save(s, path, cls, vmsg, h1);
      if (!FreshReplay(path, c2, h2) || c2 != cls || h2 != h1) {
        fprintf(stderr, "run %llu: replay file does not reproduce\n",
                static_cast<unsigned long long>(idx));
        code = 3;
        unlink(path.c_str());
        continue;
      }
    }
    violation_path = path;
  }
  if (!violation_path.empty()) code = 1;
  const double wall = Wall() - t0;
  if (code == 0 && tot.harness_errors) {
    fprintf(stderr, "harness errors: %llu, e.g. %s\n",
            static_cast<unsigned long long>(tot.harness_errors), tot.harness_msg);
    code = 3;
  }
  if (det) {
    printf("determinism: %llu runs, %llu re-executions, %llu mismatches\n",
           static_cast<unsigned long long>(tot.runs),
           static_cast<unsigned long long>(tot.rerun),
           static_cast<unsigned long long>(tot.rerun_mismatch));
    if (tot.rerun_mismatch && code == 0) code = 3;
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\n \"runs\": " << tot.runs << ",\n \"steps\": " << tot.sp
      << ",\n \"sync_points\": " << tot.sync << ",\n \"sim_ns\": " << tot.sim_ns
      << ",\n \"switches\": " << tot.switches
      << ",\n \"threads\": " << tot.threads
      << ",\n \"multi_threaded_runs\": " << tot.multi
      << ",\n \"fault_free_runs\": " << tot.fault_free
      << ",\n \"distinct_interleavings\": " << il.size()
      << ",\n \"distinct_histories\": " << sig.size()
      << ",\n \"reruns\": " << tot.rerun
      << ",\n \"rerun_mismatches\": " << tot.rerun_mismatch
      << ",\n \"harness_errors\": " << tot.harness_errors
      << ",\n \"wall_s\": " << wall << ",\n \"faults\": {";
    bool first = true;
    for (int k = 0; k < kFaultKinds; ++k) {
      if (!tot.asked[k]) continue;
      f << (first ? "" : ", ") << Json(FaultName(k)) << ": {\"fired\": "
        << tot.fired[k] << ", \"opportunities\": " << tot.asked[k] << "}";
      first = false;
    }
    f << "},\n \"probes\": {";
    first = true;
    for (const auto& p : probes) {
      f << (first ? "" : ", ") << Json(p.first) << ": {\"hits\": "
        << p.second.first << ", \"runs\": " << p.second.second << "}";
      first = false;
    }
    f << "},\n \"known\": {";
    first = true;
    for (const auto& p : known_hits) {
      f << (first ? "" : ", ") << Json(p.first) << ": " << p.second;
      first = false;
    }
    f << "},\n \"samples\": [";
    first = true;
    for (const auto& s : samples) {
      f << (first ? "" : ", ") << Json(s);
      first = false;
    }
    f << "],\n \"violation\": "
      << (violation_path.empty() ? std::string("null") : Json(violation_path))
      << ",\n \"class\": " << Json(vcls) << ",\n \"message\": " << Json(vmsg)
      << "\n}\n";
  }
  for (const auto& p : known_hits)
    printf("KNOWN-FINDING: property=%s %s (%llu runs)\n", kProperty,
           p.first.c_str(), static_cast<unsigned long long>(p.second));
  if (!violation_path.empty()) {
    printf("violation class: %s\n%s\n", vcls.c_str(), vmsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", kProperty,
           violation_path.c_str());
  }
  fflush(stdout);
  done(code);
}
