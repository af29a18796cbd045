// Driver: seeded search, replay and minimisation. One forked child process per simulated run.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <set>

#include "api.hpp"
#include "gen.hpp"
#include "sim.hpp"

using sim::S;

// ---------------------------------------------------------------------------------------------------------
// services for rank programs
static Scenario g_sc;
static std::unique_ptr<api::Traj> g_traj;
static api::Board g_board;
namespace api {
const Scenario& scenario() { return g_sc; }
Board& board() { return g_board; }
bool faulty() {
  // an error is excused only by a fault that really happened (a stall is none)
  if (g_sc.i("faulty") == 0) return false;
  for (auto& kv : S.n.faults)
    if (kv.second > 0 && kv.first != "stall" && kv.first != "file-visible-late" && kv.first.rfind("damaged-file", 0) != 0) return true;
  return false;
}
void mixData(const void* p, size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  sim::mix(S.fp, h);
}
double maxAbs(const std::vector<double>& v) {
  double m = 0;
  for (double x : v) m = std::max(m, std::fabs(x));
  return m;
}
void visibleFailure(const std::string& what) {
  sim::trace("visible failure: %s", what.c_str());
  sim::Rank* r = sim::me();
  r->failed = true;
  r->failure = what;
  if (!faulty()) sim::violate("exception", "rank %d of system %d failed: %s", r->wrank, r->world->id, what.c_str());
  sim::probe("visible-failure");
  sim::abortWorld(r->world, what);
}
Traj& traj() {
  if (g_traj) return *g_traj;
  g_traj.reset(new Traj);
  Traj& t = *g_traj;
  const Scenario& sc = g_sc;
  auto toLv = [](const std::vector<long>& v) { return model::Lv(v.begin(), v.end()); };
  t.scheme.dim = static_cast<int>(sc.i("dim"));
  t.scheme.lmin = toLv(sc.iv("lmin"));
  t.scheme.lmax = toLv(sc.iv("lmax"));
  t.scheme.boundary = toLv(sc.iv("boundary"));
  t.scheme.basis = toLv(sc.iv("basis"));
  auto flat = sc.iv("levels");
  for (size_t i = 0; i < flat.size(); i += static_cast<size_t>(t.scheme.dim))
    t.scheme.levels.push_back(model::Lv(flat.begin() + static_cast<long>(i), flat.begin() + static_cast<long>(i) + t.scheme.dim));
  t.scheme.coeffs = sc.dv("coeffs");
  t.nspecies = static_cast<int>(sc.i("nspecies", 1));
  t.vseed = static_cast<uint64_t>(sc.i("vseed"));
  t.ops = sc.sv("ops");
  t.combi.reset(new model::Combi(t.scheme, toLv(sc.iv("reduceLmax")), t.nspecies));
  t.combi->init(t.vseed);
  auto snap = [&] { t.after.push_back(std::make_shared<std::vector<std::vector<std::vector<double>>>>(t.combi->u)); };
  snap();
  int step = 0;
  t.stepAfter.push_back(0);
  std::shared_ptr<std::vector<std::vector<std::vector<double>>>> dsg;
  t.dsg.push_back(dsg);
  const std::vector<std::string> given = t.ops;
  for (auto& op : given) {
    bool change = true;
    if (op == "run") {
      ++step;
      for (size_t id = 0; id < t.scheme.levels.size(); ++id) t.combi->step(t.vseed, static_cast<int>(id), step);
    } else if (op == "comb" || op == "combmm" || op == "combfile" || op == "combwr" || op == "comb3") {
      std::vector<int> who(t.scheme.levels.size());
      for (size_t i = 0; i < who.size(); ++i) who[i] = static_cast<int>(i);
      dsg = std::make_shared<std::vector<std::vector<std::vector<double>>>>(t.combi->reduce(who));
      t.combi->distribute(*dsg, t.combi->inDsg, who);
    } else {
      change = false;
    }
    if (change)
      snap();
    else
      t.after.push_back(t.after.back());
    t.stepAfter.push_back(step);
    t.dsg.push_back(dsg);
    // a moved grid is restored from a sparse grid that lacks its finest subspaces; which grids are moved depends on the schedule, so the
    // trajectory ends here
    if (op == "resched" && t.truncated()) {
      t.ops.resize(t.dsg.size() - 1);
      break;
    }
  }
  return t;
}
}  // namespace api

// ---------------------------------------------------------------------------------------------------------
struct Slot {
  volatile int state;  // 0 running, 1 finished, 2 signal
  int sig;
  uint64_t fp, orderFp, steps, now;
  uint64_t yields, switches, actions, mpiCalls, msgs, colls, decisions, nonDefault, timeJumps, fileOps, ompRegions, sockOps;
  uint64_t byKind[sim::K_NKINDS];
  char viol[20][700];
  int nviol;
  char faults[4096], probes[8192];
  uint32_t nlog;
  uint32_t maxLog;
  std::pair<uint64_t, uint32_t> log[1];
};
static const size_t kMaxLog = 3000000;
static const size_t kSlotSize = sizeof(Slot) + kMaxLog * sizeof(std::pair<uint64_t, uint32_t>);
static Slot* g_slot = nullptr;  // in the child

static void fillSlot(int state, int sig) {
  Slot* s = g_slot;
  s->sig = sig;
  s->fp = S.fp;
  s->orderFp = S.orderFp;
  s->steps = S.steps;
  s->now = S.now;
  auto& n = S.n;
  s->yields = n.yields; s->switches = n.switches; s->actions = n.actions; s->mpiCalls = n.mpiCalls; s->msgs = n.msgs;
  s->colls = n.colls; s->decisions = n.decisions; s->nonDefault = n.nonDefault; s->timeJumps = n.timeJumps;
  s->fileOps = n.fileOps; s->ompRegions = n.ompRegions; s->sockOps = n.sockOps;
  memcpy(s->byKind, n.byKind, sizeof s->byKind);
  s->nviol = 0;
  for (auto& v : S.violations) {
    if (s->nviol == 20) break;
    snprintf(s->viol[s->nviol++], sizeof s->viol[0], "%s|%s", v.oracle.c_str(), v.msg.c_str());
  }
  size_t k = std::min(S.log.size(), kMaxLog);
  s->nlog = static_cast<uint32_t>(k);
  if (k) memcpy(static_cast<void*>(s->log), S.log.data(), k * sizeof(S.log[0]));
  std::string f, p;
  if (state == 1) {
    for (auto& x : n.faults) f += x.first + "=" + std::to_string(x.second) + ";";
    for (auto& x : n.probes) p += x.first + "=" + std::to_string(x.second) + ";";
  }
  snprintf(s->faults, sizeof s->faults, "%s", f.c_str());
  snprintf(s->probes, sizeof s->probes, "%s", p.c_str());
  s->state = state;
}

static void onSignal(int sig) {
  if (g_slot) {
    int r = S.cur ? S.cur->rank->wrank : -1, w = S.cur ? S.cur->rank->world->id : -1;
    Slot* s = g_slot;
    fillSlot(2, sig);
    const char* what = sig == SIGXCPU ? "progress|no progress (endless computation)" : "crash|crashed with signal";
    if (s->nviol < 20) snprintf(s->viol[s->nviol++], sizeof s->viol[0], "%s %d: rank %d of system %d", what, sig, r, w);
  }
  _exit(3);
}

// ---------------------------------------------------------------------------------------------------------
typedef void (*EntryFn)(const char* program);
struct Lib {
  void* handle;
  EntryFn entry;
};
static std::vector<Lib> g_rankLibs, g_brokerLibs;
static std::string g_scratch;  // run directories live here

static void die(const std::string& m) {
  fprintf(stderr, "simrun: %s\n", m.c_str());
  if (!g_scratch.empty()) {
    std::string c = "rm -rf '" + g_scratch + "'";
    if (system(c.c_str())) {}
  }
  exit(2);
}

static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  if (!f) die("cannot read " + p);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static void spill(const std::string& p, const std::string& c) {
  std::ofstream f(p, std::ios::binary);
  f.write(c.data(), static_cast<long>(c.size()));
  if (!f) die("cannot write " + p);
}
static const char* kBoost = "libboost_serialization.so";
// give the private copy of boost_serialization its own name, same length
static void rename(std::string& c, int i) {
  char to[64];
  snprintf(to, sizeof to, "libboost_%03dialization.so", i);
  for (size_t p = c.find(kBoost); p != std::string::npos; p = c.find(kBoost, p + 1)) c.replace(p, strlen(kBoost), to);
}
static void loadCopies(const std::string& so, int n, std::vector<Lib>& libs) {
  static int serial = 0;
  const std::string body = slurp(so);
  std::string boostPath;
  boostPath = "/usr/lib/x86_64-linux-gnu/libboost_serialization.so";
  const std::string boost = slurp(boostPath);
  for (int i = 0; i < n; ++i) {
    const int id = serial++;
    std::string bp = g_scratch + "/libboost" + std::to_string(id), p = g_scratch + "/lib" + std::to_string(id);
    std::string c = boost;
    rename(c, id);
    spill(bp, c);
    if (!dlopen(bp.c_str(), RTLD_NOW | RTLD_LOCAL)) die(std::string("dlopen: ") + dlerror());
    c = body;
    rename(c, id);
    spill(p, c);
    void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) die(std::string("dlopen: ") + dlerror());
    EntryFn f = reinterpret_cast<EntryFn>(dlsym(h, "vp_rank_entry"));
    if (!f) die("no entry point in " + so);
    libs.push_back({h, f});
    unlink(p.c_str());
    unlink(bp.c_str());
  }
}

// ---------------------------------------------------------------------------------------------------------
static void rmTree(const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  std::vector<std::string> names;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "." && n != "..") names.push_back(n);
  }
  closedir(d);
  for (auto& n : names) {
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rmTree(p);
    else
      unlink(p.c_str());
  }
  rmdir(dir.c_str());
}

static void runChild(const Scenario& sc, uint64_t seed, bool replay,
                     const std::vector<std::pair<uint64_t, uint32_t>>* script, const char* tracePath, bool showOut) {
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
  struct sigaction ign{};
  ign.sa_handler = SIG_IGN;
  sigaction(SIGPIPE, &ign, nullptr);
  rlimit rl;
  rl.rlim_cur = static_cast<rlim_t>(sc.i("cpu_limit", 60));
  rl.rlim_max = rl.rlim_cur + 30;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = static_cast<rlim_t>(6) << 30;
  setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);

  std::string dir = g_scratch + "/run" + std::to_string(getpid());
  mkdir(dir.c_str(), 0755);
  if (chdir(dir.c_str()) != 0) _exit(96);
  if (!showOut) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
  }
  g_sc = sc;
  S.sc = &g_sc;
  S.rng = sim::Prng(seed);
  S.replay = replay;
  if (tracePath) S.traceFile = fopen(tracePath, "w");
  if (script)
    for (auto& kv : *script) S.script[kv.first] = kv.second;
  mallopt(M_MMAP_THRESHOLD, 1 << 30);
  mallopt(M_PERTURB, static_cast<int>(sc.i("perturb", 0xA5)));
  sim::ioReset();
  sim::netReset();
  if (sc.i("filemon")) sim::installFileMonitor();

  const int nw = static_cast<int>(sc.i("nworlds", 1));
  size_t usedRank = 0, usedBroker = 0;
  auto weights = sc.dv("weights");
  std::vector<EntryFn> entries;
  for (int w = 0; w < nw; ++w) {
    std::string pre = "w" + std::to_string(w) + ".";
    S.worlds.emplace_back(new sim::World);
    sim::World* W = S.worlds.back().get();
    W->id = w;
    W->program = sc.s(pre + "program");
    const int n = static_cast<int>(sc.i(pre + "n", 1));
    const bool broker = sc.s(pre + "lib") == "broker";
    for (int r = 0; r < n; ++r) {
      sim::Rank* R = new sim::Rank;
      R->id = static_cast<int>(S.ranks.size());
      R->world = W;
      R->wrank = r;
      R->ompThreads = static_cast<int>(sc.i("omp", 1));
      auto& libs = broker ? g_brokerLibs : g_rankLibs;
      size_t& used = broker ? usedBroker : usedRank;
      if (used >= libs.size()) {
        fprintf(stderr, "too many ranks\n");
        _exit(95);
      }
      entries.push_back(libs[used].entry);
      R->lib = libs[used].handle;
      ++used;
      S.ranks.push_back(R);
      W->ranks.push_back(R);
      S.weight.push_back(R->id < static_cast<int>(weights.size()) ? weights[static_cast<size_t>(R->id)] : 1.0);
    }
    sim::mpiSetup(*W);
  }
  if (sc.has("levels")) api::traj();
  for (auto* R : S.ranks) {
    EntryFn f = entries[static_cast<size_t>(R->id)];
    R->ent = sim::newFiber(R, [f, R] { f(R->world->program.c_str()); });
  }
  sim::runAll();
  bool anyAbort = false;
  for (auto& w : S.worlds) anyAbort = anyAbort || w->aborted || w->crashed;
  if (anyAbort) {
    // peers of a failed system may wait forever; that is not judged here
    S.violations.erase(std::remove_if(S.violations.begin(), S.violations.end(),
                                      [](const sim::Violation& v) { return v.oracle == "progress"; }),
                       S.violations.end());
  } else if (S.violations.empty()) {
    sim::mpiFinalChecks();
  }
  fillSlot(1, 0);
  if (chdir("/") == 0) rmTree(dir);
  _exit(0);
}

// ---------------------------------------------------------------------------------------------------------
struct Outcome {
  bool ok = false;        // the child delivered a result
  int sig = 0;
  std::vector<std::pair<std::string, std::string>> viol;
  uint64_t fp = 0, orderFp = 0;
  std::vector<std::pair<uint64_t, uint32_t>> log;
};
static Outcome readSlot(Slot* s, bool wantLog) {
  Outcome o;
  o.ok = s->state != 0;
  o.sig = s->sig;
  o.fp = s->fp;
  o.orderFp = s->orderFp;
  for (int i = 0; i < s->nviol; ++i) {
    std::string v = s->viol[i];
    auto p = v.find('|');
    o.viol.emplace_back(v.substr(0, p), v.substr(p + 1));
  }
  if (wantLog) o.log.assign(s->log, s->log + s->nlog);
  return o;
}
static Slot* newSlot() {
  void* p = mmap(nullptr, kSlotSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) die("mmap slot");
  return static_cast<Slot*>(p);
}
static void clearSlot(Slot* s) { memset(static_cast<void*>(s), 0, sizeof(Slot)); }

struct Job {
  const Scenario* sc;
  uint64_t seed;
  bool replay;
  const std::vector<std::pair<uint64_t, uint32_t>>* script;
};
static pid_t spawn(const Job& j, Slot* slot, const char* tracePath = nullptr, bool showOut = false) {
  clearSlot(slot);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0) die("fork");
  if (p == 0) {
    g_slot = slot;
    runChild(*j.sc, j.seed, j.replay, j.script, tracePath, showOut);
    _exit(0);
  }
  return p;
}
static void cleanRun(pid_t p) { rmTree(g_scratch + "/run" + std::to_string(p)); }
static Outcome finish(pid_t p, Slot* slot, bool wantLog) {
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  cleanRun(p);
  Outcome o = readSlot(slot, wantLog);
  if (!o.ok) {
    o.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    o.viol.emplace_back(o.sig == SIGKILL ? "progress" : "crash",
                        "process ended with status " + std::to_string(st));
  }
  return o;
}
static std::vector<Outcome> runBatch(const std::vector<Job>& jobs, std::vector<Slot*>& slots, bool wantLog) {
  std::vector<Outcome> out(jobs.size());
  size_t next = 0;
  std::map<pid_t, std::pair<size_t, size_t>> run;
  std::vector<size_t> freeSlots;
  for (size_t i = 0; i < slots.size(); ++i) freeSlots.push_back(i);
  while (next < jobs.size() || !run.empty()) {
    while (next < jobs.size() && !freeSlots.empty()) {
      size_t s = freeSlots.back();
      freeSlots.pop_back();
      pid_t p = spawn(jobs[next], slots[s]);
      run[p] = {next, s};
      ++next;
    }
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) continue;
    auto it = run.find(p);
    if (it == run.end()) continue;
    cleanRun(p);
    Outcome o = readSlot(slots[it->second.second], wantLog);
    if (!o.ok) o.viol.emplace_back("crash", "process ended with status " + std::to_string(st));
    out[it->second.first] = std::move(o);
    freeSlots.push_back(it->second.second);
    run.erase(it);
  }
  return out;
}

// ---------------------------------------------------------------------------------------------------------
// known findings: lines "property|oracle|substring of the message|scenario-key=value or *|description"
struct Known {
  std::string prop, oracle, msg, cond, text;
  bool hit = false;
};
static std::vector<Known> g_known;
static void loadKnown(const std::string& path, const std::string& prop) {
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 8, "finding:") != 0) continue;
    std::vector<std::string> c;
    std::string rest = l.substr(8);
    for (;;) {
      auto p = rest.find('|');
      c.push_back(rest.substr(0, p));
      if (p == std::string::npos) break;
      rest = rest.substr(p + 1);
    }
    for (auto& x : c) {
      while (!x.empty() && x[0] == ' ') x.erase(0, 1);
      while (!x.empty() && x.back() == ' ') x.pop_back();
    }
    if (c.size() == 5 && c[0] == prop) g_known.push_back({c[0], c[1], c[2], c[3], c[4]});
  }
}
static Known* knownFor(const Scenario& sc, const std::string& oracle, const std::string& msg) {
  for (auto& k : g_known) {
    if (k.oracle != oracle) continue;
    if (msg.find(k.msg) == std::string::npos) continue;
    if (k.cond != "*") {
      auto p = k.cond.find('=');
      if (sc.s(k.cond.substr(0, p)) != k.cond.substr(p + 1)) continue;
    }
    return &k;
  }
  return nullptr;
}

// ---------------------------------------------------------------------------------------------------------
static void writeReplay(const std::string& path, const std::string& prop, const Scenario& sc, uint64_t seed,
                        const std::vector<std::pair<uint64_t, uint32_t>>& script, const Outcome& o) {
  std::ofstream f(path);
  f << "# replay file of the deterministic simulation; run: simrun replay <this file>\n";
  f << "property " << prop << "\nseed " << seed << "\n";
  f << "oracle " << o.viol[0].first << "\nmessage " << o.viol[0].second << "\n";
  f << "fingerprint " << o.fp << "\n";
  for (auto& kv : sc.kv) f << "s " << kv.first << "=" << kv.second << "\n";
  for (auto& d : script) f << "d " << d.first << " " << d.second << "\n";
}
struct Replay {
  std::string prop, oracle, message;
  uint64_t seed = 0, fp = 0;
  Scenario sc;
  std::vector<std::pair<uint64_t, uint32_t>> script;
};
static Replay readReplay(const std::string& path) {
  Replay r;
  std::ifstream f(path);
  if (!f) die("cannot read " + path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 9, "property ") == 0) r.prop = l.substr(9);
    else if (l.compare(0, 5, "seed ") == 0) r.seed = strtoull(l.c_str() + 5, nullptr, 10);
    else if (l.compare(0, 7, "oracle ") == 0) r.oracle = l.substr(7);
    else if (l.compare(0, 8, "message ") == 0) r.message = l.substr(8);
    else if (l.compare(0, 12, "fingerprint ") == 0) r.fp = strtoull(l.c_str() + 12, nullptr, 10);
    else if (l.compare(0, 2, "s ") == 0) {
      auto p = l.find('=');
      r.sc.kv[l.substr(2, p - 2)] = l.substr(p + 1);
    } else if (l.compare(0, 2, "d ") == 0) {
      unsigned long long k;
      unsigned v;
      if (sscanf(l.c_str() + 2, "%llu %u", &k, &v) == 2) r.script.emplace_back(k, v);
    }
  }
  return r;
}

static double nowS() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (static_cast<unsigned char>(c) < 32) {
      o += ' ';
    } else
      o += c;
  }
  return o + "\"";
}

static bool sameOracle(const Outcome& o, const std::string& oracle) {
  for (auto& v : o.viol)
    if (v.first == oracle) return true;
  return false;
}

int main(int argc, char** argv) {
  // fixed address layout for exact repeatability
  if (!getenv("VP_SIM_FIXED")) {
    setenv("VP_SIM_FIXED", "1", 1);
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) >= 0)
      execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) {
      auto p = a.find('=');
      if (p != std::string::npos) opt[a.substr(2, p - 2)] = a.substr(p + 1);
      else opt[a.substr(2)] = "1";
    } else
      pos.push_back(a);
  }
  if (pos.empty()) die("usage: simrun run|replay|one ...");
  std::string exe(4096, 0);
  ssize_t k = readlink("/proc/self/exe", &exe[0], exe.size());
  exe.resize(k > 0 ? static_cast<size_t>(k) : 0);
  std::string dir = exe.substr(0, exe.rfind('/'));
  char tmpl[256];
  const char* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
  snprintf(tmpl, sizeof tmpl, "%s/vpsimXXXXXX", base);
  if (!mkdtemp(tmpl)) die("mkdtemp");
  g_scratch = tmpl;
  const std::string rankSo = opt.count("lib") ? opt["lib"] : dir + "/rank.so";
  const std::string brokerSo = dir + "/broker.so";
  Scenario overrides;
  for (auto& o : opt)
    if (o.first.compare(0, 2, "x.") == 0) overrides.kv[o.first.substr(2)] = o.second;
  if (pos[0] == "gen") {  // only generates scenarios, to see that the generator ends
    double worst = 0;
    const uint64_t seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    for (uint64_t i = 0; i < strtoull(opt["count"].c_str(), nullptr, 10); ++i) {
      const double t = nowS();
      genScenario(opt["family"], seed + i, overrides);
      worst = std::max(worst, nowS() - t);
    }
    printf("%s: longest generation %.3f s\n", opt["family"].c_str(), worst);
    rmdir(tmpl);
    return 0;
  }
  int copies = opt.count("copies") ? atoi(opt["copies"].c_str()) : 20;
  loadCopies(rankSo, copies, g_rankLibs);
  if (access(brokerSo.c_str(), R_OK) == 0) loadCopies(brokerSo, 1, g_brokerLibs);
  const int nslots = opt.count("jobs") ? atoi(opt["jobs"].c_str()) : 8;
  std::vector<Slot*> slots;
  for (int i = 0; i < nslots; ++i) slots.push_back(newSlot());
  int rc = 0;

  if (pos[0] == "replay" || pos[0] == "one") {
    Replay r;
    bool isReplay = pos[0] == "replay";
    if (isReplay) {
      r = readReplay(pos[1]);
    } else {
      r.seed = strtoull(opt["seed"].c_str(), nullptr, 10);
      r.sc = genScenario(opt["family"], r.seed, overrides);
      if (opt.count("show"))
        for (auto& kv : r.sc.kv) printf("s %s=%s\n", kv.first.c_str(), kv.second.c_str());
    }
    Job j{&r.sc, r.seed, isReplay, isReplay ? &r.script : nullptr};
    pid_t p = spawn(j, slots[0], opt.count("trace") ? opt["trace"].c_str() : nullptr, opt.count("out") > 0);
    Outcome o = finish(p, slots[0], true);
    for (auto& v : o.viol) printf("VIOLATED %s: %s\n", v.first.c_str(), v.second.c_str());
    printf("fingerprint %llu order %llu steps %llu decisions %llu nondefault %llu probes %s faults %s\n",
           (unsigned long long)o.fp, (unsigned long long)o.orderFp, (unsigned long long)slots[0]->steps,
           (unsigned long long)slots[0]->decisions, (unsigned long long)slots[0]->nonDefault, slots[0]->probes,
           slots[0]->faults);
    if (isReplay) {
      // The execution repeats exactly; only where the code under test uses memory it does not own (or never wrote) can the
      // same schedule end in the same violation with different bytes or another signal.
      bool same = sameOracle(o, r.oracle);
      bool exact = same && o.fp == r.fp;
      printf(exact ? "REPRODUCED\n" : same ? "REPRODUCED-VIOLATION (execution differs: undefined memory)\n" : "NOT-REPRODUCED\n");
      rc = same ? 1 : (o.viol.empty() ? 0 : 4);
    } else {
      rc = o.viol.empty() ? 0 : 1;
    }
  } else if (pos[0] == "run") {
    const std::string family = opt["family"], prop = opt["prop"];
    const uint64_t base_seed = strtoull(opt["seed"].c_str(), nullptr, 10);
    const double budget = atof(opt["seconds"].c_str());
    const uint64_t maxRuns = opt.count("maxruns") ? strtoull(opt["maxruns"].c_str(), nullptr, 10) : 1000000000ull;
    std::set<std::string> oracles;  // which oracles count for this property (empty: all)
    if (opt.count("oracles")) {
      std::string o = opt["oracles"], t;
      for (char c : o + ",")
        if (c == ',') {
          if (!t.empty()) oracles.insert(t);
          t.clear();
        } else
          t += c;
    }
    if (opt.count("known")) loadKnown(opt["known"], prop);
    auto counts = [&](const Outcome& o, const Scenario& sc, size_t& first) {
      for (size_t i = 0; i < o.viol.size(); ++i) {
        if (!oracles.empty() && !oracles.count(o.viol[i].first)) continue;
        if (Known* kf = knownFor(sc, o.viol[i].first, o.viol[i].second)) {
          kf->hit = true;
          continue;
        }
        first = i;
        return true;
      }
      return false;
    };
    const double t0 = nowS();
    struct Agg {
      uint64_t runs = 0, steps = 0, simUs = 0, yields = 0, switches = 0, actions = 0, mpiCalls = 0, msgs = 0, colls = 0, decisions = 0,
               nonDefault = 0, fileOps = 0, ompRegions = 0, sockOps = 0, timeJumps = 0, faultRuns = 0, noResult = 0;
      std::map<std::string, uint64_t> faults, probes;
      std::set<uint64_t> orders, fps;
    } a;
    std::map<pid_t, std::pair<size_t, uint64_t>> running;
    std::map<uint64_t, Scenario> scs;
    std::map<uint64_t, std::pair<uint64_t, int>> detCheck;  // seed -> fp, for repeat runs
    std::vector<uint64_t> repeat;
    uint64_t next = 0, repeats = 0, repeatMismatch = 0;
    std::vector<size_t> freeSlots;
    for (size_t i = 0; i < slots.size(); ++i) freeSlots.push_back(i);
    bool found = false;
    Outcome bad;
    size_t badIdx = 0;
    Scenario badSc;
    uint64_t badSeed = 0;
    std::vector<std::string> samples;
    auto seedOf = [&](uint64_t i) {
      sim::Prng p(base_seed * 1000003 + std::hash<std::string>()(family) % 1000000007);
      p.s += i * 0x9E3779B97F4A7C15ull;
      return p.next() >> 16;
    };
    uint64_t otherOracles = 0;
    while (true) {
      const bool more = !found && nowS() - t0 < budget && next < maxRuns;
      while (more && !freeSlots.empty() && next < maxRuns) {
        uint64_t sd;
        if (!repeat.empty()) {
          sd = repeat.back();
          repeat.pop_back();
        } else {
          sd = seedOf(next++);
        }
        if (!scs.count(sd)) scs[sd] = genScenario(family, sd, overrides);
        size_t s = freeSlots.back();
        freeSlots.pop_back();
        Job j{&scs[sd], sd, false, nullptr};
        pid_t p = spawn(j, slots[s]);
        running[p] = {s, sd};
      }
      if (running.empty()) break;
      int st;
      pid_t p = waitpid(-1, &st, 0);
      auto it = running.find(p);
      if (it == running.end()) continue;
      cleanRun(p);
      size_t s = it->second.first;
      uint64_t sd = it->second.second;
      running.erase(it);
      freeSlots.push_back(s);
      Slot* sl = slots[s];
      Outcome o = readSlot(sl, false);
      if (!o.ok) {
        a.noResult++;
        o.viol.emplace_back("crash", "process ended with status " + std::to_string(st));
      }
      if (detCheck.count(sd)) {
        ++repeats;
        if (detCheck[sd].first != o.fp) {
          ++repeatMismatch;
          fprintf(stderr, "non-deterministic seed %llu\n", (unsigned long long)sd);
        }
        detCheck.erase(sd);
        scs.erase(sd);
        continue;
      }
      a.runs++;
      a.steps += sl->steps; a.simUs += sl->now - 1000000000ull; a.yields += sl->yields; a.switches += sl->switches;
      a.actions += sl->actions; a.mpiCalls += sl->mpiCalls; a.msgs += sl->msgs; a.colls += sl->colls; a.decisions += sl->decisions;
      a.nonDefault += sl->nonDefault; a.fileOps += sl->fileOps; a.ompRegions += sl->ompRegions; a.sockOps += sl->sockOps;
      a.timeJumps += sl->timeJumps;
      a.orders.insert(o.orderFp);
      auto parse = [](const char* c, std::map<std::string, uint64_t>& m) {
        std::string x = c, t;
        bool any = false;
        for (char ch : x)
          if (ch == ';') {
            auto q = t.rfind('=');
            m[t.substr(0, q)] += strtoull(t.c_str() + q + 1, nullptr, 10);
            any = true;
            t.clear();
          } else
            t += ch;
        return any;
      };
      const bool anyFault = parse(sl->faults, a.faults);
      if (anyFault) a.faultRuns++;
      if (anyFault || sl->nonDefault > 0) a.fps.insert(o.fp);
      parse(sl->probes, a.probes);
      if (samples.size() < 5) {
        std::string t = "seed " + std::to_string(sd) + ":";
        for (auto& kv : scs[sd].kv)
          if (kv.second.size() < 60 && kv.first[0] != 'p') t += " " + kv.first + "=" + kv.second;
        samples.push_back(t.substr(0, 600));
      }
      size_t first = 0;
      if (counts(o, scs[sd], first)) {
        if (!found) {
          found = true;
          badIdx = first;
          badSc = scs[sd];
          badSeed = sd;
          bad = readSlot(sl, true);
          if (bad.viol.empty()) bad.viol = o.viol;
          std::swap(bad.viol[0], bad.viol[badIdx]);
        }
      } else if (!o.viol.empty()) {
        ++otherOracles;
        if (opt.count("verbose"))
          fprintf(stderr, "other oracle: seed %llu %s: %s\n", (unsigned long long)sd, o.viol[0].first.c_str(), o.viol[0].second.c_str());
      }
      if (a.runs % 40 == 1 && !found) {
        detCheck[sd] = {o.fp, 0};
        repeat.push_back(sd);
      } else
        scs.erase(sd);
    }
    const double searchS = nowS() - t0;
    std::string status = "ok", replayPath;
    if (found) {
      fprintf(stderr, "found: seed %llu oracle %s: %s (%zu decisions)\n", (unsigned long long)badSeed, bad.viol[0].first.c_str(),
              bad.viol[0].second.c_str(), bad.log.size());
      const std::string oracle = bad.viol[0].first;
      std::vector<std::pair<uint64_t, uint32_t>> script = bad.log;
      auto holds = [&](const Outcome& o, const Scenario& sc) {
        for (auto& v : o.viol)
          if (v.first == oracle && !knownFor(sc, v.first, v.second)) return true;
        return false;
      };
      Scenario sc = badSc;
      // first confirm that the recorded decisions reproduce the violation
      Outcome o = runBatch({Job{&sc, badSeed, true, &script}}, slots, false)[0];
      if (!holds(o, sc)) {
        fprintf(stderr, "recorded decisions do not reproduce\n");
        status = "unreproducible";
      } else {
        const double m0 = nowS(), mBudget = opt.count("minimise") ? atof(opt["minimise"].c_str()) : 40;
        // shorten the workload
        if (sc.has("ops")) {
          for (bool again = true; again && nowS() - m0 < mBudget / 3;) {
            again = false;
            auto ops = sc.sv("ops");
            std::vector<Scenario> cs;
            for (size_t i = ops.size(); i-- > 0 && cs.size() < 16;) {
              auto q = ops;
              q.erase(q.begin() + static_cast<long>(i));
              if (!validOps(sc.s("family"), q)) continue;
              Scenario c = sc;
              c.setv("ops", q);
              cs.push_back(c);
            }
            std::vector<Job> js;
            for (auto& c : cs) js.push_back(Job{&c, badSeed, true, &script});
            auto rs = runBatch(js, slots, false);
            for (size_t i = 0; i < rs.size(); ++i)
              if (holds(rs[i], cs[i])) {
                sc = cs[i];
                again = true;
                break;
              }
          }
        }
        // delta debugging on the decisions
        size_t chunks = 2;
        {
          std::vector<std::pair<uint64_t, uint32_t>> none;
          Outcome oo = runBatch({Job{&sc, badSeed, true, &none}}, slots, false)[0];
          if (holds(oo, sc)) script.clear();
        }
        while (script.size() > 1 && nowS() - m0 < mBudget) {
          chunks = std::min(chunks, script.size());
          std::vector<std::vector<std::pair<uint64_t, uint32_t>>> cand;
          for (size_t c = 0; c < chunks; ++c) {
            size_t lo = script.size() * c / chunks, hi = script.size() * (c + 1) / chunks;
            std::vector<std::pair<uint64_t, uint32_t>> x(script.begin(), script.begin() + static_cast<long>(lo));
            x.insert(x.end(), script.begin() + static_cast<long>(hi), script.end());
            cand.push_back(std::move(x));
          }
          bool reduced = false;
          for (size_t b = 0; b < cand.size() && !reduced && nowS() - m0 < mBudget; b += 16) {
            std::vector<Job> js;
            for (size_t i = b; i < std::min(cand.size(), b + 16); ++i) js.push_back(Job{&sc, badSeed, true, &cand[i]});
            auto rs = runBatch(js, slots, false);
            for (size_t i = 0; i < rs.size(); ++i)
              if (holds(rs[i], sc)) {
                script = cand[b + i];
                reduced = true;
                break;
              }
          }
          if (reduced)
            chunks = std::max<size_t>(2, chunks - 1);
          else if (chunks >= script.size())
            break;
          else
            chunks = std::min(script.size(), chunks * 2);
        }
        Outcome fin = runBatch({Job{&sc, badSeed, true, &script}}, slots, false)[0];
        for (size_t i = 0; i < fin.viol.size(); ++i)
          if (fin.viol[i].first == oracle && !knownFor(sc, fin.viol[i].first, fin.viol[i].second)) {
            std::swap(fin.viol[0], fin.viol[i]);
            break;
          }
        replayPath = opt["replay"];
        writeReplay(replayPath, prop, sc, badSeed, script, fin);
        // fresh process must reproduce exactly
        std::string cmd = "env -u VP_SIM_FIXED '" + exe + "' replay '" + replayPath + "' --copies=" + std::to_string(copies) +
                          (opt.count("lib") ? " --lib='" + opt["lib"] + "'" : "") + " >/dev/null 2>&1";
        int st = system(cmd.c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
          status = "violation";
          fprintf(stderr, "minimised to %zu decisions; %s: %s\n", script.size(), fin.viol[0].first.c_str(), fin.viol[0].second.c_str());
          bad.viol = fin.viol;
        } else {
          status = "unreproducible";
          fprintf(stderr, "replay in a fresh process differs (status %d)\n", st);
        }
      }
    }
    if (repeatMismatch && status == "ok") status = "nondeterministic";
    std::ofstream f(opt["result"]);
    f << "{\"family\":" << jstr(family) << ",\"status\":" << jstr(status) << ",\"replay\":" << jstr(replayPath);
    if (found) f << ",\"oracle\":" << jstr(bad.viol[0].first) << ",\"message\":" << jstr(bad.viol[0].second) << ",\"badSeed\":" << badSeed;
    f << ",\"runs\":" << a.runs << ",\"wall\":" << searchS << ",\"steps\":" << a.steps << ",\"sim_seconds\":" << static_cast<double>(a.simUs) / 1e6
      << ",\"yields\":" << a.yields << ",\"switches\":" << a.switches << ",\"net_actions\":" << a.actions << ",\"mpi_calls\":" << a.mpiCalls
      << ",\"messages\":" << a.msgs << ",\"collectives\":" << a.colls << ",\"decisions\":" << a.decisions << ",\"nondefault\":" << a.nonDefault
      << ",\"file_ops\":" << a.fileOps << ",\"omp_regions\":" << a.ompRegions << ",\"sock_ops\":" << a.sockOps << ",\"time_jumps\":" << a.timeJumps
      << ",\"distinct_orders\":" << a.orders.size() << ",\"distinct_executions\":" << a.fps.size() << ",\"fault_runs\":" << a.faultRuns
      << ",\"repeats\":" << repeats << ",\"repeat_mismatch\":" << repeatMismatch << ",\"other_oracle_runs\":" << otherOracles << ",\"faults\":{";
    bool c = false;
    for (auto& x : a.faults) {
      f << (c ? "," : "") << jstr(x.first) << ":" << x.second;
      c = true;
    }
    f << "},\"probes\":{";
    c = false;
    for (auto& x : a.probes) {
      f << (c ? "," : "") << jstr(x.first) << ":" << x.second;
      c = true;
    }
    f << "},\"known\":[";
    c = false;
    for (auto& kf : g_known)
      if (kf.hit) {
        f << (c ? "," : "") << jstr(kf.text);
        c = true;
      }
    f << "],\"samples\":[";
    c = false;
    for (auto& x : samples) {
      f << (c ? "," : "") << jstr(x);
      c = true;
    }
    f << "]}\n";
    f.close();
    rc = status == "ok" ? 0 : status == "violation" ? 1 : 2;
  }
  rmTree(g_scratch);
  return rc;
}
