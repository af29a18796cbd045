// Core of the deterministic simulator: entities (simulated ranks and their threads), the seeded decision
// stream, the scheduler, virtual time, network actions and the violation record.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "scenario.hpp"

struct ompi_communicator_t;
struct ompi_request_t;

namespace sim {

struct Prng {
  uint64_t s;
  explicit Prng(uint64_t seed = 1) : s(seed ^ 0xD1B54A32D192ED03ull) {
    // hash the seed: streams of neighbouring seeds must not overlap
    uint64_t a = next();
    s ^= a << 1;
    uint64_t b = next();
    s = a * 0xD6E8FEB86659FD93ull + (b ^ (b >> 31));
  }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n < 2 ? 0 : static_cast<uint32_t>((next() >> 11) % n); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return p > 0 && unit() < p; }
};

// kinds of decisions; a decision is identified by (kind, owner, how many of this kind the owner made before)
enum Kind : uint8_t {
  K_PREEMPT = 0,  // at a yield point: 0 continue, v>0: switch to v-th other enabled item
  K_SCHED,        // when the current entity cannot continue: which enabled item next
  K_SEND,         // blocking send: 0 buffered, 1 completes only when matched
  K_ISEND,        // non-blocking send: 0 buffer read at once, 1 read later
  K_IRECV,        // non-blocking receive: 0 buffer written at match, 1 written in wait
  K_ANYSRC,       // which of several arrived messages a wildcard takes
  K_COLL,         // collective: 0 earliest legal completion, 1 synchronising
  K_ICOLL,        // non-blocking collective: bit0 input read late, bit1 output written late
  K_RED,          // order of reduction operands
  K_TEST,         // MPI_Test/Iprobe: 0 truthful, 1 "not yet"
  K_FLUSH,        // file data: 0 visible at once, 1 visible later (network action / close)
  K_FAULT,        // fault injection: 0 none, v>0 fault
  K_OMPSCHED,     // thread interleaving
  K_OMPCHUNK,     // loop chunk assignment
  K_SOCK,         // bytes per send/recv
  K_STALL,        // time passes although somebody could run (a stalled process)
  K_NKINDS
};

enum class St : uint8_t { Ready, Blocked, Done, Dead };

struct Rank;
struct World;

struct Ent {
  int id = 0;
  Rank* rank = nullptr;
  bool isThread = false;
  St st = St::Ready;
  std::function<bool()> pred;
  uint64_t wake = 0;
  bool sleeping = false;
  const char* why = "";
  std::string whyDetail;
  // fiber
  void* sp = nullptr;
  char* stack = nullptr;
  size_t stackSize = 0;
  void* ehCaught = nullptr;
  unsigned ehUncaught = 0;
  int err = 0;
  // OS thread (OpenMP team members other than the first)
  void* osThread = nullptr;
  int ompTid = 0;
  void* team = nullptr;  // set while it works in a team of several members
  uint64_t teamStamp = 0;
  uint64_t thrState = 0, thrGap = 0;
  uint32_t counters[K_NKINDS] = {0};
  std::function<void()> body;
};

struct Rank {
  int id = 0;     // global id over all worlds
  World* world = nullptr;
  int wrank = 0;  // rank in its world
  Ent* ent = nullptr;
  ompi_communicator_t* worldComm = nullptr;
  ompi_communicator_t* selfComm = nullptr;
  void* lib = nullptr;  // handle of this rank's private copy of the code under test
  int ompThreads = 1;
  bool mpiInitialized = true;
  bool failed = false;         // ended by exception/abort
  std::string failure;
  std::set<ompi_request_t*> liveReqs;
  uint64_t calls = 0;
};

struct World {
  int id = 0;
  std::string program;
  std::vector<Rank*> ranks;
  bool aborted = false;
  bool crashed = false;
  std::string abortReason;
};

struct Action {
  uint64_t id;
  int owner;  // rank id or -1
  const char* what;
  std::function<bool()> ready;  // may be empty
  std::function<void()> run;
};

struct Violation {
  std::string oracle;
  std::string msg;
};

struct Counters {
  uint64_t yields = 0, switches = 0, actions = 0, mpiCalls = 0, msgs = 0, colls = 0, decisions = 0,
           nonDefault = 0, timeJumps = 0, fileOps = 0, ompRegions = 0, sockOps = 0;
  uint64_t byKind[K_NKINDS] = {0};
  std::map<std::string, uint64_t> faults;  // faults that really fired
  std::map<std::string, uint64_t> probes;  // "sometimes" probes
};

struct Sim {
  const Scenario* sc = nullptr;
  Prng rng{1};
  bool replay = false;
  std::unordered_map<uint64_t, uint32_t> script;  // key -> value
  std::vector<std::pair<uint64_t, uint32_t>> log;  // non-default decisions taken
  std::vector<std::unique_ptr<World>> worlds;
  std::vector<Rank*> ranks;
  std::vector<Ent*> ents;
  Ent* cur = nullptr;
  Rank* exclusive = nullptr;  // only this rank's threads may run (inside a reduction operator)
  int exclusiveDepth = 0;
  int noYield = 0;            // inside a network action: nothing can be preempted
  void* schedSp = nullptr;
  bool running = false;
  uint64_t now = 1000000000ull;  // virtual microseconds
  uint64_t steps = 0;
  std::vector<Action> actions;
  uint64_t nextActionId = 1;
  std::vector<Violation> violations;
  Counters n;
  uint64_t fp = 1469598103934665603ull;       // fingerprint of the whole execution
  uint64_t orderFp = 1469598103934665603ull;  // fingerprint of the interleaving only
  FILE* traceFile = nullptr;
  bool stop = false;
  std::string stopReason;
  std::vector<double> weight;  // scheduling weight per rank
  bool faultsEnabled = true;
  double pPreempt = 0, pSched = 1, wnet = 1;
  uint64_t maxSteps = 3000000;
  void crashWorld(World* w, const char* why);
  // explicit crash of one world: at a scheduler step or at its n-th file operation
  int crashWorldId = -1;
  uint64_t crashStep = 0, crashFileOp = 0, crashFileOps = 0;
  bool crashDue = false;
};

extern Sim S;

inline void mix(uint64_t& h, uint64_t v) {
  h ^= v;
  h *= 1099511628211ull;
  h ^= h >> 29;
}
void fpStr(const char* s);

uint32_t decide(Kind k, uint32_t n, const std::function<uint32_t()>& policy, int owner = -2);
// yes/no helper
bool flip(Kind k, double p);
// fault helper: returns v in [0,n); counts as fault when >0 only if the caller calls fired()
uint32_t fault(const char* name, uint32_t n, double p);
void fired(const char* name);
void probe(const char* name);

void yield(const char* why, double pOverride = -1);
void blockUntil(std::function<bool()> pred, const char* why, std::string detail = "");
bool blockUntilFor(std::function<bool()> pred, uint64_t us, const char* why);
void sleepUs(uint64_t us);
void passTurn(const char* why);  // a polling call found nothing: let somebody else run
void addAction(int owner, const char* what, std::function<void()> run, std::function<bool()> ready = nullptr);
void violate(const char* oracle, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void rankDie();  // the current entity never runs again
void abortWorld(World* w, const std::string& why);
inline Rank* me() { return S.cur ? S.cur->rank : nullptr; }
inline bool active() { return S.running && S.cur != nullptr; }

Ent* newFiber(Rank* r, std::function<void()> body);
Ent* newThreadEnt(Rank* r, std::function<void()> body);
void runAll();

void mpiSetup(World& w);           // creates world/self communicators
void mpiFinalChecks();             // leftover messages and requests
void mpiRankDead(Rank* r);
void ioRankDead(Rank* r, bool crash);
void ioReset();
int openFilesOf(const std::string& path, bool writersOnly);
bool pendingWritesOn(const std::string& path);
void netRankDead(Rank* r);
void netReset();

// monitors the harness can install: called on file-system events of the code under test
struct FsEvent { const char* op; std::string path; Rank* rank; };
extern std::function<void(const FsEvent&)> fsMonitor;
void installFileMonitor();

}  // namespace sim
