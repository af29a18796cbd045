#include "sim.hpp"

#include <cxxabi.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <stdexcept>

namespace sim {

Sim S;
std::function<void(const FsEvent&)> fsMonitor;

// ---------------------------------------------------------------------------------------------------------
// context switch
extern "C" void sim_swtch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_swtch
.type sim_swtch,@function
sim_swtch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swtch,.-sim_swtch
)");

struct EhGlobals {
  void* caught;
  unsigned int uncaught;
};

struct OsThread {
  pthread_t th;
  sem_t go, back;
};

static void fiberMain() {
  Ent* e = S.cur;
  try {
    e->body();
    e->st = St::Done;
  } catch (...) {
    e->st = St::Dead;
    violate("internal", "exception escaped a simulated entity");
  }
  EhGlobals* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
  (void)g;
  void* dummy;
  sim_swtch(&dummy, S.schedSp);
  __builtin_unreachable();
}

Ent* newFiber(Rank* r, std::function<void()> body) {
  Ent* e = new Ent;
  e->id = static_cast<int>(S.ents.size());
  e->rank = r;
  e->body = std::move(body);
  e->stackSize = 2u << 20;
  e->stack = static_cast<char*>(mmap(nullptr, e->stackSize, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  mprotect(e->stack, 4096, PROT_NONE);
  void** sp = reinterpret_cast<void**>(e->stack + e->stackSize);
  *--sp = nullptr;
  *--sp = reinterpret_cast<void*>(&fiberMain);
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  e->sp = sp;
  S.ents.push_back(e);
  return e;
}

static void* osThreadMain(void* p) {
  Ent* e = static_cast<Ent*>(p);
  OsThread* t = static_cast<OsThread*>(e->osThread);
  for (;;) {
    while (sem_wait(&t->go) != 0) {}
    if (e->body) {
      try {
        e->body();
      } catch (...) {
        violate("exception", "exception escaped a threaded region on rank %d", e->rank->id);
      }
    }
    e->body = nullptr;
    e->st = St::Done;
    sem_post(&t->back);
  }
  return nullptr;
}

Ent* newThreadEnt(Rank* r, std::function<void()> body) {
  Ent* e = new Ent;
  e->id = static_cast<int>(S.ents.size());
  e->rank = r;
  e->isThread = true;
  e->body = std::move(body);
  OsThread* t = new OsThread;
  sem_init(&t->go, 0, 0);
  sem_init(&t->back, 0, 0);
  e->osThread = t;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1u << 20);
  if (pthread_create(&t->th, &a, osThreadMain, e) != 0) {
    fprintf(stderr, "sim: cannot create thread\n");
    _exit(97);
  }
  S.ents.push_back(e);
  return e;
}

static void toScheduler() {
  Ent* e = S.cur;
  if (e->isThread) {
    OsThread* t = static_cast<OsThread*>(e->osThread);
    sem_post(&t->back);
    while (sem_wait(&t->go) != 0) {}
  } else {
    EhGlobals* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    e->ehCaught = g->caught;
    e->ehUncaught = g->uncaught;
    e->err = errno;
    sim_swtch(&e->sp, S.schedSp);
    g->caught = e->ehCaught;
    g->uncaught = e->ehUncaught;
    errno = e->err;
  }
}

static void resume(Ent* e) {
  if (e != S.cur) {
    S.n.switches++;
    mix(S.orderFp, static_cast<uint64_t>(e->id) * 131 + 7);
  }
  S.cur = e;
  e->st = St::Ready;
  e->pred = nullptr;
  e->sleeping = false;
  if (e->isThread) {
    OsThread* t = static_cast<OsThread*>(e->osThread);
    sem_post(&t->go);
    while (sem_wait(&t->back) != 0) {}
  } else {
    sim_swtch(&S.schedSp, e->sp);
  }
}

// ---------------------------------------------------------------------------------------------------------
// decisions
static inline uint64_t keyOf(Kind k, int owner, uint32_t cnt) {
  return (static_cast<uint64_t>(k) << 56) | (static_cast<uint64_t>(static_cast<uint16_t>(owner + 1)) << 36) |
         static_cast<uint64_t>(cnt);
}
static uint32_t schedCounters[K_NKINDS];

uint32_t decide(Kind k, uint32_t n, const std::function<uint32_t()>& policy, int owner) {
  if (n < 2) return 0;
  uint32_t cnt;
  int own;
  if (owner == -1 || S.cur == nullptr) {
    own = -1;
    cnt = schedCounters[k]++;
  } else {
    own = S.cur->id;
    cnt = S.cur->counters[k]++;
  }
  uint64_t key = keyOf(k, own, cnt);
  uint32_t v;
  if (S.replay) {
    auto it = S.script.find(key);
    v = it == S.script.end() ? 0 : it->second % n;
  } else {
    v = policy();
    if (v >= n) v = v % n;
  }
  S.n.decisions++;
  if (v) {
    S.n.nonDefault++;
    S.n.byKind[k]++;
    S.log.emplace_back(key, v);
  }
  mix(S.fp, key ^ (static_cast<uint64_t>(v) << 20));
  return v;
}

bool flip(Kind k, double p) {
  return decide(k, 2, [p] { return S.rng.chance(p) ? 1u : 0u; }) != 0;
}

uint32_t fault(const char* name, uint32_t n, double p) {
  if (!S.faultsEnabled) return 0;
  (void)name;
  return decide(K_FAULT, n, [n, p] { return S.rng.chance(p) ? 1u + S.rng.below(n - 1) : 0u; });
}
void fired(const char* name) {
  S.n.faults[name]++;
  trace("FAULT %s", name);
}
void probe(const char* name) { S.n.probes[name]++; }

void fpStr(const char* s) {
  for (; *s; ++s) mix(S.fp, static_cast<unsigned char>(*s));
}

// ---------------------------------------------------------------------------------------------------------
void violate(const char* oracle, const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  trace("VIOLATION-RECORD %s: %s", oracle, buf);
  if (S.violations.size() < 20) S.violations.push_back({oracle, buf});
}

void trace(const char* fmt, ...) {
  if (!S.traceFile) return;
  va_list ap;
  va_start(ap, fmt);
  fprintf(S.traceFile, "[%llu r%d] ", static_cast<unsigned long long>(S.now), S.cur ? S.cur->rank->id : -1);
  vfprintf(S.traceFile, fmt, ap);
  fputc('\n', S.traceFile);
  fflush(S.traceFile);
  va_end(ap);
}

void addAction(int owner, const char* what, std::function<void()> run, std::function<bool()> ready) {
  S.actions.push_back(Action{S.nextActionId++, owner, what, std::move(ready), std::move(run)});
}

static void runAction(size_t idx) {
  Action a = std::move(S.actions[idx]);
  S.actions.erase(S.actions.begin() + static_cast<long>(idx));
  S.n.actions++;
  mix(S.orderFp, 0x5555 + static_cast<uint64_t>(a.owner));
  trace("net: %s (owner %d)", a.what, a.owner);
  S.noYield++;
  a.run();
  S.noYield--;
}

// enabled items: actions (by index) then ranks
struct Item {
  bool isAction;
  size_t idx;
};
static bool entEnabled(Ent* e) {
  if (e->st == St::Ready) return true;
  if (e->st == St::Blocked) {
    if (e->pred && e->pred()) return true;
    return e->sleeping && S.now >= e->wake;
  }
  return false;
}
static void collect(std::vector<Item>& items, Ent* except) {
  items.clear();
  for (size_t i = 0; !S.exclusive && i < S.actions.size(); ++i)
    if (!S.actions[i].ready || S.actions[i].ready()) items.push_back({true, i});
  const size_t n = S.ents.size();
  const size_t start = except ? static_cast<size_t>(except->id) + 1 : 0;
  for (size_t j = 0; j < n; ++j) {
    Ent* e = S.ents[(start + j) % n];
    if (e == except || (S.exclusive && e->rank != S.exclusive)) continue;
    if (entEnabled(e)) items.push_back({false, static_cast<size_t>(e->id)});
  }
}

static uint32_t weightedPick(const std::vector<Item>& items) {
  const double wn = S.wnet;
  double tot = 0;
  auto w = [&](const Item& it) {
    if (it.isAction) return wn;
    Ent* e = S.ents[it.idx];
    size_t r = static_cast<size_t>(e->rank->id);
    return r < S.weight.size() ? S.weight[r] : 1.0;
  };
  for (auto& it : items) tot += w(it);
  double x = S.rng.unit() * tot;
  for (uint32_t i = 0; i < items.size(); ++i) {
    x -= w(items[i]);
    if (x < 0) return i;
  }
  return static_cast<uint32_t>(items.size()) - 1;
}

static std::vector<Item> scratchItems;
static Ent* pendingTarget = nullptr;

static void stopSim(const std::string& why) {
  S.stop = true;
  if (S.stopReason.empty()) S.stopReason = why;
}

void yield(const char* why, double pOverride) {
  if (!active() || S.noYield) return;
  Ent* e = S.cur;
  S.n.yields++;
  S.now += 1;
  S.steps++;
  if (S.steps > S.maxSteps) {
    violate("progress", "no completion within %llu steps", static_cast<unsigned long long>(S.maxSteps));
    stopSim("step budget");
    e->st = St::Ready;
    toScheduler();
  }
  const double p = pOverride >= 0 ? pOverride : S.pPreempt;
  uint32_t v = 0;
  bool collected = false;
  if (S.replay) {
    v = decide(K_PREEMPT, 1u << 16, nullptr);
    if (v) {
      collect(scratchItems, e);
      collected = true;
    }
  } else {
    bool want = S.rng.chance(p);
    if (want) {
      collect(scratchItems, e);
      collected = true;
      if (scratchItems.empty()) want = false;
    }
    uint32_t val = want ? 1 + weightedPick(scratchItems) : 0;
    v = decide(K_PREEMPT, 1u << 16, [val] { return val; });
  }
  if (v == 0 || !collected || scratchItems.empty()) return;
  Item it = scratchItems[(v - 1) % scratchItems.size()];
  (void)why;
  if (it.isAction) {
    runAction(it.idx);
    return;
  }
  pendingTarget = S.ents[it.idx];
  e->st = St::Ready;
  e->why = why;
  toScheduler();
}

void blockUntil(std::function<bool()> pred, const char* why, std::string detail) {
  if (pred()) return;
  Ent* e = S.cur;
  while (!pred()) {
    e->st = St::Blocked;
    e->pred = pred;
    e->why = why;
    e->whyDetail = detail;
    toScheduler();
  }
  e->why = "";
}

bool blockUntilFor(std::function<bool()> pred, uint64_t us, const char* why) {
  if (pred()) return true;
  Ent* e = S.cur;
  e->st = St::Blocked;
  e->pred = pred;
  e->wake = S.now + us;
  e->sleeping = true;
  e->why = why;
  toScheduler();
  e->why = "";
  return pred();
}

void passTurn(const char* why) {
  Ent* e = S.cur;
  e->st = St::Ready;
  e->why = why;
  S.n.yields++;
  toScheduler();
}

void sleepUs(uint64_t us) {
  Ent* e = S.cur;
  e->wake = S.now + us;
  e->sleeping = true;
  e->st = St::Blocked;
  e->why = "sleep";
  toScheduler();
  e->why = "";
}

void rankDie() {
  Ent* e = S.cur;
  e->st = St::Dead;
  toScheduler();
  for (;;) toScheduler();
}

void abortWorld(World* w, const std::string& why) {
  if (w->aborted || w->crashed) return;
  w->aborted = true;
  w->abortReason = why;
  trace("world %d aborted: %s", w->id, why.c_str());
  for (Rank* r : w->ranks) {
    for (Ent* e : S.ents)
      if (e->rank == r && e->st != St::Done) e->st = St::Dead;
    mpiRankDead(r);
    ioRankDead(r, false);
    netRankDead(r);
  }
}

void Sim::crashWorld(World* w, const char* why) {
  if (w->aborted || w->crashed) return;
  w->crashed = true;
  w->abortReason = why;
  trace("world %d crashed: %s", w->id, why);
  for (Rank* r : w->ranks) {
    for (Ent* e : S.ents)
      if (e->rank == r && e->st != St::Done) e->st = St::Dead;
    mpiRankDead(r);
    ioRankDead(r, true);
    netRankDead(r);
  }
}

static std::string stateDump() {
  std::string s;
  for (Ent* e : S.ents) {
    if (e->st == St::Done || e->st == St::Dead) continue;
    if (s.size() > 1200) {
      s += " ...";
      break;
    }
    s += " w" + std::to_string(e->rank->world->id) + "r" + std::to_string(e->rank->wrank) + ":" + e->why;
    if (!e->whyDetail.empty()) s += "(" + e->whyDetail + ")";
  }
  return s;
}

void runAll() {
  S.running = true;
  S.pPreempt = S.sc->d("p_preempt", 0.0);
  S.pSched = S.sc->d("p_sched", 1.0);
  S.wnet = S.sc->d("wnet", 1.0);
  S.maxSteps = static_cast<uint64_t>(S.sc->i("max_steps", 3000000));
  const uint64_t maxJumps = static_cast<uint64_t>(S.sc->i("max_jumps", 3000));
  const double pStall = S.sc->d("p_stall", 0.0);
  S.crashWorldId = static_cast<int>(S.sc->i("crash_world", -1));
  S.crashStep = static_cast<uint64_t>(S.sc->i("crash_step", 0));
  S.crashFileOp = static_cast<uint64_t>(S.sc->i("crash_op", 0));
  while (!S.stop) {
    if (S.crashWorldId >= 0 && S.crashWorldId < static_cast<int>(S.worlds.size()) &&
        (S.crashDue || (S.crashStep && S.steps >= S.crashStep))) {
      bool alive = false;
      for (Rank* r : S.worlds[static_cast<size_t>(S.crashWorldId)]->ranks) alive = alive || (r->ent->st != St::Done && r->ent->st != St::Dead);
      if (alive) {
        fired("crash-of-a-system");
        S.crashWorld(S.worlds[static_cast<size_t>(S.crashWorldId)].get(), "injected crash");
      }
      S.crashWorldId = -1;
      pendingTarget = nullptr;
    }
    if (pendingTarget) {
      Ent* t = pendingTarget;
      pendingTarget = nullptr;
      if (entEnabled(t)) {
        resume(t);
        continue;
      }
    }
    collect(scratchItems, nullptr);
    // start the default order after the last running entity
    if (S.cur && !scratchItems.empty()) {
      size_t firstRank = 0;
      while (firstRank < scratchItems.size() && scratchItems[firstRank].isAction) ++firstRank;
      auto mid = std::find_if(scratchItems.begin() + static_cast<long>(firstRank), scratchItems.end(),
                              [](const Item& i) { return static_cast<int>(i.idx) > S.cur->id; });
      std::rotate(scratchItems.begin() + static_cast<long>(firstRank), mid, scratchItems.end());
    }
    if (scratchItems.empty()) {
      bool alive = false;
      Ent* earliest = nullptr;
      for (Ent* e : S.ents) {
        if (e->st == St::Done || e->st == St::Dead) continue;
        alive = true;
        if (e->sleeping && (!earliest || e->wake < earliest->wake)) earliest = e;
      }
      if (!alive) break;
      if (earliest) {
        S.n.timeJumps++;
        if (S.n.timeJumps > maxJumps) {
          violate("progress", "nothing but polling for too long:%s", stateDump().c_str());
          break;
        }
        S.now = earliest->wake;
        continue;
      }
      // blocked for good: either a deadlock or the peers are dead
      violate("progress", "deadlock:%s", stateDump().c_str());
      break;
    }
    S.now += 1;
    S.steps++;
    if (pStall > 0) {
      Ent* earliest = nullptr;
      for (Ent* e : S.ents)
        if (e->sleeping && e->st == St::Blocked && (!earliest || e->wake < earliest->wake)) earliest = e;
      if (earliest && earliest->wake > S.now && decide(K_STALL, 2, [&] { return S.rng.chance(pStall) ? 1u : 0u; }, -1)) {
        S.now = earliest->wake;
        fired("stall");
        continue;
      }
    }
    if (S.steps > S.maxSteps) {
      violate("progress", "no completion within the step budget:%s", stateDump().c_str());
      break;
    }
    uint32_t v = 0;
    if (scratchItems.size() > 1) {
      uint32_t n = static_cast<uint32_t>(scratchItems.size());
      v = decide(K_SCHED, 1u << 16, [] { return S.rng.chance(S.pSched) ? weightedPick(scratchItems) : 0u; }, -1) % n;
    }
    Item it = scratchItems[v];
    if (it.isAction)
      runAction(it.idx);
    else
      resume(S.ents[it.idx]);
  }
  S.running = false;
  S.cur = nullptr;
}

}  // namespace sim
