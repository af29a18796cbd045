// OpenMP runtime shim: team members are entities of the simulator's scheduler, so which member runs, who gets
// which loop chunk and where members are preempted are seeded decisions.
#include <map>
#include <mutex>
#include <vector>

#include "sim.hpp"

namespace sim {

struct WorkShare {
  bool init = false;
  bool ull = false, up = true;
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  bool guided = false;
  bool singleTaken = false;
  unsigned sections = 0, nextSection = 0;
};
struct Team {
  int n = 1;
  int id = 0;
  std::map<unsigned, WorkShare> ws;
  int barArrived = 0;
  uint64_t barGen = 0;
  uint64_t epoch = 0;
  int running = 0;
};
struct Lock {
  Ent* owner = nullptr;
  int depth = 0;
};
struct ThreadState {
  Team* team = nullptr;
  int tid = 0;
  unsigned wsNo = 0;
  std::vector<const void*> locks;
  std::string lockKey;
};
static std::map<int, ThreadState> ts;  // by entity id
static std::map<std::pair<int, const void*>, Lock> locks;
static std::map<int, std::vector<Ent*>> pool;  // rank -> helper threads
static std::map<std::pair<int, int>, int> dummy;
static int teamIds = 0;

static ThreadState* cur() {
  if (!active()) return nullptr;
  return &ts[S.cur->id];
}
static double pOmp() {
  static double p = -1;
  if (p < 0) p = S.sc ? S.sc->d("p_omp", 0) : 0;
  return p;
}
static void oy(const char* why) {
  auto* t = cur();
  if (t && t->team && t->team->n > 1) yield(why, pOmp());
}

static void stamp(Ent* e, Team* tm, int tid) {
  e->team = tm && tm->n > 1 ? tm : nullptr;
  e->ompTid = tid;
  e->teamStamp = tm ? (static_cast<uint64_t>(tm->id) << 20) + tm->epoch : 0;
}

static void lockAcq(const void* name) {
  if (!active()) return;
  oy("critical");
  Lock& l = locks[{me()->id, name}];
  Ent* e = S.cur;
  if (l.owner != nullptr) blockUntil([&l] { return l.owner == nullptr; }, "critical");
  l.owner = e;
  cur()->locks.push_back(name);
}
static void lockRel(const void* name) {
  if (!active()) return;
  Lock& l = locks[{me()->id, name}];
  l.owner = nullptr;
  auto* t = cur();
  if (!t->locks.empty()) t->locks.pop_back();
  oy("critical-end");
}

static void barrier() {
  auto* t = cur();
  if (!t || !t->team || t->team->n < 2) return;
  Team* tm = t->team;
  oy("barrier");
  uint64_t g = tm->barGen;
  if (++tm->barArrived == tm->n) {
    tm->barArrived = 0;
    tm->barGen++;
    tm->epoch++;
  } else
    blockUntil([tm, g] { return tm->barGen != g; }, "omp barrier");
  stamp(S.cur, tm, t->tid);
}

static void parallel(void (*fn)(void*), void* data, unsigned nthreads, const std::function<void(Team*)>& prep) {
  auto* t = cur();
  if (!t) { fn(data); return; }
  int n = nthreads ? static_cast<int>(nthreads) : me()->ompThreads;
  if (nthreads > 1) n = std::min<int>(static_cast<int>(nthreads), std::max(1, me()->ompThreads));
  Team* old = t->team;
  int oldTid = t->tid;
  unsigned oldWs = t->wsNo;
  if ((old && old->n > 1) || S.noYield) n = 1;  // no nested parallelism by default
  auto* tm = new Team;
  tm->n = n;
  tm->id = ++teamIds;
  S.n.ompRegions++;
  if (prep) prep(tm);
  std::vector<Ent*> members;
  auto& pl = pool[me()->id];
  for (int i = 1; i < n; ++i) {
    while (static_cast<int>(pl.size()) < i) pl.push_back(newThreadEnt(me(), nullptr)), pl.back()->st = St::Done;
    Ent* e = pl[static_cast<size_t>(i - 1)];
    auto& s = ts[e->id];
    s.team = tm;
    s.tid = i;
    s.wsNo = 0;
    stamp(e, tm, i);
    e->body = [fn, data] { fn(data); };
    members.push_back(e);
  }
  tm->running = n;
  if (n > 1) probe("omp-team");
  for (Ent* e : members) e->st = St::Ready;
  auto* self = &ts[S.cur->id];
  self->team = tm;
  self->tid = 0;
  self->wsNo = 0;
  stamp(S.cur, tm, 0);
  oy("parallel");
  fn(data);
  self = &ts[S.cur->id];
  if (!members.empty())
    blockUntil([members] {
      for (Ent* e : members)
        if (e->st != St::Done && e->st != St::Dead) return false;
      return true;
    }, "omp join");
  self->team = old;
  self->tid = oldTid;
  self->wsNo = oldWs;
  stamp(S.cur, old, oldTid);
}

static WorkShare& ws(ThreadState* t) { return t->team->ws[t->wsNo]; }

static bool loopNext(long* a, long* b) {
  auto* t = cur();
  oy("loop-next");
  WorkShare& w = t->team->ws[t->wsNo];
  long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / (-w.incr);
  if (left <= 0) return false;
  long c = w.chunk < 1 ? 1 : w.chunk;
  if (w.guided && t->team->n > 1) {
    long g = std::max(c, left / (2 * t->team->n));
    uint32_t v = decide(K_OMPCHUNK, 4, [] { return S.rng.below(4); });
    c = v == 0 ? g : v == 1 ? c : v == 2 ? std::max(c, left / 2) : std::max(c, g / 2);
  }
  if (c > left) c = left;
  *a = w.next;
  *b = w.next + c * w.incr;
  w.next = *b;
  return true;
}
static bool loopNextU(unsigned long long* a, unsigned long long* b) {
  auto* t = cur();
  oy("loop-next");
  WorkShare& w = t->team->ws[t->wsNo];
  if (w.unext == w.uend) return false;
  unsigned long long left = w.up ? (w.uend - w.unext + w.uincr - 1) / w.uincr : (w.unext - w.uend - w.uincr - 1) / (0 - w.uincr);
  if (left == 0) return false;
  unsigned long long c = w.uchunk < 1 ? 1 : w.uchunk;
  if (w.guided && t->team->n > 1) {
    unsigned long long g = std::max(c, left / (2ull * static_cast<unsigned long long>(t->team->n)));
    uint32_t v = decide(K_OMPCHUNK, 4, [] { return S.rng.below(4); });
    c = v == 0 ? g : v == 1 ? c : v == 2 ? std::max(c, left / 2) : std::max(c, g / 2);
  }
  if (c >= left) c = left;
  *a = w.unext;
  *b = c == left ? w.uend : w.unext + c * w.uincr;
  w.unext = *b;
  return true;
}
static void solo(ThreadState* t) {
  if (!t->team) {
    t->team = new Team;
    t->tid = 0;
    t->wsNo = 0;
  }
}
static bool loopStart(long s, long e, long inc, long ch, bool guided, long* a, long* b) {
  auto* t = cur();
  solo(t);
  t->wsNo++;
  WorkShare& w = ws(t);
  if (!w.init) {
    w.init = true;
    w.next = s; w.end = e; w.incr = inc; w.chunk = ch; w.guided = guided;
  }
  return loopNext(a, b);
}
static bool loopStartU(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, bool guided,
                       unsigned long long* a, unsigned long long* b) {
  auto* t = cur();
  solo(t);
  t->wsNo++;
  WorkShare& w = ws(t);
  if (!w.init) {
    w.init = true;
    w.up = up; w.unext = s; w.uend = (up ? (s < e) : (s > e)) ? e : s; w.uincr = inc; w.uchunk = ch; w.guided = guided; w.ull = true;
  }
  return loopNextU(a, b);
}
static bool sched_guided(int s) { return (s & 0xff) == 3; }
static void prepLoop(Team* tm, long s, long e, long inc, long ch, bool guided) {
  WorkShare& w = tm->ws[0];
  w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = ch; w.guided = guided;
}
}  // namespace sim
using namespace sim;

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
#define PL(name, g)                                                                                          \
  void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long ch, unsigned) {         \
    parallel(fn, data, n, [=](Team* t) { prepLoop(t, s, e, inc, ch, g); });                                   \
  }
PL(GOMP_parallel_loop_dynamic, false)
PL(GOMP_parallel_loop_guided, true)
PL(GOMP_parallel_loop_static, false)
PL(GOMP_parallel_loop_nonmonotonic_dynamic, false)
PL(GOMP_parallel_loop_nonmonotonic_guided, true)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned) {
  parallel(fn, data, n, [=](Team* t) { prepLoop(t, s, e, inc, 1, false); });
}
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_runtime(fn, data, n, s, e, inc, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_runtime(fn, data, n, s, e, inc, f); }
#define LS(name, g) bool name(long s, long e, long inc, long ch, long* a, long* b) { return loopStart(s, e, inc, ch, g, a, b); }
LS(GOMP_loop_dynamic_start, false)
LS(GOMP_loop_guided_start, true)
LS(GOMP_loop_static_start, false)
LS(GOMP_loop_nonmonotonic_dynamic_start, false)
LS(GOMP_loop_nonmonotonic_guided_start, true)
bool GOMP_loop_runtime_start(long s, long e, long inc, long* a, long* b) { return loopStart(s, e, inc, 1, false, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long* a, long* b) { return loopStart(s, e, inc, 1, false, a, b); }
bool GOMP_loop_start(long s, long e, long inc, long sched, long ch, long* a, long* b, uintptr_t*, void**) { return loopStart(s, e, inc, ch, sched_guided(static_cast<int>(sched)), a, b); }
#define LN(name) bool name(long* a, long* b) { return loopNext(a, b); }
LN(GOMP_loop_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_static_next) LN(GOMP_loop_runtime_next)
LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_maybe_nonmonotonic_runtime_next)
#define UL unsigned long long
#define US(name, g) bool name(bool up, UL s, UL e, UL inc, UL ch, UL* a, UL* b) { return loopStartU(up, s, e, inc, ch, g, a, b); }
US(GOMP_loop_ull_dynamic_start, false)
US(GOMP_loop_ull_guided_start, true)
US(GOMP_loop_ull_static_start, false)
US(GOMP_loop_ull_nonmonotonic_dynamic_start, false)
US(GOMP_loop_ull_nonmonotonic_guided_start, true)
bool GOMP_loop_ull_runtime_start(bool up, UL s, UL e, UL inc, UL* a, UL* b) { return loopStartU(up, s, e, inc, 1, false, a, b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, UL s, UL e, UL inc, UL* a, UL* b) { return loopStartU(up, s, e, inc, 1, false, a, b); }
#define UN(name) bool name(UL* a, UL* b) { return loopNextU(a, b); }
UN(GOMP_loop_ull_dynamic_next) UN(GOMP_loop_ull_guided_next) UN(GOMP_loop_ull_static_next) UN(GOMP_loop_ull_runtime_next)
UN(GOMP_loop_ull_nonmonotonic_dynamic_next) UN(GOMP_loop_ull_nonmonotonic_guided_next) UN(GOMP_loop_ull_maybe_nonmonotonic_runtime_next)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
static char defaultLock, atomicLock;
void GOMP_critical_start(void) { lockAcq(&defaultLock); }
void GOMP_critical_end(void) { lockRel(&defaultLock); }
void GOMP_critical_name_start(void** p) { lockAcq(p); }
void GOMP_critical_name_end(void** p) { lockRel(p); }
void GOMP_atomic_start(void) { lockAcq(&atomicLock); }
void GOMP_atomic_end(void) { lockRel(&atomicLock); }
bool GOMP_single_start(void) {
  auto* t = cur();
  if (!t || !t->team || t->team->n < 2) return true;
  t->wsNo++;
  oy("single");
  WorkShare& w = ws(t);
  if (w.singleTaken) return false;
  w.singleTaken = true;
  return true;
}
unsigned GOMP_sections_start(unsigned n) {
  auto* t = cur();
  solo(t);
  t->wsNo++;
  WorkShare& w = ws(t);
  if (!w.init) { w.init = true; w.sections = n; }
  oy("sections");
  return w.nextSection < w.sections ? ++w.nextSection : 0;
}
unsigned GOMP_sections_next(void) {
  auto* t = cur();
  oy("sections");
  WorkShare& w = ws(t);
  return w.nextSection < w.sections ? ++w.nextSection : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned cnt, unsigned) {
  parallel(fn, data, n, [=](Team* t) { t->ws[0].init = true; t->ws[0].sections = cnt; });
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { oy("taskyield"); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long argSize, long argAlign, bool, unsigned, void**, int, void*) {
  if (cpyfn) {
    std::vector<char> buf(static_cast<size_t>(argSize + argAlign));
    char* arg = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + static_cast<uintptr_t>(argAlign) - 1) & ~static_cast<uintptr_t>(argAlign - 1));
    cpyfn(arg, data);
    fn(arg);
  } else {
    fn(data);
  }
}
void GOMP_teams_reg(void (*fn)(void*), void* data, unsigned, unsigned, unsigned) { fn(data); }
int omp_get_num_threads(void) { auto* t = cur(); return t && t->team ? t->team->n : 1; }
int omp_get_thread_num(void) { auto* t = cur(); return t && t->team ? t->tid : 0; }
int omp_get_max_threads(void) { return active() ? me()->ompThreads : 1; }
void omp_set_num_threads(int n) { if (active()) me()->ompThreads = n < 1 ? 1 : n; }
int omp_get_num_procs(void) { return active() ? me()->ompThreads : 1; }
int omp_in_parallel(void) { auto* t = cur(); return t && t->team && t->team->n > 1; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_level(void) { auto* t = cur(); return t && t->team ? 1 : 0; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
double omp_get_wtime(void) { return static_cast<double>(S.now) * 1e-6; }
struct simOmpLock { void* p; };
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lockAcq(l); }
void omp_unset_lock(void** l) { lockRel(l); }
}
