// Memory-access callbacks of the instrumented build (-fsanitize=thread without its runtime): inside a parallel
// region every access of a team member is a possible preemption point. Whether a point is offered to the
// scheduler depends only on the member's own stream and on the accesses seen so far, so that a recorded schedule
// meets the same points again; whether the member is preempted there is an ordinary scheduler decision.
#include <link.h>

#include "sim.hpp"

namespace sim {
struct Shadow {
  uintptr_t key = 0;
  uint64_t team = 0;
  uint32_t readers = 0, writers = 0;
};
// exact, so that nothing depends on where the allocator puts things: open addressing, emptied when it fills up
static const size_t SHADOW = 1u << 18;
static Shadow* shadow = nullptr;
static size_t shadowUsed = 0;
static Shadow& shadowOf(uintptr_t a) {
  if (shadowUsed > SHADOW / 2) {
    for (size_t i = 0; i < SHADOW; ++i) shadow[i] = Shadow();
    shadowUsed = 0;
  }
  size_t i = (a * 0x9E3779B97F4A7C15ull) >> (64 - 18);
  while (shadow[i].key != 0 && shadow[i].key != a) i = (i + 1) & (SHADOW - 1);
  if (shadow[i].key == 0) {
    shadow[i].key = a;
    ++shadowUsed;
  }
  return shadow[i];
}
static bool thrInit = false, thrOn = false;
static double pConf = 0, pHot = 0;
static uint32_t meanGap = 0, hotClass = 0;

static void setup() {
  thrInit = true;
  if (!S.sc) return;
  meanGap = static_cast<uint32_t>(S.sc->i("thr_gap", 0));
  pConf = S.sc->d("p_thr_conflict", 0);
  pHot = S.sc->d("p_thr_hot", 0);
  hotClass = static_cast<uint32_t>(S.sc->i("thr_hot", 0));
  thrOn = meanGap > 0 || pConf > 0 || pHot > 0;
  if (thrOn) shadow = new Shadow[SHADOW];
}

static inline void access(const void* addr, size_t, bool write, const void* pc) {
  Ent* e = S.cur;
  if (!e || !e->team || !S.running || S.noYield) return;
  if (!thrInit) setup();
  if (!thrOn) return;
  if (e->thrState == 0) e->thrState = (static_cast<uint64_t>(e->id) + 1) * 0x9E3779B97F4A7C15ull ^ static_cast<uint64_t>(S.sc->i("vseed", 1));
  auto rnd = [e] {
    uint64_t z = (e->thrState += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  };
  auto coin = [&rnd](double p) { return p > 0 && static_cast<double>(rnd() >> 11) * (1.0 / 9007199254740992.0) < p; };
  bool want = false;
  if (meanGap) {
    if (e->thrGap == 0) e->thrGap = 1 + rnd() % (2 * meanGap);
    if (--e->thrGap == 0) want = true;
  }
  const uintptr_t a = reinterpret_cast<uintptr_t>(addr) >> 3;
  Shadow& s = shadowOf(a);
  const uint32_t bit = 1u << (e->ompTid & 31);
  if (s.team != e->teamStamp) {
    s.team = e->teamStamp;
    s.readers = s.writers = 0;
  }
  if ((s.writers & ~bit) || (write && (s.readers & ~bit))) {
    if (coin(pConf)) want = true;
    probe("shared-access");
  }
  (write ? s.writers : s.readers) |= bit;
  if (pHot > 0) {
    const uintptr_t base = e->rank->lib ? static_cast<struct link_map*>(e->rank->lib)->l_addr : 0;
    const uint64_t off = (reinterpret_cast<uintptr_t>(pc) - base) * 0x9E3779B97F4A7C15ull;
    if ((off >> 59) == hotClass && coin(pHot)) want = true;
  }
  if (want) yield("access", 0.9);
}
}  // namespace sim
using sim::access;

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                 \
  void __tsan_read##n(void* p) { access(p, n, false, PC); }                                   \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }                                   \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); }                         \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }                         \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); }                          \
  void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }                          \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); }                \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); }                \
  void __tsan_read##n##_pc(void* p, void*) { access(p, n, false, PC); }                       \
  void __tsan_write##n##_pc(void* p, void*) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ATOM(b, T)                                                                                                      \
  T __tsan_atomic##b##_load(const volatile T* p, int) { access(const_cast<T*>(p), sizeof(T), false, PC); return *p; }   \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); *p = v; }    \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(o + v); return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(o - v); return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(o & v); return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(o | v); return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(o ^ v); return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access(const_cast<T*>(p), sizeof(T), true, PC); T o = *p; *p = static_cast<T>(~(o & v)); return o; } \
  bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T d, int, int) {                                  \
    access(const_cast<T*>(p), sizeof(T), true, PC);                                                                     \
    if (*p == *e) { *p = d; return true; }                                                                              \
    *e = *p;                                                                                                            \
    return false;                                                                                                       \
  }                                                                                                                     \
  bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T d, int x, int y) { return __tsan_atomic##b##_compare_exchange_strong(p, e, d, x, y); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T d, int x, int y) { __tsan_atomic##b##_compare_exchange_strong(p, &e, d, x, y); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_switch_to_fiber(void*, unsigned) {}

// a member preempted while it initialises a function's static variable must not block the others for real
int __cxa_guard_acquire(uint64_t* gp) {
  volatile unsigned char* g = reinterpret_cast<volatile unsigned char*>(gp);
  for (;;) {
    if (g[0]) return 0;
    if (!g[1]) {
      g[1] = 1;
      return 1;
    }
    if (!sim::active()) return 1;
    sim::blockUntil([g] { return g[1] == 0 || g[0] != 0; }, "static initialisation");
  }
}
void __cxa_guard_release(uint64_t* gp) {
  volatile unsigned char* g = reinterpret_cast<volatile unsigned char*>(gp);
  g[1] = 0;
  g[0] = 1;
}
void __cxa_guard_abort(uint64_t* gp) { reinterpret_cast<volatile unsigned char*>(gp)[1] = 0; }
}
