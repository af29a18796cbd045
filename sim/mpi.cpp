// MPI-3 subset on simulated ranks. Semantics follow the standard; every freedom the standard leaves to an
// implementation (buffering, completion time, arrival order across tags/sources, operand order, whether a
// rooted collective synchronises) is a decision of the simulator.
#include "mpi_impl.hpp"

#include <algorithm>
#include <cmath>
#include <complex>
#include <numeric>

using namespace sim;

// ------------------------------------------------------------------ predefined handles
extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
ompi_predefined_group_t ompi_mpi_group_empty, ompi_mpi_group_null;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
ompi_predefined_errhandler_t ompi_mpi_errhandler_null, ompi_mpi_errors_are_fatal, ompi_mpi_errors_return;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
MPI_Fint* MPI_F_STATUS_IGNORE = nullptr;
MPI_Fint* MPI_F_STATUSES_IGNORE = nullptr;
#define OPS(X) X(null, 0) X(max, 1) X(min, 2) X(sum, 3) X(prod, 4) X(land, 5) X(band, 6) X(lor, 7) X(bor, 8) X(lxor, 9) X(bxor, 10) X(maxloc, 11) X(minloc, 12) X(replace, 13) X(no_op, 14)
#define DEFOP(n, k) ompi_predefined_op_t ompi_mpi_op_##n = {{k, nullptr, false}};
OPS(DEFOP)
#define TYPES(X) \
  X(char, B_I8, 1) X(signed_char, B_I8, 1) X(unsigned_char, B_U8, 1) X(byte, B_U8, 1) X(short, B_I16, 2) X(unsigned_short, B_U16, 2) \
  X(int, B_I32, 4) X(unsigned, B_U32, 4) X(long, B_I64, 8) X(unsigned_long, B_U64, 8) X(long_long_int, B_I64, 8) X(unsigned_long_long, B_U64, 8) \
  X(float, B_F32, 4) X(double, B_F64, 8) X(long_double, B_F80, 16) X(wchar, B_I32, 4) X(packed, B_U8, 1) X(cxx_bool, B_BOOL, 1) X(c_bool, B_BOOL, 1) \
  X(cxx_cplex, B_C64, 8) X(cxx_dblcplex, B_C128, 16) X(c_float_complex, B_C64, 8) X(c_double_complex, B_C128, 16) \
  X(int8_t, B_I8, 1) X(uint8_t, B_U8, 1) X(int16_t, B_I16, 2) X(uint16_t, B_U16, 2) X(int32_t, B_I32, 4) X(uint32_t, B_U32, 4) \
  X(int64_t, B_I64, 8) X(uint64_t, B_U64, 8) X(aint, B_I64, 8) X(offset, B_I64, 8) X(count, B_I64, 8) X(datatype_null, B_RAW, 0) \
  X(character, B_I8, 1) X(integer, B_I32, 4) X(real, B_F32, 4) X(dblprec, B_F64, 8)
#define DECLT(n, b, s) ompi_predefined_datatype_t ompi_mpi_##n;
TYPES(DECLT)
}

namespace sim {
static struct InitTypes {
  InitTypes() {
#define DEFT(n, b, s)                                                            \
  {                                                                              \
    auto t = std::make_shared<TypeImpl>();                                       \
    t->base = b; t->baseSize = s ? s : 1; t->size = s; t->ub = s; t->predefined = t->committed = true; \
    t->name = #n; t->combiner = MPI_COMBINER_NAMED;                              \
    if (s) t->blocks.push_back({0, s});                                          \
    ompi_mpi_##n.c.t = t;                                                        \
  }
    TYPES(DEFT)
  }
} initTypes;

static std::vector<std::deque<Msg*>> inbox;              // per global rank, in send order per source
static std::vector<std::deque<ompi_request_t*>> posted;  // per global rank, in post order
static std::vector<CommData*> comms;
static uint64_t msgSeq = 0;

std::string pack(const void* buf, int count, const TypeImpl& t) {
  std::string out;
  if (count <= 0 || t.size == 0) return out;
  out.resize(t.size * static_cast<size_t>(count));
  char* o = &out[0];
  const char* b = static_cast<const char*>(buf);
  const long ext = t.ub - t.lb;
  if (t.blocks.size() == 1 && t.blocks[0].first == 0 && static_cast<long>(t.blocks[0].second) == ext) {
    memcpy(o, b, out.size());
    return out;
  }
  for (int i = 0; i < count; ++i) {
    for (auto& bl : t.blocks) {
      memcpy(o, b + ext * i + bl.first, bl.second);
      o += bl.second;
    }
  }
  return out;
}
size_t unpack(void* buf, int count, const TypeImpl& t, const char* data, size_t len) {
  size_t used = 0;
  char* b = static_cast<char*>(buf);
  const long ext = t.ub - t.lb;
  for (int i = 0; i < count && used < len; ++i) {
    for (auto& bl : t.blocks) {
      size_t n = std::min(bl.second, len - used);
      if (n) memcpy(b + ext * i + bl.first, data + used, n);
      used += n;
      if (used >= len) break;
    }
  }
  return used;
}

void mpiEnter(const char* fn) {
  if (!active()) {
    fprintf(stderr, "sim: MPI call %s outside a simulated rank\n", fn);
    abort();
  }
  S.n.mpiCalls++;
  me()->calls++;
  trace("%s", fn);
  yield(fn);
}

static void spinYield(const char* why) { passTurn(why); }

ompi_communicator_t* resolve(MPI_Comm c, const char* fn) {
  if (c == reinterpret_cast<MPI_Comm>(&ompi_mpi_comm_world)) return me()->worldComm;
  if (c == reinterpret_cast<MPI_Comm>(&ompi_mpi_comm_self)) return me()->selfComm;
  if (c == nullptr || c == reinterpret_cast<MPI_Comm>(&ompi_mpi_comm_null)) {
    violate("mpi-usage", "%s called with a null communicator on rank %d", fn, me()->id);
    abortWorld(me()->world, std::string("MPI_ERR_COMM in ") + fn);
    rankDie();
  }
  if (c->owner != me()->id || c->freed) {
    violate("mpi-usage", "%s called with a freed or foreign communicator on rank %d", fn, me()->id);
    abortWorld(me()->world, std::string("MPI_ERR_COMM in ") + fn);
    rankDie();
  }
  return c;
}
static std::shared_ptr<TypeImpl> ty(MPI_Datatype t) {
  if (!t || !t->t) {
    violate("mpi-usage", "null datatype on rank %d", me() ? me()->id : -1);
    abortWorld(me()->world, "MPI_ERR_TYPE");
    rankDie();
  }
  return t->t;
}

CommData* newCommData(std::vector<int> members, const std::string& origin) {
  auto* d = new CommData;
  d->id = static_cast<int>(comms.size());
  d->members = std::move(members);
  d->nextSeq.assign(d->members.size(), 0);
  d->freed.assign(d->members.size(), false);
  d->origin = origin;
  comms.push_back(d);
  return d;
}
static ompi_communicator_t* handleFor(CommData* d, int grank) {
  auto* h = new ompi_communicator_t;
  h->d = d;
  h->owner = grank;
  for (size_t i = 0; i < d->members.size(); ++i)
    if (d->members[i] == grank) h->myrank = static_cast<int>(i);
  return h;
}
void mpiSetup(World& w) {
  std::vector<int> m;
  for (auto* r : w.ranks) m.push_back(r->id);
  auto* d = newCommData(m, "world");
  for (auto* r : w.ranks) {
    r->worldComm = handleFor(d, r->id);
    r->selfComm = handleFor(newCommData({r->id}, "self"), r->id);
  }
  inbox.resize(S.ranks.size());
  posted.resize(S.ranks.size());
}

// ------------------------------------------------------------------ point to point
static void completeRecv(ompi_request_t* q, Msg* m) {
  q->matched = true;
  q->data = m->data;
  q->st.MPI_SOURCE = m->src;
  q->st.MPI_TAG = m->tag;
  q->st.MPI_ERROR = MPI_SUCCESS;
  q->st._cancelled = 0;
  q->st._ucount = m->data.size();
  m->matched = true;
  const size_t cap = q->type->size * static_cast<size_t>(std::max(0, q->count));
  if (m->data.size() > cap) {
    violate("mpi-usage", "message truncated: %zu bytes from rank %d tag %d into a buffer of %zu bytes on rank %d",
            m->data.size(), m->src, m->tag, cap, q->owner->id);
    q->data.resize(cap);
  } else if (!q->data.empty() && m->base != q->type->base && m->base != B_MIXED && q->type->base != B_MIXED) {
    const bool raw = m->base == B_U8 || q->type->base == B_U8 || m->base == B_I8 || q->type->base == B_I8;
    if (!raw) violate("mpi-usage", "type mismatch between send and receive (tag %d) on rank %d", m->tag, q->owner->id);
  }
  if (m->sreq) m->sreq->matched = true;
  auto& box = inbox[static_cast<size_t>(m->gdst)];
  box.erase(std::find(box.begin(), box.end(), m));
  if (!q->lateWrite) {
    unpack(q->rbuf, q->count, *q->type, q->data.data(), q->data.size());
    q->done = true;
  }
}

static bool tagOk(int want, int have) { return want == MPI_ANY_TAG || want == have; }

// candidates: per source the earliest message that matches (ctx, src, tag); only usable once it has arrived
static void candidates(int grank, int ctx, int src, int tag, std::vector<Msg*>& out) {
  out.clear();
  std::set<int> seen;
  for (Msg* m : inbox[static_cast<size_t>(grank)]) {
    if (m->ctx != ctx || m->matched) continue;
    if (src != MPI_ANY_SOURCE && m->src != src) continue;
    if (!tagOk(tag, m->tag)) continue;
    if (seen.count(m->src)) continue;
    seen.insert(m->src);
    if (m->arrived) out.push_back(m);
  }
}

static void tryMatch(int grank) {
  bool again = true;
  std::vector<Msg*> cand;
  while (again) {
    again = false;
    auto& p = posted[static_cast<size_t>(grank)];
    for (size_t i = 0; i < p.size(); ++i) {
      auto* q = p[i];
      candidates(grank, q->ctx, q->peer, q->tag, cand);
      if (cand.empty()) continue;
      uint32_t v = cand.size() > 1 ? decide(K_ANYSRC, static_cast<uint32_t>(cand.size()),
                                            [&] { return S.rng.below(static_cast<uint32_t>(cand.size())); }, -1)
                                   : 0;
      p.erase(p.begin() + static_cast<long>(i));
      completeRecv(q, cand[v]);
      again = true;
      break;
    }
  }
}

static void arrive(Msg* m) {
  if (m->arrived) return;
  m->arrived = true;
  tryMatch(m->gdst);
}

static Msg* makeMsg(ompi_communicator_t* c, int dest, int tag, BaseT base) {
  auto* m = new Msg;
  m->ctx = c->d->id;
  m->src = c->myrank;
  m->dst = dest;
  m->tag = tag;
  m->gsrc = c->d->members[static_cast<size_t>(c->myrank)];
  m->gdst = c->d->members[static_cast<size_t>(dest)];
  m->base = base;
  m->seq = ++msgSeq;
  S.n.msgs++;
  inbox[static_cast<size_t>(m->gdst)].push_back(m);
  return m;
}
static void post(Msg* m) {
  // transmission: becomes visible to the receiver by a network action
  m->ready = true;
  addAction(m->gdst, "deliver", [m] { arrive(m); });
}

static void checkRank(ompi_communicator_t* c, int r, bool any, const char* fn) {
  if (r == MPI_PROC_NULL || (any && r == MPI_ANY_SOURCE)) return;
  if (r < 0 || r >= static_cast<int>(c->d->members.size())) {
    violate("mpi-usage", "%s: invalid rank %d in communicator of size %zu", fn, r, c->d->members.size());
    abortWorld(me()->world, std::string("MPI_ERR_RANK in ") + fn);
    rankDie();
  }
}

static ompi_request_t* newReq(int kind, const char* what) {
  auto* q = new ompi_request_t;
  q->kind = kind;
  q->owner = me();
  q->what = what;
  memset(&q->st, 0, sizeof q->st);
  q->st.MPI_SOURCE = MPI_ANY_SOURCE;
  q->st.MPI_TAG = MPI_ANY_TAG;
  me()->liveReqs.insert(q);
  return q;
}
static void dropReq(ompi_request_t* q) {
  q->owner->liveReqs.erase(q);
  q->freed = true;
  // keep the object: late actions may still refer to it
}

static ompi_request_t* isend(const void* buf, int count, MPI_Datatype dt, int dest, int tag, ompi_communicator_t* c,
                             bool forceSync, const char* fn) {
  auto* q = newReq(1, fn);
  q->type = ty(dt);
  if (!q->type->committed) violate("mpi-usage", "%s with an uncommitted datatype", fn);
  checkRank(c, dest, false, fn);
  if (dest == MPI_PROC_NULL) {
    q->done = true;
    return q;
  }
  q->sbuf = buf;
  q->count = count;
  q->orig = pack(buf, count, *q->type);
  Msg* m = makeMsg(c, dest, tag, q->type->base);
  m->sreq = q;
  q->msg = m;
  q->syncMode = forceSync || flip(K_SEND, S.sc->d("p_sync_send", 0));
  q->lateRead = flip(K_ISEND, S.sc->d("p_late_read", 0));
  if (!q->lateRead) {
    m->data = q->orig;
    post(m);
    if (!q->syncMode) q->done = true;
  } else {
    addAction(me()->id, "read-send-buffer", [q] {
      if (q->msg->ready) return;
      q->msg->data = pack(q->sbuf, q->count, *q->type);
      if (q->msg->data != q->orig)
        violate("mpi-buffer", "send buffer changed before the send completed (%s on rank %d)", q->what, q->owner->id);
      post(q->msg);
    });
  }
  return q;
}
static void snapSend(ompi_request_t* q) {
  if (q->msg && !q->msg->ready) {
    q->msg->data = pack(q->sbuf, q->count, *q->type);
    if (q->msg->data != q->orig)
      violate("mpi-buffer", "send buffer changed before the send completed (%s on rank %d)", q->what, q->owner->id);
    post(q->msg);
  }
}
static bool sendDone(ompi_request_t* q) {
  if (q->done) return true;
  if (!q->msg->ready) return false;
  return !q->syncMode || q->matched;
}

static ompi_request_t* irecv(void* buf, int count, MPI_Datatype dt, int src, int tag, ompi_communicator_t* c, bool late,
                             const char* fn) {
  auto* q = newReq(2, fn);
  q->type = ty(dt);
  if (!q->type->committed) violate("mpi-usage", "%s with an uncommitted datatype", fn);
  checkRank(c, src, true, fn);
  if (src == MPI_PROC_NULL) {
    q->done = q->matched = true;
    q->st.MPI_SOURCE = MPI_PROC_NULL;
    return q;
  }
  q->rbuf = buf;
  q->count = count;
  q->ctx = c->d->id;
  q->peer = src;
  q->tag = tag;
  q->lateWrite = late;
  posted[static_cast<size_t>(me()->id)].push_back(q);
  tryMatch(me()->id);
  return q;
}

// ------------------------------------------------------------------ reductions
template <class T>
static void redT(int k, const T* a, T* b, size_t n, const char* tn) {
  for (size_t i = 0; i < n; ++i) {
    switch (k) {
      case 1: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
      case 2: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
      case 3: b[i] = static_cast<T>(b[i] + a[i]); break;
      case 4: b[i] = static_cast<T>(b[i] * a[i]); break;
      case 5: b[i] = static_cast<T>(b[i] && a[i]); break;
      case 7: b[i] = static_cast<T>(b[i] || a[i]); break;
      case 13: b[i] = a[i]; break;
      default:
        if constexpr (std::is_integral_v<T>) {
          if (k == 6) b[i] = static_cast<T>(b[i] & a[i]);
          else if (k == 8) b[i] = static_cast<T>(b[i] | a[i]);
          else if (k == 10) b[i] = static_cast<T>(b[i] ^ a[i]);
          else if (k == 9) b[i] = static_cast<T>(!b[i] != !a[i]);
          else violate("mpi-usage", "unsupported reduction %d on %s", k, tn);
        } else {
          violate("mpi-usage", "unsupported reduction %d on %s", k, tn);
        }
    }
  }
}
static void redBuiltin(int k, BaseT base, const char* a, char* b, size_t bytes) {
#define R(BT, T) \
  case BT: redT<T>(k, reinterpret_cast<const T*>(a), reinterpret_cast<T*>(b), bytes / sizeof(T), #T); break;
  switch (base) {
    R(B_I8, int8_t) R(B_U8, uint8_t) R(B_I16, int16_t) R(B_U16, uint16_t) R(B_I32, int32_t) R(B_U32, uint32_t)
    R(B_I64, int64_t) R(B_U64, uint64_t) R(B_F32, float) R(B_F64, double) R(B_F80, long double) R(B_BOOL, bool)
    case B_C64: {
      auto* x = reinterpret_cast<const std::complex<float>*>(a);
      auto* y = reinterpret_cast<std::complex<float>*>(b);
      for (size_t i = 0; i < bytes / 8; ++i) y[i] = k == 3 ? y[i] + x[i] : y[i] * x[i];
      break;
    }
    case B_C128: {
      auto* x = reinterpret_cast<const std::complex<double>*>(a);
      auto* y = reinterpret_cast<std::complex<double>*>(b);
      for (size_t i = 0; i < bytes / 16; ++i) y[i] = k == 3 ? y[i] + x[i] : y[i] * x[i];
      break;
    }
    default: violate("mpi-usage", "reduction on unsupported type");
  }
}
// acc = in (op) acc on packed data
static void reduceInto(const Part& p, int count, const std::shared_ptr<TypeImpl>& t, const std::string& in, std::string& acc) {
  MPI_Op op = p.op;
  if (op->fn) {
    const long ext = t->ub - t->lb;
    long lo = 0, hi = 0;
    for (auto& b : t->blocks) {
      lo = std::min(lo, b.first);
      hi = std::max(hi, b.first + static_cast<long>(b.second));
    }
    std::vector<char> a(static_cast<size_t>(hi - lo + ext * std::max(0, count - 1)) + 64), b(a.size());
    char* pa = a.data() - lo;
    char* pb = b.data() - lo;
    unpack(pa, count, *t, in.data(), in.size());
    unpack(pb, count, *t, acc.data(), acc.size());
    ompi_datatype_t h{t};
    MPI_Datatype hp = &h;
    int len = count;
    S.exclusive = me();
    ++S.exclusiveDepth;  // other threads of this rank may come here before this one is done
    op->fn(pa, pb, &len, &hp);
    if (--S.exclusiveDepth == 0) S.exclusive = nullptr;
    acc = pack(pb, count, *t);
  } else {
    redBuiltin(op->kind, t->base, in.data(), &acc[0], std::min(in.size(), acc.size()));
  }
}

// ------------------------------------------------------------------ collectives
int myRankIn(CommData* cd) {
  for (size_t i = 0; i < cd->members.size(); ++i)
    if (cd->members[i] == me()->id) return static_cast<int>(i);
  return -1;
}

static void collMismatch(Coll* k, const char* name, int root, const std::string& what) {
  violate("mpi-collective", "mismatched collective on a communicator (%s): call #%llu is %s(root %d) on some rank and %s(root %d) on rank %d: %s",
          k->cd->origin.c_str(), static_cast<unsigned long long>(k->seq), k->name, k->root, name, root, me()->id, what.c_str());
  S.stop = true;
  S.stopReason = "collective mismatch";
  rankDie();
}

static void snapPart(Coll* k, int m) {
  Part& p = k->parts[static_cast<size_t>(m)];
  if (p.snapped) return;
  auto inplaceSrc = [&](const void* s, const void* r) { return s == MPI_IN_PLACE ? r : s; };
  switch (k->kind) {
    case C_BCAST:
      if (m == k->root) p.data = pack(p.sbuf, p.scount, *p.stype);
      break;
    case C_REDUCE: case C_ALLREDUCE: case C_EXSCAN: case C_SCAN:
      p.data = pack(inplaceSrc(p.sbuf, p.rbuf), p.scount, *p.stype);
      break;
    case C_GATHER: case C_GATHERV:
      if (m == k->root && p.sbuf == MPI_IN_PLACE) {
        const long ext = p.rtype->ub - p.rtype->lb;
        int cnt = k->kind == C_GATHER ? p.rcount : p.rcounts[static_cast<size_t>(m)];
        long off = k->kind == C_GATHER ? static_cast<long>(p.rcount) * m : p.rdispls[static_cast<size_t>(m)];
        p.data = pack(static_cast<char*>(p.rbuf) + off * ext, cnt, *p.rtype);
      } else
        p.data = pack(p.sbuf, p.scount, *p.stype);
      break;
    case C_ALLGATHER: case C_ALLGATHERV:
      if (p.sbuf == MPI_IN_PLACE) {
        const long ext = p.rtype->ub - p.rtype->lb;
        int cnt = k->kind == C_ALLGATHER ? p.rcount : p.rcounts[static_cast<size_t>(m)];
        long off = k->kind == C_ALLGATHER ? static_cast<long>(p.rcount) * m : p.rdispls[static_cast<size_t>(m)];
        p.data = pack(static_cast<char*>(p.rbuf) + off * ext, cnt, *p.rtype);
      } else
        p.data = pack(p.sbuf, p.scount, *p.stype);
      break;
    case C_SCATTER: case C_SCATTERV: case C_ALLTOALL: case C_ALLTOALLV:
      if (k->kind == C_ALLTOALL || k->kind == C_ALLTOALLV || m == k->root) {
        const size_t n = k->parts.size();
        const long ext = p.stype->ub - p.stype->lb;
        p.scounts.resize(n, p.scount);
        if (p.sdispls.empty())
          for (size_t i = 0; i < n; ++i) p.sdispls.push_back(static_cast<int>(i) * p.scount);
        p.list.clear();
        for (size_t i = 0; i < n; ++i) {
          std::string d = pack(static_cast<const char*>(p.sbuf) + ext * p.sdispls[i], p.scounts[i], *p.stype);
          p.list.push_back(static_cast<int>(p.data.size()));
          p.data += d;
        }
        p.list.push_back(static_cast<int>(p.data.size()));
      }
      break;
    default: break;
  }
  if (k->nonblocking && !p.orig.empty() && p.orig != p.data)
    violate("mpi-buffer", "buffer of a pending non-blocking collective (%s) changed before completion on rank %d", k->name,
            k->cd->members[static_cast<size_t>(m)]);
  p.snapped = true;
  k->nSnapped++;
}

Coll* joinColl(CommData* cd, CollKind kind, const char* name, int root, bool nonblocking, Part&& p, int* myIdx) {
  int m = myRankIn(cd);
  *myIdx = m;
  uint64_t seq = cd->nextSeq[static_cast<size_t>(m)]++;
  Coll*& k = cd->colls[seq];
  if (!k) {
    k = new Coll;
    k->kind = kind;
    k->name = name;
    k->seq = seq;
    k->cd = cd;
    k->root = root;
    k->nonblocking = nonblocking;
    k->parts.resize(cd->members.size());
    S.n.colls++;
    k->sync = flip(K_COLL, S.sc->d("p_sync_coll", 0));
  } else {
    if (k->kind != kind) collMismatch(k, name, root, "different operations");
    if (k->root != root) collMismatch(k, name, root, "different roots");
    if (k->nonblocking != nonblocking) collMismatch(k, name, root, "blocking against non-blocking");
    for (auto& o : k->parts) {
      if (!o.joined) continue;
      if ((kind == C_BCAST || kind == C_ALLREDUCE || kind == C_REDUCE || kind == C_EXSCAN || kind == C_SCAN) && o.stype && p.stype) {
        size_t x = o.stype->size * static_cast<size_t>(o.scount), y = p.stype->size * static_cast<size_t>(p.scount);
        if (x != y) collMismatch(k, name, root, "sizes " + std::to_string(x) + " and " + std::to_string(y));
        if (kind != C_BCAST && (o.op->kind != p.op->kind || !o.op->fn != !p.op->fn)) collMismatch(k, name, root, "different reduction operators");
        if (o.stype->base != p.stype->base && kind != C_BCAST) collMismatch(k, name, root, "different types");
      }
      break;
    }
  }
  Part& mine = k->parts[static_cast<size_t>(m)];
  mine = std::move(p);
  mine.joined = true;
  k->nJoined++;
  return k;
}

static bool canFinish(Coll* k, int m) {
  const int n = static_cast<int>(k->parts.size());
  if (k->sync && k->nJoined < n) return false;
  Part& p = k->parts[static_cast<size_t>(m)];
  if (!p.snapped) return false;
  switch (k->kind) {
    case C_BCAST: case C_SCATTER: case C_SCATTERV:
      return k->parts[static_cast<size_t>(k->root)].snapped;
    case C_REDUCE: case C_GATHER: case C_GATHERV:
      return m == k->root ? k->nSnapped == n : true;
    case C_EXSCAN: case C_SCAN: {
      for (int i = 0; i < m; ++i)
        if (!k->parts[static_cast<size_t>(i)].snapped) return false;
      return true;
    }
    case C_FILEOP: case C_FILECLOSE: return true;
    default: return k->nSnapped == n;
  }
}

static void finishPart(Coll* k, int m) {
  Part& p = k->parts[static_cast<size_t>(m)];
  if (p.finished) return;
  p.finished = true;
  const size_t n = k->parts.size();
  switch (k->kind) {
    case C_BCAST:
      if (m != k->root) {
        auto& d = k->parts[static_cast<size_t>(k->root)].data;
        unpack(p.rbuf, p.scount, *p.stype, d.data(), d.size());
      }
      break;
    case C_REDUCE: case C_ALLREDUCE:
      if (k->kind == C_ALLREDUCE || m == k->root) {
        if (!k->haveResult) {
          std::vector<size_t> ord(n);
          std::iota(ord.begin(), ord.end(), 0);
          if (n > 1) {
            uint32_t v = decide(K_RED, static_cast<uint32_t>(2 * n), [&] {
              return S.rng.chance(S.sc->d("p_red_order", 0)) ? 1 + S.rng.below(static_cast<uint32_t>(2 * n - 1)) : 0u;
            }, -1);
            std::rotate(ord.begin(), ord.begin() + static_cast<long>(v % n), ord.end());
            if (v >= n) std::reverse(ord.begin(), ord.end());
          }
          k->result = k->parts[ord[0]].data;
          for (size_t i = 1; i < n; ++i) reduceInto(p, p.scount, p.stype, k->parts[ord[i]].data, k->result);
          k->haveResult = true;
        }
        unpack(p.rbuf, p.scount, *p.stype, k->result.data(), k->result.size());
      }
      break;
    case C_EXSCAN: case C_SCAN: {
      int last = k->kind == C_SCAN ? m : m - 1;
      if (last >= 0) {
        std::string acc = k->parts[0].data;
        for (int i = 1; i <= last; ++i) reduceInto(p, p.scount, p.stype, k->parts[static_cast<size_t>(i)].data, acc);
        unpack(p.rbuf, p.scount, *p.stype, acc.data(), acc.size());
      }
      break;
    }
    case C_GATHER: case C_GATHERV: case C_ALLGATHER: case C_ALLGATHERV:
      if (k->kind == C_ALLGATHER || k->kind == C_ALLGATHERV || m == k->root) {
        const long ext = p.rtype->ub - p.rtype->lb;
        const bool v = k->kind == C_GATHERV || k->kind == C_ALLGATHERV;
        for (size_t i = 0; i < n; ++i) {
          int cnt = v ? p.rcounts[i] : p.rcount;
          long off = v ? p.rdispls[i] : static_cast<long>(p.rcount) * static_cast<long>(i);
          auto& d = k->parts[i].data;
          if (d.size() > p.rtype->size * static_cast<size_t>(cnt)) {
            violate("mpi-usage", "%s: rank %zu contributes %zu bytes, receiver expects %zu", k->name, i, d.size(),
                    p.rtype->size * static_cast<size_t>(cnt));
          }
          size_t len = std::min(d.size(), p.rtype->size * static_cast<size_t>(cnt));
          unpack(static_cast<char*>(p.rbuf) + off * ext, cnt, *p.rtype, d.data(), len);
        }
      }
      break;
    case C_SCATTER: case C_SCATTERV: {
      auto& r = k->parts[static_cast<size_t>(k->root)];
      if (p.rbuf != MPI_IN_PLACE) {
        size_t a = static_cast<size_t>(r.list[static_cast<size_t>(m)]), b = static_cast<size_t>(r.list[static_cast<size_t>(m) + 1]);
        size_t cap = p.rtype->size * static_cast<size_t>(p.rcount);
        if (b - a > cap) violate("mpi-usage", "%s: %zu bytes for rank %d, buffer %zu", k->name, b - a, m, cap);
        unpack(p.rbuf, p.rcount, *p.rtype, r.data.data() + a, std::min(b - a, cap));
      }
      break;
    }
    case C_ALLTOALL: case C_ALLTOALLV: {
      const long ext = p.rtype->ub - p.rtype->lb;
      for (size_t i = 0; i < n; ++i) {
        auto& r = k->parts[i];
        size_t a = static_cast<size_t>(r.list[static_cast<size_t>(m)]), b = static_cast<size_t>(r.list[static_cast<size_t>(m) + 1]);
        int cnt = k->kind == C_ALLTOALLV ? p.rcounts[i] : p.rcount;
        long off = k->kind == C_ALLTOALLV ? p.rdispls[i] : static_cast<long>(p.rcount) * static_cast<long>(i);
        unpack(static_cast<char*>(p.rbuf) + off * ext, cnt, *p.rtype, r.data.data() + a, std::min(b - a, p.rtype->size * static_cast<size_t>(cnt)));
      }
      break;
    }
    default: break;
  }
  if (++k->nFinished == static_cast<int>(n)) {
    k->cd->colls.erase(k->seq);
    // the object stays alive for requests that still refer to it (runs are short)
  }
}

static int runColl(ompi_communicator_t* c, CollKind kind, const char* name, int root, Part&& p, Coll** out = nullptr) {
  int m;
  if (root >= 0) checkRank(c, root, false, name);
  Coll* k = joinColl(c->d, kind, name, root, false, std::move(p), &m);
  snapPart(k, m);
  blockUntil([k, m] { return canFinish(k, m); }, name, c->d->origin + "#" + std::to_string(k->seq));
  finishPart(k, m);
  if (out) *out = k;
  return m;
}
static ompi_request_t* startColl(ompi_communicator_t* c, CollKind kind, const char* name, int root, Part&& p) {
  int m;
  if (root >= 0) checkRank(c, root, false, name);
  Coll* k = joinColl(c->d, kind, name, root, true, std::move(p), &m);
  auto* q = newReq(3, name);
  q->coll = k;
  q->part = m;
  uint32_t v = decide(K_ICOLL, 4, [] {
    double pl = S.sc->d("p_late_read", 0);
    return (S.rng.chance(pl) ? 1u : 0u) | (S.rng.chance(pl) ? 2u : 0u);
  });
  if (v & 1) {
    // remember the contents to detect illegal modification
    Part& mine = k->parts[static_cast<size_t>(m)];
    if (kind == C_BCAST) { if (m == root) mine.orig = pack(mine.sbuf, mine.scount, *mine.stype); }
    else if (mine.stype) mine.orig = pack(mine.sbuf == MPI_IN_PLACE ? mine.rbuf : mine.sbuf, mine.scount, *mine.stype);
    addAction(me()->id, "read-coll-buffer", [k, m] { snapPart(k, m); });
  } else {
    snapPart(k, m);
  }
  if (!(v & 2)) {
    addAction(me()->id, "complete-coll", [k, m, q] { finishPart(k, m); q->done = true; },
              [k, m, q] { return q->done || canFinish(k, m); });
  }
  return q;
}

// ------------------------------------------------------------------ completion
static bool reqReady(ompi_request_t* q) {
  switch (q->kind) {
    case 1: return sendDone(q);
    case 2: return q->done || q->matched;
    case 3: return q->done || canFinish(q->coll, q->part);
    default: return true;
  }
}
static void reqFinish(ompi_request_t* q, MPI_Status* st) {
  if (q->kind == 2 && !q->done) {
    unpack(q->rbuf, q->count, *q->type, q->data.data(), q->data.size());
    q->done = true;
  }
  if (q->kind == 3 && !q->done) {
    finishPart(q->coll, q->part);
    q->done = true;
  }
  if (st && st != MPI_STATUS_IGNORE) *st = q->st;
  dropReq(q);
}
static void reqProgress(ompi_request_t* q) {
  if (q->kind == 1) snapSend(q);
  if (q->kind == 3) snapPart(q->coll, q->part);
}
static bool isNullReq(MPI_Request r) { return r == reinterpret_cast<MPI_Request>(&ompi_request_null); }
static bool validReq(MPI_Request r) {
  return r && me()->liveReqs.count(r);
}
static void badReq(const char* fn) {
  violate("mpi-usage", "%s on an invalid request on rank %d", fn, me()->id);
  abortWorld(me()->world, std::string("MPI_ERR_REQUEST in ") + fn);
  rankDie();
}
static int waitOne(MPI_Request* r, MPI_Status* st, const char* fn) {
  if (isNullReq(*r)) {
    if (st && st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; }
    return MPI_SUCCESS;
  }
  if (!validReq(*r)) badReq(fn);
  ompi_request_t* q = *r;
  reqProgress(q);
  blockUntil([q] { return reqReady(q); }, fn, q->what);
  reqFinish(q, st);
  *r = reinterpret_cast<MPI_Request>(&ompi_request_null);
  return MPI_SUCCESS;
}

void mpiRankDead(Rank* r) {
  if (static_cast<size_t>(r->id) < posted.size()) posted[static_cast<size_t>(r->id)].clear();
}

void mpiFinalChecks() {
  for (size_t g = 0; g < inbox.size(); ++g) {
    auto* w = S.ranks[g]->world;
    if (w->aborted || w->crashed) continue;
    for (Msg* m : inbox[g])
      if (!m->matched) {
        violate("mpi-leftover", "message from rank %d to rank %d with tag %d was never received", m->gsrc, m->gdst, m->tag);
        break;
      }
    if (!posted[g].empty()) violate("mpi-leftover", "receive posted on rank %zu was never completed", g);
  }
  for (auto* r : S.ranks) {
    if (r->world->aborted || r->world->crashed) continue;
    for (auto* q : r->liveReqs) {
      if (q->kind != 0) {
        violate("mpi-leftover", "request of %s on rank %d was never completed", q->what, r->id);
        break;
      }
    }
  }
}
static Part mkRed(const void* s, void* r, int count, MPI_Datatype dt, MPI_Op op) {
  Part p;
  p.sbuf = s; p.rbuf = r; p.scount = count; p.stype = ty(dt); p.op = op;
  if (op && op->freed) violate("mpi-usage", "freed reduction operator used");
  return p;
}
}  // namespace sim

// ================================================================== C API
#define ENTER(name) mpiEnter(name)
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int required, int* provided) { *provided = required; return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Finalize(void) { ENTER("MPI_Finalize"); return MPI_SUCCESS; }
double MPI_Wtime(void) { return static_cast<double>(S.now) * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) {
  abortWorld(me()->world, "MPI_Abort(" + std::to_string(code) + ")");
  rankDie();
}
int MPI_Error_string(int e, char* s, int* l) {
  const char* t = "MPI error";
  switch (e) {
    case MPI_SUCCESS: t = "MPI_SUCCESS: no errors"; break;
    case MPI_ERR_FILE_EXISTS: t = "MPI_ERR_FILE_EXISTS: file exists"; break;
    case MPI_ERR_NO_SUCH_FILE: t = "MPI_ERR_NO_SUCH_FILE: no such file or directory"; break;
    case MPI_ERR_NO_SPACE: t = "MPI_ERR_NO_SPACE: not enough space"; break;
    case MPI_ERR_IO: t = "MPI_ERR_IO: input/output error"; break;
    case MPI_ERR_FILE: t = "MPI_ERR_FILE: invalid file"; break;
    default: break;
  }
  strcpy(s, t);
  *l = static_cast<int>(strlen(t));
  return MPI_SUCCESS;
}
int MPI_Error_class(int e, int* c) { *c = e; return MPI_SUCCESS; }

int MPI_Comm_rank(MPI_Comm c, int* r) { *r = resolve(c, "MPI_Comm_rank")->myrank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = static_cast<int>(resolve(c, "MPI_Comm_size")->d->members.size()); return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler* e) { *e = MPI_ERRORS_ARE_FATAL; return MPI_SUCCESS; }
int MPI_Errhandler_free(MPI_Errhandler*) { return MPI_SUCCESS; }
int MPI_Comm_set_name(MPI_Comm, const char*) { return MPI_SUCCESS; }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res) {
  auto *x = resolve(a, "MPI_Comm_compare"), *y = resolve(b, "MPI_Comm_compare");
  if (x->d == y->d) *res = MPI_IDENT;
  else if (x->d->members == y->d->members) *res = MPI_CONGRUENT;
  else {
    auto s = x->d->members, t = y->d->members;
    std::sort(s.begin(), s.end());
    std::sort(t.begin(), t.end());
    *res = s == t ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { *g = new ompi_group_t{resolve(c, "MPI_Comm_group")->d->members}; return MPI_SUCCESS; }
int MPI_Group_incl(MPI_Group g, int n, const int* ranks, MPI_Group* out) {
  auto* o = new ompi_group_t;
  for (int i = 0; i < n; ++i) {
    if (ranks[i] < 0 || ranks[i] >= static_cast<int>(g->members.size())) {
      violate("mpi-usage", "MPI_Group_incl: invalid rank %d", ranks[i]);
      abortWorld(me()->world, "MPI_ERR_RANK in MPI_Group_incl");
      rankDie();
    }
    o->members.push_back(g->members[static_cast<size_t>(ranks[i])]);
  }
  *out = o;
  return MPI_SUCCESS;
}
int MPI_Group_excl(MPI_Group g, int n, const int* ranks, MPI_Group* out) {
  auto* o = new ompi_group_t;
  for (int i = 0; i < static_cast<int>(g->members.size()); ++i)
    if (std::find(ranks, ranks + n, i) == ranks + n) o->members.push_back(g->members[static_cast<size_t>(i)]);
  *out = o;
  return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_size(MPI_Group g, int* n) { *n = static_cast<int>(g->members.size()); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group g, int* r) {
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < g->members.size(); ++i)
    if (g->members[i] == me()->id) *r = static_cast<int>(i);
  return MPI_SUCCESS;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* ra, MPI_Group b, int* rb) {
  for (int i = 0; i < n; ++i) {
    rb[i] = MPI_UNDEFINED;
    for (size_t j = 0; j < b->members.size(); ++j)
      if (b->members[j] == a->members[static_cast<size_t>(ra[i])]) rb[i] = static_cast<int>(j);
  }
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c) {
  ENTER("MPI_Comm_free");
  auto* h = resolve(*c, "MPI_Comm_free");
  h->freed = true;
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
static MPI_Comm takeNew(CommData* d) {
  return d ? handleFor(d, me()->id) : MPI_COMM_NULL;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) {
  ENTER("MPI_Comm_split");
  auto* h = resolve(c, "MPI_Comm_split");
  Part p;
  p.a = color;
  p.b = key;
  Coll* k;
  int m = runColl(h, C_SPLIT, "MPI_Comm_split", -1, std::move(p), &k);
  if (!k->haveResult) {
    k->haveResult = true;
    std::map<int, std::vector<int>> byColor;
    for (size_t i = 0; i < k->parts.size(); ++i)
      if (k->parts[i].a != MPI_UNDEFINED) byColor[k->parts[i].a].push_back(static_cast<int>(i));
    for (auto& kv : byColor) {
      std::stable_sort(kv.second.begin(), kv.second.end(), [&](int x, int y) { return k->parts[static_cast<size_t>(x)].b < k->parts[static_cast<size_t>(y)].b; });
      std::vector<int> mem;
      for (int i : kv.second) mem.push_back(h->d->members[static_cast<size_t>(i)]);
      auto* d = newCommData(mem, "split");
      for (int i : kv.second) k->newComms[i] = d;
    }
  }
  *out = takeNew(k->newComms.count(m) ? k->newComms[m] : nullptr);
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) {
  ENTER("MPI_Comm_dup");
  auto* h = resolve(c, "MPI_Comm_dup");
  Coll* k;
  runColl(h, C_DUP, "MPI_Comm_dup", -1, Part(), &k);
  if (!k->haveResult) {
    k->haveResult = true;
    auto* d = newCommData(h->d->members, "dup");
    d->dims = h->d->dims;
    d->periods = h->d->periods;
    k->newComms[0] = d;
  }
  *out = takeNew(k->newComms[0]);
  return MPI_SUCCESS;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) {
  ENTER("MPI_Comm_create");
  auto* h = resolve(c, "MPI_Comm_create");
  Part p;
  p.list = g->members;
  Coll* k;
  int m = runColl(h, C_CREATE, "MPI_Comm_create", -1, std::move(p), &k);
  (void)m;
  // all members of one group must pass the same group; disjoint groups give disjoint communicators
  CommData* d = nullptr;
  if (std::find(g->members.begin(), g->members.end(), me()->id) != g->members.end()) {
    for (auto& kv : k->newComms)
      if (kv.second->members == g->members) d = kv.second;
    if (!d) {
      for (size_t i = 0; i < k->parts.size(); ++i) {
        int gi = h->d->members[i];
        if (std::find(g->members.begin(), g->members.end(), gi) != g->members.end() && k->parts[i].list != g->members) {
          violate("mpi-collective", "MPI_Comm_create: ranks %d and %d pass different groups", me()->id, gi);
          S.stop = true;
          rankDie();
        }
      }
      d = newCommData(g->members, "create");
      k->newComms[static_cast<int>(k->newComms.size())] = d;
    }
  }
  *out = takeNew(d);
  return MPI_SUCCESS;
}
// ---- cartesian
int MPI_Cart_create(MPI_Comm c, int ndims, const int* dims, const int* periods, int, MPI_Comm* out) {
  ENTER("MPI_Cart_create");
  auto* h = resolve(c, "MPI_Cart_create");
  Part p;
  p.list.assign(dims, dims + ndims);
  p.list2.assign(periods, periods + ndims);
  Coll* k;
  int m = runColl(h, C_CART, "MPI_Cart_create", -1, std::move(p), &k);
  for (auto& o : k->parts)
    if (o.list != k->parts[0].list || o.list2 != k->parts[0].list2) {
      violate("mpi-collective", "MPI_Cart_create with different topologies");
      S.stop = true;
      rankDie();
    }
  long n = 1;
  for (int i = 0; i < ndims; ++i) n *= dims[i];
  if (n > static_cast<long>(h->d->members.size())) {
    violate("mpi-usage", "MPI_Cart_create: %ld processes needed, %zu present", n, h->d->members.size());
    abortWorld(me()->world, "MPI_ERR_DIMS");
    rankDie();
  }
  if (!k->haveResult) {
    k->haveResult = true;
    auto* d = newCommData(std::vector<int>(h->d->members.begin(), h->d->members.begin() + n), "cart");
    d->dims.assign(dims, dims + ndims);
    d->periods.assign(periods, periods + ndims);
    k->newComms[0] = d;
  }
  *out = m < n ? takeNew(k->newComms[0]) : MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Topo_test(MPI_Comm c, int* s) { *s = resolve(c, "MPI_Topo_test")->d->dims.empty() ? MPI_UNDEFINED : MPI_CART; return MPI_SUCCESS; }
int MPI_Cartdim_get(MPI_Comm c, int* n) { *n = static_cast<int>(resolve(c, "MPI_Cartdim_get")->d->dims.size()); return MPI_SUCCESS; }
static void rankToCoords(CommData* d, int r, int* co) {
  for (int i = static_cast<int>(d->dims.size()) - 1; i >= 0; --i) {
    co[i] = r % d->dims[static_cast<size_t>(i)];
    r /= d->dims[static_cast<size_t>(i)];
  }
}
int MPI_Cart_coords(MPI_Comm c, int r, int maxd, int* co) {
  auto* h = resolve(c, "MPI_Cart_coords");
  std::vector<int> t(h->d->dims.size());
  rankToCoords(h->d, r, t.data());
  for (int i = 0; i < maxd && i < static_cast<int>(t.size()); ++i) co[i] = t[static_cast<size_t>(i)];
  return MPI_SUCCESS;
}
int MPI_Cart_get(MPI_Comm c, int maxd, int* dims, int* per, int* co) {
  auto* h = resolve(c, "MPI_Cart_get");
  for (int i = 0; i < maxd && i < static_cast<int>(h->d->dims.size()); ++i) {
    dims[i] = h->d->dims[static_cast<size_t>(i)];
    per[i] = h->d->periods[static_cast<size_t>(i)];
  }
  return MPI_Cart_coords(c, h->myrank, maxd, co);
}
int MPI_Cart_rank(MPI_Comm c, const int* co, int* r) {
  auto* h = resolve(c, "MPI_Cart_rank");
  int x = 0;
  for (size_t i = 0; i < h->d->dims.size(); ++i) {
    int v = co[i], n = h->d->dims[i];
    if (v < 0 || v >= n) {
      if (!h->d->periods[i]) {
        violate("mpi-usage", "MPI_Cart_rank: coordinate out of range");
        abortWorld(me()->world, "MPI_ERR_ARG in MPI_Cart_rank");
        rankDie();
      }
      v = ((v % n) + n) % n;
    }
    x = x * n + v;
  }
  *r = x;
  return MPI_SUCCESS;
}
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int* src, int* dst) {
  auto* h = resolve(c, "MPI_Cart_shift");
  std::vector<int> co(h->d->dims.size());
  rankToCoords(h->d, h->myrank, co.data());
  auto at = [&](int delta) {
    auto x = co;
    int n = h->d->dims[static_cast<size_t>(dir)];
    int v = x[static_cast<size_t>(dir)] + delta;
    if (v < 0 || v >= n) {
      if (!h->d->periods[static_cast<size_t>(dir)]) return MPI_PROC_NULL;
      v = ((v % n) + n) % n;
    }
    x[static_cast<size_t>(dir)] = v;
    int r = 0;
    for (size_t i = 0; i < x.size(); ++i) r = r * h->d->dims[i] + x[i];
    return r;
  };
  *src = at(-disp);
  *dst = at(disp);
  return MPI_SUCCESS;
}
int MPI_Cart_sub(MPI_Comm c, const int* remain, MPI_Comm* out) {
  auto* h = resolve(c, "MPI_Cart_sub");
  std::vector<int> co(h->d->dims.size());
  rankToCoords(h->d, h->myrank, co.data());
  int color = 0, key = 0;
  std::vector<int> nd, np;
  for (size_t i = 0; i < co.size(); ++i) {
    if (remain[i]) { key = key * h->d->dims[i] + co[i]; nd.push_back(h->d->dims[i]); np.push_back(h->d->periods[i]); }
    else color = color * h->d->dims[i] + co[i];
  }
  int e = MPI_Comm_split(c, color, key, out);
  (*out)->d->dims = nd;
  (*out)->d->periods = np;
  return e;
}
int MPI_Dims_create(int n, int nd, int* dims) {
  for (int i = 0; i < nd; ++i) if (dims[i] == 0) dims[i] = 1;
  int prod = 1;
  for (int i = 0; i < nd; ++i) prod *= dims[i];
  if (nd) dims[0] *= n / prod;
  return MPI_SUCCESS;
}
// ---- p2p
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Isend");
  *r = isend(b, n, t, d, tag, resolve(c, "MPI_Isend"), false, "MPI_Isend");
  return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Issend");
  *r = isend(b, n, t, d, tag, resolve(c, "MPI_Issend"), true, "MPI_Issend");
  return MPI_SUCCESS;
}
static int sendImpl(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, bool sync, const char* fn) {
  auto* h = resolve(c, fn);
  auto tt = ty(t);
  checkRank(h, d, false, fn);
  if (d == MPI_PROC_NULL) return MPI_SUCCESS;
  Msg* m = makeMsg(h, d, tag, tt->base);
  m->data = pack(b, n, *tt);
  post(m);
  if (sync || flip(K_SEND, S.sc->d("p_sync_send", 0)))
    blockUntil([m] { return m->matched; }, fn, "to " + std::to_string(m->gdst) + " tag " + std::to_string(tag));
  return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Send");
  return sendImpl(b, n, t, d, tag, c, false, "MPI_Send");
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Ssend");
  return sendImpl(b, n, t, d, tag, c, true, "MPI_Ssend");
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Irecv");
  bool late = flip(K_IRECV, S.sc->d("p_late_write", 0));
  *r = irecv(b, n, t, s, tag, resolve(c, "MPI_Irecv"), late, "MPI_Irecv");
  return MPI_SUCCESS;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  ENTER("MPI_Recv");
  auto* q = irecv(b, n, t, s, tag, resolve(c, "MPI_Recv"), false, "MPI_Recv");
  blockUntil([q] { return q->done; }, "MPI_Recv", "from " + std::to_string(s) + " tag " + std::to_string(tag));
  reqFinish(q, st);
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag,
                 MPI_Comm c, MPI_Status* st) {
  ENTER("MPI_Sendrecv");
  auto* h = resolve(c, "MPI_Sendrecv");
  auto* rq = irecv(rb, rn, rt, s, rtag, h, false, "MPI_Sendrecv");
  auto* sq = isend(sb, sn, stt, d, stag, h, false, "MPI_Sendrecv");
  snapSend(sq);
  blockUntil([rq, sq] { return rq->done && sendDone(sq); }, "MPI_Sendrecv");
  reqFinish(sq, nullptr);
  reqFinish(rq, st);
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) { ENTER("MPI_Wait"); return waitOne(r, st, "MPI_Wait"); }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  ENTER("MPI_Waitall");
  for (int i = 0; i < n; ++i)
    if (!isNullReq(r[i])) { if (!validReq(r[i])) badReq("MPI_Waitall"); reqProgress(r[i]); }
  for (int i = 0; i < n; ++i) waitOne(&r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i], "MPI_Waitall");
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) {
  ENTER("MPI_Test");
  if (isNullReq(*r)) { *f = 1; return MPI_SUCCESS; }
  if (!validReq(*r)) badReq("MPI_Test");
  reqProgress(*r);
  if (reqReady(*r) && !flip(K_TEST, S.sc->d("p_not_yet", 0))) {
    reqFinish(*r, st);
    *r = MPI_REQUEST_NULL;
    *f = 1;
  } else {
    *f = 0;
    spinYield("MPI_Test");
  }
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) {
  ENTER("MPI_Testall");
  bool all = true;
  for (int i = 0; i < n; ++i)
    if (!isNullReq(r[i])) { if (!validReq(r[i])) badReq("MPI_Testall"); reqProgress(r[i]); all = all && reqReady(r[i]); }
  if (all && !flip(K_TEST, S.sc->d("p_not_yet", 0))) {
    for (int i = 0; i < n; ++i) waitOne(&r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i], "MPI_Testall");
    *f = 1;
  } else { *f = 0; spinYield("MPI_Testall"); }
  return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
  ENTER("MPI_Waitany");
  bool any = false;
  for (int i = 0; i < n; ++i)
    if (!isNullReq(r[i])) { any = true; if (!validReq(r[i])) badReq("MPI_Waitany"); reqProgress(r[i]); }
  *idx = MPI_UNDEFINED;
  if (!any) return MPI_SUCCESS;
  auto ready = [n, r] { std::vector<int> v; for (int i = 0; i < n; ++i) if (!isNullReq(r[i]) && reqReady(r[i])) v.push_back(i); return v; };
  blockUntil([&] { return !ready().empty(); }, "MPI_Waitany");
  auto v = ready();
  uint32_t c = decide(K_ANYSRC, static_cast<uint32_t>(v.size()), [&] { return S.rng.below(static_cast<uint32_t>(v.size())); });
  *idx = v[c];
  reqFinish(r[v[c]], st);
  r[v[c]] = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* f, MPI_Status* st) {
  ENTER("MPI_Testany");
  *idx = MPI_UNDEFINED;
  *f = 0;
  bool any = false;
  for (int i = 0; i < n; ++i)
    if (!isNullReq(r[i])) {
      any = true;
      reqProgress(r[i]);
      if (reqReady(r[i])) { reqFinish(r[i], st); r[i] = MPI_REQUEST_NULL; *idx = i; *f = 1; return MPI_SUCCESS; }
    }
  if (!any) { *f = 1; return MPI_SUCCESS; }
  spinYield("MPI_Testany");
  return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request* r) {
  ENTER("MPI_Request_free");
  if (isNullReq(*r) || !validReq(*r)) badReq("MPI_Request_free");
  // the operation completes by itself; the buffer must stay untouched until then (its reader is an action)
  dropReq(*r);
  *r = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int MPI_Cancel(MPI_Request*) { return MPI_SUCCESS; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) {
  ENTER("MPI_Probe");
  auto* h = resolve(c, "MPI_Probe");
  checkRank(h, s, true, "MPI_Probe");
  int g = me()->id, ctx = h->d->id;
  std::vector<Msg*> cand;
  blockUntil([&cand, g, ctx, s, tag] { candidates(g, ctx, s, tag, cand); return !cand.empty(); }, "MPI_Probe",
             "from " + std::to_string(s) + " tag " + std::to_string(tag));
  candidates(g, ctx, s, tag, cand);
  uint32_t v = cand.size() > 1 ? decide(K_ANYSRC, static_cast<uint32_t>(cand.size()), [&] { return S.rng.below(static_cast<uint32_t>(cand.size())); }) : 0;
  if (st && st != MPI_STATUS_IGNORE) {
    memset(st, 0, sizeof *st);
    st->MPI_SOURCE = cand[v]->src;
    st->MPI_TAG = cand[v]->tag;
    st->_ucount = cand[v]->data.size();
  }
  return MPI_SUCCESS;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) {
  ENTER("MPI_Iprobe");
  auto* h = resolve(c, "MPI_Iprobe");
  std::vector<Msg*> cand;
  candidates(me()->id, h->d->id, s, tag, cand);
  *f = !cand.empty() && !flip(K_TEST, S.sc->d("p_not_yet", 0));
  if (*f) {
    uint32_t v = cand.size() > 1 ? decide(K_ANYSRC, static_cast<uint32_t>(cand.size()), [&] { return S.rng.below(static_cast<uint32_t>(cand.size())); }) : 0;
    if (st && st != MPI_STATUS_IGNORE) {
      memset(st, 0, sizeof *st);
      st->MPI_SOURCE = cand[v]->src;
      st->MPI_TAG = cand[v]->tag;
      st->_ucount = cand[v]->data.size();
    }
  } else {
    spinYield("MPI_Iprobe");
  }
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
  auto tt = ty(t);
  *n = tt->size == 0 ? 0 : (st->_ucount % tt->size ? MPI_UNDEFINED : static_cast<int>(st->_ucount / tt->size));
  return MPI_SUCCESS;
}
// ---- collectives
int MPI_Barrier(MPI_Comm c) { ENTER("MPI_Barrier"); runColl(resolve(c, "MPI_Barrier"), C_BARRIER, "MPI_Barrier", -1, Part()); return MPI_SUCCESS; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) { ENTER("MPI_Ibarrier"); *r = startColl(resolve(c, "MPI_Ibarrier"), C_BARRIER, "MPI_Ibarrier", -1, Part()); return MPI_SUCCESS; }
static Part mkBcast(void* b, int n, MPI_Datatype t) { Part p; p.sbuf = b; p.rbuf = b; p.scount = n; p.stype = ty(t); return p; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { ENTER("MPI_Bcast"); runColl(resolve(c, "MPI_Bcast"), C_BCAST, "MPI_Bcast", root, mkBcast(b, n, t)); return MPI_SUCCESS; }
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) { ENTER("MPI_Ibcast"); *r = startColl(resolve(c, "MPI_Ibcast"), C_BCAST, "MPI_Ibcast", root, mkBcast(b, n, t)); return MPI_SUCCESS; }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Allreduce"); runColl(resolve(c, "MPI_Allreduce"), C_ALLREDUCE, "MPI_Allreduce", -1, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) { ENTER("MPI_Iallreduce"); *q = startColl(resolve(c, "MPI_Iallreduce"), C_ALLREDUCE, "MPI_Iallreduce", -1, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { ENTER("MPI_Reduce"); runColl(resolve(c, "MPI_Reduce"), C_REDUCE, "MPI_Reduce", root, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
int MPI_Ireduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* q) { ENTER("MPI_Ireduce"); *q = startColl(resolve(c, "MPI_Ireduce"), C_REDUCE, "MPI_Ireduce", root, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Exscan"); runColl(resolve(c, "MPI_Exscan"), C_EXSCAN, "MPI_Exscan", -1, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { ENTER("MPI_Scan"); runColl(resolve(c, "MPI_Scan"), C_SCAN, "MPI_Scan", -1, mkRed(s, r, n, t, op)); return MPI_SUCCESS; }
static Part mkG(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, const int* rc, const int* rd, size_t n) {
  Part p;
  p.sbuf = s; p.scount = sn; p.stype = s == MPI_IN_PLACE ? nullptr : ty(st);
  p.rbuf = r; p.rcount = rn; if (rt && rt->t) p.rtype = rt->t;
  if (rc) p.rcounts.assign(rc, rc + n);
  if (rd) p.rdispls.assign(rd, rd + n);
  return p;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Gather");
  auto* h = resolve(c, "MPI_Gather");
  runColl(h, C_GATHER, "MPI_Gather", root, mkG(s, sn, st, r, rn, rt, nullptr, nullptr, 0));
  return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Gatherv");
  auto* h = resolve(c, "MPI_Gatherv");
  bool isRoot = h->myrank == root;
  runColl(h, C_GATHERV, "MPI_Gatherv", root, mkG(s, sn, st, r, 0, rt, isRoot ? rc : nullptr, isRoot ? rd : nullptr, h->d->members.size()));
  return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Allgather");
  runColl(resolve(c, "MPI_Allgather"), C_ALLGATHER, "MPI_Allgather", -1, mkG(s, sn, st, r, rn, rt, nullptr, nullptr, 0));
  return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Allgatherv");
  auto* h = resolve(c, "MPI_Allgatherv");
  runColl(h, C_ALLGATHERV, "MPI_Allgatherv", -1, mkG(s, sn, st, r, 0, rt, rc, rd, h->d->members.size()));
  return MPI_SUCCESS;
}
static Part mkS(const void* s, int sn, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, bool root, size_t n) {
  Part p;
  if (root) {
    p.sbuf = s; p.scount = sn; p.stype = ty(st);
    if (sc) p.scounts.assign(sc, sc + n);
    if (sd) p.sdispls.assign(sd, sd + n);
  }
  p.rbuf = r; p.rcount = rn; if (r != MPI_IN_PLACE) p.rtype = ty(rt);
  return p;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Scatter");
  auto* h = resolve(c, "MPI_Scatter");
  runColl(h, C_SCATTER, "MPI_Scatter", root, mkS(s, sn, nullptr, nullptr, st, r, rn, rt, h->myrank == root, h->d->members.size()));
  return MPI_SUCCESS;
}
int MPI_Scatterv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Scatterv");
  auto* h = resolve(c, "MPI_Scatterv");
  runColl(h, C_SCATTERV, "MPI_Scatterv", root, mkS(s, 0, sc, sd, st, r, rn, rt, h->myrank == root, h->d->members.size()));
  return MPI_SUCCESS;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Alltoall");
  auto* h = resolve(c, "MPI_Alltoall");
  runColl(h, C_ALLTOALL, "MPI_Alltoall", -1, mkS(s, sn, nullptr, nullptr, st, r, rn, rt, true, h->d->members.size()));
  return MPI_SUCCESS;
}
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Alltoallv");
  auto* h = resolve(c, "MPI_Alltoallv");
  Part p = mkS(s, 0, sc, sd, st, r, 0, rt, true, h->d->members.size());
  p.rcounts.assign(rc, rc + h->d->members.size());
  p.rdispls.assign(rd, rd + h->d->members.size());
  runColl(h, C_ALLTOALLV, "MPI_Alltoallv", -1, std::move(p));
  return MPI_SUCCESS;
}
// ---- ops, types
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* op) { *op = new ompi_op_t{100, f, false}; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op* op) { (*op)->freed = true; *op = MPI_OP_NULL; return MPI_SUCCESS; }
int MPI_Reduce_local(const void* in, void* io, int n, MPI_Datatype t, MPI_Op op) {
  Part p; p.op = op;
  auto tt = ty(t);
  std::string acc = pack(io, n, *tt);
  reduceInto(p, n, tt, pack(in, n, *tt), acc);
  unpack(io, n, *tt, acc.data(), acc.size());
  return MPI_SUCCESS;
}
static MPI_Datatype mkType(const std::shared_ptr<TypeImpl>& o, std::vector<std::pair<long, size_t>> elemOffsets, int combiner) {
  // elemOffsets: (byte offset, number of consecutive old elements)
  auto t = std::make_shared<TypeImpl>();
  t->base = o->base;
  t->baseSize = o->baseSize;
  t->combiner = combiner;
  const long ext = o->ub - o->lb;
  bool first = true;
  for (auto& e : elemOffsets) {
    for (size_t i = 0; i < e.second; ++i) {
      for (auto& b : o->blocks) {
        long off = e.first + static_cast<long>(i) * ext + b.first;
        if (!t->blocks.empty() && t->blocks.back().first + static_cast<long>(t->blocks.back().second) == off) t->blocks.back().second += b.second;
        else t->blocks.push_back({off, b.second});
        t->size += b.second;
      }
    }
    if (e.second) {
      long lo = e.first + o->lb, hi = e.first + static_cast<long>(e.second - 1) * ext + o->ub;
      if (first) { t->lb = lo; t->ub = hi; first = false; }
      else { t->lb = std::min(t->lb, lo); t->ub = std::max(t->ub, hi); }
    }
  }
  return new ompi_datatype_t{t};
}
int MPI_Type_commit(MPI_Datatype* t) { (*t)->t->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) {
  if (!*t || !(*t)->t || (*t)->t->predefined) { violate("mpi-usage", "MPI_Type_free on an invalid type"); return MPI_ERR_TYPE; }
  (*t)->t.reset();
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* n) { *n = static_cast<int>(ty(t)->size); return MPI_SUCCESS; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { auto x = ty(t); *lb = x->lb; *e = x->ub - x->lb; return MPI_SUCCESS; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { return MPI_Type_get_extent(t, lb, e); }
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype* n) { *n = new ompi_datatype_t{std::make_shared<TypeImpl>(*ty(o))}; (*n)->t->predefined = false; return MPI_SUCCESS; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* out) {
  *out = mkType(ty(o), {{0, static_cast<size_t>(n)}}, MPI_COMBINER_CONTIGUOUS);
  (*out)->t->ints = {n};
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype* out) {
  auto t = ty(o);
  std::vector<std::pair<long, size_t>> v;
  for (int i = 0; i < n; ++i) v.push_back({static_cast<long>(i) * stride * (t->ub - t->lb), static_cast<size_t>(bl)});
  *out = mkType(t, v, MPI_COMBINER_VECTOR);
  (*out)->t->ints = {n, bl, stride};
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_indexed(int n, const int* bl, const int* di, MPI_Datatype o, MPI_Datatype* out) {
  auto t = ty(o);
  std::vector<std::pair<long, size_t>> v;
  for (int i = 0; i < n; ++i) v.push_back({static_cast<long>(di[i]) * (t->ub - t->lb), static_cast<size_t>(bl[i])});
  *out = mkType(t, v, MPI_COMBINER_INDEXED);
  auto& ints = (*out)->t->ints;
  ints.push_back(n);
  ints.insert(ints.end(), bl, bl + n);
  ints.insert(ints.end(), di, di + n);
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* di, MPI_Datatype o, MPI_Datatype* out) {
  std::vector<std::pair<long, size_t>> v;
  for (int i = 0; i < n; ++i) v.push_back({di[i], static_cast<size_t>(bl[i])});
  *out = mkType(ty(o), v, MPI_COMBINER_HINDEXED);
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_create_indexed_block(int n, int bl, const int* di, MPI_Datatype o, MPI_Datatype* out) {
  auto t = ty(o);
  std::vector<std::pair<long, size_t>> v;
  for (int i = 0; i < n; ++i) v.push_back({static_cast<long>(di[i]) * (t->ub - t->lb), static_cast<size_t>(bl)});
  *out = mkType(t, v, MPI_COMBINER_INDEXED_BLOCK);
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint* di, MPI_Datatype o, MPI_Datatype* out) {
  std::vector<std::pair<long, size_t>> v;
  for (int i = 0; i < n; ++i) v.push_back({di[i], static_cast<size_t>(bl)});
  *out = mkType(ty(o), v, MPI_COMBINER_HINDEXED_BLOCK);
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* out) {
  *out = new ompi_datatype_t{std::make_shared<TypeImpl>(*ty(o))};
  (*out)->t->predefined = false;
  (*out)->t->lb = lb;
  (*out)->t->ub = lb + ext;
  return MPI_SUCCESS;
}
int MPI_Type_create_subarray(int nd, const int* sizes, const int* sub, const int* starts, int order, MPI_Datatype o, MPI_Datatype* out) {
  auto t = ty(o);
  const long ext = t->ub - t->lb;
  std::vector<int> idx(static_cast<size_t>(nd));
  std::vector<int> dimOrder;  // fastest first
  for (int i = 0; i < nd; ++i) dimOrder.push_back(order == MPI_ORDER_C ? nd - 1 - i : i);
  std::vector<std::pair<long, size_t>> v;
  long total = 1;
  for (int i = 0; i < nd; ++i) {
    total *= sizes[i];
    if (sub[i] < 1 || starts[i] < 0 || starts[i] + sub[i] > sizes[i]) {
      violate("mpi-usage", "MPI_Type_create_subarray: invalid sub-array on rank %d", me() ? me()->id : -1);
      abortWorld(me()->world, "MPI_ERR_ARG in MPI_Type_create_subarray");
      rankDie();
    }
  }
  bool done = false;
  while (!done) {
    long off = 0, stride = 1;
    for (int k = 0; k < nd; ++k) {
      int d = dimOrder[static_cast<size_t>(k)];
      off += (starts[d] + (k == 0 ? 0 : idx[static_cast<size_t>(d)])) * stride;
      stride *= sizes[d];
    }
    v.push_back({off * ext, static_cast<size_t>(sub[dimOrder[0]])});
    int k = 1;
    for (; k < nd; ++k) {
      int d = dimOrder[static_cast<size_t>(k)];
      if (++idx[static_cast<size_t>(d)] < sub[d]) break;
      idx[static_cast<size_t>(d)] = 0;
    }
    done = k >= nd;
  }
  *out = mkType(t, v, MPI_COMBINER_SUBARRAY);
  (*out)->t->lb = 0;
  (*out)->t->ub = total * ext;
  (*out)->t->types = {o};
  return MPI_SUCCESS;
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* di, const MPI_Datatype* ts, MPI_Datatype* out) {
  auto t = std::make_shared<TypeImpl>();
  t->base = B_MIXED;
  t->combiner = MPI_COMBINER_STRUCT;
  for (int i = 0; i < n; ++i) {
    auto o = ty(ts[i]);
    for (int j = 0; j < bl[i]; ++j)
      for (auto& b : o->blocks) { t->blocks.push_back({di[i] + j * (o->ub - o->lb) + b.first, b.second}); t->size += b.second; }
    t->ub = std::max(t->ub, static_cast<long>(di[i] + bl[i] * (o->ub - o->lb)));
  }
  *out = new ompi_datatype_t{t};
  return MPI_SUCCESS;
}
int MPI_Type_get_envelope(MPI_Datatype t, int* ni, int* na, int* nt, int* comb) {
  auto x = ty(t);
  *ni = static_cast<int>(x->ints.size());
  *na = static_cast<int>(x->addrs.size());
  *nt = static_cast<int>(x->types.size());
  *comb = x->combiner;
  return MPI_SUCCESS;
}
int MPI_Type_get_contents(MPI_Datatype t, int mi, int ma, int mt, int* i, MPI_Aint* a, MPI_Datatype* d) {
  auto x = ty(t);
  for (int k = 0; k < mi && k < static_cast<int>(x->ints.size()); ++k) i[k] = x->ints[static_cast<size_t>(k)];
  for (int k = 0; k < ma && k < static_cast<int>(x->addrs.size()); ++k) a[k] = x->addrs[static_cast<size_t>(k)];
  for (int k = 0; k < mt && k < static_cast<int>(x->types.size()); ++k) d[k] = x->types[static_cast<size_t>(k)];
  return MPI_SUCCESS;
}
int MPI_Get_address(const void* p, MPI_Aint* a) { *a = reinterpret_cast<MPI_Aint>(p); return MPI_SUCCESS; }
int MPI_Info_create(MPI_Info* i) { *i = new ompi_info_t; return MPI_SUCCESS; }
int MPI_Info_set(MPI_Info i, const char* k, const char* v) { i->kv[k] = v; return MPI_SUCCESS; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return MPI_SUCCESS; }
int MPI_Comm_set_info(MPI_Comm, MPI_Info) { return MPI_SUCCESS; }
}
