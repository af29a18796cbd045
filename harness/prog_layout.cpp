// Sets the communication layout up again and again and compares every communicator and role with the definition.
#include <algorithm>
#include <numeric>
#include <sstream>

#include "common.hpp"

namespace harness {

static std::vector<long> fields(const std::string& op) {
  std::vector<long> r;
  std::istringstream is(op);
  std::string tok;
  std::getline(is, tok, ':');
  while (std::getline(is, tok, ':')) r.push_back(std::stol(tok));
  return r;
}

static std::string show(const std::vector<int>& v) {
  std::string r = "[";
  for (int x : v) r += (r.size() > 1 ? " " : "") + std::to_string(x);
  return r + "]";
}

// members of a communicator, in its order, as ranks of the layout's world
static std::vector<int> members(MPI_Comm c, int me) {
  if (c == MPI_COMM_NULL) return {};
  std::vector<int> r(static_cast<size_t>(getCommSize(c)), -7);
  MPI_Allgather(&me, 1, MPI_INT, r.data(), 1, MPI_INT, c);
  if (r[static_cast<size_t>(getCommRank(c))] != me) r.push_back(-9);
  return r;
}

struct Want {
  int ng, np, parts;
  bool mgr;
  int w;  // own rank in the layout's world
};

static void expectMembers(const char* what, const Want& L, MPI_Comm c, const std::vector<int>& want) {
  auto got = members(c, L.w);
  if (got != want)
    sim::violate("layout", "%d groups of %d%s: %s of rank %d is %s instead of %s", L.ng, L.np, L.mgr ? " with manager" : "", what, L.w,
                 show(got).c_str(), show(want).c_str());
}
static void expectInt(const char* what, const Want& L, long got, long want) {
  if (got != want)
    sim::violate("layout", "%d groups of %d%s: %s of rank %d is %ld instead of %ld", L.ng, L.np, L.mgr ? " with manager" : "", what, L.w, got,
                 want);
}

static void checkOutput(const Want& L) {
  auto* m = theMPISystem().get();
  const bool manager = L.mgr && L.w == L.ng * L.np;
  const int group = manager ? -1 : L.w / L.np, pos = manager ? -1 : L.w % L.np;
  // position i of the output group is taken from group i mod ngroup
  const bool out = !manager && pos % L.ng == group;
  std::vector<int> all, part;
  const int per = L.np / L.parts;
  if (out)
    for (int i = 0; i < L.np; ++i) {
      all.push_back((i % L.ng) * L.np + i);
      if (i / per == pos / per) part.push_back(all.back());
    }
  expectMembers("output group", L, m->getOutputGroupComm(), all);
  bool threw = false;
  MPI_Comm oc = MPI_COMM_NULL;
  long partNo = -1;
  try {
    oc = m->getOutputComm();
    partNo = m->getFilePartNumber();
  } catch (const std::runtime_error&) {
    threw = true;
  }
  expectInt("being outside the output group", L, threw, !out);
  expectMembers("output partition", L, oc, part);
  if (out) {
    expectInt("output rank", L, m->getOutputGroupRank(), pos);
    expectInt("file part", L, partNo, pos / per);
    bool root = false;
    OUTPUT_ROOT_EXCLUSIVE_SECTION { root = true; }
    expectInt("output root role", L, root, pos % per == 0);
  } else {
    expectInt("output rank", L, m->getOutputGroupRank(), MPI_UNDEFINED);
  }
  if (!manager) expectInt("output rank of the reduction team", L, m->getOutputRankInGlobalReduceComm(), pos % L.ng);
}

static void checkLayout(const Want& L) {
  auto* m = theMPISystem().get();
  const int nw = L.ng * L.np;
  const bool manager = L.mgr && L.w == nw;
  const int group = manager ? -1 : L.w / L.np, pos = manager ? -1 : L.w % L.np;
  std::vector<int> world(static_cast<size_t>(nw + L.mgr)), local, reduce, global;
  std::iota(world.begin(), world.end(), 0);
  expectMembers("world", L, m->getWorldComm(), world);
  expectInt("world rank", L, m->getWorldRank(), L.w);
  expectInt("world size", L, m->getWorldSize(), nw + L.mgr);
  expectInt("group number", L, m->getProcessGroupNumber(), group);
  expectInt("number of groups", L, static_cast<long>(m->getNumGroups()), L.ng);
  expectInt("number of processes", L, static_cast<long>(m->getNumProcs()), L.np);
  expectInt("manager role", L, m->isWorldManager(), manager);
  expectInt("master role", L, m->isProcessGroupMaster(), pos == 0);
  expectInt("manager's world rank", L, m->getManagerRankWorld(), L.mgr ? nw : MPI_PROC_NULL);
  if (!manager) {
    for (int i = 0; i < L.np; ++i) local.push_back(group * L.np + i);
    for (int g = 0; g < L.ng; ++g) reduce.push_back(g * L.np + pos);
    expectInt("group rank", L, m->getLocalRank(), pos);
    expectInt("master rank", L, m->getMasterRank(), 0);
    expectInt("team rank", L, m->getGlobalReduceRank(), group);
  }
  expectMembers("group", L, m->getLocalComm(), local);
  expectMembers("reduction team", L, m->getGlobalReduceComm(), reduce);
  if (manager || pos == 0) {
    for (int g = 0; g < L.ng; ++g) global.push_back(g * L.np);
    if (L.mgr) global.push_back(nw);
    expectInt("global rank", L, m->getGlobalRank(), manager ? L.ng : group);
    expectInt("manager rank", L, m->getManagerRank(), L.mgr ? L.ng : MPI_PROC_NULL);
  }
  expectMembers("global communicator", L, m->getGlobalComm(), global);
  auto& third = m->getThirdLevelComms();
  expectInt("number of manager communicators", L, static_cast<long>(third.size()), !L.mgr ? 0 : manager ? L.ng : 1);
  for (size_t i = 0; i < third.size(); ++i) {
    std::vector<int> want;
    const int g = manager ? static_cast<int>(i) : group;
    for (int p = 0; p < L.np; ++p) want.push_back(g * L.np + p);
    want.push_back(nw);
    expectMembers("manager communicator", L, third[i], want);
  }
  if (L.mgr) {
    expectInt("third-level manager role", L, m->isThirdLevelManager(), manager);
    expectInt("third-level manager rank", L, m->getThirdLevelManagerRank(), L.np);
  }
  checkOutput(L);
}

// a little traffic on the new communicators, so that left-over state would show
static void traffic(const Want& L, int salt) {
  auto* m = theMPISystem().get();
  const int nw = L.ng * L.np;
  const bool manager = L.mgr && L.w == nw;
  if (!manager) {
    int v = L.w * 3 + salt, sum = 0, want = 0;
    MPI_Allreduce(&v, &sum, 1, MPI_INT, MPI_SUM, m->getGlobalReduceComm());
    for (int g = 0; g < L.ng; ++g) want += (g * L.np + L.w % L.np) * 3 + salt;
    expectInt("sum over the reduction team", L, sum, want);
  }
  if (L.mgr) {
    if (manager) {
      std::vector<int> in(static_cast<size_t>(L.ng), 0);
      for (int g = L.ng - 1; g >= 0; --g) MPI_Send(&salt, 1, MPI_INT, g, 5, m->getGlobalComm());
      for (int g = 0; g < L.ng; ++g) MPI_Recv(&in[static_cast<size_t>(g)], 1, MPI_INT, g, 6, m->getGlobalComm(), MPI_STATUS_IGNORE);
      for (int g = 0; g < L.ng; ++g) expectInt("answer of a group", L, in[static_cast<size_t>(g)], salt + g * L.np);
    } else {
      int cmd = -1;
      MASTER_EXCLUSIVE_SECTION {
        MPI_Recv(&cmd, 1, MPI_INT, m->getManagerRank(), 5, m->getGlobalComm(), MPI_STATUS_IGNORE);
      }
      MPI_Bcast(&cmd, 1, MPI_INT, m->getMasterRank(), m->getLocalComm());
      expectInt("broadcast command", L, cmd, salt);
      MASTER_EXCLUSIVE_SECTION {
        int answer = salt + L.w;
        MPI_Send(&answer, 1, MPI_INT, m->getManagerRank(), 6, m->getGlobalComm());
      }
    }
  }
}

void progLayout() {
  auto ops = api::scenario().sv("ops");
  Stats::initialize();
  int me = getCommRank(MPI_COMM_WORLD), size = getCommSize(MPI_COMM_WORLD);
  bool first = true;
  for (size_t t = 0; t < ops.size(); ++t) {
    const std::string& op = ops[t];
    auto f = fields(op);
    const int n = static_cast<int>(f.at(0));
    Want L{static_cast<int>(f.at(1)), static_cast<int>(f.at(2)), 1, f.at(3) != 0, 0};
    const long order = f.at(6);
    char kind = op[0];
    if (kind != 'w' && kind != 'b' && (!first || n != size)) kind = 'w';
    // world of this layout: the first n ranks, possibly in another order
    MPI_Comm comm = MPI_COMM_NULL;
    if (kind == 'i' || kind == 'l') {
      comm = MPI_COMM_WORLD;
    } else {
      const int key = order == 1 ? -me : order == 2 ? (me * 7 + 3) % 11 * 100 + me : me;
      MPI_Comm_split(MPI_COMM_WORLD, me < n ? 0 : MPI_UNDEFINED, key, &comm);
    }
    if (comm == MPI_COMM_NULL) continue;
    L.w = getCommRank(comm);
    auto* m = theMPISystem().get();
    if (kind == 'b') {
      // a world that does not have groups * processes (+ manager) processes
      bool threw = false;
      try {
        m->initWorldReusable(comm, static_cast<size_t>(L.ng), static_cast<size_t>(L.np), L.mgr);
      } catch (const std::invalid_argument&) {
        threw = true;
      }
      expectInt("refusal of a wrong number of processes", L, threw, 1);
      sim::probe("layout-refused");
      continue;
    }
    if (kind == 'i') {
      m->init(static_cast<size_t>(L.ng), static_cast<size_t>(L.np), L.mgr);
    } else if (kind == 'l') {
      MPI_Comm lc = MPI_COMM_NULL;
      const bool manager = L.mgr && L.w == L.ng * L.np;
      MPI_Comm_split(MPI_COMM_WORLD, manager ? MPI_UNDEFINED : L.w / L.np, L.w % L.np, &lc);
      m->init(static_cast<size_t>(L.ng), static_cast<size_t>(L.np), lc, L.mgr);
    } else {
      m->initWorldReusable(comm, static_cast<size_t>(L.ng), static_cast<size_t>(L.np), L.mgr);
    }
    first = false;
    checkLayout(L);
    traffic(L, static_cast<int>(100 * (t + 1)));
    for (size_t k = 4; k <= 5; ++k) {
      L.parts = static_cast<int>(f.at(k));
      if (L.parts <= 0) continue;
      m->initOutputGroupComm(static_cast<uint16_t>(L.parts));
      checkOutput(L);
      if (L.parts > 1) sim::probe("layout-output-parts");
    }
    sim::probe(L.mgr ? "layout-managed" : "layout-worker-only");
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
