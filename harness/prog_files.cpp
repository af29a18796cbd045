// Widely-distributed runs that exchange sparse-grid data through files. Every system is a world of its own.
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "common.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"

namespace harness {

// not through the simulated file system, which may show files late
static bool there(const std::string& p) { return ::syscall(SYS_faccessat, AT_FDCWD, p.c_str(), F_OK, 0) == 0; }
static std::string partName(const std::string& s, int part) { return s + ".part" + std::to_string(part); }

// what the systems agreed on must be the shape implied by all grids
static void checkShapes(ProcessGroupWorker<>& worker, int sys, int S) {
  auto& T = api::traj();
  const Scenario& sc = api::scenario();
  if (worker.getExtraDSGVector().empty()) return;
  auto& extra = *worker.getExtraDSGVector()[0];
  auto& full = *worker.getCombinedDSGVector()[0];
  auto sysOf = sc.iv("sys");
  std::vector<double> mine;
  for (size_t i = 0; i < static_cast<size_t>(extra.getNumSubspaces()); ++i)
    mine.push_back(static_cast<double>(extra.getDataSize(static_cast<AnyDistributedSparseGrid::SubspaceIndexType>(i))));
  const int pos = theMPISystem()->getOutputGroupRank();
  const std::string key = "shape" + std::to_string(pos);
  auto& b = api::board();
  if (!b.num.count(key)) {
    b.num[key] = mine;
  } else if (b.num[key] != mine) {
    sim::violate("shape", "systems disagree on the sizes of the exchanged subspaces at position %d", pos);
    return;
  }
  const CommunicatorType comm = theMPISystem()->getOutputGroupComm();
  std::vector<double> total(mine.size());
  MPI_Reduce(mine.data(), total.data(), static_cast<int>(mine.size()), MPI_DOUBLE, MPI_SUM, 0, comm);
  if (pos != 0) return;
  for (size_t i = 0; i < mine.size(); ++i) {
    const auto& lv = full.getLevelVector(static_cast<AnyDistributedSparseGrid::SubspaceIndexType>(i));
    model::Lv l;
    for (auto x : lv) l.push_back(static_cast<int>(x));
    std::vector<bool> has(static_cast<size_t>(S), false);
    for (size_t g = 0; g < T.scheme.levels.size(); ++g) {
      bool in = true;
      for (size_t d = 0; d < l.size(); ++d) in = in && l[d] <= T.scheme.levels[g][d];
      if (in) has[static_cast<size_t>(sysOf[g])] = true;
    }
    const auto n = std::count(has.begin(), has.end(), true);
    const bool want = n >= (S == 1 ? 1 : 2);
    auto it = T.combi->subNo.find(l);
    const double size = want && it != T.combi->subNo.end() ? static_cast<double>(T.combi->subSize[static_cast<size_t>(it->second)]) : 0.0;
    if (total[i] != size) {
      sim::violate("shape", "system %d exchanges %g values of subspace %s instead of %g", sys, total[i], model::str(l).c_str(), size);
      return;
    }
  }
  sim::probe("checked-exchange-shape");
}

static void prepare(ProcessGroupWorker<>& worker, const Layout& L, LoadModel* lm, int sys, std::vector<size_t>& ids) {
  auto& T = api::traj();
  auto sysOf = api::scenario().iv("sys");
  worker.setCombiParameters(makeParams(L, false, T.ops.size() + 1));
  std::vector<LevelVector> levels;
  std::vector<real> coeffs;
  const int group = theMPISystem()->getProcessGroupNumber();
  for (size_t i = 0; i < T.scheme.levels.size(); ++i)
    if (sysOf[i] == sys && L.assign[i] == group) {
      levels.emplace_back(T.scheme.levels[i].begin(), T.scheme.levels[i].end());
      coeffs.push_back(T.scheme.coeffs[i]);
      ids.push_back(i);
    }
  worker.initializeAllTasks<SimTask>(levels, coeffs, ids, lm);
  worker.initCombinedDSGVector();
}

static void sizesFileBased(ProcessGroupWorker<>& worker, int sys, int S) {
  const std::string own = "sizes_" + std::to_string(sys);
  std::vector<std::string> reads, tokens;
  for (int o = 0; o < S; ++o)
    if (o != sys || S == 1) {
      reads.push_back("sizes_" + std::to_string(o));
      tokens.push_back(reads.back() + "_token.txt");
    }
  worker.reduceExtraSubspaceSizesFileBased(own, own + "_token.txt", reads, tokens);
}

void progFiles() {
  const Scenario& sc = api::scenario();
  Layout L = layout();
  auto& T = api::traj();
  const int S = static_cast<int>(sc.i("nsys", 1));
  const int sys = sim::me()->world->id;
  L.ngroup = static_cast<int>(sc.i("w" + std::to_string(sys) + ".ngroup"));
  const int parts = static_cast<int>(sc.i("parts", 1));
  const bool keep = sc.i("keep") != 0, mover = sc.i("mover") != 0, conjoint = sc.i("conjoint") != 0;
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(L.ngroup), static_cast<size_t>(L.nprocs), false);
  theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(parts));
  LinearLoadModel loadModel;
  if (conjoint) {
    // an earlier run determines the shared subspaces
    ProcessGroupWorker<> first;
    std::vector<size_t> ids;
    prepare(first, L, &loadModel, sys, ids);
    sizesFileBased(first, sys, S);
    OUTPUT_GROUP_EXCLUSIVE_SECTION { DistributedSparseGridIO::writeSubspaceSizesToFile(*first.getExtraDSGVector()[0], "conjoint_" + std::to_string(sys)); }
    first.exit();
    MPI_Barrier(MPI_COMM_WORLD);
  }
  {
    ProcessGroupWorker<> worker;
    std::vector<size_t> ids;
    prepare(worker, L, &loadModel, sys, ids);
    if (conjoint)
      worker.reduceExtraSubspaceSizes({"conjoint_" + std::to_string(sys)}, true);
    else
      sizesFileBased(worker, sys, S);
    worker.zeroDsgsData();
    checkShapes(worker, sys, S);
    auto check = [&](int t, const std::string& where) {
      for (auto& task : worker.getTasks()) {
        int id = static_cast<int>(task->getID());
        if (!checkGrid("solution", task->getDistributedFullGrid(0), T.at(t, id, 0), "system " + std::to_string(sys) + " " + where,
                       T.scheme.levels[static_cast<size_t>(id)], T.scheme.boundary))
          return;
      }
    };
    check(0, "after init");
    int step = 0;
    for (size_t t = 0; t < T.ops.size(); ++t) {
      const std::string& op = T.ops[t];
      if (op == "run") {
        worker.runAllTasks();
      } else if (op == "combfile") {
        if (sc.i("barrier", 1)) MPI_Barrier(MPI_COMM_WORLD);
        const std::string tail = "_step" + std::to_string(step++);
        auto nameOf = [&](int s, int to) { return (to >= 0 && mover ? "to" + std::to_string(to) + "_" : std::string()) + "dsg_" + std::to_string(s) + tail; };
        const std::string own = nameOf(sys, -1);
        worker.combineSystemWideAndWrite(own, own + "_token.txt");
        std::vector<std::string> reads, tokens;
        for (int o = 0; o < S; ++o)
          if (o != sys || S == 1) {
            reads.push_back(nameOf(o, S == 1 ? -1 : sys));
            tokens.push_back(reads.back() + "_token.txt");
          }
        if (reads.size() > 1 && sc.i("swap_reads")) {
          std::swap(reads[0], reads[1]);
          std::swap(tokens[0], tokens[1]);
        }
        worker.combineReadDistributeSystemWide(reads, tokens, S == 1, keep);
        if (sc.i("leftovers")) {
          MPI_Barrier(MPI_COMM_WORLD);
          if (sim::me()->wrank == 0)
            for (size_t i = 0; i < reads.size(); ++i)
              for (int p = 0; p < parts; ++p) {
                if (there(partName(tokens[i], p)))
                  sim::violate("token", "%s still exists after the exchange", partName(tokens[i], p).c_str());
                const std::string data = partName(reads[i] + "_0", p);
                if (there(data) != keep)
                  sim::violate("token", "%s %s after the exchange", data.c_str(), keep ? "is missing" : "still exists");
              }
        }
      }
      check(static_cast<int>(t) + 1, "after operation " + std::to_string(t) + " (" + op + ")");
    }
    worker.exit();
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

// carries announced files to the other systems, each at its own pace, and announces the copies there
void progMover() {
  const Scenario& sc = api::scenario();
  const auto& T = api::traj();
  const int S = static_cast<int>(sc.i("nsys", 1)), parts = static_cast<int>(sc.i("parts", 1));
  const int steps = static_cast<int>(std::count(T.ops.begin(), T.ops.end(), std::string("combfile")));
  struct Job { std::string data, token, outData, outToken; };
  std::vector<Job> jobs;
  for (int k = 0; k < steps; ++k)
    for (int s = 0; s < S; ++s)
      for (int p = 0; p < parts; ++p)
        for (int to = 0; to < S; ++to)
          if (to != s) {
            const std::string n = "dsg_" + std::to_string(s) + "_step" + std::to_string(k), m = "to" + std::to_string(to) + "_" + n;
            jobs.push_back({partName(n + "_0", p), partName(n + "_token.txt", p), partName(m + "_0", p), partName(m + "_token.txt", p)});
          }
  while (!jobs.empty()) {
    for (size_t i = 0; i < jobs.size();) {
      if (!std::filesystem::exists(jobs[i].token)) {
        ++i;
        continue;
      }
      const Job j = jobs[i];
      std::ifstream in(j.data, std::ios::binary);
      std::string body((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      {
        std::ofstream out(j.outData, std::ios::binary);
        out.write(body.data(), static_cast<std::streamsize>(body.size() / 2)).flush();
        sim::yield("mover");
        out.write(body.data() + body.size() / 2, static_cast<std::streamsize>(body.size() - body.size() / 2));
      }
      sim::yield("mover");
      if (!there(j.outData)) {
        api::visibleFailure("the carrier could not write");
        return;
      }
      {
        std::ofstream tok(j.outToken);
        if (!tok) {
          api::visibleFailure("the carrier could not write");
          return;
        }
      }
      jobs.erase(jobs.begin() + static_cast<long>(i));
    }
    sim::sleepUs(100000);
  }
}

}  // namespace harness
