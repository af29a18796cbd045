// Managed runs: the last rank is the process manager, all others are workers that follow its commands.
#include "common.hpp"

#include <algorithm>
#include <cstdio>
#include <fstream>

#include "manager/ProcessGroupSignals.hpp"
#include "rescheduler/TaskRescheduler.hpp"

namespace harness {

// moves grids at random, leaving at least one in every group that has one
class RandomRescheduler : public TaskRescheduler {
 public:
  int call = 0;
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& where, const std::map<LevelVector, unsigned long>&,
                                                LoadModel*) override {
    const auto& T = api::traj();
    const int ngroup = static_cast<int>(api::scenario().i("ngroup", 1));
    std::vector<int> left(static_cast<size_t>(ngroup), 0);
    for (auto& p : where) left[static_cast<size_t>(p.second)]++;
    std::vector<std::pair<LevelVector, int>> moves;
    int k = 0;
    for (auto& p : where) {
      ++k;
      double x = model::noise(T.vseed + 991, k, call, 1, 2), y = 0.5 * (model::noise(T.vseed + 992, k, call, 1, 2) + 1);
      int to = std::min(ngroup - 1, static_cast<int>(y * ngroup));
      if (x > 0.2 || left[static_cast<size_t>(p.second)] < 2) continue;
      if (T.truncated()) {
        if (to == p.second) continue;
        const model::Lv lv(p.first.begin(), p.first.end());
        for (size_t id = 0; id < T.scheme.levels.size(); ++id)
          if (T.scheme.levels[id] == lv) api::board().num["moved." + std::to_string(id)] = {static_cast<double>(to)};
      }
      left[static_cast<size_t>(p.second)]--;
      left[static_cast<size_t>(to)]++;
      moves.emplace_back(p.first, to);
    }
    ++call;
    if (!moves.empty()) sim::probe("reschedule-moved");
    return moves;
  }
};

static std::string outName(const std::string& stem, size_t t) { return "out_" + stem + std::to_string(t); }

static void checkTasks(ProcessGroupWorker<>& worker, int t, const std::string& where) {
  const auto& T = api::traj();
  for (auto& task : worker.getTasks()) {
    int id = static_cast<int>(task->getID());
    if (id < 0 || id >= static_cast<int>(T.scheme.levels.size())) {
      sim::violate("tasks", "%s: a worker owns a grid with id %d", where.c_str(), id);
      return;
    }
    const auto& lv = T.scheme.levels[static_cast<size_t>(id)];
    auto* st = dynamic_cast<SimTask*>(task.get());
    if (model::Lv(task->getLevelVector().begin(), task->getLevelVector().end()) != lv ||
        task->getCoefficient() != T.scheme.coeffs[static_cast<size_t>(id)])
      sim::violate("tasks", "%s: grid %d has level/coefficient different from the scheme", where.c_str(), id);
    if (st->inits() != 1) sim::violate("tasks", "%s: grid %d was initialised %d times", where.c_str(), id, st->inits());
    if (st->steps() != T.stepAfter[static_cast<size_t>(t)])
      sim::violate("tasks", "%s: grid %d did %d steps instead of %d", where.c_str(), id, st->steps(), T.stepAfter[static_cast<size_t>(t)]);
    bool moved = false;
    if (T.truncated()) {
      auto it = api::board().num.find("moved." + std::to_string(id));
      moved = it != api::board().num.end() && !it->second.empty() &&
              static_cast<int>(it->second[0]) == sim::me()->wrank / static_cast<int>(api::scenario().i("nprocs"));
      if (moved) sim::probe("moved-grid-restored-from-truncated-sparse-grid");
    }
    for (int k = 0; k < T.nspecies; ++k) {
      std::vector<double> restored;
      if (moved) restored = T.combi->onLevel((*T.dsg[static_cast<size_t>(t)])[static_cast<size_t>(k)], lv);
      if (!checkGrid("solution", task->getDistributedFullGrid(static_cast<size_t>(k)), moved ? restored : T.at(t, id, k), where, lv,
                     T.scheme.boundary))
        return;
    }
  }
}

static std::vector<double> idsOf(ProcessGroupWorker<>& w) {
  std::vector<double> r;
  for (auto& t : w.getTasks()) r.push_back(static_cast<double>(t->getID()));
  std::sort(r.begin(), r.end());
  return r;
}

static void workerLoop() {
  auto& T = api::traj();
  const int rank = sim::me()->wrank;
  ProcessGroupWorker<> worker;
  size_t t = 0;  // number of operations whose effect this worker has seen
  int ncomb = 0, nsig = 0;
  SignalType signal = -1;
  while (signal != EXIT) {
    signal = worker.wait();
    ++nsig;
    std::string where = "after signal " + std::to_string(signal) + " (number " + std::to_string(nsig) + ")";
    if (signal == RUN_FIRST) t = 1;
    if (signal == RUN_NEXT) {
      while (t < T.ops.size() && T.ops[t] != "run") ++t;
      ++t;
    }
    if (signal == COMBINE) {
      ++ncomb;
      size_t pos = 0;
      for (int n = 0; pos < T.ops.size(); ++pos)
        if (T.ops[pos] == "comb" && ++n == ncomb) break;
      // operations skipped here must not have been meant for this group's grids
      for (size_t k = t; k < pos && !worker.getTasks().empty(); ++k)
        if (T.ops[k] == "run") sim::violate("tasks", "%s: combination before the solver step of operation %zu", where.c_str(), k);
      t = pos + 1;
    }
    if (signal == RECOMPUTE) {
      // a group without grids does not see the solver steps; the grid it is given now carries their number
      int steps = dynamic_cast<SimTask*>(worker.getTasks().back().get())->steps();
      for (size_t k = t; k < T.stepAfter.size(); ++k)
        if (T.stepAfter[k] == steps) {
          t = k;
          break;
        }
    }
    if (t > T.ops.size()) {
      sim::violate("tasks", "%s: more commands than were given", where.c_str());
      t = T.ops.size();
    }
    checkTasks(worker, static_cast<int>(t), where);
    if (signal == COMBINE) api::board().num["own." + std::to_string(ncomb) + "." + std::to_string(rank)] = idsOf(worker);
    if (signal != EXIT) api::board().num["own.end." + std::to_string(rank)] = idsOf(worker);
  }
  if (!worker.getTasks().empty()) sim::violate("tasks", "worker still owns grids after exit");
  api::board().num["t." + std::to_string(rank)] = {static_cast<double>(ncomb), static_cast<double>(worker.getCurrentNumberOfCombinations())};
}

static void checkOwnership(const std::string& key, const Layout& L, const std::vector<std::vector<double>>* want) {
  auto& B = api::board();
  const size_t n = api::traj().scheme.levels.size();
  std::vector<int> owners(n, 0);
  for (int g = 0; g < L.ngroup; ++g) {
    std::vector<double> first;
    for (int p = 0; p < L.nprocs; ++p) {
      auto& v = B.num[key + std::to_string(g * L.nprocs + p)];
      if (p == 0) first = v;
      if (v != first) sim::violate("tasks", "processes of group %d own different grids (%s)", g, key.c_str());
    }
    for (double id : first)
      if (id >= 0 && id < static_cast<double>(n)) owners[static_cast<size_t>(id)]++;
    if (first.empty()) sim::probe("group-without-grids");
    if (want && (*want)[static_cast<size_t>(g)] != first)
      sim::violate("tasks", "manager and workers of group %d disagree about the grids of the group (%s)", g, key.c_str());
  }
  for (size_t i = 0; i < n; ++i)
    if (owners[i] != 1) sim::violate("tasks", "grid %zu is owned by %d groups (%s)", i, owners[i], key.c_str());
}

static void managerRun(const Layout& L) {
  auto& T = api::traj();
  const Scenario& sc = api::scenario();
  const size_t n = T.scheme.levels.size();
  auto* lmRaw = new LinearLoadModel();
  std::unique_ptr<LoadModel> lm(lmRaw);
  std::unique_ptr<LoadModel> lmTasks(new LinearLoadModel());
  TaskContainer<CombiDataType> tasks;
  std::vector<size_t> ids;
  for (size_t i = 0; i < n; ++i) {
    LevelVector lv(T.scheme.levels[i].begin(), T.scheme.levels[i].end());
    auto* t = new SimTask(lv, L.boundary, T.scheme.coeffs[i], lmTasks.get());
    tasks.push_back(t);
    ids.push_back(t->getID());
    if (t->getID() != i) throw std::runtime_error("harness: unexpected task id");
  }
  size_t ncombi = 0;
  for (auto& o : T.ops) ncombi += o == "comb";
  CombiParameters params = makeParams(L, true, ncombi);
  ProcessGroupManagerContainer<CombiDataType> pgroups;
  for (int i = 0; i < L.ngroup; ++i)
    pgroups.emplace_back(std::make_shared<ProcessGroupManager<CombiDataType>>(static_cast<RankType>(i)));
  {
    ProcessManager<CombiDataType> manager(pgroups, tasks, params, std::move(lm), std::unique_ptr<TaskRescheduler>(new RandomRescheduler));
    manager.updateCombiParameters();
    for (size_t t = 0; t < T.ops.size(); ++t) {
      const std::string& op = T.ops[t];
      const int ti = static_cast<int>(t);
      if (t == 0) {
        if (!manager.runfirst()) sim::violate("tasks", "runfirst reports a failed group");
      } else if (op == "run") {
        if (!manager.runnext()) sim::violate("tasks", "runnext reports a failed group");
      } else if (op == "comb") {
        manager.combine();
      } else if (op == "norm") {
        for (int p : {0, 1, 2}) {
          auto norms = manager.getLpNorms(p);
          if (norms.size() != n) sim::violate("query", "%zu norms for %zu grids", norms.size(), n);
          for (size_t i = 0; i < n; ++i) {
            double want = refNorm(T.at(ti, static_cast<int>(i), 0), T.scheme.levels[i], T.scheme.boundary, p);
            if (!norms.count(i) || !close(norms[i], want, std::fabs(want))) {
              sim::violate("query", "L%d norm of grid %s is %.17g instead of %.17g", p, model::str(T.scheme.levels[i]).c_str(), norms[i], want);
              break;
            }
          }
        }
      } else if (op == "cnorm") {
        int p = 1 + static_cast<int>(t % 2);
        double want = 0, scale = 0;
        for (size_t i = 0; i < n; ++i) {
          double v = refNorm(T.at(ti, static_cast<int>(i), 0), T.scheme.levels[i], T.scheme.boundary, p);
          want += v * T.scheme.coeffs[i];
          scale += std::fabs(v * T.scheme.coeffs[i]);
        }
        double got = manager.getLpNorm(p);
        if (!close(got, want, scale)) sim::violate("query", "combined L%d norm is %.17g instead of %.17g", p, got, want);
      } else if (op == "interp") {
        auto pts = queryPoints(ti, 5);
        auto got = manager.interpolateValues(pts);
        checkInterpolated(ti, pts, got);
      } else if (op == "params") {
        manager.updateCombiParameters();
      } else if (op == "diag") {
        manager.doDiagnostics(t * 7 % n);
      } else if (op == "resched") {
        manager.reschedule();
      } else if (op == "recreate") {
        size_t g = t % static_cast<size_t>(L.ngroup);
        std::vector<size_t> mine;
        for (auto* x : pgroups[g]->getTaskContainer()) {
          mine.push_back(x->getID());
          dynamic_cast<SimTask*>(x)->setSteps(T.stepAfter[t] - 1);
        }
        std::vector<ProcessGroupManagerID<CombiDataType>> gs{pgroups[g]}, none;
        manager.reInitializeGroup(gs, mine);
        manager.recompute(mine, true, none);
        sim::probe("recreated");
      } else if (op == "eval") {
        LevelVector lv;
        for (long x : sc.iv("leval")) lv.push_back(static_cast<LevelType>(x));
        std::string fn = outName("e", t) + ".raw";
        manager.parallelEval(lv, fn, t % static_cast<size_t>(L.ngroup));
        checkEvalFile(outName("e", t), ti);
      } else if (op == "mm") {
        manager.writeSparseGridMinMaxCoefficients(outName("mm", t));
        manager.waitForAllGroupsToWait();
        checkMinMaxFile(outName("mm", t), ti);
      } else if (op == "dsgio") {
        manager.writeDSGsToDisk(outName("dsg", t));
        manager.readDSGsFromDisk(outName("dsg", t));
      }
    }
    std::vector<std::vector<double>> own(static_cast<size_t>(L.ngroup));
    size_t total = 0;
    for (size_t g = 0; g < own.size(); ++g) {
      for (auto* x : pgroups[g]->getTaskContainer()) own[g].push_back(static_cast<double>(x->getID()));
      std::sort(own[g].begin(), own[g].end());
      total += own[g].size();
    }
    if (tasks.size() != n || total != n) sim::violate("tasks", "manager knows %zu grids, its groups %zu, instead of %zu", tasks.size(), total, n);
    manager.exit();
    MPI_Barrier(MPI_COMM_WORLD);
    for (size_t c = 1; c <= ncombi; ++c) checkOwnership("own." + std::to_string(c) + ".", L, nullptr);
    checkOwnership("own.end.", L, &own);
    for (int r = 0; r < L.ngroup * L.nprocs; ++r) {
      auto& v = api::board().num["t." + std::to_string(r)];
      if (v.size() != 2 || v[0] != static_cast<double>(ncombi) || v[1] != v[0])
        sim::violate("tasks", "worker %d took part in %g combinations instead of %zu", r, v.empty() ? -1.0 : v[0], ncombi);
    }
  }
  for (auto* t : tasks) delete t;
}

void progManaged() {
  const Layout L = layout();
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(L.ngroup), static_cast<size_t>(L.nprocs), true);
  WORLD_MANAGER_EXCLUSIVE_SECTION { managerRun(L); }
  else {
    workerLoop();
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
