// Two managed systems that combine through the broker over sockets.
#include <algorithm>

#include "common.hpp"
#include "manager/ProcessGroupSignals.hpp"

namespace harness {

static void checkTasks3(ProcessGroupWorker<>& worker, int t, const std::string& where) {
  const auto& T = api::traj();
  for (auto& task : worker.getTasks()) {
    const int id = static_cast<int>(task->getID());
    auto* st = dynamic_cast<SimTask*>(task.get());
    if (st->steps() != T.stepAfter[static_cast<size_t>(t)])
      sim::violate("tasks", "%s: grid %d did %d steps instead of %d", where.c_str(), id, st->steps(), T.stepAfter[static_cast<size_t>(t)]);
    if (!checkGrid("solution", task->getDistributedFullGrid(0), T.at(t, id, 0), where, T.scheme.levels[static_cast<size_t>(id)], T.scheme.boundary)) return;
  }
}

static void worker3(int sys) {
  auto& T = api::traj();
  ProcessGroupWorker<> worker;
  size_t t = 0;
  int nres = 0;
  SignalType signal = -1;
  while (signal != EXIT) {
    signal = worker.wait();
    const std::string where = "system " + std::to_string(sys) + " after signal " + std::to_string(signal);
    bool done = true;
    if (signal == RUN_FIRST) {
      t = 1;
    } else if (signal == RUN_NEXT) {
      while (t < T.ops.size() && T.ops[t] != "run") ++t;
      ++t;
    } else if (signal == COMBINE_WRITE_DSGS) {
      done = false;  // read afterwards
    } else if (signal == COMBINE_THIRD_LEVEL || signal == WAIT_FOR_TL_COMBI_RESULT || signal == COMBINE_THIRD_LEVEL_FILE ||
               signal == COMBINE_READ_DSGS_AND_REDUCE) {
      ++nres;
      size_t pos = 0;
      for (int n = 0; pos < T.ops.size(); ++pos)
        if (T.ops[pos] == "comb3" && ++n == nres) break;
      t = pos + 1;
    } else if (signal == COMBINE_LOCAL_AND_GLOBAL) {
      done = false;  // hierarchized in between
    }
    if (t > T.ops.size()) {
      sim::violate("tasks", "%s: more commands than were given", where.c_str());
      t = T.ops.size();
    }
    if (done) checkTasks3(worker, static_cast<int>(t), where);
  }
  api::board().num["t3." + std::to_string(sim::me()->id)] = {static_cast<double>(nres), static_cast<double>(worker.getCurrentNumberOfCombinations())};
}

static void manager3(const Layout& L, int sys) {
  auto& T = api::traj();
  const Scenario& sc = api::scenario();
  auto sysOf = sc.iv("sys");
  std::unique_ptr<LoadModel> lm(new LinearLoadModel()), lmTasks(new LinearLoadModel());
  std::vector<std::unique_ptr<SimTask>> all;
  TaskContainer<CombiDataType> tasks;
  std::vector<LevelVector> levels;
  std::vector<real> coeffs;
  std::vector<size_t> ids;
  for (size_t i = 0; i < T.scheme.levels.size(); ++i) {
    LevelVector lv(T.scheme.levels[i].begin(), T.scheme.levels[i].end());
    all.emplace_back(new SimTask(lv, L.boundary, T.scheme.coeffs[i], lmTasks.get()));
    if (all.back()->getID() != i) throw std::runtime_error("harness: unexpected task id");
    if (sysOf[i] != sys) continue;
    tasks.push_back(all.back().get());
    levels.push_back(lv);
    coeffs.push_back(T.scheme.coeffs[i]);
    ids.push_back(i);
  }
  size_t ncombi = 0;
  for (auto& o : T.ops) ncombi += o == "comb3";
  const size_t pg = static_cast<size_t>(sc.i("w" + std::to_string(sys) + ".tlpg"));
  CombiParameters params = makeParams(L, false, ncombi, "localhost", 9999, pg);
  params.setLevelsCoeffs(ids, levels, coeffs);
  ProcessGroupManagerContainer<CombiDataType> pgroups;
  for (int i = 0; i < L.ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<CombiDataType>>(static_cast<RankType>(i)));
  montecarlo::getRandomCoordinates(1 + sys, 1);  // the systems draw different points
  {
    if (sc.i("delay" + std::to_string(sys), 0)) sleep(static_cast<unsigned>(sc.i("delay" + std::to_string(sys))));
    ProcessManager<CombiDataType> manager(pgroups, tasks, params, std::move(lm));
    manager.updateCombiParameters();
    for (size_t t = 0; t < T.ops.size(); ++t) {
      const std::string& op = T.ops[t];
      const int ti = static_cast<int>(t);
      if (t == 0) {
        if (!manager.runfirst()) sim::violate("tasks", "runfirst reports a failed group");
        const bool extra = sc.i("extra") != 0;
        const size_t n = manager.unifySubspaceSizesThirdLevel(extra);
        // number of values that have to be exchanged
        size_t want = 0;
        for (size_t j = 0; j < T.combi->subs.size(); ++j) {
          if (!T.combi->inDsg[j]) continue;
          bool has[2] = {false, false};
          for (size_t g = 0; g < T.scheme.levels.size(); ++g) {
            bool in = true;
            for (size_t d = 0; d < T.combi->subs[j].size(); ++d) in = in && T.combi->subs[j][d] <= T.scheme.levels[g][d];
            if (in) has[sysOf[g]] = true;
          }
          if (extra ? (has[0] && has[1]) : (has[0] || has[1])) want += static_cast<size_t>(T.combi->subSize[j]);
        }
        if (n != want) sim::violate("shape", "system %d exchanges %zu values instead of %zu", sys, n, want);
      } else if (op == "run") {
        if (!manager.runnext()) sim::violate("tasks", "runnext reports a failed group");
      } else if (op == "comb3") {
        const long tlfile = sc.i("tlfile", 0);
        const std::string mine = "tl_dsg_" + std::to_string(sys), other = "tl_dsg_" + std::to_string(1 - sys);
        if (tlfile == 0) {
          manager.combineThirdLevel();
        } else if (tlfile == 1) {
          manager.combineThirdLevelFileBased(mine, mine + "_token.txt", other, other + "_token.txt");
          sim::probe("managed-file-exchange");
        } else {
          manager.combineThirdLevelFileBasedWrite(mine, mine + "_token.txt");
          manager.combineThirdLevelFileBasedReadReduce(other, other + "_token.txt");
          sim::probe("managed-file-exchange-split");
        }
      } else if (op == "mc") {
        const size_t n = 1 + t % 4;
        std::vector<std::vector<real>> pts;
        std::vector<CombiDataType> vals;
        manager.monteCarloThirdLevel(n, pts, vals);
        if (pts.size() != n) sim::violate("query", "system %d: %zu points instead of %zu", sys, pts.size(), n);
        checkInterpolated(ti, pts, vals);
        std::vector<double> flat;
        for (auto& p : pts) flat.insert(flat.end(), p.begin(), p.end());
        auto& b = api::board().num["mc." + std::to_string(t)];
        if (b.empty()) b = flat;
        else if (!std::equal(b.begin(), b.end(), flat.begin(), flat.end())) sim::violate("query", "the systems evaluate at different points");
        sim::probe("checked-joint-interpolation");
      } else if (op == "eval") {
        LevelVector lv;
        for (long x : sc.iv("leval")) lv.push_back(static_cast<LevelType>(x));
        const std::string stem = "out3_" + std::to_string(sys) + "_" + std::to_string(t);
        std::string fn = stem + ".raw";
        manager.parallelEval(lv, fn, t % static_cast<size_t>(L.ngroup));
        checkEvalFile(stem, ti);
      } else if (op == "norm") {
        auto norms = manager.getLpNorms(2);
        for (size_t id : ids) {
          double want = refNorm(T.at(ti, static_cast<int>(id), 0), T.scheme.levels[id], T.scheme.boundary, 2);
          if (!norms.count(id) || !close(norms[id], want, std::fabs(want))) {
            sim::violate("query", "L2 norm of grid %zu is %.17g instead of %.17g", id, norms[id], want);
            break;
          }
        }
      }
    }
    manager.exit();
  }
  MPI_Barrier(MPI_COMM_WORLD);
  int base = 0;
  for (int w = 0; w < sys; ++w) base += static_cast<int>(sc.i("w" + std::to_string(w) + ".n"));
  for (int r = 0; r < L.ngroup * L.nprocs; ++r) {
    auto& v = api::board().num["t3." + std::to_string(base + r)];
    if (v.size() != 2 || v[0] != static_cast<double>(ncombi) || v[1] != v[0])
      sim::violate("tasks", "worker %d of system %d took part in %g/%g combinations instead of %zu", r, sys, v.empty() ? -1.0 : v[0], v.empty() ? -1.0 : v[1], ncombi);
  }
  tasks.clear();
}

void progThird() {
  const Scenario& sc = api::scenario();
  Layout L = layout();
  const int sys = sim::me()->world->id;
  L.ngroup = static_cast<int>(sc.i("w" + std::to_string(sys) + ".ngroup"));
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(L.ngroup), static_cast<size_t>(L.nprocs), true);
  WORLD_MANAGER_EXCLUSIVE_SECTION { manager3(L, sys); }
  else {
    worker3(sys);
    MPI_Barrier(MPI_COMM_WORLD);
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
