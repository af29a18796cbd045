// Worker-only runs: every rank executes the same list of operations and compares with the sequential model.
#include "common.hpp"

namespace harness {

static void checkAll(ProcessGroupWorker<>& worker, int t, const std::string& where) {
  const auto& T = api::traj();
  for (auto& task : worker.getTasks()) {
    int id = static_cast<int>(task->getID());
    for (int k = 0; k < T.nspecies; ++k)
      if (!checkGrid("solution", task->getDistributedFullGrid(static_cast<size_t>(k)), T.at(t, id, k), where,
                     T.scheme.levels[static_cast<size_t>(id)], T.scheme.boundary))
        return;
  }
}

void progWorker() {
  const Scenario& sc = api::scenario();
  const Layout L = layout();
  auto& T = api::traj();
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(L.ngroup), static_cast<size_t>(L.nprocs), false);
  LinearLoadModel loadModel;
  {
    ProcessGroupWorker<> worker;
    worker.setCombiParameters(makeParams(L, false, T.ops.size() + 1));
    std::vector<LevelVector> levels;
    std::vector<real> coeffs;
    std::vector<size_t> ids;
    int group = theMPISystem()->getProcessGroupNumber();
    for (size_t i = 0; i < T.scheme.levels.size(); ++i)
      if (L.assign[i] == group) {
        levels.emplace_back(T.scheme.levels[i].begin(), T.scheme.levels[i].end());
        coeffs.push_back(T.scheme.coeffs[i]);
        ids.push_back(i);
      }
    worker.initializeAllTasks<SimTask>(levels, coeffs, ids, &loadModel);
    worker.initCombinedDSGVector();
    worker.zeroDsgsData();
    checkAll(worker, 0, "after init");
    int ncomb = 0;
    for (size_t t = 0; t < T.ops.size(); ++t) {
      const std::string& op = T.ops[t];
      if (op == "run") {
        worker.runAllTasks();
      } else if (op == "comb") {
        worker.combineAtOnce();
        ++ncomb;
      } else if (op == "combmm") {
        worker.combineAtOnce(true);
        ++ncomb;
      } else if (op == "norm") {
        for (int p : {0, 1, 2}) {
          auto norms = worker.getLpNorms(p);
          for (size_t i = 0; i < ids.size(); ++i) {
            double want = refNorm(T.at(static_cast<int>(t), static_cast<int>(ids[i]), 0), T.scheme.levels[ids[i]], T.scheme.boundary, p);
            if (norms.size() != ids.size() || !close(norms[i], want, std::fabs(want)))
              sim::violate("query", "L%d norm of grid %s is %.17g instead of %.17g", p, model::str(T.scheme.levels[ids[i]]).c_str(),
                           i < norms.size() ? norms[i] : -1.0, want);
          }
        }
      } else if (op == "interp" && T.nspecies == 1) {
        auto pts = queryPoints(static_cast<int>(t), 7);
        auto got = worker.interpolateValues(pts);
        checkInterpolated(static_cast<int>(t), pts, got);
      } else if (op == "eval") {
        LevelVector lv;
        for (long x : sc.iv("leval")) lv.push_back(static_cast<LevelType>(x));
        std::string stem = "out_e" + std::to_string(t);
        FIRST_GROUP_EXCLUSIVE_SECTION {
          worker.parallelEvalUniform(stem + ".raw", lv);
          MPI_Barrier(theMPISystem()->getLocalComm());
          MASTER_EXCLUSIVE_SECTION { checkEvalFile(stem, static_cast<int>(t)); }
        }
      } else if (op == "mm") {
        std::string stem = "out_mm" + std::to_string(t);
        worker.writeSparseGridMinMaxCoefficients(stem);
        if (sim::me()->wrank == 0) checkMinMaxFile(stem, static_cast<int>(t));
      }
      checkAll(worker, static_cast<int>(t) + 1, "after operation " + std::to_string(t) + " (" + op + ")");
    }
    if (worker.getCurrentNumberOfCombinations() != ncomb)
      sim::violate("solution", "combination counter is %d after %d combinations", static_cast<int>(worker.getCurrentNumberOfCombinations()), ncomb);
    worker.exit();
  }
  Stats::finalize();
  (void)sc;
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
