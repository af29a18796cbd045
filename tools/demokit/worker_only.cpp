// worker-only run: ngroup nprocs variant chunkMiB ncomb OUT LMIN LMAX [boundary] [par0 par1 ..]; writes the values of all grids
#include "demo_task.hpp"
static LevelVector lv(const char* s) {
  LevelVector l;
  for (const char* p = s; *p; ++p) { l.push_back(atoi(p)); while (*p && *p != ',') ++p; if (!*p) break; }
  return l;
}
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  size_t ngroup = atoi(argv[1]), nprocs = atoi(argv[2]);
  auto variant = static_cast<CombinationVariant>(atoi(argv[3]));
  uint32_t chunk = static_cast<uint32_t>(atoi(argv[4]));
  int ncomb = atoi(argv[5]);
  std::string out = argv[6];
  LevelVector lmin = lv(argv[7]), lmax = lv(argv[8]);
  DimType dim = static_cast<DimType>(lmin.size());
  std::vector<BoundaryType> boundary(dim, static_cast<BoundaryType>(argc > 9 ? atoi(argv[9]) : 2));
  for (int i = 10; i < argc; ++i) DemoTask::par().push_back(atoi(argv[i]));
  std::vector<int> par = DemoTask::par();
  if (par.empty()) { par.assign(dim, 1); par[0] = static_cast<int>(nprocs); }
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, ngroup, nprocs, false);
  {
    CombiMinMaxScheme scheme(dim, lmin, lmax);
    scheme.createAdaptiveCombischeme();
    std::vector<size_t> ids; std::vector<LevelVector> levels; std::vector<real> coeffs;
    getRoundRobinLevels(scheme, theMPISystem()->getProcessGroupNumber(), ngroup, levels, coeffs, ids);
    LinearLoadModel lm;
    ProcessGroupWorker<> w;
    w.setCombiParameters(CombiParameters(dim, lmin, lmax, boundary, static_cast<size_t>(ncomb), 1, variant, par, LevelVector(0), LevelVector(0), chunk, false));
    w.initializeAllTasks<DemoTask>(levels, coeffs, ids, &lm);
    w.initCombinedDSGVector();
    w.zeroDsgsData();
    for (int i = 0; i < ncomb; ++i) { w.runAllTasks(); w.combineAtOnce(); }
    dump(out + std::to_string(theMPISystem()->getWorldRank()), w.getTasks());
    w.exit();
  }
  Stats::finalize();
  MPI_Finalize();
}
