// managed run: ngroup nprocs variant OUT LMIN LMAX boundary ops...; ops: run comb norm interp move:FROM:TO:N movefirst:FROM:TO:N
#include "demo_task.hpp"
static LevelVector lv(const char* s) {
  LevelVector l;
  for (const char* p = s; *p; ++p) { l.push_back(atoi(p)); while (*p && *p != ',') ++p; if (!*p) break; }
  return l;
}
static int moveFrom, moveTo, moveN; static bool moveFirst;
class Mover : public TaskRescheduler {
 public:
  std::vector<std::pair<LevelVector, int>> eval(const std::map<LevelVector, int>& m, const std::map<LevelVector, unsigned long>&, LoadModel*) override {
    std::vector<std::pair<LevelVector, int>> r;
    int n = 0;
    for (auto& p : m) {
      if (n >= moveN) break;
      if (p.second == moveFrom) { r.emplace_back(p.first, moveTo); ++n; }
    }
    return r;
  }
};
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  size_t ngroup = atoi(argv[1]), nprocs = atoi(argv[2]);
  auto variant = static_cast<CombinationVariant>(atoi(argv[3]));
  std::string out = argv[4];
  LevelVector lmin = lv(argv[5]), lmax = lv(argv[6]);
  DimType dim = static_cast<DimType>(lmin.size());
  std::vector<BoundaryType> boundary(dim, static_cast<BoundaryType>(atoi(argv[7])));
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, ngroup, nprocs, true);
  WORLD_MANAGER_EXCLUSIVE_SECTION {
    ProcessGroupManagerContainer<> pgroups;
    for (size_t i = 0; i < ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<>>(static_cast<int>(i)));
    auto lm = std::unique_ptr<LoadModel>(new LinearLoadModel());
    CombiMinMaxScheme scheme(dim, lmin, lmax);
    scheme.createAdaptiveCombischeme();
    auto levels = scheme.getCombiSpaces();
    auto coeffs = scheme.getCoeffs();
    TaskContainer<> tasks; std::vector<size_t> ids; std::map<size_t, LevelVector> byId;
    for (size_t i = 0; i < levels.size(); ++i) {
      Task<>* t = new DemoTask(levels[i], boundary, coeffs[i], lm.get());
      tasks.push_back(t); ids.push_back(t->getID()); byId[t->getID()] = levels[i];
    }
    CombiParameters params(dim, lmin, lmax, boundary, levels, coeffs, ids, 10, 1, variant);
    std::vector<int> par(dim, 1); par[0] = static_cast<int>(nprocs);
    params.setParallelization(par);
    ProcessManager<> m{pgroups, tasks, params, std::move(lm), std::unique_ptr<TaskRescheduler>(new Mover)};
    m.updateCombiParameters();
    m.runfirst();
    std::ofstream q(out + "q");
    q << std::setprecision(17);
    std::vector<std::vector<real>> pts;
    for (int i = 0; i < 20; ++i) { std::vector<real> p; for (DimType d = 0; d < dim; ++d) p.push_back(0.5 + 0.5 * noise({i}, d, 7)); pts.push_back(p); }
    for (int i = 8; i < argc; ++i) {
      std::string op = argv[i];
      if (op == "run") m.runnext();
      else if (op == "comb") m.combine();
      else if (op == "norm") {
        for (int p : {0, 1, 2}) for (auto& n : m.getLpNorms(p)) { q << "norm" << i << "_" << p << "_"; for (auto x : byId[n.first]) q << x << ','; q << " 0 " << n.second << "\n"; }
      } else if (op == "interp") {
        auto v = m.interpolateValues(pts);
        for (size_t k = 0; k < v.size(); ++k) q << "interp" << i << " " << k << " " << v[k] << "\n";
      } else if (op.rfind("move:", 0) == 0) {
        sscanf(op.c_str(), "move:%d:%d:%d", &moveFrom, &moveTo, &moveN);
        if (ngroup > 1) m.reschedule();
      }
    }
    m.exit();
  } else {
    ProcessGroupWorker<> w;
    SignalType s = -1;
    std::ofstream o;
    while (s != EXIT) {
      s = w.wait();
      if (s != EXIT) dump(out + std::to_string(theMPISystem()->getWorldRank()), w.getTasks());
    }
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
}
