// Parameter sets, user tasks and schemes travel between processes and are compared field by field.
#include <sstream>
#include <typeinfo>

#include "common.hpp"

namespace harness {

// a user task with members of its own
class PayloadTask : public SimTask {
 public:
  PayloadTask(const LevelVector& l, const std::vector<BoundaryType>& b, real coeff, FaultsInfo faults, uint64_t seed) : SimTask(l, b, coeff, nullptr) {
    delete faultCriterion_;
    faultCriterion_ = new StaticFaults(faults);
    sim::Prng r(seed);
    for (uint32_t i = r.below(40); i > 0; --i) name_ += static_cast<char>(r.below(256));
    for (uint32_t i = r.below(9); i > 0; --i) data_.push_back((r.unit() - 0.5) * std::pow(10.0, static_cast<double>(r.below(40)) - 20));
  }
  FaultCriterion* faults() const { return faultCriterion_; }
  std::string name_;
  std::vector<double> data_;

 protected:
  PayloadTask() = default;

 private:
  friend class boost::serialization::access;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<SimTask>(*this);
    ar& name_;
    ar& data_;
  }
};
}  // namespace harness
BOOST_CLASS_EXPORT(harness::PayloadTask)

namespace harness {

static std::vector<long> numbers(const std::string& op) {
  std::vector<long> r;
  std::istringstream is(op);
  std::string tok;
  std::getline(is, tok, ':');
  while (std::getline(is, tok, ':')) r.push_back(std::stol(tok));
  return r;
}

static double value(sim::Prng& r) {
  switch (r.below(5)) {
    case 0: return static_cast<double>(static_cast<int>(r.below(9)) - 4);
    case 1: return r.unit();
    case 2: return -r.unit() * 1e-13;
    case 3: return 1.0 / (3.0 + r.below(100));
    default: return r.unit() * 1e17;
  }
}

struct Drawn {
  std::unique_ptr<CombiParameters> p;
  std::vector<LevelVector> levels;
  std::vector<real> coeffs;
  std::vector<size_t> ids;
};

static Drawn draw(uint64_t seed, int nprocs) {
  sim::Prng r(seed * 2654435761ull + 99);
  Drawn D;
  const int dim = 1 + static_cast<int>(r.below(5));
  LevelVector lmin, lmax, redMin, redMax;
  std::vector<BoundaryType> b;
  std::vector<int> par(static_cast<size_t>(dim), 1);
  int rest = nprocs;
  for (int f = 2; rest > 1; ++f)
    while (rest % f == 0) {
      par[r.below(static_cast<uint32_t>(dim))] *= f;
      rest /= f;
    }
  for (int d = 0; d < dim; ++d) {
    lmin.push_back(static_cast<LevelType>(3 + r.below(3)));
    lmax.push_back(static_cast<LevelType>(lmin.back() + r.below(9)));
    b.push_back(static_cast<BoundaryType>(r.below(3)));
    redMin.push_back(static_cast<LevelType>(r.below(3)));
    redMax.push_back(static_cast<LevelType>(r.below(4)));
  }
  if (r.chance(0.3)) redMin.clear();
  if (r.chance(0.3)) redMax.clear();
  const uint32_t n = 1 + r.below(12);
  size_t id = r.below(5);
  for (uint32_t i = 0; i < n; ++i) {
    LevelVector l;
    for (int d = 0; d < dim; ++d) l.push_back(static_cast<LevelType>(lmin[static_cast<size_t>(d)] + r.below(9)));
    bool known = false;
    for (auto& o : D.levels) known = known || o == l;
    if (known) continue;
    D.levels.push_back(l);
    D.coeffs.push_back(value(r));
    D.ids.push_back(id);
    id += 1 + r.below(3);
  }
  const auto variant = static_cast<CombinationVariant>(r.below(4));
  const size_t ncombi = r.below(100000);
  const auto grids = static_cast<IndexType>(1 + r.below(4));
  const uint32_t chunk = 1 + r.below(4000000);
  const bool forward = r.chance(0.5);
  std::string host;
  for (uint32_t i = r.below(30); i > 0; --i) host += static_cast<char>(32 + r.below(95));
  const auto port = static_cast<unsigned short>(r.below(65536));
  const size_t pg = r.below(100);
  const auto D_ = static_cast<DimType>(dim);
  switch (r.below(3)) {
    case 0:
      D.p.reset(new CombiParameters(D_, lmin, lmax, b, D.levels, D.coeffs, D.ids, ncombi, grids, variant, par, redMin, redMax, chunk, forward,
                                    host, port, pg));
      break;
    case 1: {
      std::vector<bool> h;
      for (int d = 0; d < dim; ++d) h.push_back(r.chance(0.5));
      D.p.reset(new CombiParameters(D_, lmin, lmax, b, D.levels, D.coeffs, h, D.ids, ncombi, grids, variant, redMin, redMax, chunk, forward, host,
                                    port, pg));
      D.p->setParallelization(par);
      break;
    }
    default:
      D.p.reset(new CombiParameters(D_, lmin, lmax, b, ncombi, grids, variant, par, redMin, redMax, chunk, forward, host, port, pg));
      D.levels.clear();
      D.coeffs.clear();
      D.ids.clear();
  }
  if (r.chance(0.6)) {
    std::vector<BasisFunctionBasis*> bases;
    for (int d = 0; d < dim; ++d) switch (r.below(6)) {
        case 0: bases.push_back(new HierarchicalHatBasisFunction()); break;
        case 1: bases.push_back(new HierarchicalHatPeriodicBasisFunction()); break;
        case 2: bases.push_back(new FullWeightingBasisFunction()); break;
        case 3: bases.push_back(new FullWeightingPeriodicBasisFunction()); break;
        case 4: bases.push_back(new BiorthogonalBasisFunction()); break;
        default: bases.push_back(new BiorthogonalPeriodicBasisFunction()); break;
      }
    D.p->setHierarchicalBases(bases);
  }
  if (r.chance(0.5)) {
    std::vector<IndexVector> dec;
    for (int d = 0; d < dim; ++d) {
      IndexVector v{0};
      for (int i = 1; i < par[static_cast<size_t>(d)]; ++i) v.push_back(v.back() + 1 + static_cast<IndexType>(r.below(3)));
      dec.push_back(v);
    }
    D.p->setDecomposition(dec);
  }
  if (!D.ids.empty() && r.chance(0.4)) {
    const size_t i = r.below(static_cast<uint32_t>(D.ids.size()));
    D.coeffs[i] = value(r);
    D.p->setCoeff(D.ids[i], D.coeffs[i]);
  }
  return D;
}

static void compareParams(CombiParameters& got, uint64_t seed, int nprocs, const char* where) {
  Drawn D = draw(seed, nprocs);
  CombiParameters& want = *D.p;
  auto bad = [&](const char* what) { sim::violate("params", "%s: %s differs from what was sent", where, what); };
  if (got.getDim() != want.getDim()) return bad("dimensionality");
  if (got.getLMin() != want.getLMin()) bad("lmin");
  if (got.getLMax() != want.getLMax()) bad("lmax");
  if (got.getLMaxReductionVector() != want.getLMaxReductionVector()) bad("reduction of lmax");
  if (got.getBoundary() != want.getBoundary()) bad("boundary");
  if (got.getNumLevels() != D.ids.size()) bad("number of grids of the scheme");
  if (got.getLevelsDict() != want.getLevelsDict()) bad("levels of the scheme");
  for (size_t i = 0; i < D.ids.size(); ++i) {
    if (got.getLevel(D.ids[i]) != D.levels[i]) bad("level of a grid");
    if (got.getCoeff(D.ids[i]) != D.coeffs[i]) bad("weight of a grid");
    if (got.getLevelsToIDs().count(D.levels[i]) == 0 || got.getLevelsToIDs().at(D.levels[i]) != D.ids[i]) bad("identity of a level");
  }
  std::vector<size_t> i1, i2;
  std::vector<real> c1, c2;
  got.getCoeffs(i1, c1);
  want.getCoeffs(i2, c2);
  if (i1 != i2 || c1 != c2) bad("set of weights");
  if (got.getCombiDict() != want.getCombiDict()) bad("weights by level");
  if (got.getNumGrids() != want.getNumGrids()) bad("number of grids per task");
  if (got.getHierarchizationDims() != want.getHierarchizationDims()) bad("hierarchization dimensions");
  auto &b1 = got.getHierarchicalBases(), &b2 = want.getHierarchicalBases();
  if (b1.size() != b2.size()) return bad("number of bases");
  for (size_t d = 0; d < b1.size(); ++d)
    if ((b1[d] == nullptr) != (b2[d] == nullptr) || (b1[d] && typeid(*b1[d]) != typeid(*b2[d]))) bad("basis");
  if (got.isParallelizationSet() != want.isParallelizationSet() || got.getParallelization() != want.getParallelization()) bad("parallelization");
  if (got.getNumberOfCombinations() != want.getNumberOfCombinations()) bad("number of combinations");
  if (got.getCombinationVariant() != want.getCombinationVariant()) bad("combination variant");
  if (got.getChunkSizeInMebibybtePerThread() != want.getChunkSizeInMebibybtePerThread()) bad("chunk size");
  if (got.getThirdLevelHost() != want.getThirdLevelHost()) bad("third-level host");
  if (got.getThirdLevelPort() != want.getThirdLevelPort()) bad("third-level port");
  if (got.getThirdLevelPG() != want.getThirdLevelPG()) bad("third-level group");
  if (got.getDecomposition() != want.getDecomposition()) bad("decomposition");
  if (got.getForwardDecomposition() != want.getForwardDecomposition()) bad("direction of the decomposition");
  sim::probe("params-compared");
}

static PayloadTask* drawTask(uint64_t seed) {
  sim::Prng r(seed * 40503 + 7);
  LevelVector l;
  std::vector<BoundaryType> b;
  for (uint32_t d = 1 + r.below(5); d > 0; --d) {
    l.push_back(static_cast<LevelType>(1 + r.below(20)));
    b.push_back(static_cast<BoundaryType>(r.below(3)));
  }
  FaultsInfo f;
  f.numFaults_ = static_cast<int>(r.below(4));
  for (int i = 0; i < f.numFaults_; ++i) {
    f.iterationFaults_.push_back(r.below(5));
    f.globalRankFaults_.push_back(r.below(5));
  }
  auto* t = new PayloadTask(l, b, value(r), f, r.next());
  t->setID(r.below(1000000));
  t->setFinished(r.chance(0.5));
  t->setSteps(static_cast<int>(r.below(1000)));
  return t;
}

static void compareTask(Task<>* g, uint64_t seed, const char* where) {
  std::unique_ptr<PayloadTask> want(drawTask(seed));
  auto* got = dynamic_cast<PayloadTask*>(g);
  auto bad = [&](const char* what) { sim::violate("params", "%s: %s of the task differs from what was sent", where, what); };
  if (!got) return bad("type");
  if (got->getDim() != want->getDim()) bad("dimensionality");
  if (got->getLevelVector() != want->getLevelVector()) bad("level");
  if (got->getBoundary() != want->getBoundary()) bad("boundary");
  if (got->getCoefficient() != want->getCoefficient()) bad("weight");
  if (got->getID() != want->getID()) bad("identity");
  if (got->isFinished() != want->isFinished()) bad("finished flag");
  if (got->steps() != want->steps()) bad("number of steps");
  if (got->name_ != want->name_ || got->data_ != want->data_) bad("own data");
  for (int c = 0; c < 5; ++c)
    for (int k = 0; k < 5; ++k)
      if (!got->faults() || got->faults()->failNow(c, 0, k) != want->faults()->failNow(c, 0, k)) return bad("fault criterion");
  sim::probe("task-compared");
}

static std::string drawText(uint64_t seed) {
  sim::Prng r(seed + 12345);
  std::string s;
  uint32_t n = r.below(4) == 0 ? 0 : r.below(3000);
  for (uint32_t i = 0; i < n; ++i) s += static_cast<char>(r.below(256));
  return s;
}

template <typename V, typename F>
static void containerOp(int me, int root, uint64_t seed, MPI_Comm comm, F f) {
  sim::Prng r(seed + 5);
  V want;
  for (uint32_t n = r.below(60); n > 0; --n) want.push_back(f(r));
  V got;
  if (me == root) got = want;
  else
    for (uint32_t n = static_cast<uint32_t>(me * 7 % 90); n > 0; --n) got.push_back(typename V::value_type(3));
  MPIUtils::broadcastContainer(got, root, comm);
  if (got != want) sim::violate("params", "container of %zu elements differs from what was broadcast", want.size());
  sim::probe("container-compared");
}

static void schemeOp(int me, uint64_t seed, MPI_Comm comm, bool missing) {
  sim::Prng r(seed + 77);
  const int dim = 1 + static_cast<int>(r.below(5));
  const bool groups = r.chance(0.6);
  std::vector<LevelVector> levels;
  std::vector<double> coeffs;
  std::vector<RankType> grp;
  std::ostringstream os;
  os.precision(17);
  os << "[";
  for (uint32_t n = 1 + r.below(30), i = 0; i < n; ++i) {
    LevelVector l;
    for (int d = 0; d < dim; ++d) l.push_back(static_cast<LevelType>(1 + r.below(12)));
    levels.push_back(l);
    coeffs.push_back(r.chance(0.7) ? (r.chance(0.5) ? 1. : -1.) * static_cast<double>(1 + r.below(5)) : value(r));
    grp.push_back(static_cast<RankType>(r.below(40)));
    std::ostringstream lv;
    for (int d = 0; d < dim; ++d) lv << (d ? ", " : "") << static_cast<int>(l[static_cast<size_t>(d)]);
    os << (i ? ",\n " : "") << "{";
    std::ostringstream co;
    co.precision(17);
    co << coeffs.back();
    if (r.chance(0.5)) os << "\"coeff\": " << co.str() << ", \"level\": [" << lv.str() << "]";
    else os << "\"level\": [" << lv.str() << "], \"coeff\": " << co.str();
    if (groups) os << ", \"group_no\": " << grp.back();
    os << "}";
  }
  os << "]";
  const std::string fn = "scheme_" + std::to_string(seed) + ".json";
  if (me == 0 && !missing) rawWrite(fn, os.str(), 0, true);
  LevelVector lo(static_cast<size_t>(dim), 1), hi(static_cast<size_t>(dim), 12);
  bool threw = false;
  try {
    CombiMinMaxSchemeFromFile s(static_cast<DimType>(dim), lo, hi, fn, comm);
    if (s.getCombiSpaces() != levels) sim::violate("params", "levels of the scheme differ from the file");
    if (s.getCoeffs() != coeffs) sim::violate("params", "weights of the scheme differ from the file");
    if (groups ? s.getProcessGroupNumbers() != grp : !s.getProcessGroupNumbers().empty())
      sim::violate("params", "group numbers of the scheme differ from the file");
    sim::probe("scheme-compared");
  } catch (const std::exception& e) {
    threw = true;
  }
  if (threw != missing) sim::violate("params", missing ? "a missing scheme file is not reported" : "the scheme file could not be read");
  if (me == 0) rawRemove(fn);
}

static void iniOp(int me, uint64_t seed, MPI_Comm comm) {
  sim::Prng r(seed + 177);
  std::map<std::string, std::string> want;
  std::string body;
  for (uint32_t s = 0; s < 1 + r.below(4); ++s) {
    body += "[sec" + std::to_string(s) + "]\n";
    for (uint32_t k = 0; k < r.below(6); ++k) {
      std::string v;
      for (uint32_t n = 1 + r.below(12); n > 0; --n) v += "abcxyz0123456789. -"[r.below(17)];
      body += "k" + std::to_string(k) + " = " + v + "\n";
      want["sec" + std::to_string(s) + ".k" + std::to_string(k)] = v;
    }
  }
  const std::string fn = "params_" + std::to_string(seed) + ".ini";
  if (me == 0) rawWrite(fn, body, 0, true);
  auto cfg = broadcastParameters::getParametersFromRankZero(fn, comm);
  for (auto& kv : want)
    if (cfg.get<std::string>(kv.first, "?") != kv.second) sim::violate("params", "parameter %s differs from the file", kv.first.c_str());
  if (me == 0) rawRemove(fn);
}

void progParams() {
  const Scenario& sc = api::scenario();
  const int ngroup = static_cast<int>(sc.i("ngroup")), nprocs = static_cast<int>(sc.i("nprocs"));
  auto ops = sc.sv("ops");
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, static_cast<size_t>(ngroup), static_cast<size_t>(nprocs), true);
  const int me = getCommRank(MPI_COMM_WORLD), size = getCommSize(MPI_COMM_WORLD);
  ProcessGroupManagerContainer<CombiDataType> pgroups;
  std::unique_ptr<ProcessGroupWorker<>> worker;
  const bool isManager = theMPISystem()->isWorldManager();
  if (isManager) {
    for (int i = 0; i < ngroup; ++i) pgroups.emplace_back(std::make_shared<ProcessGroupManager<CombiDataType>>(static_cast<RankType>(i)));
  } else {
    worker.reset(new ProcessGroupWorker<>);
  }
  for (auto& op : ops) {
    auto f = numbers(op);
    const std::string kind = op.substr(0, op.find(':'));
    const auto seed = static_cast<uint64_t>(f[0]);
    const int a = f.size() > 1 ? static_cast<int>(f[1]) % size : 0;
    if (kind == "cls") {
      Drawn D = draw(seed, nprocs);
      CombiParameters p;
      if (me != a && f[2] % 2) p = std::move(*draw(seed + 1, nprocs).p);  // receives into a set that was in use before
      MPIUtils::broadcastClass(me == a ? D.p.get() : &p, a, MPI_COMM_WORLD);
      compareParams(me == a ? *D.p : p, seed, nprocs, "broadcast");
    } else if (kind == "snd") {
      // several sets from one process to another, and one to every other process
      const int b = static_cast<int>((f[1] + 1 + f[2] % std::max(1, size - 1)) % size);
      if (a == b) continue;
      const int n = 1 + static_cast<int>(f[2] % 3);
      for (int i = 0; i < n; ++i) {
        if (me == a) {
          Drawn D = draw(seed + static_cast<uint64_t>(i), nprocs);
          MPIUtils::sendClass(D.p.get(), b, MPI_COMM_WORLD);
        } else if (me == b) {
          CombiParameters p;
          MPIUtils::receiveClass(&p, a, MPI_COMM_WORLD);
          compareParams(p, seed + static_cast<uint64_t>(i), nprocs, "message");
        }
      }
    } else if (kind == "gat") {
      if (me == a) {
        for (int s = size - 1; s >= 0; --s)
          if (s != a) {
            std::string t;
            MPIUtils::receiveClass(&t, s, MPI_COMM_WORLD, 31);
            if (t != drawText(seed + static_cast<uint64_t>(s))) sim::violate("params", "text from process %d differs", s);
          }
      } else {
        std::string t = drawText(seed + static_cast<uint64_t>(me));
        MPIUtils::sendClass(&t, a, MPI_COMM_WORLD, 31);
      }
    } else if (kind == "tb") {
      Task<>* t = me == a ? drawTask(seed) : nullptr;
      Task<>::broadcast(&t, a, MPI_COMM_WORLD);
      compareTask(t, seed, "broadcast");
      delete t;
    } else if (kind == "ts") {
      const int b = static_cast<int>((f[1] + 1 + f[2] % std::max(1, size - 1)) % size);
      if (a == b) continue;
      const int n = 1 + static_cast<int>(f[2] % 3);
      for (int i = 0; i < n; ++i) {
        if (me == a) {
          std::unique_ptr<Task<>> t(drawTask(seed + static_cast<uint64_t>(i)));
          Task<>::send(t.get(), b, MPI_COMM_WORLD);
        } else if (me == b) {
          Task<>* t = nullptr;
          Task<>::receive(&t, a, MPI_COMM_WORLD);
          compareTask(t, seed + static_cast<uint64_t>(i), "message");
          delete t;
        }
      }
    } else if (kind == "vec") {
      switch (f[2] % 4) {
        case 0: containerOp<std::vector<double>>(me, a, seed, MPI_COMM_WORLD, [](sim::Prng& r) { return value(r); }); break;
        case 1: containerOp<std::vector<int>>(me, a, seed, MPI_COMM_WORLD, [](sim::Prng& r) { return static_cast<int>(r.next()); }); break;
        case 2: containerOp<std::vector<float>>(me, a, seed, MPI_COMM_WORLD, [](sim::Prng& r) { return static_cast<float>(r.unit()); }); break;
        default: containerOp<std::string>(me, a, seed, MPI_COMM_WORLD, [](sim::Prng& r) { return static_cast<char>(r.below(256)); });
      }
    } else if (kind == "txt") {
      const std::string fn = "text_" + std::to_string(seed);
      if (me == 0) rawWrite(fn, drawText(seed), 0, true);
      if (broadcastParameters::getFileContentsFromRankZero(fn, MPI_COMM_WORLD) != drawText(seed))
        sim::violate("params", "broadcast text differs from the file");
      if (me == 0) rawRemove(fn);
    } else if (kind == "json") {
      schemeOp(me, seed, MPI_COMM_WORLD, f[1] % 8 == 0);
    } else if (kind == "ini") {
      iniOp(me, seed, MPI_COMM_WORLD);
    } else if (kind == "upd") {
      // new parameters for some of the groups; the manager does not wait in between
      for (int g = 0; g < ngroup; ++g) {
        if (!((f[1] >> g) & 1)) continue;
        const uint64_t s = f[2] % 2 ? seed : seed + static_cast<uint64_t>(g) * 7;
        if (isManager) {
          Drawn D = draw(s, nprocs);
          pgroups[static_cast<size_t>(g)]->waitStatus();
          pgroups[static_cast<size_t>(g)]->updateCombiParameters(*D.p);
        } else if (theMPISystem()->getProcessGroupNumber() == g) {
          SignalType signal = worker->wait();
          if (signal != UPDATE_COMBI_PARAMETERS) sim::violate("params", "command %d arrived instead of the parameter update", static_cast<int>(signal));
          compareParams(worker->getCombiParameters(), s, nprocs, "update");
          // the group's communicator follows the new parallelization
          int nd = 0;
          MPI_Cartdim_get(theMPISystem()->getLocalComm(), &nd);
          std::vector<int> dims(static_cast<size_t>(nd)), per(dims), co(dims);
          MPI_Cart_get(theMPISystem()->getLocalComm(), nd, dims.data(), per.data(), co.data());
          if (dims != worker->getCombiParameters().getParallelization()) sim::violate("params", "group communicator has another shape (%d dimensions) than the parameters (%zu dimensions)", nd, worker->getCombiParameters().getParallelization().size());
          for (int d = 0; d < nd; ++d)
            if (per[static_cast<size_t>(d)] != (worker->getCombiParameters().getBoundary()[static_cast<size_t>(d)] == 1))
              sim::violate("params", "group communicator is periodic in the wrong dimensions");
          if (getCommRank(theMPISystem()->getLocalComm()) != theMPISystem()->getLocalRank() || theMPISystem()->getLocalRank() != me % nprocs)
            sim::violate("params", "rank in the group changed with the parameters");
        }
      }
    }
  }
  if (isManager) {
    for (auto& g : pgroups) {
      g->waitStatus();
      g->exit();
    }
    for (auto& g : pgroups) g->waitStatus();
  } else {
    SignalType signal = worker->wait();
    if (signal != EXIT) sim::violate("params", "command %d arrived instead of exit", static_cast<int>(signal));
  }
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
