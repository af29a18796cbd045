#include "common.hpp"

#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>

#include "utils/BoostExports.hpp"

BOOST_CLASS_EXPORT(harness::SimTask)

namespace harness {

// direct system calls: the damage is done outside the simulated file system
long rawSize(const std::string& p) {
  int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
  if (fd < 0) return -1;
  long n = ::syscall(SYS_lseek, fd, 0L, SEEK_END);
  ::syscall(SYS_close, fd);
  return n;
}
void rawResize(const std::string& p, long n) { ::syscall(SYS_truncate, p.c_str(), n); }
void rawRemove(const std::string& p) { ::syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0); }
void rawWrite(const std::string& p, const std::string& body, long at, bool create) {
  int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | (create ? O_CREAT | O_TRUNC : 0), 0644));
  if (fd < 0) return;
  ::syscall(SYS_pwrite64, fd, body.data(), body.size(), at);
  ::syscall(SYS_close, fd);
}

std::string rawRead(const std::string& p, bool* ok) {
  const long n = rawSize(p);
  *ok = n >= 0;
  if (n <= 0) return "";
  std::string r(static_cast<size_t>(n), 0);
  int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0));
  ::syscall(SYS_pread64, fd, &r[0], r.size(), 0L);
  ::syscall(SYS_close, fd);
  return r;
}

static model::Lv toLv(const LevelVector& l) { return model::Lv(l.begin(), l.end()); }

SimTask::SimTask(const LevelVector& l, const std::vector<BoundaryType>& boundary, real coeff, LoadModel* loadModel)
    : Task<>(l, boundary, coeff, loadModel) {
  payload_ = 0.1 + static_cast<double>(l[0]);
}

void SimTask::init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition) {
  const Layout L = layout();
  std::vector<int> p = L.par;
  if (!decomposition.empty()) {
    p.clear();
    for (auto& d : decomposition) p.push_back(static_cast<int>(d.size()));
  }
  const auto& T = api::traj();
  dfg_.clear();
  ++inits_;
  for (int k = 0; k < T.nspecies; ++k) {
    dfg_.emplace_back(new OwningDistributedFullGrid<CombiDataType>(getDim(), getLevelVector(), lcomm, getBoundary(), p,
                                                                   api::scenario().i("forward") != 0, decomposition));
    auto& g = *dfg_.back();
    IndexVector lo = g.getLowerBounds(), n = g.getLocalSizes();
    auto glob = model::sizesOf(toLv(getLevelVector()), model::Lv(getBoundary().begin(), getBoundary().end()));
    IndexVector i(n.size(), 0);
    for (IndexType e = 0; e < g.getNrLocalElements(); ++e) {
      size_t idx = 0, stride = 1;
      for (size_t d = 0; d < n.size(); ++d) {
        idx += static_cast<size_t>(lo[d] + i[d]) * stride;
        stride *= static_cast<size_t>(glob[d]);
      }
      g.getData()[e] = model::noise(T.vseed, static_cast<int>(getID()), k, idx, 0);
      size_t d = 0;
      while (d < n.size() && ++i[d] == n[d]) i[d++] = 0;
    }
  }
}

void SimTask::run(CommunicatorType lcomm) {
  const auto& T = api::traj();
  ++steps_;
  for (int k = 0; k < T.nspecies; ++k) {
    auto& g = *dfg_[static_cast<size_t>(k)];
    IndexVector lo = g.getLowerBounds(), n = g.getLocalSizes();
    auto glob = model::sizesOf(toLv(getLevelVector()), model::Lv(getBoundary().begin(), getBoundary().end()));
    IndexVector i(n.size(), 0);
    for (IndexType e = 0; e < g.getNrLocalElements(); ++e) {
      size_t idx = 0, stride = 1;
      for (size_t d = 0; d < n.size(); ++d) {
        idx += static_cast<size_t>(lo[d] + i[d]) * stride;
        stride *= static_cast<size_t>(glob[d]);
      }
      double& u = g.getData()[e];
      u = 0.5 * u + model::noise(T.vseed, static_cast<int>(getID()), k, idx, steps_);
      size_t d = 0;
      while (d < n.size() && ++i[d] == n[d]) i[d++] = 0;
    }
  }
  setFinished(true);
  MPI_Barrier(lcomm);
}

void SimTask::getFullGrid(FullGrid<CombiDataType>& fg, RankType r, CommunicatorType, int n) {
  dfg_[static_cast<size_t>(n)]->gatherFullGrid(fg, r);
}
void SimTask::setZero() {
  for (auto& g : dfg_) g->setZero();
}
CombiDataType SimTask::analyticalSolution(const std::vector<real>&, int) const { return 0; }
void SimTask::receiveDiagnostics() {}
void SimTask::doDiagnostics() {}

Layout layout() {
  const Scenario& sc = api::scenario();
  Layout L;
  L.ngroup = static_cast<int>(sc.i("ngroup", 1));
  L.nprocs = static_cast<int>(sc.i("nprocs", 1));
  L.dim = static_cast<int>(sc.i("dim"));
  for (long x : sc.iv("par")) L.par.push_back(static_cast<int>(x));
  for (long x : sc.iv("assign")) L.assign.push_back(static_cast<int>(x));
  for (long x : sc.iv("boundary")) L.boundary.push_back(static_cast<BoundaryType>(x));
  for (long x : sc.iv("lmin")) L.lmin.push_back(static_cast<LevelType>(x));
  for (long x : sc.iv("lmax")) L.lmax.push_back(static_cast<LevelType>(x));
  for (long x : sc.iv("reduceLmax")) L.reduceLmax.push_back(static_cast<LevelType>(x));
  if (sc.i("custom_dec"))
    for (int d = 0; d < L.dim; ++d) {
      IndexVector v;
      for (long x : sc.iv("dec" + std::to_string(d))) v.push_back(static_cast<IndexType>(x));
      L.dec.push_back(v);
    }
  return L;
}

CombiParameters makeParams(const Layout& L, bool withScheme, size_t ncombi, const std::string& host, int port, size_t pg) {
  const Scenario& sc = api::scenario();
  const auto& T = api::traj();
  auto variant = static_cast<CombinationVariant>(sc.i("variant"));
  auto chunk = static_cast<uint32_t>(sc.i("chunk", 64));
  bool forward = sc.i("forward") != 0;
  std::unique_ptr<CombiParameters> p;
  auto dim = static_cast<DimType>(L.dim);
  if (withScheme) {
    std::vector<LevelVector> levels;
    std::vector<size_t> ids;
    for (size_t i = 0; i < T.scheme.levels.size(); ++i) {
      levels.emplace_back(T.scheme.levels[i].begin(), T.scheme.levels[i].end());
      ids.push_back(i);
    }
    p.reset(new CombiParameters(dim, L.lmin, L.lmax, L.boundary, levels, T.scheme.coeffs, ids, ncombi, T.nspecies, variant, L.par,
                                LevelVector(0), L.reduceLmax, chunk, forward, host, static_cast<unsigned short>(port), pg));
  } else {
    p.reset(new CombiParameters(dim, L.lmin, L.lmax, L.boundary, ncombi, T.nspecies, variant, L.par, LevelVector(0), L.reduceLmax,
                                chunk, forward, host, static_cast<unsigned short>(port), pg));
  }
  std::vector<BasisFunctionBasis*> bases;
  for (int b : T.scheme.basis) {
    switch (b) {
      case model::HAT: bases.push_back(new HierarchicalHatBasisFunction()); break;
      case model::HAT_P: bases.push_back(new HierarchicalHatPeriodicBasisFunction()); break;
      case model::FW: bases.push_back(new FullWeightingBasisFunction()); break;
      case model::FW_P: bases.push_back(new FullWeightingPeriodicBasisFunction()); break;
      case model::BI: bases.push_back(new BiorthogonalBasisFunction()); break;
      default: bases.push_back(new BiorthogonalPeriodicBasisFunction()); break;
    }
  }
  p->setHierarchicalBases(bases);
  if (!L.dec.empty()) p->setDecomposition(L.dec);
  return std::move(*p);
}

bool close(double got, double want, double scale) {
  return std::fabs(got - want) <= 1e-9 * (scale + 1.0);
}

bool checkGrid(const char* oracle, DistributedFullGrid<CombiDataType>& g, const std::vector<double>& want, const std::string& where,
               const model::Lv& level, const model::Lv& boundary) {
  auto glob = model::sizesOf(level, boundary);
  IndexVector lo = g.getLowerBounds(), n = g.getLocalSizes();
  IndexVector i(n.size(), 0);
  double scale = api::maxAbs(want);
  size_t prod = 1;
  for (auto x : n) prod *= static_cast<size_t>(x);
  if (prod != static_cast<size_t>(g.getNrLocalElements())) {
    sim::violate(oracle, "%s: grid %s: local size inconsistent", where.c_str(), model::str(level).c_str());
    return false;
  }
  for (IndexType e = 0; e < g.getNrLocalElements(); ++e) {
    size_t idx = 0, stride = 1;
    for (size_t d = 0; d < n.size(); ++d) {
      idx += static_cast<size_t>(lo[d] + i[d]) * stride;
      stride *= static_cast<size_t>(glob[d]);
    }
    if (idx >= want.size() || !close(g.getData()[e], want[idx], scale)) {
      sim::violate(oracle, "%s: grid %s point %zu: %.17g instead of %.17g", where.c_str(), model::str(level).c_str(), idx,
                   g.getData()[e], idx < want.size() ? want[idx] : 0.0);
      return false;
    }
    size_t d = 0;
    while (d < n.size() && ++i[d] == n[d]) i[d++] = 0;
  }
  api::mixData(g.getData(), static_cast<size_t>(g.getNrLocalElements()) * sizeof(double));
  return true;
}

std::vector<std::vector<real>> queryPoints(int t, int n) {
  const auto& T = api::traj();
  std::vector<std::vector<real>> r;
  for (int i = 0; i < n; ++i) {
    std::vector<real> x;
    for (int d = 0; d < T.scheme.dim; ++d) {
      double v = 0.5 * (model::noise(T.vseed + 77, i, d, static_cast<size_t>(t), 5) + 1);
      // every third coordinate on a grid point or the domain boundary
      double k = model::noise(T.vseed + 78, i, d, static_cast<size_t>(t), 6);
      if (k < -0.6) v = std::floor(v * 9) / 8;
      if (v > 1) v = 1;
      if (v < 0) v = 0;
      x.push_back(v);
    }
    r.push_back(x);
  }
  return r;
}

bool checkInterpolated(int t, const std::vector<std::vector<real>>& pts, const std::vector<CombiDataType>& got) {
  auto& T = api::traj();
  for (size_t i = 0; i < pts.size(); ++i) {
    double want = 0, scale = 0;
    for (size_t id = 0; id < T.scheme.levels.size(); ++id) {
      auto& v = T.at(t, static_cast<int>(id), 0);
      want += T.scheme.coeffs[id] * model::interpolate(v, T.scheme.levels[id], T.scheme.boundary, pts[i]);
      scale += std::fabs(T.scheme.coeffs[id]) * api::maxAbs(v);
    }
    if (got.size() != pts.size() || !close(got[i], want, scale)) {
      std::string x;
      for (double y : pts[i]) x += " " + std::to_string(y);
      sim::violate("query", "interpolated value at%s is %.17g instead of %.17g", x.c_str(), i < got.size() ? got[i] : 0.0, want);
      return false;
    }
  }
  return true;
}

static std::string slurp(const std::string& fn, bool* ok) {
  std::ifstream f(fn, std::ios::binary);
  *ok = static_cast<bool>(f);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

void checkEvalFile(const std::string& stem, int t) {
  auto& T = api::traj();
  model::Lv lv;
  for (long x : api::scenario().iv("leval")) lv.push_back(static_cast<int>(x));
  for (int k = 0; k < T.nspecies; ++k) {
    std::string fn = stem + "_" + std::to_string(k) + ".raw";
    bool ok;
    std::string body = slurp(fn, &ok);
    auto want = T.combi->onLevel((*T.dsg[static_cast<size_t>(t)])[static_cast<size_t>(k)], lv);
    if (!ok || body.size() != want.size() * sizeof(double)) {
      sim::violate("output", "%s has %zu bytes instead of %zu", fn.c_str(), body.size(), want.size() * sizeof(double));
      return;
    }
    double scale = api::maxAbs(want);
    for (size_t i = 0; i < want.size(); ++i) {
      double got;
      memcpy(&got, body.data() + i * sizeof(double), sizeof got);
      if (!close(got, want[i], scale)) {
        sim::violate("output", "%s value %zu is %.17g instead of %.17g", fn.c_str(), i, got, want[i]);
        return;
      }
    }
    std::string head = slurp(fn + "_header", &ok), ext = "Extents ";
    for (int n : model::sizesOf(lv, T.scheme.boundary)) ext += std::to_string(n) + " ";
    if (!ok || head.find("dimensionality " + std::to_string(lv.size()) + "\n") == std::string::npos || head.find(ext + "\n") == std::string::npos)
      sim::violate("output", "%s_header does not describe the data", fn.c_str());
  }
  sim::probe("checked-eval-file");
}

void checkMinMaxFile(const std::string& stem, int t) {
  auto& T = api::traj();
  for (int k = 0; k < T.nspecies; ++k) {
    std::string fn = stem + "_" + std::to_string(k) + ".txt";
    bool ok;
    std::string body = slurp(fn, &ok);
    if (!ok) {
      sim::violate("output", "%s was not written", fn.c_str());
      return;
    }
    std::map<model::Lv, std::pair<double, double>> got;
    std::istringstream is(body);
    std::string line;
    while (std::getline(is, line)) {
      for (char& c : line)
        if (c == '[' || c == ']' || c == ':' || c == ',') c = ' ';
      std::istringstream ls(line);
      model::Lv l(static_cast<size_t>(T.scheme.dim));
      for (int& x : l) ls >> x;
      double a, b;
      ls >> a >> b;
      if (!ls || got.count(l)) {
        sim::violate("output", "%s: unreadable or repeated line", fn.c_str());
        return;
      }
      got[l] = {a, b};
    }
    auto& dsg = (*T.dsg[static_cast<size_t>(t)])[static_cast<size_t>(k)];
    size_t n = 0;
    for (size_t j = 0; j < dsg.size(); ++j) {
      if (dsg[j].empty()) continue;
      ++n;
      double a = *std::min_element(dsg[j].begin(), dsg[j].end()), b = *std::max_element(dsg[j].begin(), dsg[j].end());
      double tol = 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-9;
      auto it = got.find(T.combi->subs[j]);
      if (it == got.end() || std::fabs(it->second.first - a) > tol || std::fabs(it->second.second - b) > tol) {
        sim::violate("output", "%s: subspace %s has extrema %g, %g instead of %g, %g", fn.c_str(), model::str(T.combi->subs[j]).c_str(),
                     it == got.end() ? NAN : it->second.first, it == got.end() ? NAN : it->second.second, a, b);
        return;
      }
    }
    if (n != got.size()) sim::violate("output", "%s: %zu subspaces instead of %zu", fn.c_str(), got.size(), n);
  }
  sim::probe("checked-minmax-file");
}

double refNorm(const std::vector<double>& v, const model::Lv& l, const model::Lv& b, int p) {
  if (p == 0) return api::maxAbs(v);
  auto n = model::sizesOf(l, b);
  std::vector<int> i(n.size(), 0);
  double sum = 0;
  for (size_t e = 0; e < v.size(); ++e) {
    double w = 1;
    for (size_t d = 0; d < n.size(); ++d)
      if (b[d] == 2 && (i[d] == 0 || i[d] == n[d] - 1)) w *= 0.5;
    sum += std::pow(std::fabs(v[e]), p) * w;
    size_t d = 0;
    while (d < n.size() && ++i[d] == n[d]) i[d++] = 0;
  }
  double h = 1;
  for (int x : l) h /= (1 << x);
  return std::pow(sum * std::pow(h, p), 1.0 / p);
}

}  // namespace harness

extern "C" __attribute__((visibility("default"))) void vp_rank_entry(const char* program) {
  std::string p = program;
  try {
    if (p == "worker") harness::progWorker();
    else if (p == "managed") harness::progManaged();
    else if (p == "files") harness::progFiles();
    else if (p == "sgio") harness::progSgio();
    else if (p == "hier") harness::progHier();
    else if (p == "mover") harness::progMover();
    else if (p == "layout") harness::progLayout();
    else if (p == "params") harness::progParams();
    else if (p == "third") harness::progThird();
    else if (p == "sockets") harness::progSockets();
    else throw std::runtime_error("harness: unknown program " + p);
  } catch (const std::exception& e) {
    api::visibleFailure(std::string("exception: ") + e.what());
  } catch (...) {
    api::visibleFailure("unknown exception");
  }
}
