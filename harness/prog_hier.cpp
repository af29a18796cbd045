// Distributed full grids on their own: transforms, queries, gathering, ghost layers and plot files of grids of any level,
// decomposition and number type, against the sequential model. ops: kind:grid:args...
#include "common.hpp"

#include <complex>
#include <cstring>
#include <sstream>

#include "fullgrid/DistributedFullGrid.hpp"
#include "fullgrid/FullGrid.hpp"
#include "hierarchization/DistributedHierarchization.hpp"

namespace harness {

namespace {
struct AnyGrid {
  model::Lv level, boundary, basis, lmin;
  std::vector<double> re, im;  // expected values
  double tol = 1e-9;
  virtual ~AnyGrid() = default;
  virtual void op(const std::string& kind, const std::vector<long>& a, size_t n) = 0;
};

std::vector<std::unique_ptr<BasisFunctionBasis>> makeBases(const model::Lv& b) {
  std::vector<std::unique_ptr<BasisFunctionBasis>> r;
  for (int x : b) {
    switch (x) {
      case model::HAT: r.emplace_back(new HierarchicalHatBasisFunction()); break;
      case model::HAT_P: r.emplace_back(new HierarchicalHatPeriodicBasisFunction()); break;
      case model::FW: r.emplace_back(new FullWeightingBasisFunction()); break;
      case model::FW_P: r.emplace_back(new FullWeightingPeriodicBasisFunction()); break;
      case model::BI: r.emplace_back(new BiorthogonalBasisFunction()); break;
      default: r.emplace_back(new BiorthogonalPeriodicBasisFunction()); break;
    }
  }
  return r;
}

template <class T>
struct Num {
  static T make(double re, double) { return static_cast<T>(re); }
  static double re(T x) { return static_cast<double>(x); }
  static double im(T) { return 0; }
  static constexpr bool cplx = false;
};
template <class R>
struct Num<std::complex<R>> {
  static std::complex<R> make(double re, double im) { return {static_cast<R>(re), static_cast<R>(im)}; }
  static double re(std::complex<R> x) { return x.real(); }
  static double im(std::complex<R> x) { return x.imag(); }
  static constexpr bool cplx = true;
};

template <class T>
struct Grid : AnyGrid {
  std::unique_ptr<OwningDistributedFullGrid<T>> g;
  std::vector<int> n;
  int no;

  size_t globalIndex(const IndexVector& i) const {
    size_t idx = 0, stride = 1;
    for (size_t d = 0; d < n.size(); ++d) {
      idx += static_cast<size_t>(i[d]) * stride;
      stride *= static_cast<size_t>(n[d]);
    }
    return idx;
  }
  template <class F>
  void eachLocal(F f) {
    IndexVector lo = g->getLowerBounds(), k = g->getLocalSizes(), i(k.size(), 0);
    for (IndexType e = 0; e < g->getNrLocalElements(); ++e) {
      IndexVector gi(i.size());
      for (size_t d = 0; d < i.size(); ++d) gi[d] = lo[d] + i[d];
      f(e, globalIndex(gi));
      size_t d = 0;
      while (d < k.size() && ++i[d] == k[d]) i[d++] = 0;
    }
  }
  bool same(T got, size_t idx, double scale) const {
    return std::fabs(Num<T>::re(got) - re[idx]) <= tol * (scale + 1) && (!Num<T>::cplx || std::fabs(Num<T>::im(got) - im[idx]) <= tol * (scale + 1));
  }
  // rounding errors made while the values were large stay when later transforms make them small again, and grow
  double hist = 0;
  double now() const { return std::max(api::maxAbs(re), Num<T>::cplx ? api::maxAbs(im) : 0.); }
  double scale() {
    hist = std::max(hist, now());
    return hist;
  }

  Grid(const Scenario& sc, int number, MPI_Comm comm, const std::vector<int>& par, const std::vector<BoundaryType>& bnd, bool forward) : no(number) {
    const std::string p = "g" + std::to_string(no) + ".";
    for (long x : sc.iv(p + "level")) level.push_back(static_cast<int>(x));
    for (long x : sc.iv(p + "basis")) basis.push_back(static_cast<int>(x));
    for (long x : sc.iv(p + "lmin")) lmin.push_back(static_cast<int>(x));
    for (auto b : bnd) boundary.push_back(b);
    n = model::sizesOf(level, boundary);
    std::vector<IndexVector> dec;
    if (sc.i(p + "custom"))
      for (size_t d = 0; d < level.size(); ++d) {
        IndexVector v;
        for (long x : sc.iv(p + "dec" + std::to_string(d))) v.push_back(static_cast<IndexType>(x));
        dec.push_back(v);
      }
    g.reset(new OwningDistributedFullGrid<T>(static_cast<DimType>(level.size()), LevelVector(level.begin(), level.end()), comm, bnd, par, forward, dec));
    if (std::is_same<T, float>::value || std::is_same<T, std::complex<float>>::value) tol = 2e-4;
    const uint64_t seed = static_cast<uint64_t>(sc.i("vseed"));
    const size_t N = model::countOf(level, boundary);
    for (size_t i = 0; i < N; ++i) {
      re.push_back(model::noise(seed, no, 0, i, 0));
      im.push_back(model::noise(seed, no, 1, i, 0));
    }
    std::vector<int> seen(N, 0);
    eachLocal([&](IndexType e, size_t idx) { g->getData()[e] = Num<T>::make(re[idx], im[idx]); });
  }
  void check(const char* oracle, const std::string& where) {
    const double s = scale();
    bool ok = true;
    eachLocal([&](IndexType e, size_t idx) {
      if (ok && !same(g->getData()[e], idx, s)) {
        ok = false;
        sim::violate(oracle, "%s: grid %s point %zu: %.17g instead of %.17g", where.c_str(), model::str(level).c_str(), idx, Num<T>::re(g->getData()[e]), re[idx]);
      }
    });
    api::mixData(g->getData(), static_cast<size_t>(g->getNrLocalElements()) * sizeof(T));
  }
  template <class B>
  void uniform(bool inverse, const std::vector<bool>& dims, const LevelVector& lm) {
    if (inverse) DistributedHierarchization::dehierarchizeHierachicalBasis<T, B>(*g, dims, lm);
    else DistributedHierarchization::hierarchizeHierachicalBasis<T, B>(*g, dims, lm);
  }
  void op(const std::string& kind, const std::vector<long>& a, size_t opNo) override {
    const std::string where = "operation " + std::to_string(opNo) + " (" + kind + ")";
    const size_t D = level.size();
    MPI_Comm comm = g->getCommunicator();
    int rank, size;
    MPI_Comm_rank(comm, &rank);
    MPI_Comm_size(comm, &size);
    if (kind == "h" || kind == "d") {
      // a[0]: dimensions, a[1]: -1 the bases of the grid, else this basis in all dimensions
      const bool inv = kind == "d";
      std::vector<bool> dims(D);
      for (size_t d = 0; d < D; ++d) dims[d] = (a[0] >> d) & 1;
      model::Lv b = basis;
      LevelVector lm(lmin.begin(), lmin.end());
      if (a[1] >= 0) {
        b.assign(D, static_cast<int>(a[1]));
        switch (a[1]) {
          case model::HAT: uniform<HierarchicalHatBasisFunction>(inv, dims, lm); break;
          case model::HAT_P: uniform<HierarchicalHatPeriodicBasisFunction>(inv, dims, lm); break;
          case model::FW: uniform<FullWeightingBasisFunction>(inv, dims, lm); break;
          case model::FW_P: uniform<FullWeightingPeriodicBasisFunction>(inv, dims, lm); break;
          case model::BI: uniform<BiorthogonalBasisFunction>(inv, dims, lm); break;
          default: uniform<BiorthogonalPeriodicBasisFunction>(inv, dims, lm); break;
        }
      } else {
        auto bases = makeBases(basis);
        std::vector<BasisFunctionBasis*> bp;
        for (auto& x : bases) bp.push_back(x.get());
        if (inv) DistributedHierarchization::dehierarchize<T>(*g, dims, bp, lm);
        else DistributedHierarchization::hierarchize<T>(*g, dims, bp, lm);
      }
      model::transform(re, level, boundary, b, lmin, dims, inv);
      if (Num<T>::cplx) model::transform(im, level, boundary, b, lmin, dims, inv);
      check("transform", where);
      sim::probe("transform-checked");
    } else if (kind == "norm") {
      std::vector<double> m(re.size());
      for (size_t i = 0; i < m.size(); ++i) m[i] = Num<T>::cplx ? std::hypot(re[i], im[i]) : std::fabs(re[i]);
      const double got = static_cast<double>(g->getLpNorm(static_cast<int>(a[0]))), want = refNorm(m, level, boundary, static_cast<int>(a[0]));
      if (std::fabs(got - want) > tol * 10 * (want + 1)) sim::violate("query", "%s: norm %ld of grid %s is %.17g instead of %.17g", where.c_str(), a[0], model::str(level).c_str(), got, want);
      check("query", where);
    } else if (kind == "interp") {
      std::vector<std::vector<real>> pts;
      for (int i = 0; i < 6; ++i) {
        std::vector<real> x;
        for (size_t d = 0; d < D; ++d) {
          double v = 0.5 * (model::noise(static_cast<uint64_t>(a[0]), i, static_cast<int>(d), 3, 5) + 1);
          double k = model::noise(static_cast<uint64_t>(a[0]), i, static_cast<int>(d), 4, 6);
          if (k < -0.5) v = std::min(1., std::floor(v * 9) / 8);
          x.push_back(v);
        }
        pts.push_back(x);
      }
      auto got = g->getInterpolatedValues(pts);
      for (size_t i = 0; i < pts.size(); ++i) {
        const double wr = model::interpolate(re, level, boundary, pts[i]), wi = Num<T>::cplx ? model::interpolate(im, level, boundary, pts[i]) : 0;
        if (got.size() != pts.size() || std::fabs(Num<T>::re(got[i]) - wr) > tol * (scale() + 1) || std::fabs(Num<T>::im(got[i]) - wi) > tol * (scale() + 1)) {
          std::string x;
          for (double y : pts[i]) x += " " + std::to_string(y);
          sim::violate("query", "%s: value of grid %s at%s is %.17g instead of %.17g", where.c_str(), model::str(level).c_str(), x.c_str(), i < got.size() ? Num<T>::re(got[i]) : 0., wr);
          break;
        }
      }
      check("query", where);
    } else if (kind == "gather") {
      const int root = static_cast<int>(a[0]) % size;
      FullGrid<T> fg(static_cast<DimType>(D), LevelVector(level.begin(), level.end()), g->returnBoundaryFlags());
      g->gatherFullGrid(fg, root);
      if (rank == root) {
        for (size_t i = 0; i < re.size(); ++i)
          if (!same(fg.getData()[i], i, scale())) {
            sim::violate("query", "%s: gathered point %zu of grid %s is %.17g instead of %.17g", where.c_str(), i, model::str(level).c_str(), Num<T>::re(fg.getData()[i]), re[i]);
            break;
          }
      }
      check("query", where);
    } else if (kind == "corners") {
      auto got = g->getCornersValues();
      for (size_t c = 0; c < (size_t(1) << D) && !got.empty(); ++c) {
        // the first dimension changes slowest
        IndexVector i(D);
        for (size_t d = 0; d < D; ++d) i[d] = (c >> (D - 1 - d)) & 1 ? n[d] - 1 : 0;
        if (!same(got.at(c), globalIndex(i), scale())) {
          sim::violate("query", "%s: corner %zu of grid %s is %.17g instead of %.17g", where.c_str(), c, model::str(level).c_str(), Num<T>::re(got[c]), re[globalIndex(i)]);
          break;
        }
      }
    } else if (kind == "low2up") {
      const size_t d = static_cast<size_t>(a[0]) % D;
      if (boundary[d] != 2) return;
      g->writeLowerBoundaryToUpperBoundary(static_cast<DimType>(d));
      std::vector<int> i(D, 0);
      for (size_t e = 0; e < re.size(); ++e) {
        if (i[d] == n[d] - 1) {
          IndexVector s(i.begin(), i.end());
          s[d] = 0;
          re[e] = re[globalIndex(s)];
          im[e] = im[globalIndex(s)];
        }
        size_t k = 0;
        while (k < D && ++i[k] == n[k]) i[k++] = 0;
      }
      check("ghost", where);
    } else if (kind == "ghost") {
      const size_t d = static_cast<size_t>(a[0]) % D;
      std::vector<int> ext;
      std::vector<T> buf;
      if (a[1]) {
        MPI_Request rq = MPI_REQUEST_NULL;
        g->exchangeGhostLayerUpward(static_cast<DimType>(d), ext, buf, &rq);
        MPI_Wait(&rq, MPI_STATUS_IGNORE);
      } else {
        buf = g->exchangeGhostLayerUpward(static_cast<DimType>(d), ext);
      }
      IndexVector lo = g->getLowerBounds(), k = g->getLocalSizes();
      const bool none = lo[d] == 0 && boundary[d] != 1;
      size_t want = none ? 0 : 1;
      if (!none)
        for (size_t e = 0; e < D; ++e) want *= e == d ? 1 : static_cast<size_t>(k[e]);
      if (buf.size() != want) {
        sim::violate("ghost", "%s: %zu values instead of %zu", where.c_str(), buf.size(), want);
      } else if (!none) {
        for (size_t e = 0; e < D; ++e)
          if (ext.at(e) != (e == d ? 1 : static_cast<int>(k[e]))) sim::violate("ghost", "%s: wrong extent", where.c_str());
        IndexVector i(D, 0);
        for (size_t e = 0; e < want; ++e) {
          IndexVector s(D);
          for (size_t x = 0; x < D; ++x) s[x] = lo[x] + i[x];
          s[d] = (lo[d] + n[d] - 1) % n[d];
          if (!same(buf[e], globalIndex(s), scale())) {
            sim::violate("ghost", "%s: grid %s layer value %zu is %.17g instead of %.17g", where.c_str(), model::str(level).c_str(), e, Num<T>::re(buf[e]), re[globalIndex(s)]);
            break;
          }
          size_t x = 0;
          while (x < D && ((x == d) || ++i[x] == k[x])) i[x++] = 0;
        }
      }
      check("ghost", where);
    } else if (kind == "plot") {
      // a[0]: 0 raw, 1 with header, 2 vtk; a[1]: whether an older, longer file exists
      const char* suffix[] = {".raw", ".dat", ".vtk"};
      if (a[0] == 2 && (D > 3 || !std::is_same<T, double>::value)) return;
      const std::string fn = "plot" + std::to_string(opNo) + suffix[a[0]];
      if (a[1] && rank == 0) rawWrite(fn, std::string(re.size() * 16 + 5000, 'x'), 0, true);
      MPI_Barrier(comm);
      if (a[0] == 2) g->writePlotFileVTK(fn.c_str());
      else g->writePlotFile(fn.c_str());
      // the file is complete as soon as the call returned, on any process
      if (rank == static_cast<int>(a[2]) % size) checkPlot(fn, static_cast<int>(a[0]));
      MPI_Barrier(comm);
    }
  }
  void checkPlot(const std::string& fn, int kind) {
    bool ok;
    std::string body = rawRead(fn, &ok);
    if (!ok) { sim::violate("output", "%s was not written", fn.c_str()); return; }
    const size_t D = level.size();
    size_t at = 0;
    if (kind == 1) {
      std::vector<int> want{static_cast<int>(D)};
      want.insert(want.end(), n.begin(), n.end());
      at = want.size() * sizeof(int);
      if (body.size() < at || memcmp(body.data(), want.data(), at) != 0) { sim::violate("output", "%s: the header is not the dimensionality and the extents", fn.c_str()); return; }
    } else if (kind == 2) {
      const std::string last = "LOOKUP_TABLE default\n";
      at = body.find(last);
      if (at == std::string::npos) { sim::violate("output", "%s has no header", fn.c_str()); return; }
      at += last.size();
      std::string dims = "DIMENSIONS";
      for (size_t d = 0; d < 3; ++d) dims += " " + std::to_string(d < D ? n[d] : 1);
      const std::string head = body.substr(0, at);
      if (head.find(dims + "\n") == std::string::npos || head.find("POINT_DATA " + std::to_string(re.size()) + "\n") == std::string::npos) { sim::violate("output", "%s: the header does not describe the data", fn.c_str()); return; }
      for (const char* what : {"SPACING", "ORIGIN"}) {
        auto p = head.find(what);
        std::istringstream is(p == std::string::npos ? "" : head.substr(p + strlen(what)));
        for (size_t d = 0; d < D; ++d) {
          double x = -1, h = 1. / (1 << level[d]);
          is >> x;
          if (!(std::fabs(x - (what[0] == 'S' ? h : boundary[d] == 0 ? h : 0)) < 1e-4 * h)) { sim::violate("output", "%s: wrong %s in dimension %zu: %g", fn.c_str(), what, d, x); return; }
        }
      }
    }
    if (body.size() != at + re.size() * sizeof(T)) { sim::violate("output", "%s has %zu bytes instead of %zu", fn.c_str(), body.size(), at + re.size() * sizeof(T)); return; }
    for (size_t i = 0; i < re.size(); ++i) {
      T x;
      std::string b = body.substr(at + i * sizeof(T), sizeof(T));
      if (kind == 2) std::reverse(b.begin(), b.end());
      memcpy(&x, b.data(), sizeof x);
      if (!same(x, i, scale())) { sim::violate("output", "%s: value %zu is %.17g instead of %.17g", fn.c_str(), i, Num<T>::re(x), re[i]); return; }
    }
    if (kind == 0) {
      std::string head = rawRead(fn + "_header", &ok), ext = "Extents ";
      for (int x : n) ext += std::to_string(x) + " ";
      if (!ok || head.find("dimensionality " + std::to_string(D) + "\n") == std::string::npos || head.find(ext + "\n") == std::string::npos ||
          head.find("Data type size " + std::to_string(sizeof(T)) + "\n") == std::string::npos)
        sim::violate("output", "%s_header does not describe the data", fn.c_str());
    }
    sim::probe("checked-plot-file");
  }
};
}  // namespace

void progHier() {
  const Scenario& sc = api::scenario();
  std::vector<int> par, periods;
  std::vector<BoundaryType> bnd;
  for (long x : sc.iv("par")) par.push_back(static_cast<int>(x));
  for (long x : sc.iv("boundary")) {
    bnd.push_back(static_cast<BoundaryType>(x));
    periods.push_back(x == 1 ? 1 : 0);
  }
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, static_cast<size_t>(sc.i("nprocs")), false);
  MPI_Comm comm;
  MPI_Cart_create(theMPISystem()->getLocalComm(), static_cast<int>(par.size()), par.data(), periods.data(), 0, &comm);
  {
    std::vector<std::unique_ptr<AnyGrid>> grids;
    for (int i = 0; i < static_cast<int>(sc.i("ngrids")); ++i) {
      const bool fw = sc.i("forward") != 0;
      switch (sc.i("g" + std::to_string(i) + ".type")) {
        case 1: grids.emplace_back(new Grid<float>(sc, i, comm, par, bnd, fw)); break;
        case 2: grids.emplace_back(new Grid<std::complex<double>>(sc, i, comm, par, bnd, fw)); break;
        default: grids.emplace_back(new Grid<double>(sc, i, comm, par, bnd, fw)); break;
      }
    }
    size_t n = 0;
    for (auto& o : sc.sv("ops")) {
      std::vector<std::string> f;
      std::stringstream ss(o);
      std::string x;
      while (std::getline(ss, x, ':')) f.push_back(x);
      std::vector<long> a;
      for (size_t i = 2; i < f.size(); ++i) a.push_back(atol(f[i].c_str()));
      grids.at(static_cast<size_t>(atol(f.at(1).c_str())))->op(f[0], a, n++);
    }
    MPI_Barrier(comm);
  }
  MPI_Comm_free(&comm);
  Stats::finalize();
  MPI_Barrier(MPI_COMM_WORLD);
}

}  // namespace harness
