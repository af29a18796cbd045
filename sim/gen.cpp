// Random scenarios: workload, layout and swarm parameters are drawn from the run's seed.
#include "gen.hpp"

#include <algorithm>
#include <stdexcept>

#include "model.hpp"

using sim::Prng;
using model::Lv;

static double pick(Prng& r, std::initializer_list<double> l) {
  std::vector<double> v(l);
  return v[r.below(static_cast<uint32_t>(v.size()))];
}
static long ipick(Prng& r, std::initializer_list<long> l) {
  std::vector<long> v(l);
  return v[r.below(static_cast<uint32_t>(v.size()))];
}

static void genSwarm(Scenario& s, Prng& r, int nranks) {
  s.set("p_preempt", pick(r, {0, 0, 0.02, 0.1, 0.3, 0.6}));
  s.set("p_sched", pick(r, {0, 0.2, 1, 1, 1}));
  s.set("wnet", pick(r, {0.1, 0.5, 1, 1, 4}));
  s.set("p_sync_send", pick(r, {0, 0, 0.3, 1, 1}));
  s.set("p_late_read", pick(r, {0, 0.3, 1, 1}));
  s.set("p_late_write", pick(r, {0, 0.3, 1}));
  s.set("p_sync_coll", pick(r, {0, 0, 0.3, 1}));
  s.set("p_red_order", pick(r, {0, 0.5, 1}));
  s.set("p_not_yet", pick(r, {0, 0.2, 0.6}));
  s.set("p_late_flush", pick(r, {0, 0.3, 1, 1}));
  s.set("p_late_visible", pick(r, {0, 0, 0.3}));
  s.set("p_stall", pick(r, {0, 0, 0.05, 0.3}));
  s.set("perturb", static_cast<long>(1 + r.below(254)));
  std::vector<double> w;
  const bool skew = r.chance(0.6);
  for (int i = 0; i < nranks; ++i) w.push_back(skew ? pick(r, {0.02, 0.2, 1, 1, 5}) : 1.0);
  s.setv("weights", w);
}

// all ways to write n as an ordered product of dim factors
static void factorise(int n, int dim, std::vector<int>& cur, std::vector<std::vector<int>>& out) {
  if (dim == 1) {
    cur.push_back(n);
    out.push_back(cur);
    cur.pop_back();
    return;
  }
  for (int f = 1; f <= n; ++f)
    if (n % f == 0) {
      cur.push_back(f);
      factorise(n / f, dim - 1, cur, out);
      cur.pop_back();
    }
}

// index of the first point on a coarser level that belongs to the part starting at c on level L
static int coarse(int c, int L, int l, int boundary) {
  const int f = 1 << (L - l);
  if (boundary > 0) return (c + f - 1) / f;
  const int x = c - (f - 1);
  return x <= 0 ? 0 : (x + f - 1) / f;
}

struct BaseOpt {
  int maxDim = 3;
  int maxProcs = 4;
  bool bases = true;
  bool noBoundary = true;
  int minDiff = 1;
  size_t maxPoints = 1200;
};

static void genBase(Scenario& s, Prng& r, const BaseOpt& o, int nprocs) {
  for (int attempt = 0;; ++attempt) {
    if (attempt > 200000) throw std::runtime_error("no scenario fits");
    const int dim = attempt > 60 ? (r.chance(0.5) ? 2 : 3) : static_cast<int>(ipick(r, {1, 2, 2, 2, 3, 3, 4}));
    if (dim > o.maxDim) continue;
    Lv lmin, lmax, bnd, basis;
    const int diff = dim == 1 ? 1 : static_cast<int>(ipick(r, {1, 1, 2, 2, 3}));
    const int bmode = static_cast<int>(ipick(r, {0, 1, 2, 2, 3}));
    int bkind = o.bases ? static_cast<int>(ipick(r, {0, 0, 1, 2})) : 0;
    bool anyZero = false;
    for (int d = 0; d < dim; ++d) {
      int b = bmode < 3 ? bmode : static_cast<int>(r.below(3));
      if (!o.noBoundary && b == 0) b = 2;
      bnd.push_back(b);
      anyZero = anyZero || b == 0;
      int lm = static_cast<int>(ipick(r, {1, 1, 2, 2, 3}));
      lmin.push_back(lm);
      int di = diff;
      if (r.chance(0.2)) di += 1;  // anisotropic
      lmax.push_back(lm + di);
    }
    if (anyZero) bkind = 0;  // only hats without boundary points
    for (int d = 0; d < dim; ++d) {
      int kd = bkind;
      if (!anyZero && o.bases && r.chance(0.15)) kd = static_cast<int>(r.below(3));
      basis.push_back(2 * kd + (bnd[static_cast<size_t>(d)] == 1 ? 1 : 0));
    }
    std::vector<Lv> levels;
    std::vector<double> coeffs;
    model::truncatedScheme(lmin, lmax, levels, coeffs);
    size_t tot = 0, biggest = 0;
    for (auto& l : levels) {
      tot += model::countOf(l, bnd);
      biggest = std::max(biggest, model::countOf(l, bnd));
    }
    if (tot > o.maxPoints * 4 || levels.size() > 30 || levels.size() < 1) continue;
    // parallelization: every process must own a point of every grid
    std::vector<std::vector<int>> fs;
    std::vector<int> cur;
    factorise(nprocs, dim, cur, fs);
    std::vector<int> par = fs[r.below(static_cast<uint32_t>(fs.size()))];
    bool ok = true, pow2 = true;
    for (int d = 0; d < dim; ++d) {
      size_t D = static_cast<size_t>(d);
      if (par[D] > model::sizeOf(lmin[D], bnd[D])) ok = false;
      if (par[D] & (par[D] - 1)) pow2 = false;
      // default decomposition is nested only for powers of two up to the coarsest level
      if (par[D] > (1 << lmin[D])) pow2 = false;
      if (bnd[D] == 0 && par[D] > 1 && lmin[D] < 2 && par[D] >= (1 << lmin[D])) pow2 = false;
    }
    if (!ok) continue;
    bool custom = !pow2 || r.chance(0.5);
    std::vector<std::vector<int>> dec(static_cast<size_t>(dim));
    if (custom) {
      for (int d = 0; d < dim && ok; ++d) {
        size_t D = static_cast<size_t>(d);
        const int n = model::sizeOf(lmax[D], bnd[D]);
        bool found = false;
        for (int t = 0; t < 40 && !found; ++t) {
          std::vector<int> c{0};
          for (int i = 1; i < par[D]; ++i) c.push_back(1 + static_cast<int>(r.below(static_cast<uint32_t>(n - 1))));
          std::sort(c.begin(), c.end());
          found = true;
          for (int l = lmin[D]; l <= lmax[D] && found; ++l) {
            int prev = -1;
            for (size_t i = 0; i < c.size(); ++i) {
              int x = coarse(c[i], lmax[D], l, bnd[D]);
              if (x <= prev) found = false;
              prev = x;
            }
            if (prev >= model::sizeOf(l, bnd[D])) found = false;
          }
          if (found) dec[D] = c;
        }
        if (!found) ok = false;
      }
      if (!ok) continue;
    }
    s.set("dim", dim);
    s.setv("lmin", lmin);
    s.setv("lmax", lmax);
    s.setv("boundary", bnd);
    s.setv("basis", basis);
    s.setv("par", par);
    std::vector<int> flat;
    for (auto& l : levels) flat.insert(flat.end(), l.begin(), l.end());
    s.setv("levels", flat);
    s.setv("coeffs", coeffs);
    s.set("forward", custom ? false : r.chance(0.5));
    s.set("custom_dec", custom);
    if (custom)
      for (int d = 0; d < dim; ++d) s.setv("dec" + std::to_string(d), dec[static_cast<size_t>(d)]);
    s.set("nspecies", static_cast<long>(ipick(r, {1, 1, 1, 2})));
    s.set("vseed", static_cast<long>(r.next() >> 20));
    return;
  }
}

static std::vector<int> genAssign(Prng& r, size_t n, int ngroup) {
  // every group gets at least one grid
  std::vector<int> a(n);
  for (;;) {
    for (auto& x : a) x = static_cast<int>(r.below(static_cast<uint32_t>(ngroup)));
    if (r.chance(0.4))
      for (size_t i = 0; i < n; ++i) a[i] = static_cast<int>(i) % ngroup;
    std::vector<int> c(static_cast<size_t>(ngroup));
    for (int x : a) c[static_cast<size_t>(x)]++;
    if (*std::min_element(c.begin(), c.end()) > 0) return a;
  }
}

static void genLeval(Scenario& s, Prng& r) {
  // any level between the coarsest and (a little above) the finest; every process must own points
  auto lmin = s.iv("lmin"), lmax = s.iv("lmax");
  std::vector<long> l;
  for (size_t d = 0; d < lmin.size(); ++d) l.push_back(lmin[d] + r.below(static_cast<uint32_t>(lmax[d] - lmin[d] + 1)));
  s.setv("leval", l);
}

static void genWorker(Scenario& s, Prng& r) {
  int ngroup = static_cast<int>(ipick(r, {1, 2, 2, 3, 4}));
  int nprocs = static_cast<int>(ipick(r, {1, 2, 2, 3, 4, 4}));
  while (ngroup * nprocs > 12) nprocs = static_cast<int>(ipick(r, {1, 2, 3}));
  size_t n = 0;
  do {
    genBase(s, r, BaseOpt(), nprocs);
    n = s.dv("coeffs").size();
  } while (n < static_cast<size_t>(ngroup));
  s.set("ngroup", ngroup);
  s.set("nprocs", nprocs);
  s.setv("assign", genAssign(r, n, ngroup));
  const long variant = r.below(4);
  s.set("variant", variant);
  s.set("chunk", static_cast<long>(ipick(r, {1, 1, 2, 3, 16, 1000000})));
  const int dim = static_cast<int>(s.i("dim"));
  if (r.chance(0.3)) {
    std::vector<int> red;
    for (int d = 0; d < dim; ++d) red.push_back(static_cast<int>(ipick(r, {0, 1, 1})));
    s.setv("reduceLmax", red);
  }
  genLeval(s, r);
  std::vector<std::string> ops;
  const int len = 2 + static_cast<int>(r.below(6));
  bool combined = false;
  for (int i = 0; i < len; ++i) {
    double x = r.unit();
    if (x < 0.36) ops.push_back("run");
    else if (x < 0.66) ops.push_back("comb"), combined = true;
    else if (x < 0.72) {
      ops.push_back("combmm");
      ops.push_back("mm");
      combined = true;
    } else if (x < 0.80) ops.push_back("interp");
    else if (x < 0.88) ops.push_back("norm");
    else if (x < 0.92 && combined && variant != 3) ops.push_back("mm");
    else if (combined && variant == 0) ops.push_back("eval");
  }
  ops.push_back("comb");
  s.setv("ops", ops);
  s.set("omp", static_cast<long>(ipick(r, {1, 1, 1, 2, 3})));
  s.set("p_omp", pick(r, {0, 0.3, 1}));
  s.set("nworlds", 1);
  s.set("w0.program", "worker");
  s.set("w0.n", ngroup * nprocs);
  genSwarm(s, r, ngroup * nprocs);
}

static void genManaged(Scenario& s, Prng& r, const std::string& focus) {
  int ngroup = static_cast<int>(ipick(r, {1, 2, 2, 3, 3, 4}));
  int nprocs = static_cast<int>(ipick(r, {1, 1, 2, 2, 3, 4}));
  while (ngroup * nprocs > 11) nprocs = static_cast<int>(ipick(r, {1, 2, 3}));
  size_t n = 0;
  BaseOpt o;
  o.maxPoints = 600;
  do {
    genBase(s, r, o, nprocs);
    n = s.dv("coeffs").size();
  } while (n < static_cast<size_t>(ngroup));
  s.set("ngroup", ngroup);
  s.set("nprocs", nprocs);
  const bool moves = focus == "moves";
  const long variant = moves ? 0 : ipick(r, {0, 0, 0, 1, 2, 3});
  s.set("variant", variant);
  s.set("chunk", static_cast<long>(ipick(r, {1, 2, 16, 1000000})));
  const int dim = static_cast<int>(s.i("dim"));
  bool reduced = r.chance(0.15);
  if (reduced) {
    std::vector<int> red;
    for (int d = 0; d < dim; ++d) red.push_back(static_cast<int>(ipick(r, {0, 1, 1})));
    s.setv("reduceLmax", red);
  }
  genLeval(s, r);
  const bool one = s.i("nspecies") == 1;
  std::vector<std::string> ops{"run"};
  const int len = 2 + static_cast<int>(r.below(8));
  bool combined = false;
  for (int i = 0; i < len; ++i) {
    double x = r.unit();
    if (moves && r.chance(0.5)) x = 0.70 + 0.16 * x;
    if (x < 0.25) ops.push_back("run");
    else if (x < 0.45) ops.push_back("comb"), combined = true;
    else if (x < 0.53) ops.push_back("norm");
    else if (x < 0.57) ops.push_back("cnorm");
    else if (x < 0.65) { if (one) ops.push_back("interp"); }
    else if (x < 0.67) ops.push_back("params");
    else if (x < 0.70) ops.push_back("diag");
    else if (x < 0.80) {
      if (variant == 0) {
        ops.push_back("comb");
        ops.push_back("resched");
        combined = true;
      }
    } else if (x < 0.86) {
      if (variant == 0 && !reduced) {
        ops.push_back("comb");
        ops.push_back("run");
        ops.push_back("recreate");
        combined = true;
      }
    } else if (x < 0.91) { if (combined && variant == 0) ops.push_back("eval"); }
    else if (x < 0.96) { if (combined && variant != 3) ops.push_back("mm"); }
    else if (combined && variant == 0) ops.push_back("dsgio");
  }
  if (r.chance(0.7)) ops.push_back("comb");
  s.setv("ops", ops);
  s.set("omp", static_cast<long>(ipick(r, {1, 1, 1, 2})));
  s.set("p_omp", pick(r, {0, 0.3, 1}));
  s.set("nworlds", 1);
  s.set("w0.program", "managed");
  s.set("w0.n", ngroup * nprocs + 1);
  genSwarm(s, r, ngroup * nprocs + 1);
}

// several systems that exchange through files
static void genFiles(Scenario& s, Prng& r, const std::string& focus) {
  int S = static_cast<int>(ipick(r, {1, 2, 2, 2, 3}));
  int nprocs = static_cast<int>(ipick(r, {1, 2, 2, 4, 4, 3}));
  const bool many = r.chance(0.04);  // part numbers with two digits
  if (many) {
    S = 1;
    nprocs = 12;
  }
  std::vector<int> ng(static_cast<size_t>(S));
  int total;
  do {
    total = 0;
    for (int& g : ng) {
      g = many ? 1 : static_cast<int>(ipick(r, {1, 1, 2, 2, 3}));
      total += g * nprocs;
    }
  } while (total > 16);
  int groups = 0;
  for (int g : ng) groups += g;
  BaseOpt o;
  o.maxPoints = 700;
  size_t n = 0;
  do {
    genBase(s, r, o, nprocs);
    n = s.dv("coeffs").size();
  } while (n < static_cast<size_t>(groups));
  s.set("nspecies", 1);
  std::vector<int> sys(n), assign(n);
  auto flat = genAssign(r, n, groups);
  for (size_t i = 0; i < n; ++i) {
    int g = flat[i], w = 0;
    while (g >= ng[static_cast<size_t>(w)]) g -= ng[static_cast<size_t>(w++)];
    sys[i] = w;
    assign[i] = g;
  }
  s.setv("sys", sys);
  s.setv("assign", assign);
  s.set("nsys", S);
  s.set("nprocs", nprocs);
  std::vector<long> divs;
  for (long p = 1; p <= nprocs; ++p)
    if (nprocs % p == 0) divs.push_back(p);
  s.set("parts", many ? static_cast<long>(nprocs) : divs[r.below(static_cast<uint32_t>(divs.size()))]);
  s.set("variant", ipick(r, {0, 2, 3, 3}));
  s.set("chunk", static_cast<long>(ipick(r, {1, 2, 3, 16, 1000000})));
  const int dim = static_cast<int>(s.i("dim"));
  if (r.chance(0.25)) {
    std::vector<int> red;
    for (int d = 0; d < dim; ++d) red.push_back(static_cast<int>(ipick(r, {0, 1, 1})));
    s.setv("reduceLmax", red);
  }
  s.set("keep", S == 1 || r.chance(0.8) ? 0 : 1);
  s.set("conjoint", r.chance(0.25));
  s.set("mover", S == 3 || (S == 2 && r.chance(0.3)));
  s.set("barrier", r.chance(0.7));
  s.set("leftovers", r.chance(0.5));
  s.set("swap_reads", r.chance(0.5));
  std::vector<std::string> ops;
  const int len = 1 + static_cast<int>(r.below(3));
  for (int i = 0; i < len; ++i) {
    if (r.chance(0.7)) ops.push_back("run");
    ops.push_back("combfile");
  }
  if (r.chance(0.3)) ops.push_back("run");
  s.setv("ops", ops);
  s.set("omp", static_cast<long>(ipick(r, {1, 1, 1, 2})));
  s.set("p_omp", pick(r, {0, 0.3, 1}));
  s.set("filemon", 1);
  const bool mover = s.i("mover") != 0;
  s.set("nworlds", S + (mover ? 1 : 0));
  for (int w = 0; w < S; ++w) {
    const std::string pre = "w" + std::to_string(w) + ".";
    s.set(pre + "program", "files");
    s.set(pre + "ngroup", ng[static_cast<size_t>(w)]);
    s.set(pre + "n", ng[static_cast<size_t>(w)] * nprocs);
  }
  if (mover) {
    s.set("w" + std::to_string(S) + ".program", "mover");
    s.set("w" + std::to_string(S) + ".n", 1);
  }
  genSwarm(s, r, total + (mover ? 1 : 0));
  if (focus == "faults") {
    s.set("faulty", 1);
    switch (r.below(6)) {
      case 0: case 1: s.set("p_write_fault", pick(r, {0.02, 0.1, 0.3})); break;
      case 2: s.set("p_close_fault", pick(r, {0.05, 0.3})); s.set("p_late_flush", 1); break;
      case 3: s.set("p_open_write_fault", pick(r, {0.05, 0.3})); s.set("p_open_posix_fault", pick(r, {0, 0.1})); s.set("p_posix_write_fault", pick(r, {0, 0, 0.2})); break;
      case 4: s.set("p_read_fault", pick(r, {0.02, 0.1, 0.3})); s.set("p_open_read_fault", pick(r, {0, 0, 0.1})); break;
      default:
        s.set("crash_world", static_cast<long>(r.below(static_cast<uint32_t>(S))));
        if (r.chance(0.7)) s.set("crash_op", static_cast<long>(1 + r.below(30)));
        else s.set("crash_step", static_cast<long>(50 + r.below(3000)));
    }
  }
}

// sparse-grid files, intact and damaged
static void genSgio(Scenario& s, Prng& r, const std::string& focus) {
  const int nprocs = static_cast<int>(ipick(r, {1, 2, 3, 4, 6}));
  s.set("nprocs", nprocs);
  std::vector<long> divs;
  for (long p = 1; p <= nprocs; ++p)
    if (nprocs % p == 0) divs.push_back(p);
  s.set("parts", divs[r.below(static_cast<uint32_t>(divs.size()))]);
  s.set("nsub", static_cast<long>(1 + r.below(9)));
  const char* kinds[] = {"one", "onered", "some", "somered", "chunk", "sizes", "sizesred", "sizes2", "plain", "plainred", "zc", "zcred"};
  const char* damages[] = {"truncate", "truncate", "cut8", "extend", "ext8", "missing", "empty"};
  const bool damage = r.chance(0.5);
  std::vector<std::string> ops;
  // a few large grids: several compression blocks, several rounds of buffered reads
  long scale = 1;
  if (r.chance(0.01)) scale = ipick(r, {500, 500, 500, 500, 500, 500, 500, 500, 500, 90000, 150000});
  s.set("scale", scale);
  const int n = scale > 1000 ? 1 + static_cast<int>(r.below(2)) : 2 + static_cast<int>(r.below(6));
  for (int i = 0; i < n; ++i) {
    std::string old = r.chance(0.3) ? (r.chance(0.5) ? "longer" : "shorter") : "none";
    const char* kind = kinds[r.below(12)];
    if (scale > 1000) kind = kinds[ipick(r, {0, 1, 3, 8, 9, 10, 11, 11})];
    ops.push_back(std::string(kind) + ":" + (damage && r.chance(0.7) ? damages[r.below(7)] : "none") + ":" + old + ":" +
                  std::to_string(r.below(4000)) + ":" + std::to_string(ipick(r, {0, 1, 2, 3, 7, 1000})) + ":" +
                  std::to_string(r.below(1000000)) + ":" + std::to_string(r.below(12)));
  }
  s.setv("ops", ops);
  s.set("nworlds", 1);
  s.set("w0.program", "sgio");
  s.set("w0.n", nprocs);
  genSwarm(s, r, nprocs);
  if (focus == "faults" || (focus.empty() && r.chance(0.3))) {
    s.set("faulty", 1);
    switch (r.below(4)) {
      case 0: s.set("p_write_fault", pick(r, {0.05, 0.2})); break;
      case 1: s.set("p_close_fault", pick(r, {0.05, 0.3})); s.set("p_late_flush", 1); break;
      case 2: s.set("p_open_write_fault", pick(r, {0.05, 0.3})); s.set("p_open_posix_fault", pick(r, {0, 0.2})); s.set("p_posix_write_fault", pick(r, {0, 0, 0.3})); break;
      default: s.set("p_read_fault", pick(r, {0.05, 0.2})); s.set("p_open_read_fault", pick(r, {0, 0, 0.1})); break;
    }
  }
}

// single distributed grids
static void genHier(Scenario& s, Prng& r, const std::string& focus) {
  const int nprocs = static_cast<int>(ipick(r, {1, 2, 3, 4, 4, 6, 8}));
  const int ngrids = 1 + static_cast<int>(r.below(3));
  for (;;) {
    const int dim = static_cast<int>(ipick(r, {1, 1, 2, 2, 2, 3, 3, 4}));
    Lv bnd;
    const int bmode = static_cast<int>(ipick(r, {0, 1, 2, 2, 3}));
    for (int d = 0; d < dim; ++d) bnd.push_back(bmode < 3 ? bmode : static_cast<int>(r.below(3)));
    std::vector<std::vector<int>> fs;
    std::vector<int> cur;
    factorise(nprocs, dim, cur, fs);
    const std::vector<int> par = fs[r.below(static_cast<uint32_t>(fs.size()))];
    const bool any1 = std::count(bnd.begin(), bnd.end(), 1) > 0;
    const bool forward = !any1 && r.chance(0.5);
    bool ok = true;
    for (int g = 0; g < ngrids && ok; ++g) {
      const std::string p = "g" + std::to_string(g) + ".";
      Lv l, basis, lmin;
      for (int d = 0; d < dim; ++d) {
        const size_t D = static_cast<size_t>(d);
        l.push_back(static_cast<int>(ipick(r, {1, 2, 2, 3, 3, 4, dim < 3 ? 5 : 2, dim < 2 ? 6 : 3})));
        const int kd = bnd[D] == 0 ? 0 : static_cast<int>(r.below(3));
        basis.push_back(bnd[D] == 1 ? (kd == 0 && r.chance(0.5) ? 0 : 2 * kd + 1) : 2 * kd);
        lmin.push_back(bnd[D] == 0 ? 0 : static_cast<int>(r.below(static_cast<uint32_t>(l[D] + 1))));
        if (par[D] > model::sizeOf(l[D], bnd[D])) ok = false;
      }
      if (r.chance(0.4)) std::fill(lmin.begin(), lmin.end(), 0);
      if (!ok || model::countOf(l, bnd) > 3000) { ok = false; break; }
      s.setv(p + "level", l);
      s.setv(p + "basis", basis);
      s.setv(p + "lmin", lmin);
      s.set(p + "type", static_cast<long>(ipick(r, {0, 0, 0, 1, 2})));
      const bool custom = r.chance(0.6);
      s.set(p + "custom", custom);
      if (custom)
        for (int d = 0; d < dim; ++d) {
          const size_t D = static_cast<size_t>(d);
          const int n = model::sizeOf(l[D], bnd[D]);
          std::vector<int> all, c{0};
          for (int i = 1; i < n; ++i) all.push_back(i);
          for (int i = 1; i < par[D]; ++i) {
            const size_t k = r.below(static_cast<uint32_t>(all.size()));
            c.push_back(all[k]);
            all.erase(all.begin() + static_cast<long>(k));
          }
          std::sort(c.begin(), c.end());
          s.setv(p + "dec" + std::to_string(d), c);
        }
    }
    if (!ok) continue;
    s.set("dim", dim);
    s.setv("boundary", bnd);
    s.setv("par", par);
    s.set("forward", forward);
    s.set("ngrids", ngrids);
    s.set("nprocs", nprocs);
    s.set("vseed", static_cast<long>(r.next() >> 20));
    const bool all2 = std::count(bnd.begin(), bnd.end(), 2) == dim, all1 = std::count(bnd.begin(), bnd.end(), 1) == dim;
    std::vector<std::string> ops;
    const int n = 3 + static_cast<int>(r.below(8));
    for (int i = 0; i < n; ++i) {
      const std::string g = ":" + std::to_string(r.below(static_cast<uint32_t>(ngrids))) + ":";
      const uint32_t k = focus == "output" ? 60 + r.below(40) : r.below(85);
      if (k < 60) {
        long basis = -1;
        if (r.chance(0.3)) basis = all2 ? 2 * static_cast<long>(r.below(3)) : all1 ? (r.chance(0.2) ? 0 : 1 + 2 * static_cast<long>(r.below(3))) : 0;
        const long mask = r.chance(0.6) ? (1L << dim) - 1 : static_cast<long>(r.below(1u << dim));
        ops.push_back((k < 32 ? "h" : "d") + g + std::to_string(mask) + ":" + std::to_string(basis));
      } else if (k < 64) ops.push_back("norm" + g + std::to_string(r.below(4)));
      else if (k < 69) ops.push_back("interp" + g + std::to_string(r.below(100000)));
      else if (k < 73) ops.push_back("gather" + g + std::to_string(r.below(8)));
      else if (k < 75) ops.push_back("corners" + g + "0");
      else if (k < 78) ops.push_back("low2up" + g + std::to_string(r.below(4)));
      else if (k < 83) ops.push_back("ghost" + g + std::to_string(r.below(4)) + ":" + std::to_string(r.below(2)));
      else ops.push_back("plot" + g + std::to_string(r.below(3)) + ":" + std::to_string(r.chance(0.3) ? 1 : 0) + ":" + std::to_string(r.below(8)));
    }
    s.setv("ops", ops);
    break;
  }
  s.set("omp", static_cast<long>(ipick(r, {1, 1, 2, 3, 4})));
  s.set("p_omp", pick(r, {0, 0.3, 1}));
  s.set("nworlds", 1);
  s.set("w0.program", "hier");
  s.set("w0.n", nprocs);
  genSwarm(s, r, nprocs);
}

// communication layouts, one after the other
static void genLayout(Scenario& s, Prng& r) {
  const int size = 1 + static_cast<int>(r.below(20));
  std::vector<std::string> ops;
  const int n = 1 + static_cast<int>(r.below(4));
  for (int t = 0; t < n; ++t) {
    char kind = 'w';
    int use = size;
    if (r.chance(0.4)) use = 1 + static_cast<int>(r.below(static_cast<uint32_t>(size)));
    if (t == 0 && use == size) kind = "wwil"[r.below(4)];
    bool mgr = use > 1 && r.chance(0.5);
    const int workers = use - (mgr ? 1 : 0);
    std::vector<int> divs;
    for (int d = 1; d <= workers; ++d)
      if (workers % d == 0) divs.push_back(d);
    int ng = divs[r.below(static_cast<uint32_t>(divs.size()))], np = workers / ng;
    std::vector<int> pd;
    for (int d = 1; d <= np; ++d)
      if (np % d == 0) pd.push_back(d);
    const int p1 = r.chance(0.7) ? pd[r.below(static_cast<uint32_t>(pd.size()))] : 0;
    const int p2 = r.chance(0.4) ? pd[r.below(static_cast<uint32_t>(pd.size()))] : 0;
    if (r.chance(0.1)) {
      kind = 'b';
      switch (r.below(3)) {
        case 0: mgr = !mgr; break;
        case 1: np += 1; break;
        default: ng += 1 + static_cast<int>(r.below(3)); break;
      }
    }
    ops.push_back(std::string(1, kind) + ":" + std::to_string(use) + ":" + std::to_string(ng) + ":" + std::to_string(np) + ":" +
                  std::to_string(mgr) + ":" + std::to_string(p1) + ":" + std::to_string(p2) + ":" + std::to_string(r.below(3)));
  }
  s.setv("ops", ops);
  s.set("nworlds", 1);
  s.set("w0.program", "layout");
  s.set("w0.n", size);
  genSwarm(s, r, size);
}

// parameters, tasks and schemes on their way between processes
static void genParams(Scenario& s, Prng& r) {
  int ngroup = static_cast<int>(ipick(r, {1, 1, 2, 3, 4}));
  int nprocs = static_cast<int>(ipick(r, {1, 2, 3, 4, 6}));
  while (ngroup * nprocs > 12) nprocs = static_cast<int>(ipick(r, {1, 2, 3}));
  s.set("ngroup", ngroup);
  s.set("nprocs", nprocs);
  const char* kinds[] = {"cls", "snd", "gat", "tb", "ts", "vec", "txt", "json", "ini", "upd", "upd", "upd"};
  std::vector<std::string> ops;
  for (int n = 1 + static_cast<int>(r.below(8)); n > 0; --n)
    ops.push_back(std::string(kinds[r.below(12)]) + ":" + std::to_string(r.below(100000000)) + ":" + std::to_string(r.below(64)) + ":" +
                  std::to_string(r.below(64)));
  s.setv("ops", ops);
  s.set("nworlds", 1);
  s.set("w0.program", "params");
  s.set("w0.n", ngroup * nprocs + 1);
  genSwarm(s, r, ngroup * nprocs + 1);
}

static void genSockets(Scenario& s, Prng& r) {
  const int nclients = static_cast<int>(ipick(r, {1, 1, 2, 2, 3, 4}));
  const char* kinds[] = {"pre", "pre", "buf", "len", "fix", "fixs", "bd", "bd", "bf", "bi", "bl", "rd", "rd", "rd", "rf", "ri", "ed", "erd", "ei", "es", "file", "fw", "fw", "big"};
  const int profile = static_cast<int>(ipick(r, {0, 0, 1, 1, 2, 3}));  // 0 cuts and delays, 1 + signals, 2 + senders that leave, 3 + resets
  std::vector<std::string> ops;
  for (int n = 1 + static_cast<int>(r.below(8)); n > 0; --n) {
    std::string k = kinds[r.below(24)];
    if (k == "fw" && nclients < 2) k = "pre";
    const int c = 1 + static_cast<int>(r.below(static_cast<uint32_t>(nclients)));
    int dir = static_cast<int>(r.below(2));
    if (k == "fw") {
      dir = 1 + static_cast<int>(r.below(static_cast<uint32_t>(nclients)));
      if (dir == c) dir = 1 + c % nclients;
    }
    const long len = static_cast<long>(1 + r.below(static_cast<uint32_t>(ipick(r, {2, 10, 50, 300}))));
    const long chunk = ipick(r, {1, 3, 7, 8, 9, 16, 24, 64, 100, 4096, 131072});
    long cut = -1;
    if (profile == 2 && r.chance(0.3) && k != "big") cut = static_cast<long>(r.below(3000));
    ops.push_back(k + ":" + std::to_string(c) + ":" + std::to_string(dir) + ":" + std::to_string(r.below(100000)) + ":" + std::to_string(len) + ":" +
                  std::to_string(chunk) + ":" + std::to_string(cut));
  }
  s.setv("ops", ops);
  s.set("nworlds", nclients + 1);
  for (int i = 0; i <= nclients; ++i) {
    s.set("w" + std::to_string(i) + ".program", "sockets");
    s.set("w" + std::to_string(i) + ".n", 1);
  }
  s.set("server_delay", ipick(r, {0, 0, 3, 20}));
  s.set("any_port", static_cast<long>(r.below(2)));
  genSwarm(s, r, nclients + 1);
  s.set("p_sock_cut", pick(r, {0, 0.1, 0.5, 0.9, 1}));
  s.set("sock_buf", ipick(r, {1, 5, 16, 200, 100000}));
  if (profile == 1 || r.chance(0.2)) s.set("p_eintr", pick(r, {0.01, 0.1, 0.3}));
  if (r.chance(0.3)) s.set("p_connect_fault", 0.3);
  if (profile == 3) s.set("p_sock_reset", pick(r, {0.001, 0.01, 0.05}));
  const bool disk = profile == 3 && r.chance(0.3);
  if (disk) s.set(r.chance(0.5) ? "p_posix_write_fault" : "p_open_posix_fault", 0.3);
  if (profile == 1 || profile == 3) s.set("faulty", 1);
}

// two managed systems and the broker
static void genThird(Scenario& s, Prng& r, const std::string& focus) {
  int nprocs, ng[2], total;
  const bool file = focus == "file";  // exchange through files only
  do {
    nprocs = static_cast<int>(ipick(r, {1, 1, 2, 2, 3, 4}));
    for (int& g : ng) g = static_cast<int>(ipick(r, {1, 1, 2, 2, 3}));
    total = (ng[0] + ng[1]) * nprocs + 2;
  } while (total > 14 || (file && ng[0] + ng[1] > 2));
  const int groups = ng[0] + ng[1];
  BaseOpt o;
  o.maxPoints = 500;
  size_t n = 0;
  do {
    genBase(s, r, o, nprocs);
    n = s.dv("coeffs").size();
  } while (n < static_cast<size_t>(groups));
  s.set("nspecies", 1);
  // the managers hand out the grids themselves; each system needs one for every group
  std::vector<int> sys(n);
  int have[2];
  do {
    have[0] = have[1] = 0;
    const double share = pick(r, {0.5, 0.5, 0.8});
    for (size_t i = 0; i < n; ++i) have[sys[i] = r.chance(share) ? 0 : 1]++;
  } while (have[0] < ng[0] || have[1] < ng[1]);
  s.setv("sys", sys);
  s.set("nsys", 2);
  s.set("nprocs", nprocs);
  s.set("variant", 0);
  s.set("chunk", static_cast<long>(ipick(r, {1, 16, 1000000})));
  const int dim = static_cast<int>(s.i("dim"));
  if (r.chance(0.3)) {
    std::vector<int> red;
    for (int d = 0; d < dim; ++d) red.push_back(static_cast<int>(ipick(r, {0, 1, 1})));
    s.setv("reduceLmax", red);
  }
  genLeval(s, r);
  // upstream has switched the extra sparse grid off for managed systems of several groups
  const bool extra = groups == 2 && (r.chance(0.5) || file);
  s.set("extra", extra ? 1 : 0);
  // the managers can also have their systems exchange the data through files (one group per system)
  if (extra && (r.chance(0.4) || file)) {
    s.set("tlfile", static_cast<long>(1 + r.below(2)));
    s.set("filemon", 1);
    s.set("p_late_visible", pick(r, {0, 0.1, 0.5}));
    s.set("p_late_flush", pick(r, {0, 0.2}));
  }
  std::vector<std::string> ops{"run"};
  for (int i = 1 + static_cast<int>(r.below(5)); i > 0; --i) {
    double x = r.unit();
    ops.push_back(x < 0.5 ? "comb3" : x < 0.7 ? "run" : x < 0.9 ? "mc" : "norm");
    if (ops.back() == "comb3" && !extra && r.chance(0.3)) ops.push_back("eval");
  }
  if (r.chance(0.9)) ops.push_back("comb3");
  s.setv("ops", ops);
  s.set("nworlds", 3);
  for (int w = 0; w < 2; ++w) {
    const std::string pre = "w" + std::to_string(w) + ".";
    s.set(pre + "program", "third");
    s.set(pre + "ngroup", ng[w]);
    s.set(pre + "n", ng[w] * nprocs + 1);
    s.set(pre + "tlpg", static_cast<long>(r.below(static_cast<uint32_t>(ng[w]))));
    s.set("delay" + std::to_string(w), ipick(r, {0, 0, 0, 7, 60}));
  }
  s.set("w2.program", "broker");
  s.set("w2.lib", "broker");
  s.set("w2.n", 1);
  s.set("broker_delay", ipick(r, {0, 0, 3, 30}));
  s.set("broker_chunk", ipick(r, {1, 7, 64, 1000, 131072}));
  genSwarm(s, r, total + 1);
  s.set("omp", static_cast<long>(ipick(r, {1, 1, 2})));
  s.set("p_omp", pick(r, {0, 0.3}));
  s.set("p_sock_cut", pick(r, {0, 0.1, 0.5}));
  s.set("sock_buf", ipick(r, {16, 200, 5000, 1000000}));
  if (r.chance(0.3)) s.set("p_eintr", pick(r, {0.01, 0.1}));
  if (r.chance(0.3)) s.set("p_connect_fault", 0.4);
}

bool validOps(const std::string& family, const std::vector<std::string>& ops) {
  bool combined = false;
  if ((family == "managed" || family == "third") && (ops.empty() || ops[0] != "run")) return false;
  for (size_t i = 0; i < ops.size(); ++i) {
    const std::string& o = ops[i];
    if ((o == "eval" || o == "mm" || o == "dsgio") && !combined) return false;
    if (o == "resched" && (i < 1 || ops[i - 1] != "comb")) return false;
    if (o == "recreate" && (i < 2 || ops[i - 1] != "run" || ops[i - 2] != "comb")) return false;
    if (o.rfind("comb", 0) == 0) combined = true;
  }
  return true;
}

static Scenario genPlain(const std::string& family, uint64_t seed, const Scenario& overrides) {
  Scenario s;
  Prng r(seed ^ 0xABCDEF12345ull);
  s.set("family", family);
  if (family == "worker") genWorker(s, r);
  else if (family == "managed") genManaged(s, r, overrides.s("focus", ""));
  else if (family == "files") genFiles(s, r, overrides.s("focus", ""));
  else if (family == "sgio") genSgio(s, r, overrides.s("focus", ""));
  else if (family == "hier") genHier(s, r, overrides.s("focus", ""));
  else if (family == "layout") genLayout(s, r);
  else if (family == "params") genParams(s, r);
  else if (family == "sockets") genSockets(s, r);
  else if (family == "third") genThird(s, r, overrides.s("focus", ""));
  else throw std::runtime_error("unknown family " + family);
  return s;
}

Scenario genScenario(const std::string& family, uint64_t seed, const Scenario& overrides) {
  const bool threads = overrides.s("focus", "") == "threads";
  Scenario s;
  for (uint64_t k = 0;; ++k) {
    try {
      s = genPlain(family, seed + (k << 40), overrides);
      break;
    } catch (const std::runtime_error&) {
      if (k == 20) throw;  // no workload fits the constraints drawn so far: draw others
    }
  }
  for (uint64_t k = 1; threads && s.i("w0.n") > 4; ++k) s = genPlain(family, seed + (k << 32), overrides);
  if (threads) {
    // few processes, several threads each, preempted at single memory accesses (instrumented build)
    Prng q(seed ^ 0x7417ull);
    s.set("omp", static_cast<long>(ipick(q, {2, 2, 3, 4})));
    s.set("p_omp", pick(q, {0.1, 0.5, 1}));
    const uint32_t m = q.below(4);
    s.set("thr_gap", m == 3 ? 0 : ipick(q, {20, 100, 500, 3000}));
    s.set("p_thr_conflict", m == 0 ? 0 : pick(q, {0.01, 0.1, 0.5}));
    s.set("p_thr_hot", m < 2 ? 0 : pick(q, {0.02, 0.2}));
    s.set("thr_hot", static_cast<long>(q.below(32)));
  }
  for (auto& kv : overrides.kv) s.kv[kv.first] = kv.second;
  return s;
}
