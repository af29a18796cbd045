#include "model.hpp"

#include <algorithm>
#include <cmath>
#include <functional>
#include <numeric>
#include <set>
#include <stdexcept>

namespace model {

int sizeOf(int level, int boundary) { return (1 << level) - 1 + boundary; }
std::vector<int> sizesOf(const Lv& l, const Lv& b) {
  std::vector<int> r;
  for (size_t d = 0; d < l.size(); ++d) r.push_back(sizeOf(l[d], b[d]));
  return r;
}
size_t countOf(const Lv& l, const Lv& b) {
  size_t n = 1;
  for (int x : sizesOf(l, b)) n *= static_cast<size_t>(x);
  return n;
}
int pointLevel(int idx, int level, int boundary) {
  int c = boundary == 0 ? idx + 1 : idx;
  if (c == 0 || c == (1 << level)) return 1;
  int t = 0;
  while (c % 2 == 0) {
    c /= 2;
    ++t;
  }
  return level - t;
}
std::string str(const Lv& l) {
  std::string s = "(";
  for (size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + std::to_string(l[i]);
  return s + ")";
}

double noise(uint64_t seed, int id, int species, size_t i, int step) {
  uint64_t z = seed * 0x9E3779B97F4A7C15ull + static_cast<uint64_t>(id) * 0xD1B54A32D192ED03ull +
               static_cast<uint64_t>(species) * 0xA0761D6478BD642Full + i * 0xE7037ED1A0B428DBull +
               static_cast<uint64_t>(step + 1) * 0x8EBC6AF09C88C6E3ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  z ^= z >> 31;
  return static_cast<double>(z >> 12) * (1.0 / 2251799813685248.0) - 1.0;
}

void transform1d(double* y, int L, int lmin, int basis, bool inverse) {
  const int N = 1 << L;
  const bool per = basis == HAT_P || basis == FW_P || basis == BI_P;
  const int kind = basis / 2;
  auto at = [&](int i) -> double { return y[i]; };
  auto oddMinus = [&](int s, double sign) {
    for (int i = s; i < N; i += 2 * s) y[i] += sign * 0.5 * (at(i - s) + at(i + s));
  };
  if (!inverse) {
    for (int l = L; l > lmin; --l) {
      const int s = 1 << (L - l);
      if (kind == 0) {
        oddMinus(s, -1);
      } else if (kind == 1) {
        std::vector<double> c(y, y + N + 1);
        for (int i = 2 * s; i < N; i += 2 * s) y[i] = 0.25 * (c[i - s] + c[i + s]) + 0.5 * c[i];
        if (per)
          y[0] = y[N] = 0.25 * (c[0] + c[N] + c[s] + c[N - s]);
        else {
          y[0] = 0.5 * (c[0] + c[s]);
          y[N] = 0.5 * (c[N] + c[N - s]);
        }
        oddMinus(s, -1);
      } else {
        oddMinus(s, -1);
        std::vector<double> c(y, y + N + 1);
        for (int i = 2 * s; i < N; i += 2 * s) y[i] = c[i] + 0.25 * (c[i - s] + c[i + s]);
        if (per)
          y[0] = y[N] = 0.5 * (c[0] + c[N]) + 0.25 * (c[s] + c[N - s]);
        else {
          y[0] = c[0] + 0.5 * c[s];
          y[N] = c[N] + 0.5 * c[N - s];
        }
      }
    }
  } else {
    for (int l = lmin + 1; l <= L; ++l) {
      const int s = 1 << (L - l);
      if (kind == 0) {
        oddMinus(s, 1);
      } else if (kind == 1) {
        oddMinus(s, 1);
        std::vector<double> c(y, y + N + 1);
        for (int i = 2 * s; i < N; i += 2 * s) y[i] = 2 * c[i] - 0.5 * (c[i - s] + c[i + s]);
        if (per)
          y[0] = y[N] = (c[0] + c[N]) - 0.5 * (c[s] + c[N - s]);
        else {
          y[0] = 2 * c[0] - c[s];
          y[N] = 2 * c[N] - c[N - s];
        }
      } else {
        std::vector<double> c(y, y + N + 1);
        for (int i = 2 * s; i < N; i += 2 * s) y[i] = c[i] - 0.25 * (c[i - s] + c[i + s]);
        if (per)
          y[0] = y[N] = 0.5 * (c[0] + c[N]) - 0.25 * (c[s] + c[N - s]);
        else {
          y[0] = c[0] - 0.5 * c[s];
          y[N] = c[N] - 0.5 * c[N - s];
        }
        oddMinus(s, 1);
      }
    }
  }
}

void transform(std::vector<double>& v, const Lv& l, const Lv& b, const Lv& basis, const Lv& lmin,
               const std::vector<bool>& dims, bool inverse) {
  auto n = sizesOf(l, b);
  size_t stride = 1;
  for (size_t d = 0; d < l.size(); ++d) {
    const size_t nd = static_cast<size_t>(n[d]);
    if (dims[d] && lmin[d] < l[d]) {
      const int N = 1 << l[d];
      std::vector<double> y(static_cast<size_t>(N) + 1);
      for (size_t hi = 0; hi < v.size(); hi += stride * nd)
        for (size_t lo = 0; lo < stride; ++lo) {
          std::fill(y.begin(), y.end(), 0.);
          const size_t off = b[d] == 0 ? 1 : 0;
          for (size_t i = 0; i < nd; ++i) y[i + off] = v[hi + lo + i * stride];
          if (b[d] == 1) y[static_cast<size_t>(N)] = y[0];
          transform1d(y.data(), l[d], lmin[d], basis[d], inverse);
          for (size_t i = 0; i < nd; ++i) v[hi + lo + i * stride] = y[i + off];
        }
    }
    stride *= nd;
  }
}

double interpolate(const std::vector<double>& v, const Lv& l, const Lv& b, const std::vector<double>& x) {
  const size_t D = l.size();
  auto n = sizesOf(l, b);
  std::vector<int> i0(D), i1(D);
  std::vector<double> w(D);
  for (size_t d = 0; d < D; ++d) {
    const int N = 1 << l[d];
    double p = x[d] * N;
    int k = static_cast<int>(std::floor(p));
    if (k >= N) k = N - 1;
    if (k < 0) k = 0;
    w[d] = p - k;
    auto fix = [&](int c) {
      if (b[d] == 0) return (c == 0 || c == N) ? -1 : c - 1;
      if (b[d] == 1) return c == N ? 0 : c;
      return c;
    };
    i0[d] = fix(k);
    i1[d] = fix(k + 1);
  }
  double r = 0;
  for (unsigned m = 0; m < (1u << D); ++m) {
    double c = 1;
    size_t idx = 0, stride = 1;
    bool zero = false;
    for (size_t d = 0; d < D; ++d) {
      int i = (m >> d) & 1 ? i1[d] : i0[d];
      c *= (m >> d) & 1 ? w[d] : 1 - w[d];
      if (i < 0) zero = true;
      else idx += static_cast<size_t>(i) * stride;
      stride *= static_cast<size_t>(n[d]);
    }
    if (!zero && c != 0) r += c * v[idx];
  }
  return r;
}

bool inSparse(const Lv& l, const Lv& lmin, const Lv& lmax) {
  const size_t D = l.size();
  int minDiff = 1 << 20;
  for (size_t d = 0; d < D; ++d) minDiff = std::min(minDiff, lmax[d] - lmin[d]);
  for (size_t d = 0; d < D; ++d)
    if (l[d] < 1 || l[d] > lmax[d]) return false;
  for (unsigned m = 1; m < (1u << D); ++m) {
    if (__builtin_popcount(m) < 2) continue;
    int sl = 0, sm = 0;
    for (size_t d = 0; d < D; ++d)
      if ((m >> d) & 1) {
        sl += l[d];
        sm += lmax[d] - minDiff;
      }
    if (sl > sm + minDiff) return false;
  }
  return true;
}

static void forBox(const Lv& lo, const Lv& hi, const std::function<void(const Lv&)>& f) {
  Lv l = lo;
  for (;;) {
    f(l);
    size_t d = 0;
    while (d < l.size() && ++l[d] > hi[d]) {
      l[d] = lo[d];
      ++d;
    }
    if (d == l.size()) return;
  }
}

std::vector<Lv> sparseLevels(const Lv& lmin, const Lv& lmax) {
  std::vector<Lv> r;
  forBox(Lv(lmin.size(), 1), lmax, [&](const Lv& l) {
    if (inSparse(l, lmin, lmax)) r.push_back(l);
  });
  return r;
}

void truncatedScheme(const Lv& lmin, const Lv& lmax, std::vector<Lv>& levels, std::vector<double>& coeffs) {
  std::set<Lv> I;
  forBox(lmin, lmax, [&](const Lv& l) {
    if (inSparse(l, lmin, lmax)) I.insert(l);
  });
  levels.clear();
  coeffs.clear();
  const size_t D = lmin.size();
  for (auto& l : I) {
    int c = 0;
    for (unsigned m = 0; m < (1u << D); ++m) {
      Lv k = l;
      for (size_t d = 0; d < D; ++d)
        if ((m >> d) & 1) k[d]++;
      if (I.count(k)) c += __builtin_popcount(m) % 2 ? -1 : 1;
    }
    if (c != 0) {
      levels.push_back(l);
      coeffs.push_back(c);
    }
  }
}

Combi::Combi(const Scheme& sch, const Lv& reduceLmax, int nsp) : s(sch), nspecies(nsp) {
  Lv lm = s.lmax;
  for (size_t d = 0; d < reduceLmax.size(); ++d) lm[d] = std::max(s.lmin[d], s.lmax[d] - reduceLmax[d]);
  bool zero = false;
  for (int b : s.boundary) zero = zero || b == 0;
  lminT = zero ? Lv(s.lmin.size(), 0) : s.lmin;
  dims.assign(s.lmin.size(), true);
  for (size_t g = 0; g < s.levels.size(); ++g) {
    const Lv& l = s.levels[g];
    auto n = sizesOf(l, s.boundary);
    SubMap m;
    const size_t N = countOf(l, s.boundary);
    m.sub.resize(N);
    m.idx.resize(N);
    std::map<int, int> counters;
    std::vector<int> i(l.size(), 0);
    for (size_t p = 0; p < N; ++p) {
      Lv sl(l.size());
      for (size_t d = 0; d < l.size(); ++d) sl[d] = pointLevel(i[d], l[d], s.boundary[d]);
      auto it = subNo.find(sl);
      if (it == subNo.end()) {
        it = subNo.emplace(sl, static_cast<int>(subs.size())).first;
        subs.push_back(sl);
        inDsg.push_back(inSparse(sl, s.lmin, lm));
        subSize.push_back(0);
      }
      m.sub[p] = it->second;
      m.idx[p] = counters[it->second]++;
      size_t d = 0;
      while (d < l.size() && ++i[d] == n[d]) i[d++] = 0;
    }
    for (auto& c : counters)
      subSize[static_cast<size_t>(c.first)] =
          std::max(subSize[static_cast<size_t>(c.first)], static_cast<size_t>(c.second));
    map.push_back(std::move(m));
  }
}

void Combi::initOne(uint64_t seed, int id) {
  auto& g = u[static_cast<size_t>(id)];
  g.resize(static_cast<size_t>(nspecies));
  for (int k = 0; k < nspecies; ++k) {
    auto& v = g[static_cast<size_t>(k)];
    v.resize(countOf(s.levels[static_cast<size_t>(id)], s.boundary));
    for (size_t i = 0; i < v.size(); ++i) v[i] = noise(seed, id, k, i, 0);
  }
}
void Combi::init(uint64_t seed) {
  u.resize(s.levels.size());
  for (size_t i = 0; i < s.levels.size(); ++i) initOne(seed, static_cast<int>(i));
}
void Combi::step(uint64_t seed, int id, int stepNo) {
  for (int k = 0; k < nspecies; ++k) {
    auto& v = u[static_cast<size_t>(id)][static_cast<size_t>(k)];
    for (size_t i = 0; i < v.size(); ++i) v[i] = 0.5 * v[i] + noise(seed, id, k, i, stepNo);
  }
}
std::vector<double> Combi::hier(int id, int species) const {
  std::vector<double> v = u[static_cast<size_t>(id)][static_cast<size_t>(species)];
  transform(v, s.levels[static_cast<size_t>(id)], s.boundary, s.basis, lminT, dims, false);
  return v;
}
std::vector<double> Combi::onLevel(const std::vector<std::vector<double>>& dsg, const Lv& l) const {
  const size_t N = countOf(l, s.boundary);
  auto n = sizesOf(l, s.boundary);
  std::vector<double> h(N, 0.);
  std::map<int, int> counters;
  std::vector<int> i(l.size(), 0);
  for (size_t p = 0; p < N; ++p) {
    Lv sl(l.size());
    for (size_t d = 0; d < l.size(); ++d) sl[d] = pointLevel(i[d], l[d], s.boundary[d]);
    auto it = subNo.find(sl);
    if (it != subNo.end()) {
      size_t j = static_cast<size_t>(it->second), k = static_cast<size_t>(counters[it->second]++);
      if (inDsg[j]) h[p] = dsg[j].at(k);
    }
    size_t d = 0;
    while (d < l.size() && ++i[d] == n[d]) i[d++] = 0;
  }
  transform(h, l, s.boundary, s.basis, lminT, dims, true);
  return h;
}
std::vector<std::vector<std::vector<double>>> Combi::reduce(const std::vector<int>& who) const {
  std::vector<std::vector<std::vector<double>>> r(static_cast<size_t>(nspecies));
  for (size_t k = 0; k < r.size(); ++k) {
    r[k].resize(subs.size());
    for (size_t j = 0; j < subs.size(); ++j)
      if (inDsg[j]) r[k][j].assign(subSize[j], 0.);
    for (int id : who) {
      auto h = hier(id, static_cast<int>(k));
      auto& m = map[static_cast<size_t>(id)];
      const double c = s.coeffs[static_cast<size_t>(id)];
      for (size_t p = 0; p < h.size(); ++p) {
        size_t j = static_cast<size_t>(m.sub[p]);
        if (inDsg[j]) r[k][j][static_cast<size_t>(m.idx[p])] += c * h[p];
      }
    }
  }
  return r;
}
void Combi::distribute(const std::vector<std::vector<std::vector<double>>>& dsg, const std::vector<bool>& shared,
                       const std::vector<int>& who) {
  for (size_t k = 0; k < dsg.size(); ++k)
    for (int id : who) {
      auto h = hier(id, static_cast<int>(k));
      auto& m = map[static_cast<size_t>(id)];
      for (size_t p = 0; p < h.size(); ++p) {
        size_t j = static_cast<size_t>(m.sub[p]);
        if (shared[j]) h[p] = dsg[k][j][static_cast<size_t>(m.idx[p])];
      }
      transform(h, s.levels[static_cast<size_t>(id)], s.boundary, s.basis, lminT, dims, true);
      u[static_cast<size_t>(id)][k] = std::move(h);
    }
}
void Combi::combine(const std::vector<int>& whoIn) {
  std::vector<int> who = whoIn;
  if (who.empty()) {
    who.resize(s.levels.size());
    std::iota(who.begin(), who.end(), 0);
  }
  distribute(reduce(who), inDsg, who);
}
double Combi::interpolate(const std::vector<double>& x, int species, const std::vector<int>& whoIn) const {
  std::vector<int> who = whoIn;
  if (who.empty()) {
    who.resize(s.levels.size());
    std::iota(who.begin(), who.end(), 0);
  }
  double r = 0;
  for (int id : who)
    r += s.coeffs[static_cast<size_t>(id)] * model::interpolate(u[static_cast<size_t>(id)][static_cast<size_t>(species)],
                                                                s.levels[static_cast<size_t>(id)], s.boundary, x);
  return r;
}

}  // namespace model
