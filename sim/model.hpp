// Sequential reference model of the combination technique. Pure C++, shares no code with DisCoTec.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "scenario.hpp"

namespace model {
using Lv = std::vector<int>;

enum Basis { HAT = 0, HAT_P, FW, FW_P, BI, BI_P };

struct Scheme {
  int dim = 0;
  Lv lmin, lmax, boundary, basis;
  std::vector<Lv> levels;
  std::vector<double> coeffs;
};

int sizeOf(int level, int boundary);
std::vector<int> sizesOf(const Lv& l, const Lv& boundary);
size_t countOf(const Lv& l, const Lv& boundary);
int pointLevel(int idx, int level, int boundary);  // level of a 1d point (boundary points: 1)
std::string str(const Lv& l);

// value of the pseudo solver: noise for (grid, species, linear index, step)
double noise(uint64_t seed, int id, int species, size_t i, int step);

void transform1d(double* y, int L, int lmin, int basis, bool inverse);  // y has 2^L+1 entries
void transform(std::vector<double>& v, const Lv& l, const Lv& boundary, const Lv& basis, const Lv& lmin,
               const std::vector<bool>& dims, bool inverse);
double interpolate(const std::vector<double>& v, const Lv& l, const Lv& boundary, const std::vector<double>& x);

// the set of subspaces of the combined sparse grid
std::vector<Lv> sparseLevels(const Lv& lmin, const Lv& lmax);
bool inSparse(const Lv& l, const Lv& lmin, const Lv& lmax);
// truncated combination scheme for (lmin,lmax): levels and coefficients; optional random coarsening by removing
// maximal elements
void truncatedScheme(const Lv& lmin, const Lv& lmax, std::vector<Lv>& levels, std::vector<double>& coeffs);

struct SubMap {                 // where each point of a grid lives in the sparse grid
  std::vector<int> sub;         // subspace number (global numbering in Space)
  std::vector<int> idx;         // index in subspace
};

class Combi {
 public:
  Combi(const Scheme& s, const Lv& reduceLmax, int nspecies);
  const Scheme s;
  int nspecies;
  std::vector<std::vector<std::vector<double>>> u;  // [grid][species][point]
  void init(uint64_t seed);
  void initOne(uint64_t seed, int id);
  void step(uint64_t seed, int id, int stepNo);
  // combination over the grids in "who" (empty = all); returns the sparse grid per species
  void combine(const std::vector<int>& who = {});
  // hierarchical coefficient sums only (no distribution)
  std::vector<std::vector<std::vector<double>>> reduce(const std::vector<int>& who) const;
  void distribute(const std::vector<std::vector<std::vector<double>>>& dsg, const std::vector<bool>& shared,
                  const std::vector<int>& who);
  std::vector<double> hier(int id, int species) const;
  // nodal values of a sparse grid function on a full grid of the given level
  std::vector<double> onLevel(const std::vector<std::vector<double>>& dsg, const Lv& l) const;
  double interpolate(const std::vector<double>& x, int species, const std::vector<int>& who = {}) const;
  std::vector<Lv> subs;            // all subspaces of any grid
  std::vector<bool> inDsg;         // whether part of the sparse grid that is combined
  std::map<Lv, int> subNo;
  std::vector<SubMap> map;
  Lv lminT;  // lowest level of the transform
  std::vector<bool> dims;
  std::vector<size_t> subSize;
};

}  // namespace model
