// What rank programs (inside each private copy of the code under test) may use of the simulator executable.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "model.hpp"
#include "sim.hpp"

namespace api {

// expected state of all component grids after each operation of the scenario
struct Traj {
  model::Scheme scheme;
  std::vector<std::string> ops;
  int nspecies = 1;
  uint64_t vseed = 0;
  // after[t]: state after t operations (after[0]: initial)
  std::vector<std::shared_ptr<std::vector<std::vector<std::vector<double>>>>> after;
  // combined sparse grid [species][subspace][index] of the last combination among the first t operations
  std::vector<std::shared_ptr<std::vector<std::vector<std::vector<double>>>>> dsg;
  std::vector<int> stepAfter;  // number of solver steps done after t operations
  std::unique_ptr<model::Combi> combi;
  bool truncated() const {
    for (bool b : combi->inDsg)
      if (!b) return true;
    return false;
  }
  const std::vector<double>& at(int t, int id, int species) const {
    return (*after[static_cast<size_t>(t)])[static_cast<size_t>(id)][static_cast<size_t>(species)];
  }
};

struct Board {
  std::map<std::string, std::vector<double>> num;
  std::map<std::string, std::string> text;
};

const Scenario& scenario();
Traj& traj();          // built on first use
Board& board();
void mixData(const void* p, size_t n);  // results enter the fingerprint
// failure that becomes visible to the user (exception, abort, error result). Whether this is a violation depends on
// whether the scenario injects faults.
void visibleFailure(const std::string& what);
bool faulty();
double maxAbs(const std::vector<double>& v);
}  // namespace api
