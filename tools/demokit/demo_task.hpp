// a small task and helpers for demonstrations
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <boost/serialization/export.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <string>
#include <vector>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "rescheduler/TaskRescheduler.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "task/Task.hpp"
#include "utils/Config.hpp"
#include "utils/Stats.hpp"
#include "utils/Types.hpp"
#include "utils/BoostExports.hpp"

using namespace combigrid;

inline double noise(const LevelVector& l, size_t index, int step) {
  unsigned long long h = 1469598103934665603ULL;
  auto mix = [&h](unsigned long long x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 1099511628211ULL; h ^= h >> 29; };
  for (auto x : l) mix(static_cast<unsigned long long>(x));
  mix(index); mix(static_cast<unsigned long long>(step));
  return static_cast<double>(h >> 11) / 9007199254740992.0 * 2.0 - 1.0;
}

class DemoTask : public Task<> {
 public:
  static std::vector<int>& par() { static std::vector<int> p; return p; }
  DemoTask(const LevelVector& l, const std::vector<BoundaryType>& boundary, real coeff, LoadModel* lm) : Task<>(l, boundary, coeff, lm) {}
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition = std::vector<IndexVector>()) override {
    std::vector<int> p = par();
    if (p.empty()) { p.assign(getDim(), 1); p[0] = getCommSize(lcomm); }
    dfg_.reset(new OwningDistributedFullGrid<CombiDataType>(getDim(), getLevelVector(), lcomm, getBoundary(), p, false, decomposition));
    fill();
  }
  void fill() {
    for (size_t i = 0; i < static_cast<size_t>(dfg_->getNrLocalElements()); ++i)
      dfg_->getData()[i] = noise(getLevelVector(), static_cast<size_t>(dfg_->getGlobalLinearIndex(static_cast<IndexType>(i))), 0);
  }
  void run(CommunicatorType) override {
    ++steps_;
    for (size_t i = 0; i < static_cast<size_t>(dfg_->getNrLocalElements()); ++i)
      dfg_->getData()[i] = 0.5 * dfg_->getData()[i] + noise(getLevelVector(), static_cast<size_t>(dfg_->getGlobalLinearIndex(static_cast<IndexType>(i))), steps_);
    setFinished(true);
  }
  void getFullGrid(FullGrid<CombiDataType>& fg, RankType r, CommunicatorType, int = 0) override { dfg_->gatherFullGrid(fg, r); }
  DistributedFullGrid<CombiDataType>& getDistributedFullGrid(size_t = 0) override { return *dfg_; }
  void setZero() override { if (dfg_) dfg_->setZero(); }
  int steps_ = 0;

 protected:
  DemoTask() = default;

 private:
  friend class boost::serialization::access;
  std::unique_ptr<OwningDistributedFullGrid<CombiDataType>> dfg_;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<Task<>>(*this);
    ar& steps_;
  }
};
BOOST_CLASS_EXPORT(DemoTask)

inline void dump(const std::string& file, const std::vector<std::unique_ptr<Task<>>>& tasks) {
  std::ofstream o(file);
  o << std::setprecision(17);
  for (auto& t : tasks) {
    auto& d = t->getDistributedFullGrid();
    for (size_t i = 0; i < static_cast<size_t>(d.getNrLocalElements()); ++i) {
      for (auto x : t->getLevelVector()) o << x << ',';
      o << ' ' << d.getGlobalLinearIndex(static_cast<IndexType>(i)) << ' ' << d.getData()[i] << '\n';
    }
  }
}
