// Shared by all rank programs. Compiled into every private copy of the code under test.
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include <boost/serialization/export.hpp>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>

#include "combischeme/CombiMinMaxScheme.hpp"
#include "combischeme/CombiThirdLevelScheme.hpp"
#include "io/BroadcastParameters.hpp"
#include "io/FileInputOutput.hpp"
#include "loadmodel/LinearLoadModel.hpp"
#include "manager/CombiParameters.hpp"
#include "manager/ProcessGroupManager.hpp"
#include "manager/ProcessGroupWorker.hpp"
#include "manager/ProcessManager.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "task/Task.hpp"
#include "utils/Config.hpp"
#include "utils/MonteCarlo.hpp"
#include "utils/Types.hpp"

#include "../sim/api.hpp"

namespace harness {
using namespace combigrid;

// stand-in for a solver: the values of step n are a fixed pseudo-random function of the values of step n-1
class SimTask : public Task<> {
 public:
  SimTask(const LevelVector& l, const std::vector<BoundaryType>& boundary, real coeff, LoadModel* loadModel);
  void init(CommunicatorType lcomm, const std::vector<IndexVector>& decomposition = std::vector<IndexVector>()) override;
  void run(CommunicatorType lcomm) override;
  void getFullGrid(FullGrid<CombiDataType>& fg, RankType r, CommunicatorType lcomm, int n = 0) override;
  DistributedFullGrid<CombiDataType>& getDistributedFullGrid(size_t n = 0) override { return *dfg_[n]; }
  const DistributedFullGrid<CombiDataType>& getDistributedFullGrid(size_t n) const override { return *dfg_[n]; }
  void setZero() override;
  real getCurrentTime() const override { return steps_; }
  CombiDataType analyticalSolution(const std::vector<real>& coords, int n = 0) const override;
  void receiveDiagnostics() override;
  void doDiagnostics() override;
  int steps() const { return steps_; }
  void setSteps(int n) { steps_ = n; }
  int inits() const { return inits_; }

 protected:
  SimTask() = default;

 private:
  friend class boost::serialization::access;
  std::vector<std::unique_ptr<OwningDistributedFullGrid<CombiDataType>>> dfg_;
  int steps_ = 0;
  int inits_ = 0;
  double payload_ = 0;
  template <class Archive>
  void serialize(Archive& ar, const unsigned int) {
    ar& boost::serialization::base_object<Task<>>(*this);
    ar& steps_;
    ar& payload_;
  }
};

struct Layout {
  int ngroup = 1, nprocs = 1;
  int dim = 0;
  std::vector<int> par, assign;
  std::vector<IndexVector> dec;
  std::vector<BoundaryType> boundary;
  LevelVector lmin, lmax, reduceLmax;
};
Layout layout();
CombiParameters makeParams(const Layout& L, bool withScheme, size_t ncombi, const std::string& host = "", int port = 0, size_t pg = 0);

bool close(double got, double want, double scale);
// compares all local values of a grid with the expected global array; returns false (and records a violation) if different
bool checkGrid(const char* oracle, DistributedFullGrid<CombiDataType>& dfg, const std::vector<double>& want, const std::string& where,
               const model::Lv& level, const model::Lv& boundary);
std::vector<std::vector<real>> queryPoints(int t, int n);
// results of queries and outputs in the state before operation t
bool checkInterpolated(int t, const std::vector<std::vector<real>>& pts, const std::vector<CombiDataType>& got);
void checkEvalFile(const std::string& stem, int t);
void checkMinMaxFile(const std::string& stem, int t);
double refNorm(const std::vector<double>& v, const model::Lv& l, const model::Lv& boundary, int p);

// files seen outside the simulated file system
long rawSize(const std::string& p);
void rawResize(const std::string& p, long n);
void rawRemove(const std::string& p);
void rawWrite(const std::string& p, const std::string& body, long at, bool create);
std::string rawRead(const std::string& p, bool* ok);

void progWorker();
void progManaged();
void progFiles();
void progMover();
void progSgio();
void progHier();
void progLayout();
void progParams();
void progSockets();
void progThird();
}  // namespace harness
