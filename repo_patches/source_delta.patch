From 299ea0ca53ff7e110471ca6220e7a1e074accb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:10 +0000
Subject: [PATCH 01/34] fix: hierarchize all grids of a task, not only the
 first

TaskWorker kept numGridsPerTask_ at 1 whatever CombiParameters::getNumGrids()
said, so with several grids per task the further ones were combined in nodal
instead of hierarchical representation.
---
 src/manager/ProcessGroupWorker.cpp | 1 +
 src/manager/TaskWorker.hpp         | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..07836dd 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -676,6 +676,7 @@ template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& combiParameters) {
   combiParameters_ = std::move(combiParameters);
   combiParametersSet_ = true;
+  this->getTaskWorker().setNumGridsPerTask(combiParameters_.getNumGrids());
 
   // overwrite local comm with cartesian communicator
   if (combiParameters_.isParallelizationSet()) {
diff --git a/src/manager/TaskWorker.hpp b/src/manager/TaskWorker.hpp
index f250f25..2de837f 100644
--- a/src/manager/TaskWorker.hpp
+++ b/src/manager/TaskWorker.hpp
@@ -123,6 +123,13 @@ class TaskWorker {
     tasks_.erase(removeIt);
   }
 
+  /**
+   * @brief set the number of grids per task that are (de)hierarchized
+   */
+  inline void setNumGridsPerTask(size_t numGridsPerTask) {
+    numGridsPerTask_ = static_cast<int>(numGridsPerTask);
+  }
+
   /**
    * @brief run all tasks by calling their run method
    */
-- 
2.43.0


From a875894cd64dc4db436df5225ed8ec66734a26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:10 +0000
Subject: [PATCH 02/34] fix: use the biorthogonal kernels for the non-periodic
 biorthogonal basis

(de)hierarchization with BiorthogonalBasisFunction applied the full weighting
kernels.
---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From 0e9a102f0e67330e7ff83c4ed574782c33c13ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:01 +0000
Subject: [PATCH 03/34] fix: interpolate at the upper end of a periodic
 dimension

For coordinate 1.0 with one-sided boundary the lower neighbor is the periodic
image of the first point; it was skipped and the interpolated value was 0.
---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..20c28af 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1118,7 +1118,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 402e7720c4009687431f4bbddaafe98337e4f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 04/34] fix: complete the status message of every command
 before the next one

The manager started a second receive into the same status while the first was
outstanding, read the status while the receive still owned it, and never
completed the receive that answers the exit signal.
---
 src/manager/ProcessGroupManager.cpp |  4 +++-
 src/manager/ProcessGroupManager.hpp | 25 ++++++++++++-------------
 src/manager/ProcessManager.cpp      |  3 +++
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..c37b895 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -11,7 +11,7 @@ template <typename CombiDataType>
 ProcessGroupManager<CombiDataType>::ProcessGroupManager(RankType pgroupRootID)
     : pgroupRootID_(pgroupRootID),
       status_(PROCESS_GROUP_WAIT),
-      statusRequest_(MPI_Request()),
+      statusRequest_(MPI_REQUEST_NULL),
       statusRequestFT_(nullptr) {}
 
 template <typename CombiDataType>
@@ -60,6 +60,8 @@ void ProcessGroupManager<CombiDataType>::sendSignalAndReceive(SignalType signal)
 
 template <typename CombiDataType>
 void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType signal) {
+  // the status answering the previous command has to be received first
+  waitStatus();
   MPI_Send(&signal, 1, MPI_INT, pgroupRootID_, TRANSFER_SIGNAL_TAG,
            theMPISystem()->getGlobalComm());
 }
diff --git a/src/manager/ProcessGroupManager.hpp b/src/manager/ProcessGroupManager.hpp
index c74222e..e191ac3 100644
--- a/src/manager/ProcessGroupManager.hpp
+++ b/src/manager/ProcessGroupManager.hpp
@@ -367,6 +367,13 @@ using ProcessGroupManagerContainer = std::vector<ProcessGroupManagerID<CombiData
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
+  // the receive operation owns status_ until it is completed
+  if (!ENABLE_FT && statusRequest_ != MPI_REQUEST_NULL) {
+    int flag = 0;
+    MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
+    if (!flag) return PROCESS_GROUP_BUSY;
+  }
+
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -380,13 +387,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
       int err = simft::Sim_FT_MPI_Test(&statusRequestFT_, &flag, &stat);
 
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      int flag;
-      MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
     }
   }
   //  std::cout << "status is " << status_ << " \n";
@@ -402,6 +402,11 @@ inline void ProcessGroupManager<CombiDataType>::setStatus(StatusType status) {
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
+  // the receive operation owns status_ until it is completed
+  if (!ENABLE_FT && statusRequest_ != MPI_REQUEST_NULL) {
+    MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
+  }
+
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -411,12 +416,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
       simft::Sim_FT_MPI_Status stat;
       int err = simft::Sim_FT_MPI_Wait(&statusRequestFT_, &stat);
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
     }
   }
   assert(status_ >= 0);  // check for invalid values
diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..bbcfabf 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -117,6 +117,9 @@ void ProcessManager<CombiDataType>::exit() {
     [[maybe_unused]] bool success = pgroups_[i]->exit();
     assert(success);
   }
+
+  // the groups acknowledge the exit signal like any other
+  if (!ENABLE_FT) waitAllFinished();
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From 71530c34d7d4b399adb012fd5d242433b7c1a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:01 +0000
Subject: [PATCH 05/34] fix: receive the status that answers a diagnostics
 command

---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index c37b895..3da94f5 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -634,6 +634,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From bebcabf2512cddff9387727a43eafdf57c92841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:18 +0000
Subject: [PATCH 06/34] fix: let all groups take part in writing the extrema of
 the sparse grid

---
 src/manager/ProcessManager.cpp | 5 ++++-
 src/manager/ProcessManager.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index bbcfabf..af7bb19 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -579,7 +579,10 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
 
 template <typename CombiDataType>
 void ProcessManager<CombiDataType>::writeSparseGridMinMaxCoefficients(const std::string& filename) {
-  pgroups_.back()->writeSparseGridMinMaxCoefficients(filename);
+  // the extrema are reduced across all groups
+  for (auto& pg : pgroups_) {
+    pg->writeSparseGridMinMaxCoefficients(filename);
+  }
 }
 
 template <typename CombiDataType>
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..783c67d 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -319,7 +319,7 @@ class ProcessManager {
                                      const std::string& filenamePrefix) const;
 
   /**
-   * @brief signal the last group to write minimum and maximum subspace coefficients to a file
+   * @brief signal all groups to reduce and write minimum and maximum subspace coefficients to a file
    *
    * @param filename the filename to write to
    */
-- 
2.43.0


From 426349286a32901d05eb8cb7278cb93036f6009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:18 +0000
Subject: [PATCH 07/34] fix: report maxima of sparse grid coefficients that are
 all negative

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..9a4bd3d 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From 2b96d5e1219f19c034426562b17a4ad1bcf24f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:42 +0000
Subject: [PATCH 08/34] fix: keep the communicator of the grids when parameters
 are updated

---
 src/manager/ProcessGroupWorker.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 07836dd..5af0c44 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -696,6 +696,18 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
     assert(combiParameters_.getDim() == static_cast<DimType>(periods.size()));
     assert(periods.size() == dims.size());
 
+    // if the parameters are only updated, the component grids are still using the communicator
+    int topology = MPI_UNDEFINED;
+    MPI_Topo_test(theMPISystem()->getLocalComm(), &topology);
+    if (topology == MPI_CART) {
+      int numDims = 0;
+      MPI_Cartdim_get(theMPISystem()->getLocalComm(), &numDims);
+      std::vector<int> currentDims(numDims), currentPeriods(numDims), currentCoords(numDims);
+      MPI_Cart_get(theMPISystem()->getLocalComm(), numDims, currentDims.data(),
+                   currentPeriods.data(), currentCoords.data());
+      if (currentDims == dims && currentPeriods == periods) return;
+    }
+
     // don't let MPI assign arbitrary ranks
     int reorder = false;
 
-- 
2.43.0


From 4a8cd421f4fff4523348b5aed87c3e4e257f8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:49 +0000
Subject: [PATCH 09/34] fix: give every process group a task, however fast the
 first groups are

---
 src/manager/ProcessManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index af7bb19..6dd9932 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -38,8 +38,8 @@ bool ProcessManager<CombiDataType>::runfirst(bool doInitDSGUs) {
   }
 
   for (size_t i = 0; i < tasks_.size(); ++i) {
-    // wait for available process group
-    ProcessGroupManagerID<CombiDataType> g = wait();
+    // every group needs a task, then wait for available process group
+    ProcessGroupManagerID<CombiDataType> g = i < pgroups_.size() ? pgroups_[i] : wait();
 
     // assign instance to group
     g->runfirst(tasks_[i]);
-- 
2.43.0


From f63e5dab81d9790d1d9ec08ff6c2fc6054ff3808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 10/34] fix: return from writing a file only when all processes
 have written their part

---
 src/fullgrid/DistributedFullGrid.hpp |  4 ++++
 src/io/MPIInputOutput.hpp            | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 20c28af..8406dbf 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1465,6 +1465,8 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
                      MPI_STATUS_IGNORE);
   // close file
   MPI_File_close(&fh);
+  // closing need not synchronize: the file is complete only once all processes have closed it
+  MPI_Barrier(getCommunicator());
   MPI_Type_free(&mysubarray);
 }
 
@@ -1538,6 +1540,8 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
 
   // close file
   MPI_File_close(&fh);
+  // closing need not synchronize: the file is complete only once all processes have closed it
+  MPI_Barrier(getCommunicator());
   MPI_Type_free(&mysubarray);
 }
 
diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..9f1cad6 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -220,10 +220,16 @@ template <typename T>
 int writeValuesConsecutive(const T* valuesStart, MPI_Offset numValues, const std::string& fileName,
                            combigrid::CommunicatorType comm, bool replaceExistingFile = false,
                            bool withCollectiveBuffering = false) {
-  auto file = MPIFileConsecutive<T>::getFileToWrite(fileName, comm, replaceExistingFile,
-                                                    withCollectiveBuffering);
-  auto position = getPositionFromNumValues(numValues, comm);
-  return file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  int numWritten = 0;
+  {
+    auto file = MPIFileConsecutive<T>::getFileToWrite(fileName, comm, replaceExistingFile,
+                                                      withCollectiveBuffering);
+    auto position = getPositionFromNumValues(numValues, comm);
+    numWritten = file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  }
+  // closing need not synchronize: the file is complete only once all processes have closed it
+  MPI_Barrier(comm);
+  return numWritten;
 }
 
 template <typename T>
-- 
2.43.0


From 6414459bf7d1b5334d5507efbaff967ff3cc66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 11/34] fix: evaluate the solution in the decomposition
 direction of the component grids

---
 src/manager/ProcessGroupWorker.cpp | 3 ++-
 src/manager/SparseGridWorker.hpp   | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 5af0c44..4694201 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -578,7 +578,8 @@ void ProcessGroupWorker<CombiDataType>::parallelEvalUniform(const std::string& f
   this->getSparseGridWorker().interpolateAndPlotOnLevel(
       filename, leval, combiParameters_.getBoundary(), combiParameters_.getHierarchizationDims(),
       combiParameters_.getHierarchicalBases(), combiParameters_.getLMin(),
-      combiParameters_.getParallelization(), levalDecomposition);
+      combiParameters_.getParallelization(), levalDecomposition,
+      combiParameters_.getForwardDecomposition());
 }
 
 template <typename CombiDataType>
diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..f5b1181 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -160,7 +160,8 @@ class SparseGridWorker {
       const std::string& filename, const LevelVector& levelToEvaluate,
       const std::vector<BoundaryType>& boundary, const std::vector<bool>& hierarchizationDims,
       const std::vector<BasisFunctionBasis*>& hierarchicalBases, const LevelVector& lmin,
-      const std::vector<int>& parallelization, const std::vector<LevelVector>& decomposition) const;
+      const std::vector<int>& parallelization, const std::vector<LevelVector>& decomposition,
+      bool forwardDecomposition = false) const;
 
   /**
    * @brief have the output group resize their subspace sizes according to the maximum between the
@@ -759,12 +760,14 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
     const std::string& filename, const LevelVector& levelToEvaluate,
     const std::vector<BoundaryType>& boundary, const std::vector<bool>& hierarchizationDims,
     const std::vector<BasisFunctionBasis*>& hierarchicalBases, const LevelVector& lmin,
-    const std::vector<int>& parallelization, const std::vector<IndexVector>& decomposition) const {
+    const std::vector<int>& parallelization, const std::vector<IndexVector>& decomposition,
+    bool forwardDecomposition) const {
   assert(levelToEvaluate.size() == parallelization.size());
   // create dfg
   OwningDistributedFullGrid<CombiDataType> dfg(static_cast<DimType>(levelToEvaluate.size()),
                                                levelToEvaluate, theMPISystem()->getLocalComm(),
-                                               boundary, parallelization, false, decomposition);
+                                               boundary, parallelization, forwardDecomposition,
+                                               decomposition);
   for (size_t g = 0; g < this->getNumberOfGrids(); ++g) {  // loop over all grids and plot them
     this->fillDFGFromDSGU(dfg, g, boundary, hierarchizationDims, hierarchicalBases, lmin);
     // save dfg to file with MPI-IO
-- 
2.43.0


From 92f86f0097382fd7498ddea67ff22d440561c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:28 +0000
Subject: [PATCH 12/34] fix: evaluate every species on its own, without remains
 of the one before

---
 src/manager/SparseGridWorker.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index f5b1181..ed145f5 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -769,6 +769,7 @@ inline void SparseGridWorker<CombiDataType>::interpolateAndPlotOnLevel(
                                                boundary, parallelization, forwardDecomposition,
                                                decomposition);
   for (size_t g = 0; g < this->getNumberOfGrids(); ++g) {  // loop over all grids and plot them
+    dfg.setZero();  // subspaces that are not in the sparse grid are not overwritten below
     this->fillDFGFromDSGU(dfg, g, boundary, hierarchizationDims, hierarchicalBases, lmin);
     // save dfg to file with MPI-IO
     if (endsWith(filename, ".vtk")) {
-- 
2.43.0


From 676b13a2493619ac9d29a43729f31683eaa7d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:16 +0000
Subject: [PATCH 13/34] hook: let simulations split small data into several
 chunks

---
 src/combicom/CombiCom.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..45cbe5b 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -71,6 +71,10 @@ bool sumAndCheckSubspaceSizes(const SparseGridType& dsg) {
  * @return the number of Bytes
  */
 static size_t MiBtoBytes(uint32_t numberOfMiB) {
+#ifdef DISCOTEC_SIM_BYTES_PER_MIB
+  // simulation only: split small data into several chunks
+  return static_cast<size_t>(DISCOTEC_SIM_BYTES_PER_MIB) * static_cast<size_t>(numberOfMiB);
+#endif
   return powerOfTwoByBitshift(20) * static_cast<size_t>(numberOfMiB);
 }
 
-- 
2.43.0


From 4bdc93f183cb5b859eff4bbffe5ac6ca548e7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:34 +0000
Subject: [PATCH 14/34] fix: chunk the subspace reduction the same way on all
 ranks

The chunk size was determined inside a parallel region that is only active on
ranks with more than one communicator, so that ranks reducing together used
different chunk sizes as soon as there is more than one OpenMP thread.
---
 src/combicom/CombiCom.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 45cbe5b..cee8fc6 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -269,17 +269,15 @@ std::vector<std::set<typename AnyDistributedSparseGrid::SubspaceIndexType>>& get
  * @tparam SubspaceIndexContainer a container of subspace indices
  * @param dsg the DistributedSparseGrid
  * @param subspaces the container of subspace indices
- * @param maxMiBToSendPerThread the maximum number of MiB to send per OpenMP thread (~= per core) at
- * once
+ * @param chunkSize the maximum size of the data covered by one datatype, in number of elements; needs
+ * to be the same on all ranks that take part in the reduction
  * @return a vector of pairs of the start index of the subspace and the MPI datatype for the
  * reduction
  */
 template <typename FG_ELEMENT, typename SubspaceIndexContainer>
 std::vector<std::pair<typename AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>>
 getReductionDatatypes(const DistributedSparseGridUniform<FG_ELEMENT>& dsg,
-                      const SubspaceIndexContainer& subspaces, uint32_t maxMiBToSendPerThread) {
-  // like for sparse grid reduce, allow only up to 16MiB per reduction
-  auto chunkSize = getGlobalReduceChunkSize<FG_ELEMENT>(maxMiBToSendPerThread);
+                      const SubspaceIndexContainer& subspaces, int chunkSize) {
   std::vector<std::pair<typename AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>>
       datatypesByStartIndex;
 
@@ -342,8 +340,14 @@ void distributedGlobalSubspaceReduce(SparseGridType& dsg, uint32_t maxMiBToSendP
   MPI_Op indexedAdd;
   MPI_Op_create(addIndexedElements<typename SparseGridType::ElementType>, true, &indexedAdd);
 
+  // like for sparse grid reduce, allow only up to 16MiB per reduction; determine the chunk size
+  // outside of the parallel region: inside, it would depend on whether the region is active, which
+  // may differ between the ranks that reduce together
+  const auto chunkSize =
+      getGlobalReduceChunkSize<typename SparseGridType::ElementType>(maxMiBToSendPerThread);
+
 #pragma omp parallel if (dsg.getSubspacesByCommunicator().size() > 1) default(none) \
-    shared(dsg, indexedAdd) firstprivate(globalReduceRankThatCollects, maxMiBToSendPerThread)
+    shared(dsg, indexedAdd) firstprivate(globalReduceRankThatCollects, chunkSize)
 #pragma omp for schedule(dynamic)
   for (size_t commIndex = 0; commIndex < dsg.getSubspacesByCommunicator().size(); ++commIndex) {
     const std::pair<CommunicatorType,
@@ -355,11 +359,11 @@ void distributedGlobalSubspaceReduce(SparseGridType& dsg, uint32_t maxMiBToSendP
         datatypesByStartIndex;
     if constexpr (communicateAllAllocated) {
       datatypesByStartIndex =
-          getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(), maxMiBToSendPerThread);
+          getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(), chunkSize);
       assert(datatypesByStartIndex.size() == 1);
     } else {
       datatypesByStartIndex =
-          getReductionDatatypes(dsg, commAndItsSubspaces.second, maxMiBToSendPerThread);
+          getReductionDatatypes(dsg, commAndItsSubspaces.second, chunkSize);
     }
     /*
     // // this would be best for outgroup reduce, but leads to MPI truncation
@@ -620,11 +624,11 @@ static void asyncBcastOutgroupDsgData(SparseGridType& dsg, RankType root, Commun
     if constexpr (communicateAllAllocated) {  // assuming byte limit is met by selection of
                                               // allocated spaces
       datatypesByStartIndex = getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(),
-                                                    std::numeric_limits<uint32_t>::max());
+                                                    std::numeric_limits<int>::max());
     } else {
       const auto& commAndItsSubspaces = dsg.getSubspacesByCommunicator()[0];
       datatypesByStartIndex = getReductionDatatypes(dsg, commAndItsSubspaces.second,
-                                                    std::numeric_limits<uint32_t>::max());
+                                                    std::numeric_limits<int>::max());
     }
     assert(datatypesByStartIndex.size() == 1);
 
-- 
2.43.0


From 487f90dc0e7558e886a9fa1f8b8810f62266e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:19 +0000
Subject: [PATCH 15/34] fix: remove exactly the files of the finished exchange

---
 src/manager/SparseGridWorker.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index ed145f5..de15426 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1073,14 +1073,9 @@ void SparseGridWorker<CombiDataType>::removeReadingFiles(
       std::filesystem::remove(partTokenString);
       // remove sparse grid file(s)
       if (!keepSparseGridFiles) {
-        std::filesystem::remove(filenamePrefixesToRead[i] + "_" + std::to_string(0));
-        for (const auto& entry : std::filesystem::directory_iterator(".")) {
-          if (entry.path().string().find(filenamePrefixesToRead[i] + "_" + std::to_string(0) +
-                                         ".part" + std::to_string(filePart)) != std::string::npos) {
-            assert(entry.is_regular_file());
-            std::filesystem::remove(entry.path());
-          }
-        }
+        auto fileName = filenamePrefixesToRead[i] + "_" + std::to_string(0);
+        std::filesystem::remove(fileName);
+        std::filesystem::remove(fileName + ".part" + std::to_string(filePart));
       }
     }
   }
-- 
2.43.0


From b439ab3d1b96b728f15c02fc0020a6a4914922b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:19 +0000
Subject: [PATCH 16/34] fix: remove exchanged files only after all processes
 have read them

---
 src/manager/SparseGridWorker.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index de15426..d9f93e9 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1062,6 +1062,10 @@ void SparseGridWorker<CombiDataType>::removeReadingFiles(
     const std::vector<std::string>& filenamePrefixesToRead,
     const std::vector<std::string>& startReadingTokenFileNames, bool keepSparseGridFiles) const {
   assert(filenamePrefixesToRead.size() == startReadingTokenFileNames.size());
+  if (theMPISystem()->getOutputComm() != MPI_COMM_NULL) {
+    // the other processes that read the same files may not be done yet
+    MPI_Barrier(theMPISystem()->getOutputComm());
+  }
   OUTPUT_ROOT_EXCLUSIVE_SECTION {
     for (size_t i = 0; i < filenamePrefixesToRead.size(); ++i) {
       auto filePart = theMPISystem()->getFilePartNumber();
-- 
2.43.0


From 295df26fce1b0a5d8336f6a1fc34ee9e7ede031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:13 +0000
Subject: [PATCH 17/34] fix: report it when a file could not be opened or
 written completely

---
 src/io/MPIInputOutput.hpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 9f1cad6..0de40f6 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -63,7 +63,11 @@ class [[nodiscard]] MPIFileConsecutive {
     return *this;
   };
 
-  ~MPIFileConsecutive() { MPI_File_close(&file_); }
+  ~MPIFileConsecutive() {
+    if (file_ != MPI_FILE_NULL) {
+      MPI_File_close(&file_);
+    }
+  }
   static MPIFileConsecutive getFileToWrite(const std::string& fileName,
                                            combigrid::CommunicatorType comm,
                                            bool replaceExistingFile, bool withCollectiveBuffering,
@@ -104,8 +108,9 @@ class [[nodiscard]] MPIFileConsecutive {
       }
     }
     if (err != MPI_SUCCESS) {
-      std::cerr << "Open error " << fileName << " :" << std::to_string(err) << " "
-                << getMpiErrorString(err) << std::endl;
+      MPI_Info_free(&info);
+      throw std::runtime_error("write: could not open! " + fileName + ": " +
+                               getMpiErrorString(err));
     }
     MPI_Info_free(&info);
     return MPIFileConsecutive(file);
@@ -128,6 +133,8 @@ class [[nodiscard]] MPIFileConsecutive {
     return MPIFileConsecutive(file);
   }
 
+  bool close() { return MPI_File_close(&file_) == MPI_SUCCESS; }
+
   int writeValuesToFileAtPosition(const T* valuesStart, MPI_Offset numValues, MPI_Offset position) {
     // write to single file with MPI-IO
     MPI_Datatype dataType = getMPIDatatype(abstraction::getabstractionDataType<T>());
@@ -138,7 +145,6 @@ class [[nodiscard]] MPIFileConsecutive {
       std::cerr << err << " in MPI_File_write_at_all" << std::endl;
       std::cerr << getMpiErrorString(err) << std::endl;
     }
-#ifndef NDEBUG
     if (err == MPI_SUCCESS) {
       int numWritten = 0;
       MPI_Get_count(&status, dataType, &numWritten);
@@ -148,7 +154,6 @@ class [[nodiscard]] MPIFileConsecutive {
         err = ~MPI_SUCCESS;
       }
     }
-#endif  // !NDEBUG
     return (err == MPI_SUCCESS) ? static_cast<int>(numValues) : 0;
   }
 
@@ -220,15 +225,18 @@ template <typename T>
 int writeValuesConsecutive(const T* valuesStart, MPI_Offset numValues, const std::string& fileName,
                            combigrid::CommunicatorType comm, bool replaceExistingFile = false,
                            bool withCollectiveBuffering = false) {
-  int numWritten = 0;
-  {
-    auto file = MPIFileConsecutive<T>::getFileToWrite(fileName, comm, replaceExistingFile,
-                                                      withCollectiveBuffering);
-    auto position = getPositionFromNumValues(numValues, comm);
-    numWritten = file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  auto file = MPIFileConsecutive<T>::getFileToWrite(fileName, comm, replaceExistingFile,
+                                                    withCollectiveBuffering);
+  auto position = getPositionFromNumValues(numValues, comm);
+  auto numWritten = file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  int success = (numWritten == numValues);
+  if (!file.close()) success = 0;
+  // closing need not synchronize: the file is complete only once all processes have written and
+  // closed it
+  MPI_Allreduce(MPI_IN_PLACE, &success, 1, MPI_INT, MPI_MIN, comm);
+  if (!success) {
+    throw std::runtime_error("write: could not write all values to " + fileName);
   }
-  // closing need not synchronize: the file is complete only once all processes have closed it
-  MPI_Barrier(comm);
   return numWritten;
 }
 
-- 
2.43.0


From db8cebf5007954a8621bb41c46999003c3cea3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:13 +0000
Subject: [PATCH 18/34] fix: report it when a token file could not be written

---
 src/manager/ProcessGroupWorker.cpp |  7 ++++++-
 src/manager/SparseGridWorker.hpp   | 13 +++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 4694201..862d857 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -983,7 +983,12 @@ int ProcessGroupWorker<CombiDataType>::reduceExtraSubspaceSizesFileBased(
   OUTPUT_GROUP_EXCLUSIVE_SECTION {
     numSizesWritten =
         this->getSparseGridWorker().writeExtraSubspaceSizesToFile(filenamePrefixToWrite);
-    MASTER_EXCLUSIVE_SECTION { std::ofstream tokenFile(writeCompleteTokenFileName); }
+    MASTER_EXCLUSIVE_SECTION {
+      std::ofstream tokenFile(writeCompleteTokenFileName);
+      if (!tokenFile.is_open()) {
+        throw std::runtime_error("could not write token file " + writeCompleteTokenFileName);
+      }
+    }
 
     // wait until we can start to read
     MASTER_EXCLUSIVE_SECTION {
diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index d9f93e9..d596279 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1184,12 +1184,13 @@ template <typename CombiDataType>
 inline void SparseGridWorker<CombiDataType>::writeTokenFiles(
     const std::string& writeCompleteTokenFileName) const {
   OUTPUT_ROOT_EXCLUSIVE_SECTION {
-    if (combigrid::theMPISystem()->getOutputComm() == MPI_COMM_NULL) {
-      // write single token
-      std::ofstream tokenFile(writeCompleteTokenFileName);
-    } else {
-      auto filePart = theMPISystem()->getFilePartNumber();
-      std::ofstream tokenFile(writeCompleteTokenFileName + ".part" + std::to_string(filePart));
+    auto tokenName = writeCompleteTokenFileName;
+    if (combigrid::theMPISystem()->getOutputComm() != MPI_COMM_NULL) {
+      tokenName += ".part" + std::to_string(theMPISystem()->getFilePartNumber());
+    }  // else: write single token
+    std::ofstream tokenFile(tokenName);
+    if (!tokenFile.is_open()) {
+      throw std::runtime_error("could not write token file " + tokenName);
     }
   }
 }
-- 
2.43.0


From 909ff796b3984817d5edc1f913993f11c8d798fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:53 +0000
Subject: [PATCH 19/34] fix: report it when a file could not be read completely

---
 src/io/MPICompression.hpp | 70 +++++++++++++++++++++++-----------
 src/io/MPIInputOutput.hpp | 79 ++++++++++++++++++++++++++-------------
 2 files changed, 102 insertions(+), 47 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..13642de 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -108,12 +108,12 @@ class [[nodiscard]] StreamingFrameDecompressor {
   size_t decompressNextBlock() {
     size_t decompressedSize = sink_.size();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -162,12 +162,12 @@ class [[nodiscard]] FrameDecompressor {
   size_t decompressNextBlocks(size_t numValues) {
     size_t decompressedSize = numValues * sizeof(T);
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
                         &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     decompressValuesStart_ += decompressedSize;
@@ -199,8 +199,7 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
     decompressedByNow += decompressedSize;
     ++numRounds;
   } while (decompressedSize > 0);
-  assert(numValues == 0);
-  if (numRounds != 2) {
+  if (numValues != 0 || numRounds > 2) {
     throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
   }
 #else
@@ -322,14 +321,22 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
     std::vector<char> headerFrame(compressedHeaderSize);
     auto numCharsRead =
         file.readValuesFromFileAtPositionSingleRank(headerFrame.data(), headerFrame.size(), 0);
-    assert(numCharsRead == static_cast<int>(compressedHeaderSize));
-    headerFrame.resize(numCharsRead);
 
     std::vector<MPI_Offset> frameSizes(commSize);
-    [[maybe_unused]] auto numCharsInFirstFrame =
+    bool headerIsValid = (numCharsRead == static_cast<int>(compressedHeaderSize));
+    if (headerIsValid) {
+      try {
         decompressLZ4FrameToBuffer(headerFrame, frameSizes);
+      } catch (const std::runtime_error&) {
+        headerIsValid = false;
+      }
+      headerIsValid = headerIsValid &&
+                      frameSizes[0] >= static_cast<MPI_Offset>(compressedHeaderSize) &&
+                      std::all_of(frameSizes.cbegin(), frameSizes.cend(),
+                                  [](MPI_Offset size) { return size >= 0; });
+    }
+    throwUnlessAllSucceeded(headerIsValid, "read: invalid header frame", comm);
     MPI_Scatter(frameSizes.data(), 1, MPI_OFFSET, &frameSize, 1, MPI_OFFSET, 0, comm);
-    assert(frameSize >= numCharsRead);
     file.checkFileSizeConsecutive(frameSize, comm);
     position = mpiio::getPositionFromNumValues(frameSize, comm);
     assert(position == 0);
@@ -338,6 +345,7 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
     frameSize -= compressedHeaderSize;
     position += compressedHeaderSize;
   } else {
+    throwUnlessAllSucceeded(true, "read: invalid header frame", comm);
     MPI_Scatter(nullptr, 0, MPI_OFFSET, &frameSize, 1, MPI_OFFSET, 0, comm);
     file.checkFileSizeConsecutive(frameSize, comm);
     position = mpiio::getPositionFromNumValues(frameSize, comm);
@@ -357,12 +365,17 @@ int readCompressedValuesConsecutive(T* valuesStart, MPI_Offset numValues,
 
   std::vector<char> frameString(frameSize);
   auto numCharsRead = file.readValuesFromFileAtPosition(frameString.data(), frameSize, position);
-  assert(numCharsRead == frameSize);
-  frameString.resize(numCharsRead);
-
-  auto numValuesDecompressed = static_cast<int>(
-      mpiio::decompressLZ4FrameToBuffer(std::move(frameString), valuesStart, numValues));
-  assert(static_cast<MPI_Offset>(numValuesDecompressed) == numValues);
+  int numValuesDecompressed = -1;
+  if (numCharsRead == frameSize) {
+    try {
+      numValuesDecompressed = static_cast<int>(
+          mpiio::decompressLZ4FrameToBuffer(std::move(frameString), valuesStart, numValues));
+    } catch (const std::runtime_error& error) {
+      std::cerr << error.what() << std::endl;
+    }
+  }
+  throwUnlessAllSucceeded(static_cast<MPI_Offset>(numValuesDecompressed) == numValues,
+                          "read: could not read all values from " + fileName, comm);
   return numValuesDecompressed;
 #else
   throw std::runtime_error("LZ4 compression not available");
@@ -382,8 +395,8 @@ int readReduceCompressedValuesConsecutive(
 
   std::vector<char> frameString(frameSize);
   auto numCharsRead = file.readValuesFromFileAtPosition(frameString.data(), frameSize, position);
-  assert(numCharsRead == frameSize);
-  frameString.resize(numCharsRead);
+  throwUnlessAllSucceeded(numCharsRead == frameSize,
+                          "read: could not read all values from " + fileName, comm);
 
   size_t bufferRemainderToRemember = 0;
   auto writePointer = valuesStart;
@@ -391,11 +404,23 @@ int readReduceCompressedValuesConsecutive(
   VectorStream buffer(decompressedString);
   auto decompressor = StreamingFrameDecompressor(frameString, buffer);
   int numValuesDecompressed = 0;
+  bool success = true;
   do {
-    size_t decompressedSize = decompressor.decompressNextBlock();
+    size_t decompressedSize = 0;
+    try {
+      decompressedSize = decompressor.decompressNextBlock();
+    } catch (const std::runtime_error& error) {
+      std::cerr << error.what() << std::endl;
+      success = false;
+      break;
+    }
     decompressedSize += bufferRemainderToRemember;
     const auto fullNumValues = decompressedSize / sizeof(T);
     const auto bufferRemainder = decompressedSize % sizeof(T);
+    if (static_cast<MPI_Offset>(numValuesDecompressed + fullNumValues) > numValues) {
+      success = false;
+      break;
+    }
 
     auto bufferBeginAsTPointer = reinterpret_cast<const T*>(decompressedString.data());
     std::transform(bufferBeginAsTPointer, bufferBeginAsTPointer + fullNumValues, writePointer,
@@ -410,7 +435,8 @@ int readReduceCompressedValuesConsecutive(
     buffer.reset(bufferRemainder);
     bufferRemainderToRemember = bufferRemainder;
   } while (!decompressor.isFinished());
-  assert(numValuesDecompressed == numValues);
+  throwUnlessAllSucceeded(success && numValuesDecompressed == numValues,
+                          "read: could not read all values from " + fileName, comm);
 
   return numValuesDecompressed;
 #else
diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 0de40f6..b93e4e7 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -50,6 +50,16 @@ inline MPI_Offset getPositionFromNumValues(MPI_Offset numValues, combigrid::Comm
   return position;
 }
 
+/// throws on all processes of comm if any of them failed, such that none waits for the others
+inline void throwUnlessAllSucceeded(bool success, const std::string& errorMessage,
+                                    combigrid::CommunicatorType comm) {
+  int allSucceeded = success ? 1 : 0;
+  MPI_Allreduce(MPI_IN_PLACE, &allSucceeded, 1, MPI_INT, MPI_MIN, comm);
+  if (!allSucceeded) {
+    throw std::runtime_error(errorMessage);
+  }
+}
+
 template <typename T>
 class [[nodiscard]] MPIFileConsecutive {
  public:
@@ -229,14 +239,11 @@ int writeValuesConsecutive(const T* valuesStart, MPI_Offset numValues, const std
                                                     withCollectiveBuffering);
   auto position = getPositionFromNumValues(numValues, comm);
   auto numWritten = file.writeValuesToFileAtPosition(valuesStart, numValues, position);
-  int success = (numWritten == numValues);
-  if (!file.close()) success = 0;
+  bool isClosed = file.close();
   // closing need not synchronize: the file is complete only once all processes have written and
   // closed it
-  MPI_Allreduce(MPI_IN_PLACE, &success, 1, MPI_INT, MPI_MIN, comm);
-  if (!success) {
-    throw std::runtime_error("write: could not write all values to " + fileName);
-  }
+  throwUnlessAllSucceeded(isClosed && numWritten == numValues,
+                          "write: could not write all values to " + fileName, comm);
   return numWritten;
 }
 
@@ -247,7 +254,18 @@ int readValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::strin
   file.checkFileSizeConsecutive(numValues, comm);
 
   auto position = getPositionFromNumValues(numValues, comm);
-  return file.readValuesFromFileAtPosition(valuesStart, numValues, position);
+  auto numRead = file.readValuesFromFileAtPosition(valuesStart, numValues, position);
+  throwUnlessAllSucceeded(numRead == numValues,
+                          "read: could not read all values from " + fileName, comm);
+  return numRead;
+}
+
+inline MPI_Offset getMaxNumRounds(MPI_Offset numValues, MPI_Offset numElementsToBuffer,
+                                  combigrid::CommunicatorType comm) {
+  MPI_Offset numRounds =
+      numValues > 0 ? (numValues + numElementsToBuffer - 1) / numElementsToBuffer : 0;
+  MPI_Allreduce(MPI_IN_PLACE, &numRounds, 1, MPI_OFFSET, MPI_MAX, comm);
+  return numRounds;
 }
 
 template <typename T, typename ReduceFunctionType>
@@ -262,7 +280,10 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  bool success = true;
+  // reading is collective: everyone takes part until all are done
+  const auto numRounds = getMaxNumRounds(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -270,13 +291,16 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
-    // reduce with present sparse grid data
-    std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
-    readcount += readcountIncrement;
-    position += readcountIncrement;
-    std::advance(writePointer, readcountIncrement);
+    success = success && (readcountIncrement == numElementsToBuffer);
+    if (success) {
+      // reduce with present sparse grid data
+      std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
+    }
+    readcount += numElementsToBuffer;
+    position += numElementsToBuffer;
+    std::advance(writePointer, numElementsToBuffer);
   }
+  throwUnlessAllSucceeded(success, "read: could not read all values from " + fileName, comm);
   return readcount;
 }
 
@@ -308,7 +332,10 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
-  while (readcount < numValues) {
+  bool success = true;
+  // reading is collective: everyone takes part until all are done
+  const auto numRounds = getMaxNumRounds(numValues, numElementsToBuffer, comm);
+  for (MPI_Offset round = 0; round < numRounds; ++round) {
     // if there is less to read than the buffer length, overwrite numElementsToBuffer
     if (numValues - readcount < numElementsToBuffer) {
       numElementsToBuffer = static_cast<int>(numValues - readcount);
@@ -316,20 +343,22 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
         buffer.resize(numElementsToBuffer);
       }
     }
-    int readcountIncrement = 0;
     for (size_t i = 0; i < buffers.size(); ++i) {
-      readcountIncrement =
+      auto readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      success = success && (readcountIncrement == numElementsToBuffer);
+    }
+    if (success) {
+      // reduce with present sparse grid data
+      // todo is there a variadic way of doing this?
+      transformN(reduceFunction, writePointer, buffers[0].cbegin(), buffers[0].cend(), writePointer,
+                 buffers[1].cbegin());
     }
-    // reduce with present sparse grid data
-    // todo is there a variadic way of doing this?
-    transformN(reduceFunction, writePointer, buffers[0].cbegin(), buffers[0].cend(), writePointer,
-               buffers[1].cbegin());
-    readcount += readcountIncrement;
-    position += readcountIncrement;
-    std::advance(writePointer, readcountIncrement);
+    readcount += numElementsToBuffer;
+    position += numElementsToBuffer;
+    std::advance(writePointer, numElementsToBuffer);
   }
+  throwUnlessAllSucceeded(success, "read: could not read all values", comm);
 
   return readcount;
 }
-- 
2.43.0


From 8f8856c98922d6ccb121b34c1290b4424cafb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:37 +0000
Subject: [PATCH 20/34] fix: report it when a sparse grid chunk could not be
 written or read completely

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 58cd3ff..1d13cce 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -2,6 +2,7 @@
 
 #include <filesystem>
 #include <fstream>
+#include <stdexcept>
 #include <string>
 
 #include "io/MPICompression.hpp"
@@ -78,17 +79,25 @@ void writeToDiskChunked(const SparseGridType& dsg, const std::string& filePrefix
   ofp.write(reinterpret_cast<const char*>(dsg.getRawData()),
             dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
   ofp.close();
+  if (!ofp) {
+    throw std::runtime_error("could not write all data to " + myFilename);
+  }
 }
 
 template <typename SparseGridType>
 void readFromDiskChunked(SparseGridType& dsg, const std::string& filePrefix) {
   std::string myFilename = filePrefix + std::to_string(dsg.getRank());
-  // assert that file is large enough
-  [[maybe_unused]] size_t fileSize = std::filesystem::file_size(myFilename);
-  assert(fileSize == dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
+  // the file needs to contain exactly the data of this sparse grid
+  size_t fileSize = std::filesystem::file_size(myFilename);
+  if (fileSize != dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType)) {
+    throw std::runtime_error("file " + myFilename + " does not match the sparse grid");
+  }
   std::ifstream ifp(myFilename, std::ios::in | std::ios::binary);
   ifp.read(reinterpret_cast<char*>(dsg.getRawData()),
            dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
+  if (!ifp) {
+    throw std::runtime_error("could not read all data from " + myFilename);
+  }
   ifp.close();
 }
 
-- 
2.43.0


From 4478d2ce14f0e4275a4851f4441195572bebed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:37 +0000
Subject: [PATCH 21/34] fix: replace an existing file of subspace sizes instead
 of overwriting its beginning

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 1d13cce..145fde1 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -228,7 +228,7 @@ int writeSubspaceSizesToFile(const SparseGridType& dsg, const std::string& fileN
   auto comm = dsg.getCommunicator();
   MPI_Offset len = dsg.getNumSubspaces();
   int numWritten = mpiio::writeValuesConsecutive<SubspaceSizeType>(
-      dsg.getSubspaceDataSizes().data(), len, fileName, comm);
+      dsg.getSubspaceDataSizes().data(), len, fileName, comm, true);
   return numWritten;
 }
 
-- 
2.43.0


From ac40c41048037bdfb84326bf385960dc3df30608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:50 +0000
Subject: [PATCH 22/34] fix: write the header of a plot file as dimensionality
 and extents

---
 src/fullgrid/DistributedFullGrid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 8406dbf..80fa610 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1448,10 +1448,10 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
-
-      std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      std::vector<int> header{static_cast<int>(dim)};
+      header.insert(header.end(), csizes.begin(), csizes.end());
+      MPI_File_write(fh, header.data(), static_cast<int>(header.size()), MPI_INT,
+                     MPI_STATUS_IGNORE);
     }
 
     // set file view to right offset (in bytes)
-- 
2.43.0


From 70514d00235aac20eec307182773557121595707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 23/34] fix: leave nothing of an older, longer file in a plot
 file

---
 src/fullgrid/DistributedFullGrid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 80fa610..9dc86ff 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1463,6 +1463,9 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   // write subarray
   MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
                      MPI_STATUS_IGNORE);
+  // nothing may remain of an older, longer file
+  MPI_File_set_size(
+      fh, offset + static_cast<MPI_Offset>(this->getNrElements() * sizeof(FG_ELEMENT)));
   // close file
   MPI_File_close(&fh);
   // closing need not synchronize: the file is complete only once all processes have closed it
@@ -1538,6 +1541,9 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
   MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
                      MPI_STATUS_IGNORE);
 
+  // nothing may remain of an older, longer file
+  MPI_File_set_size(
+      fh, offset + static_cast<MPI_Offset>(this->getNrElements() * sizeof(FG_ELEMENT)));
   // close file
   MPI_File_close(&fh);
   // closing need not synchronize: the file is complete only once all processes have closed it
-- 
2.43.0


From 4afd084bd3859b4b4b61bb6ef3c06ae2351bcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 24/34] fix: write the spacing and origin of the grid to VTK
 files also without boundary points

---
 src/fullgrid/DistributedFullGrid.hpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 9dc86ff..c921378 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1497,24 +1497,17 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
              << "This file contains the combination solution evaluated on a full grid\n"
              << "BINARY\n"
              << "DATASET STRUCTURED_POINTS\n";
-  if (dim == 3) {  // TODO change for non-boundary grids using getGridSpacing
-    vtk_header << "DIMENSIONS " << csizes[0] << " " << csizes[1] << " " << csizes[2] << "\n"
-               << "ORIGIN 0 0 0\n"
-               << "SPACING " << 1. / static_cast<double>(csizes[0] - 1) << " "
-               << 1. / static_cast<double>(csizes[1] - 1) << " "
-               << 1. / static_cast<double>(csizes[2] - 1) << "\n";
-  } else if (dim == 2) {
-    vtk_header << "DIMENSIONS " << csizes[0] << " " << csizes[1] << " 1\n"
-               << "ORIGIN 0 0 0\n"
-               << "SPACING " << 1. / static_cast<double>(csizes[0] - 1) << " "
-               << 1. / static_cast<double>(csizes[1] - 1) << " 1\n";
-  } else if (dim == 1) {
-    vtk_header << "DIMENSIONS " << csizes[0] << " 1 1\n"
-               << "ORIGIN 0 0 0\n"
-               << "SPACING " << 1. / static_cast<double>(csizes[0] - 1) << " 1 1\n";
-  } else {
-    assert(false);
+  std::stringstream dimensions, origin, spacing;
+  for (DimType d = 0; d < 3; ++d) {
+    // grids without boundary points start one grid spacing away from the boundary
+    const auto spacingInD = d < dim ? this->getGridSpacing()[d] : 1.;
+    dimensions << " " << (d < dim ? csizes[d] : 1);
+    origin << " " << ((d < dim && hasBoundaryPoints_[d] == 0) ? spacingInD : 0.);
+    spacing << " " << spacingInD;
   }
+  vtk_header << "DIMENSIONS" << dimensions.str() << "\n"
+             << "ORIGIN" << origin.str() << "\n"
+             << "SPACING" << spacing.str() << "\n";
   vtk_header << "POINT_DATA "
              << std::accumulate(csizes.begin(), csizes.end(), 1, std::multiplies<int>()) << "\n"
              << "SCALARS quantity double 1\n"
-- 
2.43.0


From 70227497f93dc087ff9e174e025e9280e7a8b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 25/34] fix: send the level maps along with the combination
 parameters

---
 src/manager/CombiParameters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/CombiParameters.hpp b/src/manager/CombiParameters.hpp
index cd2c5e6..45e441c 100644
--- a/src/manager/CombiParameters.hpp
+++ b/src/manager/CombiParameters.hpp
@@ -552,6 +552,8 @@ void CombiParameters::serialize(Archive& ar, const unsigned int version) {
   ar & boundary_;
   ar & levels_;
   ar & coeffs_;
+  ar & levelsToIDs_;
+  ar & combiDictionary_;
   ar & hierarchizationDims_;
   ar & hierarchicalBases_;
   ar & procs_;
-- 
2.43.0


From 2adedffdf51d16cb225d542c485c93b0704f430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 26/34] fix: compare process group layouts with their sizes
 before keeping the communicator

---
 src/manager/ProcessGroupWorker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 862d857..9fa385f 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -706,7 +706,10 @@ void ProcessGroupWorker<CombiDataType>::setCombiParameters(CombiParameters&& com
       std::vector<int> currentDims(numDims), currentPeriods(numDims), currentCoords(numDims);
       MPI_Cart_get(theMPISystem()->getLocalComm(), numDims, currentDims.data(),
                    currentPeriods.data(), currentCoords.data());
-      if (currentDims == dims && currentPeriods == periods) return;
+      if (equals_with_size_check(currentDims, dims) &&
+          equals_with_size_check(currentPeriods, periods)) {
+        return;
+      }
     }
 
     // don't let MPI assign arbitrary ranks
-- 
2.43.0


From 5652398207e5d07dbb20b2d026e7bcb77e938897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 27/34] fix: assemble binary socket data also from fragments
 shorter than one element

---
 src/third_level/NetworkUtils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..c3ec6bb 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -223,7 +223,8 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // a short fragment may not even complete the element that is under way
+    tail_k = std::min(recvd, ssize_t((sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT)));
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -258,7 +259,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = ssize_t(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
@@ -334,7 +335,8 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // a short fragment may not even complete the element that is under way
+    tail_k = std::min(recvd, ssize_t((sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT)));
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -377,7 +379,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = ssize_t(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
-- 
2.43.0


From e282171960ef0339cee599bc7157718b2ecb8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 28/34] fix: reverse all bytes of a value when its endianness
 is corrected

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index c3ec6bb..04958c0 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
-- 
2.43.0


From f59605b72b56704e9e4b0d88e3f5503d69fa4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 29/34] fix: receive no more than the announced bytes into a
 file and report failed writes

---
 src/third_level/NetworkUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..7b7c860 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
@@ -142,7 +142,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
         // TODO correct endiannes in file
       }
       file.close();
-      return true;
+      return !file.fail();
   }
 }
 
-- 
2.43.0


From 562336681e4d2504554fc51fff984f351d8838d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 30/34] fix: accept message lengths beyond the range of int

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 7b7c860..5a2b156 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -191,7 +191,7 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
     default:
       lenstr.pop_back();
       assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
+      length = (size_t) std::stoull(lenstr);
       assert(length > 0);
       return true;
   }
-- 
2.43.0


From dd9b673f4b4b303f7f4377dfee0eb78a4809437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 31/34] fix: carry on with socket calls that are interrupted by
 a signal

---
 src/third_level/NetworkUtils.cpp | 50 +++++++++++++++++++-------------
 src/third_level/NetworkUtils.hpp |  4 +++
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 5a2b156..9936521 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -56,6 +56,8 @@ bool ClientSocket::sendall(const char* buff, size_t len) const {
   size_t total = 0;
   while (total < len) {
     sent = send(sockfd_, &buff[total], len - total, 0);
+    if (sent == -1 && errno == EINTR)
+      continue;
     if (sent <= 0)
       break;
     total += static_cast<size_t>(sent);
@@ -122,6 +124,8 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
     recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
+    if (recvd == -1 && errno == EINTR)
+      continue;
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
@@ -153,6 +157,8 @@ bool ClientSocket::recvall(char* buff, size_t len, int flags) const {
   size_t total = 0;
   while (total < len) {
     recvd = recv(sockfd_, &buff[total], len-total, flags);
+    if (recvd == -1 && errno == EINTR)
+      continue;
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
@@ -176,6 +182,8 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
   char temp = ' ';
   do {
     n = recv(sockfd_, &temp, 1, flags);
+    if (n == -1 && errno == EINTR)
+      continue;
     if (n <= 0)
       break;
     lenstr += temp;
@@ -222,19 +230,17 @@ bool ClientSocket::isReadable(int timeoutSec) const {
 
   struct timeval tv;
   fd_set readfds;
+  int ready = -1;
 
-  FD_ZERO(&readfds);
-  FD_SET(sockfd_, &readfds);
+  tv.tv_sec = timeoutSec;
+  tv.tv_usec = 0;
 
-  if (timeoutSec > -1) {
-    tv.tv_sec = timeoutSec;
-    tv.tv_usec = 0;
-    select(sockfd_+1, &readfds, NULL, NULL, &tv);
-  }
-  else {
-    select(sockfd_+1, &readfds, NULL, NULL, NULL);
-  }
-  return FD_ISSET(sockfd_, &readfds);
+  do {
+    FD_ZERO(&readfds);
+    FD_SET(sockfd_, &readfds);
+    ready = select(sockfd_+1, &readfds, NULL, NULL, timeoutSec > -1 ? &tv : NULL);
+  } while (ready == -1 && errno == EINTR);
+  return ready > 0 && FD_ISSET(sockfd_, &readfds);
 }
 
 bool ClientSocket::isWriteable(int timeoutSec) const {
@@ -242,18 +248,17 @@ bool ClientSocket::isWriteable(int timeoutSec) const {
 
   struct timeval tv;
   fd_set writefds;
+  int ready = -1;
 
   tv.tv_sec = timeoutSec;
   tv.tv_usec = 0;
 
-  FD_ZERO(&writefds);
-  FD_SET(sockfd_, &writefds);
-
-  if (timeoutSec > -1)
-    select(sockfd_+1, NULL, &writefds, NULL, &tv);
-  else
-    select(sockfd_+1, NULL, &writefds, NULL, NULL);
-  return FD_ISSET(sockfd_, &writefds);
+  do {
+    FD_ZERO(&writefds);
+    FD_SET(sockfd_, &writefds);
+    ready = select(sockfd_+1, NULL, &writefds, NULL, timeoutSec > -1 ? &tv : NULL);
+  } while (ready == -1 && errno == EINTR);
+  return ready > 0 && FD_ISSET(sockfd_, &writefds);
 }
 
 std::string ClientSocket::getRemoteHost() const {
@@ -335,7 +340,10 @@ std::shared_ptr<ClientSocket> ServerSocket::acceptClient() const {
   // blocks until a new client connects
   struct sockaddr_in cliAddr;
   socklen_t cliLen = sizeof(cliAddr);
-  int clientfd = accept(sockfd_, (struct sockaddr*) &cliAddr, &cliLen);
+  int clientfd = -1;
+  do {
+    clientfd = accept(sockfd_, (struct sockaddr*) &cliAddr, &cliLen);
+  } while (clientfd == -1 && errno == EINTR);
   if (clientfd < 0) {
     perror("ServerSocket::acceptClient() accept failed");
     return client;
@@ -387,6 +395,8 @@ bool NetworkUtils::forward(const ClientSocket& sender,
       recvd = recv(sendFd, buff.get(), remaining, 0);
     else
       recvd = recv(sendFd, buff.get(), chunksize, 0);
+    if (recvd == -1 && errno == EINTR)
+      continue;
     switch (recvd) {
       case 0:
         std::cerr << "NetworkUtils::forward() sender terminated too early" << std::endl;
diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 04958c0..70efc4d 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -211,6 +211,8 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     recvd = recv(sockfd_, recvBuff.data(), std::min(rawSize-totalRecvd, chunksize), flags);
 
     err = errno;
+    if (recvd == -1 && err == EINTR)
+      continue;
     if (recvd <= 0)
       break;
 
@@ -323,6 +325,8 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   while(totalRecvd < rawSize) {
     recvd = recv(sockfd_, recvBuff.data(), std::min(rawSize-totalRecvd, chunksize), flags);
     err = errno;
+    if (recvd == -1 && err == EINTR)
+      continue;
     if (recvd <= 0)
       break;
 
-- 
2.43.0


From 15e1745c6b4f972945c938136f8f1dc48bbdb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:54 +0000
Subject: [PATCH 32/34] fix: write broker statistics when there was no
 combination

---
 third_level_manager/thirdLevelManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..a1a006a 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,9 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  // the systems may finish without any combination
+  size_t numBytesTransferredPerCombination =
+      numCombinations == 0 ? 0 : totalBytesTransferredInCombination / numCombinations;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From 911ac52a4696714357d2fab1d20a30e3e89ad9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:23 +0000
Subject: [PATCH 33/34] fix: leave the carried-over bytes out of the free space
 when decompressing a frame in several rounds

---
 src/io/MPICompression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 13642de..f209131 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -72,7 +72,8 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
   void reset(size_t afterNumChars = 0) {
     setg(vec_.data(), vec_.data() + afterNumChars, vec_.data() + vec_.size());
   }
-  size_t size() const { return vec_.size(); }
+  // the space between front() and the end of the buffer
+  size_t size() const { return static_cast<size_t>(egptr() - gptr()); }
 
   char* front() { return gptr(); }
 
-- 
2.43.0


From 71dd872ca6b31676043707704dd0c8d255f497a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:23 +0000
Subject: [PATCH 34/34] fix: receive the file names of a managed file-based
 exchange in the order they are sent

The order in which function arguments are evaluated is unspecified; compilers that
evaluate from right to left swapped the name of the data file and the name of its token.
---
 src/manager/ProcessGroupWorker.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 9fa385f..9b1f4aa 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,27 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // the names have to be received in the order in which the manager sends them
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      const auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      const auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      const auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      const auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
-- 
2.43.0

