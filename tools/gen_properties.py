#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only because the JSON lines are unreadable by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook="no"):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if hook != "no": d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Every combination yields the exact combined solution on every component grid",
  "After any combination step, every component grid on every process holds exactly (up to rounding) what a sequential evaluation of the combination formula gives: the hierarchical coefficients of all grids summed with their combination weights, put back into each grid and transformed to nodal values. The result does not depend on the reduction variant, chunk size, number of groups and processes, domain decomposition, assignment of grids to groups, message timing, or how many combinations were done before.",
  ["schedules", "inputs", "configurations", "histories"],
  "all legal message/collective timings and reduction orders, all combination schemes, level ranges, boundary treatments, bases, reduction variants, chunk sizes, decompositions, group layouts, and sequences of solve/combine steps",
  "the tests combine linear functions (whose hierarchical surpluses above the coarsest level vanish) on a handful of layouts with whatever timing the MPI library happens to produce",
  ["src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp", "src/combicom/CombiCom.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp", "src/fullgrid/DistributedFullGrid.hpp"],
  [("local and global reduction per variant", "SparseGridWorker::reduceLocalAndGlobal, collectReduceDistribute; CombiCom::distributedGlobalReduce*"),
   ("gather into / scatter from the sparse grid", "DistributedSparseGridUniform::addDistributedFullGrid, DistributedFullGrid::extractFromUniformSG"),
   ("step driver", "ProcessGroupWorker::combineAtOnce, updateFullFromCombinedSparseGrids")],
  ["component grid values of every task after each combination"])

prop("C02", "Manager and workers stay in step: every command takes effect once, in order",
  "In a managed run each component grid lives in exactly one process group, is initialised once and advanced exactly once per requested time step on all processes of that group, and the combination and query commands act on the state left by all earlier commands. Every sequence of manager commands completes on all processes, and the exit command ends every worker, for any relative speed of manager, groups and messages.",
  ["schedules", "histories", "configurations"],
  "all interleavings of manager and worker processes, message delays, slow groups, numbers of groups/processes/tasks, and sequences of manager commands",
  "the tests run one command sequence on an idle machine; a lost, duplicated or reordered command or a completion signal taken for another group only shows at particular relative speeds",
  ["src/manager/ProcessManager.cpp", "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/TaskWorker.hpp"],
  [("command dispatch on the worker", "ProcessGroupWorker::wait"), ("completion tracking", "ProcessGroupManager::recvStatus, getStatus; ProcessManager::wait, waitAllFinished"),
   ("task distribution", "ProcessManager::runfirst, runnext; ProcessGroupManager::runfirst")],
  ["task init/run calls per process", "values of component grids", "termination of every process"])

prop("C03", "Rescheduling and re-creating component grids conserves them and the solution",
  "Moving component grids between process groups, or re-creating them, neither loses nor duplicates a grid: afterwards every grid is owned by exactly one group, has its identity, level and combination weight, holds the values the current combined solution gives it, and later steps and combinations proceed as if no move had happened.",
  ["schedules", "histories", "configurations"],
  "all load distributions, group layouts, message timings and sequences of run/combine/reschedule/recompute operations",
  "the tests move grids once with a constant-like function and only check values, not ownership after arbitrary histories",
  ["src/manager/ProcessManager.cpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/rescheduler/RebalancingTaskRescheduler.cpp"],
  [("task transfer", "ProcessManager::reschedule; ProcessGroupManager::rescheduleAddTask, rescheduleRemoveTask; ProcessGroupWorker::wait RESCHEDULE_*"),
   ("balancing decision", "RebalancingTaskRescheduler::eval")],
  ["task ownership per group on manager and workers", "values of component grids"])

prop("C04", "Widely-distributed file-based combination equals one global combination",
  "When several systems split the component grids between them and exchange sparse-grid data through files, every component grid on every system holds after each combination exactly the value a single-system combination over all grids of all systems would give it (on the exchanged part of the sparse grid), for any number of systems, partition of the files, exchange of the reduced or full sparse grid, and any relative speed of the systems. Every system finishes the exchange once the data of the others is available.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "all interleavings of the systems' processes, delays of file and token visibility, numbers of systems/groups/processes/file parts, reduction variants, chunk sizes, and repeated exchanges",
  "the tests run all systems in lock step in one MPI job on one local file system with a constant paraboloid, so no system is ever early, late or several steps ahead",
  ["src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp", "src/sparsegrid/DistributedSparseGridIO.hpp", "src/io/MPIInputOutput.hpp", "src/io/FileInputOutput.cpp"],
  [("write side", "ProcessGroupWorker::combineSystemWideAndWrite, combineThirdLevelFileBasedWrite"),
   ("read side", "ProcessGroupWorker::combineReadDistributeSystemWide, combineThirdLevelFileBasedReadReduce; SparseGridWorker::distributeChunkedBroadcasts"),
   ("result broadcast to the other groups", "ProcessGroupWorker::waitForThirdLevelCombiResult")],
  ["component grid values on every system after every exchange", "termination of every process"])

prop("C05", "A completion token is visible only when the data it announces is complete",
  "Whenever the token file of an exchange step exists, the data file(s) it announces are completely written and remain unmodified until the reader has consumed them, so a reader acting on the token alone never sees partial or missing data. Files are removed only after every process that reads them is done, only the files belonging to the finished exchange are removed, and a token is consumed for exactly one exchange.",
  ["schedules", "crash_points", "configurations"],
  "all interleavings of writing, reading and polling processes, all delays between a write call and its visibility, all crash points of the writing system, all numbers of file parts",
  "on a quiet local file system writes become visible at once and all ranks close the file at nearly the same time, so a token that appears too early or a file that is removed too early is never observed",
  ["src/manager/SparseGridWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/io/FileInputOutput.cpp", "src/io/MPIInputOutput.hpp"],
  [("token writing", "SparseGridWorker::writeTokenFiles, ProcessGroupWorker::reduceExtraSubspaceSizesFileBased"),
   ("token waiting", "SparseGridWorker::readReduce, ProcessGroupWorker::waitForTokenFile"),
   ("removal", "SparseGridWorker::removeReadingFiles")],
  ["contents of the exchange directory at every step of the run"])

prop("C06", "Sparse-grid files restore exactly, and damaged files are never used silently",
  "Sparse-grid values, subspace sizes and extrema written to disk are read back identically into the same layout on every process, and reading with reduction adds exactly the written values. A missing, truncated, oversized or otherwise inconsistent file is reported by an error instead of being partially read or mixed into the solution.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "all sparse-grid layouts, process counts, numbers of file parts and read chunk sizes; all truncation/extension points and lost or short writes; all I/O timings",
  "the tests write and read back intact files of a few sizes; they never truncate, lose or extend a file, nor delay a part of a collective write",
  ["src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp", "src/sparsegrid/DistributedSparseGridIO.hpp"],
  [("raw and compressed collective write/read", "mpiio::writeValuesConsecutive, readValuesConsecutive, readReduceValuesConsecutive, *Compressed*"),
   ("size check", "mpiio::checkFileSizeConsecutive")],
  ["sparse-grid data after reading", "exceptions/return values"])

prop("C07", "All processes agree on the shape of the combined sparse grid before exchanging",
  "Before data is exchanged, all processes at the same position in their groups (and, for widely-distributed runs, in the other systems) agree on which subspaces are exchanged and how many values each one has on them; every subspace that two parties share is exchanged, and one that only a single party has keeps that party's values. The agreed shape is the one implied by the grids present, and holds independently of message timing.",
  ["schedules", "configurations", "inputs"],
  "all assignments of grids to groups and systems, decompositions, reduction variants and message timings",
  "the test assignments give every group nearly the same set of subspaces, so missing or too many subspaces in one group are rarely visible",
  ["src/combicom/CombiCom.hpp", "src/manager/SparseGridWorker.hpp", "src/sparsegrid/AnyDistributedSparseGrid.cpp"],
  [("size reduction", "SparseGridWorker::reduceSubspaceSizesBetweenGroups, maxReduceSubspaceSizesInOutputGroup, reduceExtraSubspaceSizes"),
   ("communicator sets per subspace", "AnyDistributedSparseGrid::setSubspaceCommunicators, setOutgroupCommunicator")],
  ["subspace sizes and communicator sets on every process"])

prop("C08", "The socket-based third-level combination is exact, symmetric and live",
  "Systems that combine through the central broker all end each combination with the same, exact sum of their sparse grids, whatever order they connect and become ready in and however the byte streams are split or delayed; each request is answered by the matching phase of the other systems. When all systems have finished, the broker and every process terminate.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "all interleavings of broker, managers and workers, connection orders, stream fragmentations and delays, numbers of systems and combinations",
  "the socket tests are not part of the reliably passing suite at all, and over the loopback device the streams are hardly ever fragmented or delayed",
  ["third_level_manager/thirdLevelManager.cpp", "third_level_manager/System.cpp", "src/third_level/ThirdLevelUtils.cpp", "src/manager/ProcessManager.hpp", "src/manager/ProcessGroupManager.cpp"],
  [("broker loop", "ThirdLevelManager::runtimeLoop, processCombination, processUnifySubspaceSizes"),
   ("system side", "ProcessManager::combineThirdLevel, unifySubspaceSizesThirdLevel; ThirdLevelUtils")],
  ["component grid values on every system", "termination of broker and all processes"])

prop("C09", "Messages over sockets arrive intact, in order and exactly once, or fail visibly",
  "Any sequence of length-prefixed or fixed-size messages and binary arrays sent through the socket layer is received byte for byte, in order and exactly once, for every way the stream is cut into pieces, delayed or interrupted by signals. If the peer closes or resets the connection in the middle of a message, the receiver reports failure and does not deliver a partial message as complete; no call spins or blocks forever.",
  ["schedules", "fault_sequences", "inputs"],
  "all fragmentations of reads and writes, interrupted calls, connection aborts at any byte, and message contents including arrays larger than the internal buffers",
  "over loopback send and recv nearly always transfer everything in one piece, and a peer never dies in the middle of a message",
  ["src/third_level/NetworkUtils.cpp", "src/third_level/NetworkUtils.hpp"],
  [("send/recv loops", "ClientSocket::sendall, recvall, sendallPrefixed, recvallPrefixed, recvallBinaryAndReduceInPlace, recvallBinaryAndCorrectInPlace"),
   ("connection set-up", "ClientSocket::init, ServerSocket::init, acceptClient")],
  ["received bytes and return values on each side"])

prop("C10", "Distributed hierarchization equals the sequential transform and is invertible",
  "Transforming a distributed grid to hierarchical coefficients gives at every grid point the value of the sequential transform for the chosen basis, boundary treatment and lowest level, independent of how the grid is cut among processes and of message timing. The inverse transform restores the nodal values, and dimensions not selected stay untouched.",
  ["schedules", "inputs", "configurations"],
  "all level vectors, decompositions (also uneven and given explicitly), boundary types, bases, lowest levels, selected dimensions and message timings",
  "the tests use a few polynomials and layouts and one timing; exchange errors that cancel for polynomials, or that need a reordered message, are not visible",
  ["src/hierarchization/DistributedHierarchization.hpp", "src/fullgrid/DistributedFullGrid.hpp"],
  [("remote data exchange", "exchangeAllData1d, exchangeData1d, sendAndReceiveIndices*"), ("1-d kernels", "hierarchize*_kernel, dehierarchize*_kernel")],
  ["grid values on every process after each transform"])

prop("C11", "Queries of the combined solution are exact, agreed and do not disturb the state",
  "Interpolating the combined solution at any points and computing norms returns, on every process that gets a result, the value a sequential evaluation on the same grids gives, independent of decomposition, group layout and message timing. Asking does not change any component grid, and the same question asked twice gives the same answer.",
  ["schedules", "inputs", "configurations", "histories"],
  "all evaluation points in the domain including grid points, process borders and domain borders, all norms, decompositions, boundary types, group layouts and message timings",
  "the tests query linear solutions at random points, where interpolation errors between processes are invisible",
  ["src/fullgrid/DistributedFullGrid.hpp", "src/manager/InterpolationWorker.hpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/ProcessManager.cpp"],
  [("point evaluation", "DistributedFullGrid::eval, evalLocal, getInterpolatedValues"), ("combination of values over groups", "InterpolationWorker: interpolateValues; ProcessManager::interpolateValues"),
   ("norms", "DistributedFullGrid::getLpNorm; ProcessGroupWorker::getLpNorms")],
  ["returned values on every process", "component grid values before and after"])

prop("C12", "Communication layout is a consistent partition for every process count",
  "For every number of groups, processes per group, manager choice, and number of output partitions, all processes derive one consistent layout: every worker belongs to exactly one group, equally positioned workers of all groups share one reduction team ordered by group, the group's first process talks to the manager, and output partitions split the output group evenly without overlap. Setting the layout up again after earlier use leaves no trace of the old one.",
  ["configurations", "schedules", "histories"],
  "all world sizes, group counts and sizes, with and without manager, partition counts, repeated initialisation, and all timings of the collective set-up calls",
  "the tests check ranks and sizes for a few layouts on nine processes with one timing",
  ["src/mpi/MPISystem.cpp", "src/mpi/MPISystem.hpp"],
  [("communicator construction", "MPISystem::init*, initLocalComm, initGlobalComm, initGlobalReduceCommm, initOuputGroupComm, initThirdLevelComms")],
  ["membership and rank order of every communicator on every process"])

prop("C13", "Parallel operations match on all processes and always make progress",
  "In every supported use, all processes take part in the same collective operations in the same order with matching roots, sizes and types, every message sent is received into a large enough buffer, every started non-blocking operation is completed before its buffer is reused, and no run deadlocks or spins, even if sends only complete when the receiver is ready. At the end of a run no message or request is left over.",
  ["schedules", "configurations", "histories"],
  "all legal behaviours of the message-passing library (eager or synchronous sends, late completion, any arrival order) over all supported operations and layouts",
  "one MPI library on one machine is lenient: small sends are always buffered and completion is early, so a latent deadlock, mismatch or buffer reuse goes unnoticed",
  ["src/mpi/MPIUtils.hpp", "src/combicom/CombiCom.hpp", "src/hierarchization/DistributedHierarchization.hpp", "src/manager/ProcessGroupManager.cpp", "src/manager/ProcessGroupWorker.cpp", "src/task/Task.hpp"],
  [("non-blocking reductions and broadcasts", "CombiCom::distributedGlobalSubspaceReduce, asyncBcastDsgData"), ("neighbour exchange", "DistributedHierarchization::exchange*"), ("serialised objects", "MPIUtils::sendClass, receiveClass, broadcastClass")],
  ["every call into the message-passing layer"])

prop("C14", "Parameters and tasks reach every process unchanged",
  "The parameter set, component-grid descriptions and user tasks that a manager or one root process distributes are, on every receiving process, equal in every field to what was sent, and updated parameters replace the old ones before any later command uses them. Schemes read from a file by one process are identical on all.",
  ["schedules", "inputs", "configurations"],
  "all parameter values (dimensions, levels, weights, bases, boundaries, decompositions, variants), task contents, group layouts and message timings",
  "the tests transfer one default-like parameter set; a field left out of the transfer keeps a default that happens to be equal",
  ["src/manager/CombiParameters.hpp", "src/task/Task.hpp", "src/mpi/MPIUtils.hpp", "src/io/BroadcastParameters.cpp", "src/manager/ProcessGroupWorker.cpp"],
  [("serialisation", "CombiParameters::serialize, Task::serialize"), ("broadcast", "MPIUtils::broadcastClass, broadcastContainer; Task::broadcast; broadcastParameters")],
  ["parameter and task fields on every worker"])

prop("C15", "Output files contain exactly the solution, for every layout",
  "Every output a user asks for (the grid values of the combined solution at a chosen resolution, values and coordinates of interpolated points, norms, extrema of the hierarchical coefficients, timing records) is complete and correct once the writing operation has finished: each value appears once, at its documented position, independent of how the data is distributed over processes and groups and of the timing of the writing processes.",
  ["schedules", "configurations", "inputs"],
  "all layouts, decompositions, resolutions and interleavings of the collective writes",
  "the tests write output files but hardly read them back, and never with a non-trivial solution or late writers",
  ["src/fullgrid/DistributedFullGrid.hpp", "src/vtk/DFGPlotFileWriter.hpp", "src/manager/ProcessGroupWorker.cpp", "src/sparsegrid/DistributedSparseGridIO.hpp", "src/utils/Stats.hpp"],
  [("plot file", "DistributedFullGrid::writePlotFile"), ("min/max file", "DistributedSparseGridIO::writeMinMaxCoefficents"), ("timing file", "Stats::write")],
  ["file contents after the operation"])

prop("C16", "Lost process groups are recovered without corrupting the solution",
  "If process groups fail during a run built with fault tolerance, the surviving groups and spare processes continue: the grids of failed groups are dropped or recomputed with an adjusted combination whose weights sum to one, every surviving grid keeps its state, and the run completes.",
  ["fault_sequences", "schedules", "crash_points"],
  "all failure times and failed groups, recovery modes and message timings",
  "the fault-tolerance tests are not part of the build",
  ["src/fault_tolerance/FTUtils.cpp", "src/fault_tolerance/LPOptimizationInterpolation.cpp", "src/mpi/MPISystem.cpp", "src/manager/ProcessManager.cpp"],
  [("failure detection and recovery", "MPISystem::recoverCommunicators, ProcessManager::getGroupFaultIDs, recoverCommunicators, redistribute, recompute"), ("coefficient update", "combigrid::updateCombinationTechnique, LP_OPT_INTERP")],
  ["component grid values and coefficients after recovery"])

prop("C17", "Thread scheduling inside a process never changes results",
  "Every operation that uses several threads inside a process gives the same result for every number of threads, every distribution of loop iterations over them and every interleaving of their steps, up to the rounding of reordered sums.",
  ["schedules", "configurations"],
  "all thread counts, loop schedules and interleavings of the threaded regions used by hierarchization, reduction, extraction, norms and interpolation",
  "the tests run with two threads on a mostly idle machine, where a shared temporary or a non-atomic update is hardly ever hit",
  ["src/hierarchization/DistributedHierarchization.hpp", "src/sparsegrid/DistributedSparseGridUniform.hpp", "src/fullgrid/DistributedFullGrid.hpp", "src/manager/InterpolationWorker.hpp", "src/combicom/CombiCom.hpp"],
  [("threaded loops", "#pragma omp regions in the listed files")],
  ["component grid values and returned values"])

prop("C18", "A failed write is never announced or used as if it had succeeded",
  "If opening, writing or closing an output file of the exchange fails or only writes part of the data (disk full, I/O error, lost write), the failure is reported by an error or failure result, and no reader on any system ends up with a solution that silently lacks or distorts the contribution.",
  ["fault_sequences", "crash_points", "schedules"],
  "every write, open and close call of every process failing with any error or short count, in every exchange step",
  "no test ever injects a failing or short write",
  ["src/io/MPIInputOutput.hpp", "src/io/MPICompression.hpp", "src/manager/ProcessGroupWorker.cpp", "src/manager/SparseGridWorker.hpp"],
  [("write result check", "mpiio::writeValuesConsecutive, writeCompressedValuesConsecutive, MPIFileConsecutive"), ("token after write", "ProcessGroupWorker::combineThirdLevelFileBasedWrite")],
  ["exit status, exceptions, component grid values on every system"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
