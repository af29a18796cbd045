// Sparse-grid files: what is written is read back exactly, and a damaged file is reported.
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "common.hpp"
#include "sparsegrid/DistributedSparseGridIO.hpp"

namespace harness {
using DSG = DistributedSparseGridUniform<double>;
using Cplx = std::complex<double>;

namespace {
struct Op {
  std::string kind, damage, old;
  long amount = 0, buffer = 0, seed = 0, victim = 0;
};
std::vector<Op> parse() {
  std::vector<Op> r;
  const Scenario& sc = api::scenario();
  for (auto& t : sc.sv("ops")) {  // kind:damage:old:amount:buffer:seed:victim
    std::vector<std::string> f;
    std::string cur;
    for (char c : t + ":") {
      if (c == ':') {
        f.push_back(cur);
        cur.clear();
      } else
        cur += c;
    }
    Op o;
    o.kind = f[0];
    o.damage = f[1];
    o.old = f[2];
    o.amount = atol(f[3].c_str());
    o.buffer = atol(f[4].c_str());
    o.seed = atol(f[5].c_str());
    o.victim = atol(f[6].c_str());
    r.push_back(o);
  }
  return r;
}

std::vector<SubspaceSizeType> sizesFor(long seed, int rank, size_t n) {
  std::vector<SubspaceSizeType> s;
  for (size_t i = 0; i < n; ++i) {
    double x = model::noise(static_cast<uint64_t>(seed), rank, 3, i, 1);
    s.push_back(x < -0.3 ? 0 : static_cast<SubspaceSizeType>((x + 0.3) * 9 * static_cast<double>(api::scenario().i("scale", 1))));
  }
  // some processes have nothing at all
  if (model::noise(static_cast<uint64_t>(seed), rank, 4, 0, 1) < -0.8) std::fill(s.begin(), s.end(), 0);
  return s;
}
}  // namespace

void progSgio() {
  const Scenario& sc = api::scenario();
  const int nprocs = static_cast<int>(sc.i("nprocs"));
  const int parts = static_cast<int>(sc.i("parts", 1));
  const bool faults = sc.i("faulty") != 0;
  Stats::initialize();
  theMPISystem()->initWorldReusable(MPI_COMM_WORLD, 1, static_cast<size_t>(nprocs), false);
  theMPISystem()->initOutputGroupComm(static_cast<uint16_t>(parts));
  const CommunicatorType comm = theMPISystem()->getOutputGroupComm();
  const int rank = getCommRank(comm);
  auto ops = parse();
  std::vector<LevelVector> levels;
  for (long i = 0; i < sc.i("nsub"); ++i) levels.push_back(LevelVector{static_cast<LevelType>(1 + i % 3), static_cast<LevelType>(1 + i / 3)});
  auto make = [&](long seed) {
    auto d = std::unique_ptr<DSG>(new DSG(2, levels, comm));
    auto s = sizesFor(seed, rank, levels.size());
    for (size_t i = 0; i < s.size(); ++i) d->setDataSize(static_cast<AnyDistributedSparseGrid::SubspaceIndexType>(i), s[i]);
    d->createSubspaceData();
    return d;
  };
  auto fill = [&](DSG& d, long seed) {
    for (size_t i = 0; i < d.getRawDataSize(); ++i) d.getRawData()[i] = model::noise(static_cast<uint64_t>(seed), rank, 5, i, 2);
  };
  auto& board = api::board();
  for (size_t n = 0; n < ops.size(); ++n) {
    const Op& o = ops[n];
    const std::string tag = "op" + std::to_string(n), file = "f" + std::to_string(n);
    const bool isParts = o.kind == "some" || o.kind == "somered", isChunk = o.kind == "chunk";
    const bool isComplex = o.kind.rfind("zc", 0) == 0;
    const bool isSizes = o.kind.rfind("sizes", 0) == 0;
    const int part = theMPISystem()->getFilePartNumber();
    auto a = make(o.seed), b = make(o.seed);
    fill(*a, o.seed + 1);
    fill(*b, o.seed + 2);
    std::vector<double> ra(a->getRawData(), a->getRawData() + a->getRawDataSize()), rb(b->getRawData(), b->getRawData() + b->getRawDataSize());
    auto sa = a->getSubspaceDataSizes();
    const std::string mine = isParts ? file + ".part" + std::to_string(part) : isChunk ? file + "_" + std::to_string(rank) : file;
    // the file that is damaged
    const int perPart = nprocs / parts;
    const std::string victim = isParts ? file + ".part" + std::to_string(static_cast<int>(o.victim % nprocs) / perPart)
                               : isChunk ? file + "_" + std::to_string(o.victim % nprocs) : file;
    if (o.old != "none" && rank == 0)
      rawWrite(victim, std::string(o.old == "longer" ? 6000 : 3, 'x'), 0, true);
    MPI_Barrier(comm);
    bool wrote = true;
    auto second = make(o.seed + 7);
    try {
      if (o.kind == "one" || o.kind == "onered") DistributedSparseGridIO::writeOneFile(*a, file, true);
      else if (isParts) DistributedSparseGridIO::writeSomeFiles(*a, file, true);
      else if (isChunk) DistributedSparseGridIO::writeToDiskChunked(*a, file + "_");
      else if (isSizes) {
        DistributedSparseGridIO::writeSubspaceSizesToFile(*a, file);
        if (o.kind == "sizes2") DistributedSparseGridIO::writeSubspaceSizesToFile(*second, file + "b");
      } else if (isComplex) {
        mpiio::writeCompressedValuesConsecutive(reinterpret_cast<const Cplx*>(a->getRawData()), static_cast<MPI_Offset>(a->getRawDataSize() / 2), file,
                                                comm, true);
      } else mpiio::writeValuesConsecutive<double>(a->getRawData(), static_cast<MPI_Offset>(a->getRawDataSize()), file, comm, true);
    } catch (const std::exception& e) {
      wrote = false;
      if (!api::faulty()) sim::violate("exception", "%s of op %zu failed: %s", "writing", n, e.what());
    }
    board.num[tag].push_back(wrote ? 0 : 1);
    MPI_Barrier(comm);
    bool anyFailed = false;
    for (double x : board.num[tag]) anyFailed = anyFailed || x > 0;
    if (anyFailed) {
      sim::probe("write-failure-reported");
      MPI_Barrier(comm);
      continue;  // reported
    }
    // damage
    if (rank == 0 && o.damage != "none") {
      const long size = rawSize(victim);
      std::string dmg = o.damage;
      if (size <= 0 && (dmg == "truncate" || dmg == "cut8" || dmg == "empty")) dmg = "extend";
      if (dmg == "truncate") rawResize(victim, std::max(0L, size - 1 - o.amount % size));
      else if (dmg == "cut8") rawResize(victim, size > 8 ? size - 8 : 0);
      else if (dmg == "extend") rawWrite(victim, std::string(static_cast<size_t>(1 + o.amount % 200), '\7'), size, false);
      else if (dmg == "ext8") rawWrite(victim, std::string(8, '\0'), size, false);
      else if (dmg == "missing") rawRemove(victim);
      else if (dmg == "empty") rawWrite(victim, "", 0, true);
      sim::fired(("damaged-file-" + dmg).c_str());
    }
    const bool damaged = o.damage != "none";
    MPI_Barrier(comm);
    bool threw = false;
    std::string err;
    try {
      if (o.kind == "one") DistributedSparseGridIO::readOneFile(*b, file);
      else if (o.kind == "onered") DistributedSparseGridIO::readOneFileAndReduce(*b, file, 1);
      else if (o.kind == "some") DistributedSparseGridIO::readSomeFiles(*b, mine);
      else if (o.kind == "somered") DistributedSparseGridIO::readSomeFilesAndReduce(*b, mine, 1);
      else if (isChunk) DistributedSparseGridIO::readFromDiskChunked(*b, file + "_");
      else if (o.kind == "sizes") {
        std::fill(b->getSubspaceDataSizes().begin(), b->getSubspaceDataSizes().end(), 4711);
        DistributedSparseGridIO::readSubspaceSizesFromFile(*b, file, (o.buffer & 1) != 0);
      } else if (o.kind == "sizesred") {
        b->getSubspaceDataSizes() = sizesFor(o.seed + 9, rank, levels.size());
        DistributedSparseGridIO::readReduceSubspaceSizesFromFile(
            *b, file, [](SubspaceSizeType x, SubspaceSizeType y) { return std::min(x, y); }, static_cast<int>(o.buffer), false);
      } else if (o.kind == "sizes2") {
        b->getSubspaceDataSizes() = sizesFor(o.seed + 9, rank, levels.size());
        DistributedSparseGridIO::readReduceSubspaceSizesFromFiles(
            *b, {file, file + "b"}, [](SubspaceSizeType x, SubspaceSizeType y, SubspaceSizeType z) { return 3 * x + 5 * y + 7 * z; },
            static_cast<int>(o.buffer), false);
      } else if (o.kind == "zc") {
        mpiio::readCompressedValuesConsecutive(reinterpret_cast<Cplx*>(b->getRawData()), static_cast<MPI_Offset>(b->getRawDataSize() / 2), file, comm);
      } else if (o.kind == "zcred") {
        mpiio::readReduceCompressedValuesConsecutive(reinterpret_cast<Cplx*>(b->getRawData()), static_cast<MPI_Offset>(b->getRawDataSize() / 2), file,
                                                     comm, std::plus<Cplx>());
      } else if (o.kind == "plain") {
        mpiio::readValuesConsecutive<double>(b->getRawData(), static_cast<MPI_Offset>(b->getRawDataSize()), file, comm);
      } else {
        mpiio::readReduceValuesConsecutive<double>(b->getRawData(), static_cast<MPI_Offset>(b->getRawDataSize()), file, comm,
                                                   static_cast<int>(std::max(1L, o.buffer) * std::max(1L, sc.i("scale", 1) / 8)), std::plus<double>());
      }
    } catch (const std::exception& e) {
      threw = true;
      err = e.what();
    }
    if (threw && !damaged && !api::faulty()) sim::violate("exception", "reading an intact file failed (op %zu, %s): %s", n, o.kind.c_str(), err.c_str());
    board.num[tag + "r"].push_back(threw ? 1 : 0);
    MPI_Barrier(comm);
    bool anyThrew = false;
    for (double x : board.num[tag + "r"]) anyThrew = anyThrew || x > 0;
    if (damaged && !anyThrew) {
      sim::violate("restore", "%s: a damaged file (%s) was read without any error", o.kind.c_str(), o.damage.c_str());
    } else if (!anyThrew) {
      const bool red = o.kind == "onered" || o.kind == "somered" || o.kind == "plainred" || o.kind == "zcred";
      if (isSizes) {
        auto want = sa;
        auto own = sizesFor(o.seed + 9, rank, levels.size());
        for (size_t i = 0; i < want.size(); ++i) {
          if (o.kind == "sizesred") want[i] = std::min(sa[i], own[i]);
          if (o.kind == "sizes2") want[i] = 3 * sa[i] + 5 * own[i] + 7 * second->getSubspaceDataSizes()[i];
        }
        if (b->getSubspaceDataSizes() != want) sim::violate("restore", "%s: subspace sizes differ from what was written", o.kind.c_str());
      } else {
        for (size_t i = 0; i < ra.size(); ++i) {
          if (isComplex && i >= ra.size() / 2 * 2) break;
          const double want = red ? rb[i] + ra[i] : ra[i];
          if (!close(b->getRawData()[i], want, 1)) {
            sim::violate("restore", "%s: value %zu is %.17g instead of %.17g", o.kind.c_str(), i, b->getRawData()[i], want);
            break;
          }
        }
      }
      sim::probe("restored");
      if (ra.size() * sizeof(double) > (5u << 20)) sim::probe(red ? "restored-large-reduce" : "restored-large");
    } else {
      sim::probe(damaged ? "damage-reported" : "fault-reported");
    }
    MPI_Barrier(comm);
  }
  (void)faults;
  Stats::finalize();
}

}  // namespace harness
