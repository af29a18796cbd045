#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>

#include "sim.hpp"

namespace sim {

enum BaseT : uint8_t { B_I8, B_U8, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_F32, B_F64, B_F80, B_BOOL, B_C64, B_C128, B_RAW, B_MIXED };

struct TypeImpl {
  BaseT base = B_RAW;
  size_t baseSize = 1;
  size_t size = 0;                                       // bytes of data per element
  long lb = 0, ub = 0;                                   // extent = ub - lb
  std::vector<std::pair<long, size_t>> blocks;           // offset, bytes
  bool predefined = false;
  bool committed = false;
  const char* name = "";
  // envelope
  int combiner = 0;
  std::vector<int> ints;
  std::vector<MPI_Aint> addrs;
  std::vector<MPI_Datatype> types;
};

struct Coll;
struct CommData {
  int id = 0;
  std::vector<int> members;        // global rank ids
  std::vector<uint64_t> nextSeq;   // per member
  std::map<uint64_t, Coll*> colls;
  std::vector<int> dims, periods;  // cartesian topology
  std::vector<bool> freed;
  std::string origin;
};

struct Msg {
  int ctx, src, dst, tag;  // src/dst: ranks in the communicator
  int gsrc, gdst;
  std::string data;
  BaseT base;
  bool arrived = false, matched = false, ready = false;  // ready: data has been read from the sender
  ompi_request_t* sreq = nullptr;
  uint64_t seq = 0;
};

struct Part {
  bool joined = false, snapped = false, finished = false;
  const void* sbuf = nullptr;
  void* rbuf = nullptr;
  int scount = 0, rcount = 0;
  std::shared_ptr<TypeImpl> stype, rtype;
  std::vector<int> scounts, sdispls, rcounts, rdispls;
  std::string data;
  std::string orig;
  int a = 0, b = 0;  // extra (color, key, ...)
  std::vector<int> list;
  std::vector<int> list2;
  MPI_Op op = nullptr;
};

enum CollKind { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_EXSCAN, C_SCAN, C_GATHER, C_GATHERV, C_ALLGATHER, C_ALLGATHERV,
  C_SCATTER, C_SCATTERV, C_ALLTOALL, C_ALLTOALLV, C_SPLIT, C_DUP, C_CREATE, C_CART, C_FILEOPEN, C_FILEOP, C_FILECLOSE };

struct Coll {
  CollKind kind;
  const char* name = "";
  uint64_t seq = 0;
  CommData* cd = nullptr;
  int root = -1;
  bool nonblocking = false;
  bool sync = false;
  int nJoined = 0, nSnapped = 0, nFinished = 0;
  std::vector<Part> parts;
  bool haveResult = false;
  std::string result;
  std::map<int, CommData*> newComms;  // member -> new communicator data
  std::vector<int> order;
  // file open
  int fileErr = 0;
  void* shared = nullptr;
  std::string text;
};

CommData* newCommData(std::vector<int> members, const std::string& origin);
int myRankIn(CommData* cd);
Coll* joinColl(CommData* cd, CollKind k, const char* name, int root, bool nonblocking, Part&& p, int* myIdx);
std::string pack(const void* buf, int count, const TypeImpl& t);
size_t unpack(void* buf, int count, const TypeImpl& t, const char* data, size_t len);
void mpiEnter(const char* fn);
ompi_communicator_t* resolve(MPI_Comm c, const char* fn);
extern int g_throwMpiErr;

}  // namespace sim

struct ompi_communicator_t {
  sim::CommData* d = nullptr;
  int myrank = -1;
  int owner = -1;
  bool freed = false;
};
struct ompi_predefined_communicator_t { ompi_communicator_t c; };
struct ompi_datatype_t { std::shared_ptr<sim::TypeImpl> t; };
struct ompi_predefined_datatype_t { ompi_datatype_t c; };
struct ompi_op_t {
  int kind = 0;
  MPI_User_function* fn = nullptr;
  bool freed = false;
};
struct ompi_predefined_op_t { ompi_op_t c; };
struct ompi_group_t { std::vector<int> members; };  // global rank ids
struct ompi_predefined_group_t { ompi_group_t c; };
struct ompi_info_t { std::map<std::string, std::string> kv; };
struct ompi_predefined_info_t { ompi_info_t c; };
struct ompi_errhandler_t { int k; };
struct ompi_predefined_errhandler_t { ompi_errhandler_t c; };
struct ompi_predefined_win_t { int k; };
struct ompi_message_t { sim::Msg* m; };
struct ompi_predefined_message_t { ompi_message_t c; };
struct ompi_request_t {
  int kind = 0;  // 0 null, 1 send, 2 recv, 3 coll
  sim::Rank* owner = nullptr;
  bool done = false;
  bool freed = false;
  // send/recv
  const void* sbuf = nullptr;
  void* rbuf = nullptr;
  int count = 0;
  std::shared_ptr<sim::TypeImpl> type;
  int ctx = 0, peer = 0, tag = 0;
  bool syncMode = false, lateWrite = false;
  std::string orig;
  sim::Msg* msg = nullptr;
  bool matched = false;
  std::string data;
  MPI_Status st;
  // collective
  sim::Coll* coll = nullptr;
  int part = -1;
  bool lateRead = false;
  const char* what = "";
};
struct ompi_predefined_request_t { ompi_request_t c; };
