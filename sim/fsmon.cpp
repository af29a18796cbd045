// Watches the files of an exchange: a token may only exist while the data it announces is complete, unmodified and unread.
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <map>
#include <set>
#include <string>

#include "sim.hpp"

namespace sim {

namespace {
struct Data {
  bool announced = false, opened = false, consumed = false;
  std::set<int> failed;  // processes whose last write failed
  int closes = 0;
};
std::map<std::string, Data>* D = nullptr;

bool isToken(const std::string& p) { return p.find("_token.txt") != std::string::npos; }
std::string dataOf(const std::string& token) {
  auto at = token.find("_token.txt");
  std::string stem = token.substr(0, at), part = token.substr(at + 10);
  return stem.rfind("sizes_", 0) == 0 ? stem : stem + "_0" + part;
}
bool watched(const std::string& p) { return p.rfind("sizes_", 0) == 0 || p.find("dsg_") != std::string::npos; }
bool exists(const std::string& p) {
  return ::syscall(SYS_faccessat, AT_FDCWD, p.c_str(), F_OK, 0) == 0;  // not through the simulated file system
}
}  // namespace

void installFileMonitor() {
  D = new std::map<std::string, Data>;
  fsMonitor = [](const FsEvent& e) {
    const std::string op = e.op;
    if (!watched(e.path)) return;
    const bool files = e.rank && (e.rank->world->program == "files" || e.rank->world->program == "third");
    const int readers = static_cast<int>(S.sc->i("nprocs", 1) / S.sc->i("parts", 1));
    if (isToken(e.path)) {
      if (op == "mpi-open-write") violate("token", "data is written under the name of the token, %s", e.path.c_str());
      const std::string d = dataOf(e.path);
      Data& x = (*D)[d];
      if (op == "create" || op == "rewrite") {
        if (!exists(d)) violate("token", "%s is announced but does not exist", d.c_str());
        else if (!x.failed.empty()) violate("token", "%s is announced although writing it failed", d.c_str());
        else if (openFilesOf(d, true) > 0 || pendingWritesOn(d)) violate("token", "%s is announced while it is still being written", d.c_str());
        else if (x.announced) violate("token", "%s is announced again before it was consumed", d.c_str());
        x.announced = true;
        x.opened = false;
        x.closes = 0;
        probe("token-announced");
      } else if (op == "delete" && files) {
        if (!x.opened && !x.consumed) violate("token", "%s was removed before its data was read", e.path.c_str());
        x.announced = false;
        x.consumed = true;
      }
      return;
    }
    Data& x = (*D)[e.path];
    if (op == "mpi-open-write" || op == "create" || op == "rewrite") {
      if (x.announced) violate("token", "%s is written again although it was announced and not consumed", e.path.c_str());
      else x = Data();
    } else if (op == "mpi-write") {
      if (x.announced) violate("token", "%s is modified after it was announced", e.path.c_str());
      if (e.rank) x.failed.erase(e.rank->id);
    } else if (op == "write-failed") {
      if (e.rank) x.failed.insert(e.rank->id);
    } else if (op == "mpi-open-read") {
      if (!x.announced) violate("token", "%s is read without having been announced", e.path.c_str());
      x.opened = true;
    } else if (op == "mpi-close-read") {
      x.closes++;
    } else if (op == "delete" && files) {
      // only what was read by all processes may go; a writer may replace what was never announced
      if (x.announced || x.opened) {
        if (openFilesOf(e.path, false) > 0) violate("token", "%s is removed while a process has it open", e.path.c_str());
        else if (x.closes < readers) violate("token", "%s is removed before all processes read it", e.path.c_str());
        probe("exchange-file-removed");
      }
      x = Data();
      x.consumed = true;
    }
  };
}

}  // namespace sim
