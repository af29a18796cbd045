// Simulated MPI-IO on top of a private scratch directory, plus interposed POSIX file, sleep and clock calls.
// Data written through MPI-IO may stay invisible to other processes until the writer closes (or the simulated
// storage flushes it); faults are injected here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

#include "mpi_impl.hpp"

namespace sim {

template <class F>
static F next(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REAL(name) static auto real_##name = next<decltype(&::name)>(#name)

struct Pending {
  off_t off;
  std::string data;
};
struct FileShared {
  std::string path;
  int amode = 0;
  int fd = -1;
  CommData* cd = nullptr;
  int nOpen = 0;
};
static std::set<ompi_file_t*>* liveFiles = nullptr;

}  // namespace sim

struct ompi_file_t {
  sim::FileShared* sh = nullptr;
  sim::Rank* owner = nullptr;
  std::vector<sim::Pending> pending;
  MPI_Offset disp = 0;
  std::shared_ptr<sim::TypeImpl> etype, ftype;
  bool swap = false;
  MPI_Offset pos = 0;  // individual file pointer in bytes of the view
  bool closed = false;
  bool lostOnClose = false;
};
struct ompi_predefined_file_t { ompi_file_t c; };
ompi_predefined_file_t ompi_mpi_file_null;

namespace sim {

static bool rp(const std::string& p, std::string& out) {
  // path relative to the scratch directory
  out = p;
  if (out.rfind("./", 0) == 0) out = out.substr(2);
  return !out.empty() && out[0] != '/';
}
static std::map<std::string, int>* creators = nullptr;  // which simulated process made a file
static std::map<int, std::string>* posixWriters = nullptr;
static void fsEvent(const char* op, const std::string& p) {
  S.n.fileOps++;
  if (me() && (!strcmp(op, "create") || !strcmp(op, "rewrite") || !strcmp(op, "mpi-open-write"))) (*creators)[p] = me()->id;
  trace("fs %s %s", op, p.c_str());
  if (fsMonitor) fsMonitor(FsEvent{op, p, me()});
  if (S.crashWorldId >= 0 && S.crashFileOp && me() && me()->world->id == S.crashWorldId && strcmp(op, "seen") != 0 && ++S.crashFileOps == S.crashFileOp) {
    S.crashDue = true;
    if (!S.noYield && !S.cur->isThread) passTurn("crash");
  }
}

static off_t rawPwrite(int fd, const char* d, size_t n, off_t off) {
  REAL(pwrite);
  size_t done = 0;
  while (done < n) {
    ssize_t r = real_pwrite(fd, d + done, n - done, off + static_cast<off_t>(done));
    if (r <= 0) return -1;
    done += static_cast<size_t>(r);
  }
  return 0;
}
static void applyPending(ompi_file_t* f, size_t upto) {
  upto = std::min(upto, f->pending.size());
  for (size_t i = 0; i < upto; ++i) {
    if (f->sh->fd >= 0) rawPwrite(f->sh->fd, f->pending[i].data.data(), f->pending[i].data.size(), f->pending[i].off);
  }
  f->pending.erase(f->pending.begin(), f->pending.begin() + static_cast<long>(upto));
}

bool pendingWritesOn(const std::string& path) {
  if (!liveFiles) return false;
  for (auto* f : *liveFiles)
    if (f->sh->path == path && (!f->pending.empty())) return true;
  return false;
}
int openFilesOf(const std::string& path, bool writersOnly) {
  int n = 0;
  if (liveFiles)
    for (auto* f : *liveFiles)
      if (f->sh->path == path && !f->closed && (!writersOnly || (f->sh->amode & (MPI_MODE_WRONLY | MPI_MODE_RDWR)))) ++n;
  return n;
}
void ioRankDead(Rank* r, bool crash) {
  if (!liveFiles) return;
  std::vector<ompi_file_t*> mine;
  for (auto* f : *liveFiles)
    if (f->owner == r) mine.push_back(f);
  for (auto* f : mine) {
    if (crash) {
      if (!f->pending.empty()) fired("crash-lost-unflushed-writes");
      f->pending.clear();
    } else
      applyPending(f, f->pending.size());
    liveFiles->erase(f);
    f->closed = true;
    if (--f->sh->nOpen == 0) ::close(f->sh->fd);
  }
}
void ioReset() {
  liveFiles = new std::set<ompi_file_t*>;
  creators = new std::map<std::string, int>;
  posixWriters = new std::map<int, std::string>;
}

static bool validFile(MPI_File f) {
  return f && f != reinterpret_cast<MPI_File>(&ompi_mpi_file_null) && liveFiles && liveFiles->count(f) && !f->closed;
}

// maps `len` data bytes at view position pos to file extents
static void mapView(ompi_file_t* f, MPI_Offset pos, size_t len, std::vector<std::pair<off_t, size_t>>& out) {
  if (!f->ftype || f->ftype->size == 0 || (f->ftype->blocks.size() == 1 && f->ftype->size == static_cast<size_t>(f->ftype->ub - f->ftype->lb))) {
    out.emplace_back(f->disp + pos, len);
    return;
  }
  const auto& t = *f->ftype;
  MPI_Offset tile = pos / static_cast<MPI_Offset>(t.size);
  size_t in = static_cast<size_t>(pos % static_cast<MPI_Offset>(t.size));
  while (len) {
    size_t acc = 0;
    for (auto& b : t.blocks) {
      if (in < acc + b.second && len) {
        size_t o = in - acc;
        size_t n = std::min(len, b.second - o);
        out.emplace_back(f->disp + tile * (t.ub - t.lb) + b.first + static_cast<off_t>(o), n);
        len -= n;
        in += n;
      }
      acc += b.second;
    }
    in = 0;
    ++tile;
  }
}
static void swapBytes(std::string& d, size_t w) {
  if (w < 2) return;
  for (size_t i = 0; i + w <= d.size(); i += w) std::reverse(d.begin() + static_cast<long>(i), d.begin() + static_cast<long>(i + w));
}

static int doWrite(ompi_file_t* f, MPI_Offset pos, const void* buf, int count, MPI_Datatype dt, MPI_Status* st, bool* moved) {
  auto t = dt->t;
  if (count < 0) violate("mpi-usage", "negative count %d in a file write", count);
  std::string d = pack(buf, count < 0 ? 0 : count, *t);
  size_t total = d.size();
  if (f->swap) swapBytes(d, t->baseSize);
  int err = MPI_SUCCESS;
  if (total > 0) {
    uint32_t v = fault("write", 4, S.sc->d("p_write_fault", 0));
    if (v == 1) {
      fired("write-error-no-space");
      d.resize(total / 2);
      err = MPI_ERR_NO_SPACE;
    } else if (v == 2) {
      fired("write-error-io");
      d.clear();
      err = MPI_ERR_IO;
    } else if (v == 3) {
      fired("short-write");
      size_t keep = total / t->size / 2 * t->size;
      d.resize(keep);
    }
  }
  *moved = d.size() != total;  // whether data is missing
  if (st && st != MPI_STATUS_IGNORE) {
    st->_ucount = d.size();
    st->_cancelled = 0;
    st->MPI_ERROR = err;
  }
  std::vector<std::pair<off_t, size_t>> ex;
  mapView(f, pos, d.size(), ex);
  size_t o = 0;
  for (auto& e : ex) {
    f->pending.push_back(Pending{e.first, d.substr(o, e.second)});
    o += e.second;
  }
  if (flip(K_FLUSH, S.sc->d("p_late_flush", 0))) {
    addAction(me()->id, "flush", [f] { if (!f->closed) applyPending(f, f->pending.size()); });
  } else {
    applyPending(f, f->pending.size());
  }
  return err;
}
static int doRead(ompi_file_t* f, MPI_Offset pos, void* buf, int count, MPI_Datatype dt, MPI_Status* st) {
  REAL(pread);
  auto t = dt->t;
  size_t want = t->size * static_cast<size_t>(count < 0 ? 0 : count);
  applyPending(f, f->pending.size());
  std::vector<std::pair<off_t, size_t>> ex;
  mapView(f, pos, want, ex);
  std::string d;
  bool eof = false;
  for (auto& e : ex) {
    if (eof) break;
    std::string part(e.second, '\0');
    size_t got = 0;
    while (got < e.second) {
      ssize_t r = real_pread(f->sh->fd, &part[got], e.second - got, e.first + static_cast<off_t>(got));
      if (r <= 0) { eof = true; break; }
      got += static_cast<size_t>(r);
    }
    d += part.substr(0, got);
  }
  int err = MPI_SUCCESS;
  if (want > 0) {
    uint32_t v = fault("read", 3, S.sc->d("p_read_fault", 0));
    if (v == 1) { fired("read-error-io"); d.clear(); err = MPI_ERR_IO; }
    if (v == 2 && d.size() >= 2 * t->size) { fired("short-read"); d.resize(d.size() / t->size / 2 * t->size); }
  }
  if (f->swap) swapBytes(d, t->baseSize);
  if (!d.empty()) unpack(buf, count, *t, d.data(), d.size());
  if (st && st != MPI_STATUS_IGNORE) {
    st->_ucount = d.size();
    st->_cancelled = 0;
    st->MPI_ERROR = err;
  }
  return err;
}

static void fileColl(ompi_file_t* f, const char* name) {
  int m;
  Coll* k = joinColl(f->sh->cd, C_FILEOP, name, -1, false, Part(), &m);
  if (strcmp(k->name, name) != 0) {
    violate("mpi-collective", "mismatched collective file operation on %s: %s and %s (rank %d)", f->sh->path.c_str(), k->name, name, me()->id);
    S.stop = true;
    S.stopReason = "collective mismatch";
    rankDie();
  }
  const int n = static_cast<int>(k->parts.size());
  if (k->sync) blockUntil([k, n] { return k->nJoined >= n; }, name, f->sh->path);
  if (++k->nFinished == n) k->cd->colls.erase(k->seq);
}
static int badFile(const char* fn) {
  // the default error handler of file handles returns
  trace("%s on an invalid file handle", fn);
  return MPI_ERR_FILE;
}

}  // namespace sim
using namespace sim;

extern "C" {

int MPI_File_open(MPI_Comm comm, const char* name, int amode, MPI_Info, MPI_File* fh) {
  REAL(open64);
  mpiEnter("MPI_File_open");
  auto* c = resolve(comm, "MPI_File_open");
  int m;
  Part p;
  p.a = amode;
  Coll* k = joinColl(c->d, C_FILEOPEN, "MPI_File_open", -1, false, std::move(p), &m);
  if (k->text.empty()) {
    k->text = name;
    k->root = -1;
    k->result.assign(1, '\0');
    k->haveResult = false;
    k->order.push_back(amode);
  } else if (k->text != name || k->order[0] != amode) {
    violate("mpi-collective", "MPI_File_open with different arguments: %s/%d and %s/%d", k->text.c_str(), k->order[0], name, amode);
  }
  k->parts[static_cast<size_t>(m)].snapped = true;
  k->nSnapped++;
  const int n = static_cast<int>(k->parts.size());
  blockUntil([k, n] { return k->nSnapped >= n; }, "MPI_File_open", name);
  if (!k->haveResult) {
    k->haveResult = true;
    int flags = (amode & MPI_MODE_RDONLY) ? O_RDONLY : (amode & MPI_MODE_RDWR) ? O_RDWR : O_WRONLY;
    if (amode & MPI_MODE_CREATE) flags |= O_CREAT;
    if (amode & MPI_MODE_EXCL) flags |= O_EXCL;
    uint32_t v = fault("open", 3, (amode & MPI_MODE_RDONLY) ? S.sc->d("p_open_read_fault", 0) : S.sc->d("p_open_write_fault", 0));
    std::string path;
    rp(name, path);
    if (v) {
      fired((amode & MPI_MODE_RDONLY) ? "open-read-error" : "open-write-error");
      k->fileErr = v == 1 ? MPI_ERR_IO : MPI_ERR_NO_SPACE;
    } else {
      int fd = real_open64(name, flags | O_CLOEXEC, 0644);
      if (fd < 0) {
        k->fileErr = errno == EEXIST ? MPI_ERR_FILE_EXISTS : errno == ENOENT ? MPI_ERR_NO_SUCH_FILE : errno == EACCES ? MPI_ERR_ACCESS : MPI_ERR_IO;
      } else {
        auto* sh = new FileShared;
        sh->path = path;
        sh->amode = amode;
        sh->fd = fd;
        sh->nOpen = n;  // every member holds the file until it closes its handle
        sh->cd = newCommData(c->d->members, std::string("file ") + name);
        k->shared = sh;
        fsEvent((amode & MPI_MODE_RDONLY) ? "mpi-open-read" : "mpi-open-write", path);
      }
    }
  }
  int err = k->fileErr;
  if (!err) {
    auto* f = new ompi_file_t;
    f->sh = static_cast<FileShared*>(k->shared);
    f->owner = me();
    liveFiles->insert(f);
    *fh = f;
  } else {
    *fh = reinterpret_cast<MPI_File>(&ompi_mpi_file_null);
  }
  if (++k->nFinished == n) k->cd->colls.erase(k->seq);
  return err;
}

int MPI_File_close(MPI_File* fh) {
  if (!active()) return MPI_SUCCESS;
  mpiEnter("MPI_File_close");
  if (!validFile(*fh)) return badFile("MPI_File_close");
  ompi_file_t* f = *fh;
  int err = MPI_SUCCESS;
  if (!f->pending.empty()) {
    uint32_t v = fault("close", 2, S.sc->d("p_close_fault", 0));
    if (v) {
      fired("close-lost-write");
      f->pending.clear();
      err = MPI_ERR_IO;
    }
  }
  // the file is still open while its last data is being flushed
  yield("MPI_File_close");
  applyPending(f, f->pending.size());
  fileColl(f, "MPI_File_close");
  f->closed = true;
  liveFiles->erase(f);
  if (--f->sh->nOpen == 0) {
    ::close(f->sh->fd);
  }
  if (err) fsEvent("write-failed", f->sh->path);
  fsEvent((f->sh->amode & MPI_MODE_RDONLY) ? "mpi-close-read" : "mpi-close-write", f->sh->path);
  *fh = reinterpret_cast<MPI_File>(&ompi_mpi_file_null);
  return err;
}

int MPI_File_delete(const char* name, MPI_Info) {
  REAL(unlink);
  mpiEnter("MPI_File_delete");
  std::string path;
  rp(name, path);
  if (real_unlink(name) != 0) return errno == ENOENT ? MPI_ERR_NO_SUCH_FILE : MPI_ERR_IO;
  fsEvent("delete", path);
  return MPI_SUCCESS;
}
int MPI_File_get_size(MPI_File f, MPI_Offset* s) {
  mpiEnter("MPI_File_get_size");
  if (!validFile(f)) return badFile("MPI_File_get_size");
  struct stat64 st;
  REAL(fstat64);
  if (real_fstat64(f->sh->fd, &st) != 0) return MPI_ERR_IO;
  *s = st.st_size;
  return MPI_SUCCESS;
}
int MPI_File_set_view(MPI_File f, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char* rep, MPI_Info) {
  mpiEnter("MPI_File_set_view");
  if (!validFile(f)) return badFile("MPI_File_set_view");
  fileColl(f, "MPI_File_set_view");
  f->disp = disp;
  f->etype = et->t;
  f->ftype = ft->t;
  if (!f->ftype->committed && !f->ftype->predefined) violate("mpi-usage", "MPI_File_set_view with an uncommitted type");
  f->swap = strcmp(rep, "external32") == 0;
  f->pos = 0;
  return MPI_SUCCESS;
}
static int wr(MPI_File f, MPI_Offset pos, bool useFp, const void* b, int n, MPI_Datatype t, MPI_Status* st, const char* fn, bool coll) {
  mpiEnter(fn);
  if (!validFile(f)) return badFile(fn);
  if (f->sh->amode & MPI_MODE_RDONLY) return MPI_ERR_READ_ONLY;
  if (coll) fileColl(f, fn);
  bool moved = false;
  int e = doWrite(f, useFp ? f->pos : pos, b, n, t, st, &moved);
  if (useFp) f->pos += static_cast<MPI_Offset>(t->t->size) * n;
  fsEvent("mpi-write", f->sh->path);
  if (moved) fsEvent("write-failed", f->sh->path);
  yield(fn);
  return e;
}
static int rd(MPI_File f, MPI_Offset pos, bool useFp, void* b, int n, MPI_Datatype t, MPI_Status* st, const char* fn, bool coll) {
  mpiEnter(fn);
  if (!validFile(f)) return badFile(fn);
  if (f->sh->amode & MPI_MODE_WRONLY) return MPI_ERR_ACCESS;
  if (coll) fileColl(f, fn);
  int e = doRead(f, useFp ? f->pos : pos, b, n, t, st);
  if (useFp) f->pos += static_cast<MPI_Offset>(t->t->size) * n;
  fsEvent("mpi-read", f->sh->path);
  return e;
}
int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* st) { return wr(f, 0, true, b, n, t, st, "MPI_File_write", false); }
int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* st) { return wr(f, 0, true, b, n, t, st, "MPI_File_write_all", true); }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* st) { return wr(f, o, false, b, n, t, st, "MPI_File_write_at", false); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* st) { return wr(f, o, false, b, n, t, st, "MPI_File_write_at_all", true); }
int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* st) { return rd(f, 0, true, b, n, t, st, "MPI_File_read", false); }
int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* st) { return rd(f, 0, true, b, n, t, st, "MPI_File_read_all", true); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* st) { return rd(f, o, false, b, n, t, st, "MPI_File_read_at", false); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* st) { return rd(f, o, false, b, n, t, st, "MPI_File_read_at_all", true); }
int MPI_File_sync(MPI_File f) {
  mpiEnter("MPI_File_sync");
  if (!validFile(f)) return badFile("MPI_File_sync");
  fileColl(f, "MPI_File_sync");
  applyPending(f, f->pending.size());
  return MPI_SUCCESS;
}
int MPI_File_set_size(MPI_File f, MPI_Offset s) {
  mpiEnter("MPI_File_set_size");
  if (!validFile(f)) return badFile("MPI_File_set_size");
  fileColl(f, "MPI_File_set_size");
  return ftruncate(f->sh->fd, s) == 0 ? MPI_SUCCESS : MPI_ERR_IO;
}
int MPI_File_preallocate(MPI_File f, MPI_Offset) {
  mpiEnter("MPI_File_preallocate");
  if (!validFile(f)) return badFile("MPI_File_preallocate");
  return MPI_SUCCESS;
}
int MPI_File_seek(MPI_File f, MPI_Offset o, int wh) {
  mpiEnter("MPI_File_seek");
  if (!validFile(f)) return badFile("MPI_File_seek");
  f->pos = wh == MPI_SEEK_SET ? o : f->pos + o;
  return MPI_SUCCESS;
}

// ------------------------------------------------------------------ POSIX files
static bool simPath(const char* p) { return active() && p && p[0] != '/' && p[0] != 0; }
// dlopen'ed code on real OS threads of the simulator also comes here; only the running entity is active

static void openEv(const char* path, bool wr, bool existed) {
  std::string r;
  rp(path, r);
  fsEvent(wr ? (existed ? "rewrite" : "create") : "open-read", r);
}
static bool existsReal(const char* p) {
  REAL(access);
  return real_access(p, F_OK) == 0;
}
static int openFault(const char* path, bool wr) {
  std::string r;
  rp(path, r);
  if (wr && fault("posix-open", 2, S.sc->d("p_open_posix_fault", 0))) {
    fired("posix-open-error");
    return ENOSPC;
  }
  return 0;
}
static void noteWriter(int fd, const char* path, bool wr) {
  std::string r;
  rp(path, r);
  if (wr) (*posixWriters)[fd] = r;
  else posixWriters->erase(fd);
}
FILE* fopen64(const char* path, const char* mode);
FILE* fopen(const char* path, const char* mode) {
  REAL(fopen);
  if (!simPath(path)) return real_fopen(path, mode);
  yield("fopen");
  bool wr = mode[0] != 'r';
  if (int e = openFault(path, wr)) { errno = e; return nullptr; }
  bool ex = existsReal(path);
  FILE* f = real_fopen(path, mode);
  if (f) openEv(path, wr, ex);
  if (f) noteWriter(fileno(f), path, wr);
  if (f && wr) yield("fopen");
  return f;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
static int doOpen(const char* path, int flags, mode_t mode) {
  REAL(open64);
  if (!simPath(path)) return real_open64(path, flags, mode);
  yield("open");
  bool wr = (flags & (O_WRONLY | O_RDWR | O_CREAT)) != 0;
  if (int e = openFault(path, wr)) { errno = e; return -1; }
  bool ex = existsReal(path);
  int fd = real_open64(path, flags, mode);
  if (fd >= 0 && !(flags & O_DIRECTORY)) openEv(path, wr, ex);
  if (fd >= 0) noteWriter(fd, path, wr);
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return doOpen(path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return doOpen(path, flags, m);
}
static int statEv(const char* path, int rc) {
  std::string r;
  rp(path, r);
  if (rc == 0) {
    struct stat64 st;
    REAL(lstat64);
    if (real_lstat64(path, &st) == 0 && S_ISREG(st.st_mode)) {
      // a networked file system may show a file that another process made late
      auto cr = creators->find(r);
      if (cr != creators->end() && me() && cr->second != me()->id && fault("late-visible", 2, S.sc->d("p_late_visible", 0))) {
        fired("file-visible-late");
        errno = ENOENT;
        return -1;
      }
      fsEvent("seen", r);
    }
  }
  return rc;
}
int stat(const char* path, struct stat* st) {
  REAL(stat);
  if (!simPath(path)) return real_stat(path, st);
  yield("stat");
  return statEv(path, real_stat(path, st));
}
int stat64(const char* path, struct stat64* st) {
  REAL(stat64);
  if (!simPath(path)) return real_stat64(path, st);
  yield("stat");
  return statEv(path, real_stat64(path, st));
}
int access(const char* path, int m) {
  REAL(access);
  if (!simPath(path)) return real_access(path, m);
  yield("access");
  return statEv(path, real_access(path, m));
}
int unlink(const char* path) {
  REAL(unlink);
  if (!simPath(path)) return real_unlink(path);
  yield("unlink");
  int r = real_unlink(path);
  std::string p;
  rp(path, p);
  if (r == 0) fsEvent("delete", p);
  return r;
}
int unlinkat(int dfd, const char* path, int fl) {
  REAL(unlinkat);
  int r = real_unlinkat(dfd, path, fl);
  if (simPath(path)) { std::string p; rp(path, p); if (r == 0) fsEvent("delete", p); }
  return r;
}
int remove(const char* path) {
  REAL(remove);
  if (!simPath(path)) return real_remove(path);
  yield("remove");
  int r = real_remove(path);
  std::string p;
  rp(path, p);
  if (r == 0) fsEvent("delete", p);
  return r;
}
int rename(const char* a, const char* b) {
  REAL(rename);
  if (!simPath(b)) return real_rename(a, b);
  yield("rename");
  bool ex = existsReal(b);
  int r = real_rename(a, b);
  if (r == 0) {
    std::string p, q;
    rp(a, p); rp(b, q);
    fsEvent("delete", p);
    fsEvent(ex ? "rewrite" : "create", q);
  }
  return r;
}

// part of the data of a POSIX write may be lost with an error; returns how many bytes may still be written, or n
size_t posixWriteLimit(int fd, size_t n) {
  if (!active() || !posixWriters || n == 0) return n;
  auto it = posixWriters->find(fd);
  if (it == posixWriters->end()) return n;
  if (!me() || me()->world->program == "mover") return n;  // the harness checks its own copies
  if (!fault("posix-write", 2, S.sc->d("p_posix_write_fault", 0))) return n;
  fired("posix-write-no-space");
  fsEvent("write-failed", it->second);
  return n / 2;
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  REAL(writev);
  size_t total = 0;
  for (int i = 0; i < n; ++i) total += v[i].iov_len;
  size_t lim = posixWriteLimit(fd, total);
  if (lim == total) return real_writev(fd, v, n);
  REAL(write);
  for (int i = 0; i < n && lim; ++i) {
    size_t k = std::min(lim, v[i].iov_len);
    if (real_write(fd, v[i].iov_base, k) < 0) break;
    lim -= k;
  }
  errno = ENOSPC;
  return -1;
}

// ------------------------------------------------------------------ time
int nanosleep(const struct timespec* rq, struct timespec* rm) {
  REAL(nanosleep);
  if (!active()) return real_nanosleep(rq, rm);
  sleepUs(static_cast<uint64_t>(rq->tv_sec) * 1000000ull + static_cast<uint64_t>(rq->tv_nsec) / 1000ull);
  if (rm) { rm->tv_sec = 0; rm->tv_nsec = 0; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* rq, struct timespec* rm) {
  REAL(clock_nanosleep);
  if (!active()) return real_clock_nanosleep(c, fl, rq, rm);
  uint64_t us = static_cast<uint64_t>(rq->tv_sec) * 1000000ull + static_cast<uint64_t>(rq->tv_nsec) / 1000ull;
  if (fl & TIMER_ABSTIME) us = us > S.now ? us - S.now : 0;
  sleepUs(us);
  return 0;
}
unsigned sleep(unsigned s) {
  REAL(sleep);
  if (!active()) return real_sleep(s);
  sleepUs(static_cast<uint64_t>(s) * 1000000ull);
  return 0;
}
int usleep(useconds_t us) {
  REAL(usleep);
  if (!active()) return real_usleep(us);
  sleepUs(us);
  return 0;
}
int sched_yield(void) {
  if (!active()) return 0;
  passTurn("sched_yield");
  return 0;
}
static uint64_t skewed() {
  // every simulated process has its own clock offset
  auto* r = me();
  static bool init = false;
  static long skew = 0;
  if (!init) { skew = S.sc->i("clock_skew_us", 0); init = true; }
  S.now += 1;
  return S.now + static_cast<uint64_t>((r ? r->id : 0) * skew);
}
int clock_gettime(clockid_t c, struct timespec* ts) __THROW;
int clock_gettime(clockid_t c, struct timespec* ts) __THROW {
  REAL(clock_gettime);
  if (!active()) return real_clock_gettime(c, ts);
  uint64_t t = skewed();
  ts->tv_sec = static_cast<time_t>(t / 1000000ull);
  ts->tv_nsec = static_cast<long>(t % 1000000ull) * 1000;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) __THROW {
  REAL(gettimeofday);
  if (!active()) return real_gettimeofday(tv, tz);
  uint64_t t = skewed();
  tv->tv_sec = static_cast<time_t>(t / 1000000ull);
  tv->tv_usec = static_cast<suseconds_t>(t % 1000000ull);
  return 0;
}
time_t time(time_t* t) __THROW {
  REAL(time);
  if (!active()) return real_time(t);
  time_t v = static_cast<time_t>(S.now / 1000000ull);
  if (t) *t = v;
  return v;
}
}
