// Simulated stream sockets between simulated processes (per-process descriptor tables, byte streams cut, delayed,
// interrupted, reset and closed by seeded decisions).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>

#include "sim.hpp"

namespace sim {
template <class F>
static F nextSym(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REALN(name) static auto real_##name = nextSym<decltype(&::name)>(#name)

static const int FD0 = 600, FD1 = 1000;

struct Pipe {              // one direction
  std::string inflight;    // sent, not yet arrived
  std::string buf;         // arrived, not yet read
  bool finSent = false, finArrived = false;
  bool actionPending = false;
  bool readerGone = false;
};
struct Conn {
  Pipe p[2];  // p[0]: client -> server
  bool reset = false;
  int id = 0;
};
struct Sock {
  bool listening = false, bound = false;
  int port = 0;
  std::shared_ptr<Conn> c;
  int side = 0;  // 0 client, 1 server
  std::deque<std::pair<std::shared_ptr<Conn>, int>> backlog;
  bool open = true;
};
static std::map<std::pair<int, int>, std::shared_ptr<Sock>>* table = nullptr;
static std::map<int, std::shared_ptr<Sock>>* listeners = nullptr;
static int nextPort = 40000, connIds = 0;

void netReset() {
  table = new std::map<std::pair<int, int>, std::shared_ptr<Sock>>;
  listeners = new std::map<int, std::shared_ptr<Sock>>;
}
static bool vfd(int fd) { return active() && fd >= FD0 && fd < FD1; }
static std::shared_ptr<Sock> get(int fd) {
  if (!table) return nullptr;
  auto it = table->find({me()->id, fd});
  return it == table->end() ? nullptr : it->second;
}
static int alloc(std::shared_ptr<Sock> s) {
  for (int fd = FD0; fd < FD1; ++fd)
    if (!table->count({me()->id, fd})) {
      (*table)[{me()->id, fd}] = s;
      return fd;
    }
  errno = EMFILE;
  return -1;
}
static void pump(std::shared_ptr<Conn> c, int dir) {
  Pipe& p = c->p[dir];
  if (p.actionPending || (p.inflight.empty() && !(p.finSent && !p.finArrived))) return;
  p.actionPending = true;
  addAction(-1, "deliver-bytes", [c, dir] {
    Pipe& q = c->p[dir];
    q.actionPending = false;
    if (!q.inflight.empty()) {
      size_t n = q.inflight.size();
      uint32_t v = decide(K_SOCK, 5, [] { return S.rng.chance(S.sc->d("p_sock_cut", 0)) ? 1 + S.rng.below(4) : 0u; }, -1);
      if (v == 1) n = 1;
      if (v == 2) n = (n + 1) / 2;
      if (v == 3) n = std::min<size_t>(n, 7);
      if (v == 4) n = std::min<size_t>(n, 9);
      q.buf += q.inflight.substr(0, n);
      q.inflight.erase(0, n);
    }
    if (q.inflight.empty() && q.finSent) q.finArrived = true;
    pump(c, dir);
  });
}
static void closeSock(std::shared_ptr<Sock> s) {
  if (!s->open) return;
  s->open = false;
  if (s->listening) {
    listeners->erase(s->port);
    for (auto& b : s->backlog) b.first->reset = true;
  }
  if (s->c) {
    Pipe& out = s->c->p[s->side];
    Pipe& in = s->c->p[1 - s->side];
    in.readerGone = true;
    if (!in.buf.empty()) {
      // closing with unread data resets the connection
      probe("sock-close-unread");
    }
    out.finSent = true;
    pump(s->c, s->side);
  }
}
void netRankDead(Rank* r) {
  if (!table) return;
  for (auto it = table->begin(); it != table->end();) {
    if (it->first.first == r->id) {
      closeSock(it->second);
      it = table->erase(it);
    } else
      ++it;
  }
}
static bool maybeReset(std::shared_ptr<Sock> s) {
  if (!s->c || s->c->reset) return s->c && s->c->reset;
  if (fault("sock-reset", 2, S.sc->d("p_sock_reset", 0))) {
    fired("connection-reset");
    s->c->reset = true;
    for (auto& p : s->c->p) { p.inflight.clear(); p.buf.clear(); }
    return true;
  }
  return false;
}
static bool maybeIntr() {
  if (fault("eintr", 2, S.sc->d("p_eintr", 0))) {
    fired("interrupted-system-call");
    return true;
  }
  return false;
}
static ssize_t doSend(int fd, const void* b, size_t n, int) {
  auto s = get(fd);
  S.n.sockOps++;
  yield("send");
  if (!s || !s->c) { errno = s ? ENOTCONN : EBADF; return -1; }
  if (n == 0) return 0;
  if (maybeIntr()) { errno = EINTR; return -1; }
  if (maybeReset(s)) { errno = ECONNRESET; return -1; }
  auto c = s->c;
  Pipe& out = c->p[s->side];
  const size_t cap = static_cast<size_t>(S.sc->i("sock_buf", 1 << 20));
  blockUntil([&out, cap, c] { return c->reset || out.readerGone || out.inflight.size() + out.buf.size() < cap; }, "send");
  if (c->reset) { errno = ECONNRESET; return -1; }
  if (out.readerGone) { errno = EPIPE; return -1; }
  size_t room = cap - (out.inflight.size() + out.buf.size());
  size_t k = std::min(n, room);
  uint32_t v = decide(K_SOCK, 4, [] { return S.rng.chance(S.sc->d("p_sock_cut", 0)) ? 1 + S.rng.below(3) : 0u; });
  if (v == 1) k = 1;
  if (v == 2) k = (k + 1) / 2;
  if (v == 3) k = std::min<size_t>(k, 13);
  if (k < n) probe("partial-send");
  out.inflight.append(static_cast<const char*>(b), k);
  pump(c, s->side);
  return static_cast<ssize_t>(k);
}
static ssize_t doRecv(int fd, void* b, size_t n, int flags) {
  auto s = get(fd);
  S.n.sockOps++;
  yield("recv");
  if (!s || !s->c) { errno = s ? ENOTCONN : EBADF; return -1; }
  if (maybeIntr()) { errno = EINTR; return -1; }
  if (maybeReset(s)) { errno = ECONNRESET; return -1; }
  auto c = s->c;
  Pipe& in = c->p[1 - s->side];
  if (flags & MSG_DONTWAIT) {
    if (in.buf.empty() && !in.finArrived && !c->reset) { errno = EAGAIN; return -1; }
  } else {
    if (flags & MSG_WAITALL) {
      // taken out of the socket buffer as it arrives
      size_t got = 0;
      while (got < n) {
        blockUntil([&in, c] { return c->reset || !in.buf.empty() || in.finArrived; }, "recv");
        if (c->reset) break;
        size_t k = std::min(n - got, in.buf.size());
        memcpy(static_cast<char*>(b) + got, in.buf.data(), k);
        in.buf.erase(0, k);
        got += k;
        if (in.buf.empty() && in.finArrived) break;
      }
      if (got > 0 || !c->reset) return static_cast<ssize_t>(got);
      errno = ECONNRESET;
      return -1;
    }
    blockUntil([&in, c] { return c->reset || !in.buf.empty() || in.finArrived; }, "recv");
  }
  if (c->reset) { errno = ECONNRESET; return -1; }
  if (in.buf.empty()) return 0;
  size_t k = std::min(n, in.buf.size());
  {
    uint32_t v = decide(K_SOCK, 4, [] { return S.rng.chance(S.sc->d("p_sock_cut", 0)) ? 1 + S.rng.below(3) : 0u; });
    if (v == 1) k = 1;
    if (v == 2) k = (k + 1) / 2;
    if (v == 3) k = std::min<size_t>(k, 11);
  }
  if (k < n) probe("partial-recv");
  memcpy(b, in.buf.data(), k);
  if (!(flags & MSG_PEEK)) in.buf.erase(0, k);
  return static_cast<ssize_t>(k);
}
static bool readableSock(const std::shared_ptr<Sock>& s) {
  if (!s) return true;
  if (s->listening) return !s->backlog.empty();
  if (!s->c) return false;
  Pipe& in = s->c->p[1 - s->side];
  return s->c->reset || !in.buf.empty() || in.finArrived;
}
static bool writableSock(const std::shared_ptr<Sock>& s) {
  if (!s || !s->c) return false;
  Pipe& out = s->c->p[s->side];
  const size_t cap = static_cast<size_t>(S.sc->i("sock_buf", 1 << 20));
  return s->c->reset || out.readerGone || out.inflight.size() + out.buf.size() < cap;
}
}  // namespace sim
using namespace sim;

extern "C" size_t posixWriteLimit(int fd, size_t n);
extern "C" {
int socket(int d, int t, int p) __THROW {
  REALN(socket);
  if (!active()) return real_socket(d, t, p);
  yield("socket");
  return alloc(std::make_shared<Sock>());
}
int bind(int fd, const struct sockaddr* a, socklen_t l) __THROW {
  REALN(bind);
  if (!vfd(fd)) return real_bind(fd, a, l);
  auto s = get(fd);
  if (!s) { errno = EBADF; return -1; }
  int port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  if (port == 0) port = ++nextPort;
  if (listeners->count(port)) { errno = EADDRINUSE; return -1; }
  s->port = port;
  s->bound = true;
  (*listeners)[port] = s;
  return 0;
}
int listen(int fd, int n) __THROW {
  REALN(listen);
  if (!vfd(fd)) return real_listen(fd, n);
  auto s = get(fd);
  if (!s) { errno = EBADF; return -1; }
  yield("listen");
  s->listening = true;
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) __THROW {
  REALN(getsockname);
  if (!vfd(fd)) return real_getsockname(fd, a, l);
  auto s = get(fd);
  if (!s) { errno = EBADF; return -1; }
  auto* in = reinterpret_cast<sockaddr_in*>(a);
  memset(in, 0, sizeof *in);
  in->sin_family = AF_INET;
  in->sin_port = htons(static_cast<uint16_t>(s->port));
  return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
  REALN(connect);
  if (!vfd(fd)) return real_connect(fd, a, l);
  auto s = get(fd);
  yield("connect");
  if (!s) { errno = EBADF; return -1; }
  int port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  auto it = listeners->find(port);
  if (it == listeners->end() || !it->second->listening) {
    probe("connect-refused");
    errno = ECONNREFUSED;
    return -1;
  }
  if (fault("connect", 2, S.sc->d("p_connect_fault", 0))) {
    fired("connect-refused");
    errno = ECONNREFUSED;
    return -1;
  }
  auto c = std::make_shared<Conn>();
  c->id = ++connIds;
  s->c = c;
  s->side = 0;
  it->second->backlog.emplace_back(c, me()->id);
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) {
  REALN(accept);
  if (!vfd(fd)) return real_accept(fd, a, l);
  auto s = get(fd);
  yield("accept");
  if (!s || !s->listening) { errno = EBADF; return -1; }
  if (maybeIntr()) { errno = EINTR; return -1; }
  blockUntil([s] { return !s->backlog.empty() || !s->open; }, "accept");
  if (s->backlog.empty()) { errno = EBADF; return -1; }
  auto c = s->backlog.front();
  s->backlog.pop_front();
  auto n = std::make_shared<Sock>();
  n->c = c.first;
  n->side = 1;
  if (a) {
    auto* in = reinterpret_cast<sockaddr_in*>(a);
    memset(in, 0, sizeof *in);
    in->sin_family = AF_INET;
    in->sin_addr.s_addr = htonl(0x7f000001);
    in->sin_port = htons(static_cast<uint16_t>(50000 + c.second));
  }
  return alloc(n);
}
ssize_t send(int fd, const void* b, size_t n, int fl) {
  REALN(send);
  if (!vfd(fd)) return real_send(fd, b, n, fl);
  return doSend(fd, b, n, fl);
}
ssize_t recv(int fd, void* b, size_t n, int fl) {
  REALN(recv);
  if (!vfd(fd)) return real_recv(fd, b, n, fl);
  return doRecv(fd, b, n, fl);
}
// what the compiler calls instead when it knows the size of the buffer
ssize_t __recv_chk(int fd, void* b, size_t n, size_t len, int fl) {
  if (n > len) abort();
  return recv(fd, b, n, fl);
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t len) {
  if (n > len) abort();
  return read(fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
  REALN(read);
  if (!vfd(fd)) return real_read(fd, b, n);
  return doRecv(fd, b, n, 0);
}
ssize_t write(int fd, const void* b, size_t n) {
  REALN(write);
  if (!vfd(fd)) {
    const size_t lim = posixWriteLimit(fd, n);
    if (lim == n) return real_write(fd, b, n);
    if (lim && real_write(fd, b, lim) < 0) return -1;
    errno = ENOSPC;
    return -1;
  }
  return doSend(fd, b, n, 0);
}
int close(int fd) {
  REALN(close);
  if (!vfd(fd)) return real_close(fd);
  auto s = get(fd);
  if (!s) { errno = EBADF; return -1; }
  table->erase({me()->id, fd});
  closeSock(s);
  yield("close");
  return 0;
}
int shutdown(int fd, int how) __THROW {
  REALN(shutdown);
  if (!vfd(fd)) return real_shutdown(fd, how);
  auto s = get(fd);
  if (!s || !s->c) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD) { s->c->p[s->side].finSent = true; pump(s->c, s->side); }
  return 0;
}
int setsockopt(int fd, int a, int b, const void* c, socklen_t d) __THROW {
  REALN(setsockopt);
  if (!vfd(fd)) return real_setsockopt(fd, a, b, c, d);
  return 0;
}
int getsockopt(int fd, int a, int b, void* c, socklen_t* d) __THROW {
  REALN(getsockopt);
  if (!vfd(fd)) return real_getsockopt(fd, a, b, c, d);
  memset(c, 0, *d);
  return 0;
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* tv) {
  REALN(select);
  if (!active()) return real_select(n, r, w, x, tv);
  std::vector<std::pair<int, std::shared_ptr<Sock>>> rs, wss;
  for (int fd = FD0; fd < n && fd < FD1; ++fd) {
    if (r && FD_ISSET(fd, r)) rs.emplace_back(fd, get(fd));
    if (w && FD_ISSET(fd, w)) wss.emplace_back(fd, get(fd));
  }
  yield("select");
  for (auto& p : rs) if (!p.second) { errno = EBADF; return -1; }
  for (auto& p : wss) if (!p.second) { errno = EBADF; return -1; }
  if (maybeIntr()) { errno = EINTR; return -1; }  // the sets are left unmodified, as by the kernel
  auto ready = [&rs, &wss] {
    for (auto& p : rs) if (readableSock(p.second)) return true;
    for (auto& p : wss) if (writableSock(p.second)) return true;
    return false;
  };
  if (tv)
    blockUntilFor(ready, static_cast<uint64_t>(tv->tv_sec) * 1000000ull + static_cast<uint64_t>(tv->tv_usec), "select");
  else
    blockUntil(ready, "select");
  int cnt = 0;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (x) FD_ZERO(x);
  for (auto& p : rs) if (readableSock(p.second)) { FD_SET(p.first, r); ++cnt; }
  for (auto& p : wss) if (writableSock(p.second)) { FD_SET(p.first, w); ++cnt; }
  return cnt;
}
int poll(struct pollfd* f, nfds_t n, int ms) {
  REALN(poll);
  if (!active()) return real_poll(f, n, ms);
  bool anyV = false;
  for (nfds_t i = 0; i < n; ++i) anyV = anyV || vfd(f[i].fd);
  if (!anyV) return real_poll(f, n, ms < 0 ? ms : ms);
  yield("poll");
  std::vector<std::shared_ptr<Sock>> s;
  for (nfds_t i = 0; i < n; ++i) s.push_back(get(f[i].fd));
  auto ready = [&] {
    for (nfds_t i = 0; i < n; ++i)
      if (((f[i].events & POLLIN) && readableSock(s[i])) || ((f[i].events & POLLOUT) && writableSock(s[i]))) return true;
    return false;
  };
  if (ms >= 0) blockUntilFor(ready, static_cast<uint64_t>(ms) * 1000ull, "poll");
  else blockUntil(ready, "poll");
  int cnt = 0;
  for (nfds_t i = 0; i < n; ++i) {
    f[i].revents = 0;
    if ((f[i].events & POLLIN) && readableSock(s[i])) f[i].revents |= POLLIN;
    if ((f[i].events & POLLOUT) && writableSock(s[i])) f[i].revents |= POLLOUT;
    if (f[i].revents) ++cnt;
  }
  return cnt;
}
struct hostent* gethostbyname(const char* name) {
  REALN(gethostbyname);
  if (!active()) return real_gethostbyname(name);
  static struct in_addr addr;
  static char* list[2] = {reinterpret_cast<char*>(&addr), nullptr};
  static char* aliases[1] = {nullptr};
  static char nm[64] = "localhost";
  static struct hostent h;
  addr.s_addr = htonl(0x7f000001);
  h.h_name = nm;
  h.h_aliases = aliases;
  h.h_addrtype = AF_INET;
  h.h_length = 4;
  h.h_addr_list = list;
  return &h;
}
}
