// Conversations over the socket layer: one server process, several clients, one world per process.
#include <fstream>
#include <set>
#include <sstream>

#include "common.hpp"
#include "third_level/NetworkUtils.hpp"
#include "third_level/ThirdLevelUtils.hpp"

namespace harness {

struct SockOp {
  std::string kind;
  int client = 1;  // the client that talks to the server
  int dir = 0;     // 0: client sends, 1: server sends; forwarding: the client that receives
  uint64_t seed = 0;
  size_t len = 1, chunk = 1;
  long cut = -1;   // the sender goes away after this many bytes of the encoded message
};

static SockOp parse(const std::string& s) {
  std::istringstream is(s);
  std::string tok;
  SockOp o;
  std::getline(is, o.kind, ':');
  auto num = [&] { std::getline(is, tok, ':'); return std::stol(tok); };
  o.client = static_cast<int>(num());
  o.dir = static_cast<int>(num());
  o.seed = static_cast<uint64_t>(num());
  o.len = static_cast<size_t>(num());
  o.chunk = static_cast<size_t>(num());
  o.cut = num();
  return o;
}

static std::string payload(uint64_t seed, size_t n) {
  sim::Prng r(seed + 5);
  std::string s;
  const bool tricky = r.chance(0.3);
  for (size_t i = 0; i < n; ++i) s += tricky ? "#0123456789\0\n+-"[r.below(15)] : static_cast<char>(r.below(256));
  return s;
}

template <class T>
static std::vector<T> values(uint64_t seed, size_t n) {
  sim::Prng r(seed + 6);
  std::vector<T> v;
  for (size_t i = 0; i < n; ++i) v.push_back(static_cast<T>(static_cast<double>(r.below(2000001)) - 1000000.0) / static_cast<T>(8));
  return v;
}
template <class T>
static T plus(const T& a, const T& b) {
  return a + b;
}
template <class T>
static std::string bytesOf(const std::vector<T>& v, bool reversed) {
  std::string s;
  for (const T& x : v) {
    std::string b(reinterpret_cast<const char*>(&x), sizeof(T));
    if (reversed) std::reverse(b.begin(), b.end());
    s += b;
  }
  return s;
}

// outcome of one side of one operation
enum Res { Ok, Failed };
struct Side {
  int who;
  std::string where;
};

static bool somethingFailed() {
  auto it = sim::S.n.faults.find("connection-reset");
  if (sim::S.n.faults.count("posix-open-error") || sim::S.n.faults.count("posix-write-no-space")) return true;  // a connection is given up then
  return it != sim::S.n.faults.end() && it->second > 0;
}

template <class T>
static std::string encodeBin(const SockOp& o, bool reversed) {
  char f = static_cast<char>(NetworkUtils::isLittleEndian());
  if (reversed) f = !f;
  return std::string(1, f) + bytesOf(values<T>(o.seed, o.len), reversed);
}

static std::string encode(const SockOp& o) {
  const std::string& k = o.kind;
  if (k == "pre" || k == "buf" || k == "len") return std::to_string(o.len) + "#" + payload(o.seed, o.len);
  if (k == "fix" || k == "fixs" || k == "fw") return payload(o.seed, o.len);
  if (k == "bd" || k == "rd" || k == "file") return encodeBin<double>(o, false);
  if (k == "bf" || k == "rf") return encodeBin<float>(o, false);
  if (k == "bi" || k == "ri") return encodeBin<int32_t>(o, false);
  if (k == "bl") return encodeBin<int64_t>(o, false);
  if (k == "ed" || k == "erd") return encodeBin<double>(o, true);
  if (k == "ei") return encodeBin<int32_t>(o, true);
  if (k == "es") return encodeBin<int16_t>(o, true);
  if (k == "big") return std::to_string(3000000000ull + o.seed) + "#";
  throw std::runtime_error("harness: no encoding for " + k);
}

static bool sendMsg(const SockOp& o, const ClientSocket& c) {
  const std::string& k = o.kind;
  const std::string m = payload(o.seed, o.len);
  if (k == "pre") return c.sendallPrefixed(m);
  if (k == "buf" || k == "len") return c.sendallPrefixed(m.data(), m.size());
  if (k == "fix") return c.sendall(m.data(), m.size());
  if (k == "fixs" || k == "fw") return c.sendall(m);
  if (k == "bd" || k == "rd" || k == "file") {
    auto v = values<double>(o.seed, o.len);
    return c.sendallBinary(v.data(), v.size());
  }
  if (k == "bf" || k == "rf") {
    auto v = values<float>(o.seed, o.len);
    return c.sendallBinary(v.data(), v.size());
  }
  if (k == "bi" || k == "ri") {
    auto v = values<int32_t>(o.seed, o.len);
    return c.sendallBinary(v.data(), v.size());
  }
  if (k == "bl") {
    auto v = values<int64_t>(o.seed, o.len);
    return c.sendallBinary(v.data(), v.size());
  }
  const std::string e = encode(o);  // from a machine of the other endianness, or a length alone
  return c.sendall(e.data(), e.size());
}

static void wrong(const Side& s, const SockOp& o, const char* what) {
  sim::violate("stream", "%s: %s (%s of %zu, chunk %zu)", s.where.c_str(), what, o.kind.c_str(), o.len, o.chunk);
}

template <class T>
static bool recvBin(const SockOp& o, const ClientSocket& c, const Side& s, bool reduce) {
  std::vector<T> buf = reduce ? values<T>(o.seed + 1, o.len) : std::vector<T>(o.len, static_cast<T>(77));
  std::vector<T> want = values<T>(o.seed, o.len);
  if (reduce) {
    auto mine = buf;
    for (size_t i = 0; i < want.size(); ++i) want[i] = static_cast<T>(want[i] + mine[i]);
  }
  buf.push_back(static_cast<T>(42));  // must not be touched
  const bool ok = reduce ? c.recvallBinaryAndReduceInPlace<T>(buf.data(), o.len, plus<T>, o.chunk)
                         : c.recvallBinaryAndCorrectInPlace<T>(buf.data(), o.len, o.chunk);
  if (!(buf.back() == static_cast<T>(42))) wrong(s, o, "values were stored behind the end of the array");
  buf.pop_back();
  if (ok && memcmp(buf.data(), want.data(), sizeof(T) * o.len) != 0) {
    size_t i = 0;
    while (memcmp(&buf[i], &want[i], sizeof(T)) == 0) ++i;
    sim::violate("stream", "%s: element %zu of %zu is %.17g instead of %.17g (%s, chunk %zu)", s.where.c_str(), i, o.len, static_cast<double>(buf[i]),
                 static_cast<double>(want[i]), o.kind.c_str(), o.chunk);
  }
  return ok;
}

static bool recvMsg(const SockOp& o, const ClientSocket& c, const Side& s) {
  const std::string& k = o.kind;
  const std::string m = payload(o.seed, o.len);
  const int flags = (o.seed % 7 == 0) ? MSG_WAITALL : 0;
  if (k == "pre") {
    std::string g = "old";
    const bool ok = c.recvallPrefixed(g);
    if (ok && g != m) wrong(s, o, "a different message was received");
    return ok;
  }
  if (k == "buf") {
    std::unique_ptr<char[]> g;
    size_t n = 0;
    const bool ok = c.recvallPrefixed(g, n);
    if (ok && std::string(g.get(), n) != m) wrong(s, o, "a different message was received");
    return ok;
  }
  if (k == "len" || k == "big") {
    size_t n = 0;
    if (!c.recvLength(n)) return false;
    const size_t want = k == "big" ? 3000000000ull + o.seed : o.len;
    if (n != want) {
      wrong(s, o, "a different length was received");
      return false;
    }
    if (k == "big") return true;
    std::string g;
    const bool ok = c.recvall(g, n, flags);
    if (ok && g != m) wrong(s, o, "a different message was received");
    return ok;
  }
  if (k == "fix") {
    std::string g(o.len, 'z');
    const bool ok = c.recvall(&g[0], o.len, flags);
    if (ok && g != m) wrong(s, o, "different bytes were received");
    return ok;
  }
  if (k == "fixs" || k == "fw") {
    std::string g;
    const bool ok = c.recvall(g, o.len, flags);
    if (ok && g != m) wrong(s, o, "different bytes were received");
    return ok;
  }
  if (k == "file") {
    const std::string fn = "recv_" + std::to_string(s.who) + "_" + std::to_string(o.seed);
    const std::string want = bytesOf(values<double>(o.seed, o.len), false);
    const bool ok = c.recvallBinaryToFile(fn, want.size(), o.chunk);
    if (ok) {
      bool there = false;
      std::string got = rawRead(fn, &there);
      if (!there || got != want) wrong(s, o, "the file does not hold what was sent");
    }
    return ok;
  }
  if (k == "bd" || k == "ed") return recvBin<double>(o, c, s, false);
  if (k == "rd" || k == "erd") return recvBin<double>(o, c, s, true);
  if (k == "bf") return recvBin<float>(o, c, s, false);
  if (k == "rf") return recvBin<float>(o, c, s, true);
  if (k == "bi" || k == "ei") return recvBin<int32_t>(o, c, s, false);
  if (k == "ri") return recvBin<int32_t>(o, c, s, true);
  if (k == "bl") return recvBin<int64_t>(o, c, s, false);
  if (k == "es") return recvBin<int16_t>(o, c, s, false);
  throw std::runtime_error("harness: unknown message kind " + k);
}

// returns whether the connection can be used further
static bool talk(const SockOp& o, const Side& s, std::shared_ptr<ClientSocket>& c, bool sender) {
  const bool aborts = o.cut >= 0;
  if (o.seed % 5 == 0 && o.kind != "fw" && !aborts) {
    // nothing can have arrived before the receiver says go
    if (!sender) {
      const int patience = static_cast<int>(o.seed % 3);
      const bool r = c->isReadable(patience);
      if (r && !somethingFailed()) wrong(s, o, "reported readable although nothing was sent");
      if (r) {
        c.reset();
        return false;
      }
      if (!c->isWriteable(-1)) wrong(s, o, "never writeable");
      if (!c->sendall("g", 1)) {
        if (!somethingFailed()) wrong(s, o, "sending failed although nothing was lost");
        c.reset();
        return false;
      }
    } else {
      char g = 0;
      if (!c->recvall(&g, 1)) {
        if (!somethingFailed()) wrong(s, o, "receiving failed although nothing was lost");
        c.reset();
        return false;
      }
      if (g != 'g') wrong(s, o, "a different byte was received");
    }
  }
  if (sender) {
    bool ok = true;
    if (aborts) {
      const std::string e = encode(o);
      const size_t n = static_cast<size_t>(o.cut) % e.size();
      if (n) c->sendall(e.data(), n);
      c.reset();
      sim::probe("sender-left-mid-message");
      return false;
    }
    ok = sendMsg(o, *c);
    if (!ok && !somethingFailed()) wrong(s, o, "sending failed although nothing was lost");
    if (!ok) c.reset();
    return ok;
  }
  if (o.seed % 4 == 1 && !c->isReadable(-1)) wrong(s, o, "not readable after waiting without limit");
  const bool ok = recvMsg(o, *c, s);
  if (ok && aborts) wrong(s, o, "a message was delivered as complete although its sender left before its end");
  if (!ok && !aborts && !somethingFailed()) wrong(s, o, "receiving failed although nothing was lost");
  if (ok) sim::probe("message-received");
  else sim::probe("failure-reported");
  if (!ok) c.reset();
  return ok;
}

void progSockets() {
  const Scenario& S = api::scenario();
  const int who = sim::me()->world->id;  // 0: server
  const int nclients = static_cast<int>(S.i("nworlds")) - 1;
  const int port = 9900;
  std::vector<SockOp> ops;
  for (auto& o : S.sv("ops")) ops.push_back(parse(o));
  std::vector<std::shared_ptr<ClientSocket>> conn(static_cast<size_t>(nclients) + 1);
  std::unique_ptr<ServerSocket> server;
  if (who == 0) {
    if (S.i("server_delay", 0)) sleep(static_cast<unsigned>(S.i("server_delay")));
    const bool any = S.i("any_port", 0) != 0;
    server.reset(any ? new ServerSocket() : new ServerSocket(static_cast<unsigned short>(port)));
    if (!server->init()) sim::violate("stream", "the server socket could not be opened");
    if (!any && server->getPort() != port) sim::violate("stream", "the server listens on port %d", server->getPort());
    api::board().num["port"] = {static_cast<double>(server->getPort())};
    for (int i = 0; i < nclients; ++i) {
      auto c = server->acceptClient();
      if (!c || !c->isInitialized()) {
        sim::violate("stream", "accepting a client failed although nothing was lost");
        return;
      }
      std::string id;
      if (!c->recvallPrefixed(id)) {
        if (!somethingFailed()) sim::violate("stream", "receiving the name of a client failed although nothing was lost");
        continue;
      }
      int k = -1;
      for (int j = 1; j <= nclients; ++j)
        if (id == "client " + std::to_string(j)) k = j;
      if (k < 0 || conn[static_cast<size_t>(k)]) {
        sim::violate("stream", "the name of a client arrived as \"%s\"", id.c_str());
        continue;
      }
      conn[static_cast<size_t>(k)] = c;
    }
  } else {
    while (!api::board().num.count("port")) sleep(1);
    auto& c = conn[static_cast<size_t>(who)];
    c.reset(new ClientSocket("localhost", static_cast<int>(api::board().num["port"][0])));
    int tries = 0;
    while (!c->init()) {
      if (++tries > 60) {
        sim::violate("stream", "no connection after many tries");
        return;
      }
      sleep(1);
    }
    if (!c->isInitialized()) sim::violate("stream", "connected, but not marked as initialised");
    if (!c->sendallPrefixed("client " + std::to_string(who))) {
      if (!somethingFailed()) sim::violate("stream", "sending failed although nothing was lost");
      c.reset();
    }
  }
  // a connection whose sender left is not used any more by either side
  std::set<int> gone;
  int t = 0;
  for (auto& o : ops) {
    ++t;
    if (gone.count(o.client) || (o.kind == "fw" && gone.count(o.dir))) continue;
    if (o.cut >= 0) {
      gone.insert(o.client);
      if (o.kind == "fw") gone.insert(o.dir);
    }
    Side s{who, "message " + std::to_string(t) + ", " + (who == 0 ? "server" : "client " + std::to_string(who))};
    if (o.kind == "fw") {
      // client -> server -> client dir
      if (who == o.client && conn[static_cast<size_t>(who)]) {
        talk(o, s, conn[static_cast<size_t>(who)], true);
      } else if (who == o.dir && conn[static_cast<size_t>(who)]) {
        SockOp p = o;
        talk(p, s, conn[static_cast<size_t>(who)], false);
      } else if (who == 0) {
        auto &a = conn[static_cast<size_t>(o.client)], &b = conn[static_cast<size_t>(o.dir)];
        if (!a || !b) {
          a.reset();
          b.reset();
          continue;
        }
        const bool ok = NetworkUtils::forward(*a, *b, o.chunk, o.len);
        if (ok && o.cut >= 0) wrong(s, o, "a message was forwarded as complete although its sender left before its end");
        if (!ok && o.cut < 0 && !somethingFailed()) wrong(s, o, "forwarding failed although nothing was lost");
        if (!ok) {
          a.reset();
          b.reset();
        }
      }
      continue;
    }
    if (who != 0 && who != o.client) continue;
    auto& c = conn[static_cast<size_t>(o.client)];
    if (!c) continue;
    talk(o, s, c, (o.dir == 0) == (who != 0));
  }
  // nothing is left in the streams
  for (int k = 1; k <= nclients; ++k) {
    auto& c = conn[static_cast<size_t>(k)];
    if (!c || (who != 0 && who != k)) continue;
    if (who != 0) {
      c->sendall("end", 3);
    } else {
      std::string e;
      bool ok = c->recvall(e, 3);
      if (ok && e != "end") sim::violate("stream", "the stream of client %d holds something else after the last message", k);
    }
  }
}

}  // namespace harness
