// Sockets, epoll, eventfd and timerfd in memory.  TCP streams are sequences of segments which
// arrive in order after a delay chosen by the scheduler; buffers are finite; connections can be
// reset at any point, and calls fail.
#undef _FILE_OFFSET_BITS  // the plain and the 64-bit names are both defined here
#include "net.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <vector>

#include "internal.h"

namespace sim {
namespace net {
const char* g_host = nullptr;
bool g_host_v6 = false;
bool g_poll_interrupted = false;
int g_resolved = 0;
std::string (*g_route)(const sockaddr*) = nullptr;
bool g_no_ipv6 = false, g_no_ipv4 = false, g_fault_sockets = true;
size_t g_capacity = 65536;

namespace {

const int kBase = 6000;
unsigned long g_resets, g_accept_errors, g_errors, g_accepted;

struct Seg {
  uint64_t at;
  std::string data;
  int what;  // 0 data, 1 end of stream, 2 reset
};
struct Conn;
struct Fd;
struct Pipe {  // data towards one end
  std::deque<Seg> fly;
  std::string rx;
  size_t flying = 0;
  bool fin_sent = false, fin = false;
  uint64_t last = 0;
  char tag;  // happens-before
  size_t Used() const { return flying + rx.size(); }
};
struct Conn {
  Pipe p[2];  // p[i]: towards end i
  Fd* end[2] = {nullptr, nullptr};
  bool closed[2] = {false, false};  // the end's descriptor is gone (an end waiting in a backlog has none yet)
  int err[2] = {0, 0};
  bool dead[2] = {false, false};
  bool lost = false;  // nothing arrives any more
  int port[2] = {0, 0};
  bool v6 = true;
  size_t cap;
};
enum Type { kSocket, kListen, kStream, kEvent, kTimer, kEpoll, kDatagram };
struct Reg {
  uint32_t events;
  uint64_t data;
  uint32_t pending;
};
struct Fd {
  int fd;
  Type type = kSocket;
  bool v6 = true, nonblock = false, bound = false;
  int port = 0;
  Conn* c = nullptr;
  int side = 0;
  uint64_t id = 0;
  bool connecting = false;
  int connect_error = 0;
  std::string local;              // of a datagram socket
  std::deque<Conn*> backlog;
  size_t backlog_max = 0;
  uint64_t count = 0;             // eventfd, timerfd
  uint64_t due = 0, interval = 0, generation = 0;
  std::map<int, Reg> regs;        // epoll
  char tag;                       // happens-before
};

std::map<int, Fd*>& Fds() {
  static auto* m = new std::map<int, Fd*>;
  return *m;
}
std::vector<Conn*>& Conns() {
  static auto* v = new std::vector<Conn*>;
  return *v;
}
WaitQ& Q() {
  static auto* q = new WaitQ;
  return *q;
}
int g_next_port = 40000;

Fd* Get(int fd) {
  auto it = Fds().find(fd);
  return it == Fds().end() ? nullptr : it->second;
}
Fd* New(Type t) {
  Fd* f = new Fd;
  f->type = t;
  static uint64_t ids;
  f->id = ++ids;
  int n = kBase;
  while (Fds().count(n))
    ++n;
  f->fd = n;
  Fds()[n] = f;
  return f;
}
std::vector<std::pair<int, int>>& Failed_() {
  static auto* v = new std::vector<std::pair<int, int>>;
  return *v;
}
bool Err(Kind k = K_NET_ERR) {
  if (!g_fault_sockets || !Fault(k))
    return false;
  ++g_errors;
  return true;
}

uint32_t Ready(Fd* f) {
  uint32_t r = 0;
  switch (f->type) {
    case kSocket:
      return f->connecting ? 0 : f->connect_error ? EPOLLOUT | EPOLLERR | EPOLLHUP : EPOLLOUT | EPOLLHUP;
    case kListen:
      return f->backlog.empty() ? 0 : EPOLLIN;
    case kStream: {
      Conn* c = f->c;
      Pipe& in = c->p[f->side];
      Pipe& out = c->p[1 - f->side];
      if (!in.rx.empty() || in.fin || c->dead[f->side] || c->err[f->side])
        r |= EPOLLIN;
      if (in.fin)
        r |= EPOLLRDHUP;
      if (c->dead[f->side] || out.Used() * 3 <= c->cap * 2)
        r |= EPOLLOUT;
      if (c->dead[f->side] || (in.fin && out.fin_sent))
        r |= EPOLLHUP;
      if (c->err[f->side])
        r |= EPOLLERR;
      return r;
    }
    case kEvent:
    case kTimer:
      return f->count ? EPOLLIN : 0;
    default:
      return 0;
  }
}
// Something happened to f.
void Notify(Fd* f, uint32_t what) {
  for (auto& e : Fds())
    if (e.second->type == kEpoll) {
      auto it = e.second->regs.find(f->fd);
      if (it != e.second->regs.end())
        it->second.pending |= what & (it->second.events | EPOLLERR | EPOLLHUP);
    }
  WakeAll(Q());
}

void Die2(Conn* c, int side, int err) {  // the end learns that the connection is gone
  if (c->dead[side])
    return;
  c->dead[side] = true;
  c->err[side] = err;
  if (c->end[side])
    Notify(c->end[side], EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
  else
    WakeAll(Q());
}
void Push(Conn* c, int to, int what, const char* data, size_t n, bool now);
void Deliver(Conn* c, int to) {
  Pipe& p = c->p[to];
  while (!p.fly.empty() && p.fly.front().at <= G.now) {
    Seg s(std::move(p.fly.front()));
    p.fly.pop_front();
    p.flying -= s.data.size();
    HashEvent(0xe000 + s.what * 16 + to);
    if (s.what == 2) {
      p.fly.clear();
      p.flying = 0;
      if (!c->closed[to])
        Die2(c, to, ECONNRESET);
      return;
    }
    if (c->closed[to]) {  // nobody is there: answered by a reset
      if (s.what == 0) {
        if (!c->dead[1 - to])
          Push(c, 1 - to, 2, nullptr, 0, true);
        p.fly.clear();
        p.flying = 0;
        return;
      }
      continue;
    }
    if (c->dead[to])
      continue;
    if (s.what == 1)
      p.fin = true;
    else
      p.rx += s.data;
    if (c->end[to])
      Notify(c->end[to], s.what == 1 ? EPOLLIN | EPOLLRDHUP | (c->p[1 - to].fin_sent ? EPOLLHUP : 0) : EPOLLIN);
    else
      WakeAll(Q());
  }
}
uint64_t Delay() {
  uint64_t d = 1000 + 500 * (Data(20));
  uint32_t v = Choose(K_NET_DELAY, 12);
  if (v)
    d += 20000ull << v;  // up to 80 ms
  if (Choose(K_NET_STALL, 2))
    d += 1000000000ull * (1 + Data(60));
  return d;
}
void Push(Conn* c, int to, int what, const char* data, size_t n, bool soon) {
  if (c->lost)
    return;
  Pipe& p = c->p[to];
  uint64_t at = std::max(p.last, G.now + (soon ? 1000 : Delay()));
  p.last = at;
  p.fly.push_back(Seg{at, data ? std::string(data, n) : std::string(), what});
  p.flying += n;
  At(at, [c, to] { Deliver(c, to); });
}
// The connection is lost; both ends learn of it independently.
void Lose(Conn* c, int err) {
  Log("connection %d lost", static_cast<int>(std::find(Conns().begin(), Conns().end(), c) - Conns().begin()));
  ++g_resets;
  c->lost = true;
  for (int i = 0; i < 2; ++i) {
    c->p[i].fly.clear();
    c->p[i].flying = 0;
    At(G.now + 1000 + Data(3000000), [c, i, err] {
      if (!c->closed[i])
        Die2(c, i, err);
    });
  }
}
bool MayLose(Conn* c) {
  if (!g_fault_sockets || c->lost || c->dead[0] || c->dead[1] || !Fault(K_NET_RESET))
    return false;
  Lose(c, Data(3) ? ECONNRESET : ETIMEDOUT);
  return true;
}

void CloseEnd(Conn* c, int side) {
  c->closed[side] = true;
  c->end[side] = nullptr;
  Pipe& in = c->p[side];
  Pipe& out = c->p[1 - side];
  if (c->dead[side])
    return;
  if (!in.rx.empty()) {  // unread data: reset
    if (!out.fly.empty() && Data(2)) {
      size_t keep = Data(out.fly.size() + 1);
      while (out.fly.size() > keep) {
        out.flying -= out.fly.back().data.size();
        out.fly.pop_back();
      }
    }
    Push(c, 1 - side, 2, nullptr, 0, false);
  } else if (!out.fin_sent) {
    out.fin_sent = true;
    Push(c, 1 - side, 1, nullptr, 0, false);
  }
}

bool PortTaken(int port, bool v6, Fd* except) {
  for (auto& e : Fds())
    if (e.second != except && e.second->bound && e.second->port == port && e.second->v6 == v6)
      return true;
  return false;
}
int Ephemeral(bool v6) {
  do
    g_next_port = g_next_port >= 60999 ? 40000 : g_next_port + 1;
  while (PortTaken(g_next_port, v6, nullptr));
  return g_next_port;
}
bool AddrPort(const sockaddr* a, socklen_t n, bool* v6, int* port) {
  if (a->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6)) {
    *v6 = true;
    *port = ntohs(reinterpret_cast<const sockaddr_in6*>(a)->sin6_port);
  } else if (a->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
    *v6 = false;
    *port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  } else {
    return false;
  }
  return true;
}
void FillAddr(bool v6, int port, sockaddr* a, socklen_t* n) {
  if (!a || !n)
    return;
  if (v6) {
    sockaddr_in6 s;
    memset(&s, 0, sizeof s);
    s.sin6_family = AF_INET6;
    s.sin6_addr = in6addr_loopback;
    s.sin6_port = htons(port);
    memcpy(a, &s, std::min<size_t>(*n, sizeof s));
    *n = sizeof s;
  } else {
    sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family = AF_INET;
    s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    s.sin_port = htons(port);
    memcpy(a, &s, std::min<size_t>(*n, sizeof s));
    *n = sizeof s;
  }
}
bool Join(Fd* f, int port) {  // 1: connected, 0: nobody listens or no room
  Fd* l = nullptr;
  for (auto& e : Fds())
    if (e.second->type == kListen && e.second->port == port && e.second->v6 == f->v6)
      l = e.second;
  if (!l) {
    f->connect_error = ECONNREFUSED;
    return false;
  }
  if (l->backlog.size() >= l->backlog_max)
    return false;
  Conn* c = new Conn;
  Conns().push_back(c);
  c->cap = std::max<size_t>(1, g_capacity);
  c->v6 = f->v6;
  if (!f->bound)
    f->port = Ephemeral(f->v6);
  c->port[0] = f->port;
  c->port[1] = port;
  f->type = kStream;
  f->c = c;
  f->side = 0;
  c->end[0] = f;
  l->backlog.push_back(c);
  ReleaseTo(&l->tag);
  HashEvent(0xe600 + f->fd);
  Notify(l, EPOLLIN);
  Notify(f, EPOLLOUT);
  return true;
}
// A connection attempt in the background.
void Attempt(uint64_t id, int fd, int port, uint64_t at, int tries) {
  At(at, [=] {
    Fd* f = Get(fd);
    if (!f || f->id != id || f->type != kSocket)
      return;
    f->connecting = false;
    f->connect_error = 0;
    if (Join(f, port))
      return;
    if (!f->connect_error && tries < 7) {
      f->connecting = true;
      return Attempt(id, fd, port, G.now + (1000000000ull << tries), tries + 1);
    }
    if (!f->connect_error)
      f->connect_error = ETIMEDOUT;
    Notify(f, EPOLLOUT | EPOLLERR | EPOLLHUP);
  });
}
int Fail_(int e) {
  errno = e;
  return -1;
}
// Waits until cond holds; false if interrupted.  Called outside Rt.
template <class F>
bool Wait(const char* what, uint64_t deadline, F cond) {
  for (;;) {
    {
      Rt rt;
      if (cond())
        return true;
    }
    if (G.now >= deadline)
      return false;
    WaitOn(Q(), what, deadline);
  }
}

ssize_t SendImpl(int fd, const iovec* v, size_t c, int flags) {
  SchedPoint(910);
  Fd* f;
  {
    Rt rt;
    f = Get(fd);
    if (!f)
      return Fail_(EBADF);
    if (f->type != kStream)
      return Fail_(f->connecting ? EAGAIN : f->connect_error ? f->connect_error : ENOTCONN);
    if (Err()) {
      static const int kErr[] = {ENOBUFS, ENOMEM, EHOSTUNREACH};
      Failed_().push_back({f->c->port[f->side], f->c->port[1 - f->side]});
      return Fail_(kErr[Data(3)]);
    }
    MayLose(f->c);
  }
  std::string data;
  {
    Rt rt;
    for (size_t i = 0; i < c; ++i)
      data.append(static_cast<char*>(v[i].iov_base), v[i].iov_len);
  }
  for (size_t i = 0; i < c; ++i)
    CheckAccess(v[i].iov_base, v[i].iov_len, false, __builtin_return_address(0));
  size_t done = 0;
  for (;;) {
    {
      Rt rt;
      if (Get(fd) != f)
        return done ? static_cast<ssize_t>(done) : Fail_(EBADF);
      Conn* k = f->c;
      Pipe& out = k->p[1 - f->side];
      if (k->err[f->side] && !done) {
        int e = k->err[f->side];
        k->err[f->side] = 0;
        return Fail_(e);
      }
      if (k->dead[f->side] || out.fin_sent)
        return done ? static_cast<ssize_t>(done) : Fail_(EPIPE);
      size_t space = k->cap > out.Used() ? k->cap - out.Used() : 0;
      size_t n = std::min(space, data.size() - done);
      if (n) {
        uint32_t s = Choose(K_NET_SEG, 16);
        if (s) {
          // A short write, as if memory were scarce: there's space again a moment later.
          n = s < 6 ? std::min<size_t>(n, s) : 1 + Data(n);
          if (done + n < data.size())
            At(G.now + 1000 + Data(1000000), [fd, f] {
              if (Get(fd) == f)
                Notify(f, EPOLLOUT);
            });
        }
        ReleaseTo(&out.tag);
        // The network may divide it.
        size_t a = 0;
        while (a < n) {
          size_t m = n - a;
          if (m > 1 && Choose(K_NET_SEG, 2))
            m = 1 + Data(m);
          Push(k, 1 - f->side, 0, data.data() + done + a, m, false);
          a += m;
        }
        done += n;
        HashEvent(0xe100 + fd + 131 * n);
        if (f->nonblock || (flags & MSG_DONTWAIT) || done == data.size())
          return done;
        continue;
      }
      if (data.size() == done)
        return done;
      if (f->nonblock || (flags & MSG_DONTWAIT))
        return done ? static_cast<ssize_t>(done) : Fail_(EAGAIN);
    }
    WaitOn(Q(), "send", UINT64_MAX);
  }
}

ssize_t RecvImpl(int fd, const iovec* v, size_t c, int flags) {
  SchedPoint(911);
  for (size_t i = 0; i < c; ++i)
    CheckAccess(v[i].iov_base, v[i].iov_len, true, __builtin_return_address(0));
  {
    Rt rt;
    Fd* f = Get(fd);
    if (!f)
      return Fail_(EBADF);
    if (f->type != kStream)
      return Fail_(f->connecting ? EAGAIN : f->connect_error ? f->connect_error : ENOTCONN);
    if (Err()) {
      Failed_().push_back({f->c->port[f->side], f->c->port[1 - f->side]});
      return Fail_(Data(2) ? ENOMEM : ETIMEDOUT);
    }
    MayLose(f->c);
  }
  for (;;) {
    {
      Rt rt;
      Fd* f = Get(fd);
      if (!f)
        return Fail_(EBADF);
      Conn* k = f->c;
      Pipe& in = k->p[f->side];
      size_t want = 0;
      for (size_t i = 0; i < c; ++i)
        want += v[i].iov_len;
      if (want == 0)
        return 0;
      if (!in.rx.empty()) {
        size_t n = std::min(want, in.rx.size());
        AcquireFrom(&in.tag);
        size_t at = 0;
        for (size_t i = 0; i < c && at < n; ++i) {
          size_t m = std::min(v[i].iov_len, n - at);
          memcpy(v[i].iov_base, in.rx.data() + at, m);
          at += m;
        }
        bool full = in.Used() * 3 > k->cap * 2;
        if (!(flags & MSG_PEEK))
          in.rx.erase(0, n);
        HashEvent(0xe200 + fd + 131 * n);
        if (full && in.Used() * 3 <= k->cap * 2 && k->end[1 - f->side])
          Notify(k->end[1 - f->side], EPOLLOUT);
        else
          WakeAll(Q());
        return n;
      }
      if (k->err[f->side]) {
        int e = k->err[f->side];
        k->err[f->side] = 0;
        return Fail_(e);
      }
      if (in.fin || k->dead[f->side])
        return 0;
      if (f->nonblock || (flags & MSG_DONTWAIT))
        return Fail_(EAGAIN);
    }
    WaitOn(Q(), "recv", UINT64_MAX);
  }
}

int AcceptImpl(int fd, sockaddr* a, socklen_t* n, int flags) {
  SchedPoint(912);
  for (;;) {
    {
      Rt rt;
      Fd* f = Get(fd);
      if (!f)
        return Fail_(EBADF);
      if (f->type != kListen)
        return Fail_(EINVAL);
      if (!f->backlog.empty()) {
        if (g_fault_sockets && Fault(K_NET_ERR)) {
          ++g_accept_errors;
          static const int kErr[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};  // the connection stays
          return Fail_(kErr[Data(4)]);
        }
        if (Fault(K_EINTR))
          return Fail_(EINTR);
        ++g_accepted;
        AcquireFrom(&f->tag);
        Conn* c = f->backlog.front();
        f->backlog.pop_front();
        Fd* s = New(kStream);
        s->c = c;
        s->side = 1;
        s->v6 = f->v6;
        s->port = f->port;
        s->nonblock = (flags & SOCK_NONBLOCK) != 0;
        c->end[1] = s;
        FillAddr(s->v6, c->port[0], a, n);
        HashEvent(0xe300 + s->fd);
        return s->fd;
      }
      if (f->nonblock)
        return Fail_(EAGAIN);
    }
    WaitOn(Q(), "accept", UINT64_MAX);
  }
}

void Expire(int fd, uint64_t generation) {
  Fd* f = Get(fd);
  if (!f || f->type != kTimer || f->generation != generation)
    return;
  ++f->count;
  if (f->interval) {
    f->due += f->interval;
    At(f->due, [fd, generation] { Expire(fd, generation); });
  }
  Notify(f, EPOLLIN);
}

void CloseFd(Fd* f) {
  for (auto& e : Fds())
    if (e.second->type == kEpoll)
      e.second->regs.erase(f->fd);
  if (f->type == kStream)
    CloseEnd(f->c, f->side);
  for (auto c : f->backlog) {
    c->closed[1] = true;
    if (!c->dead[0])
      Push(c, 0, 2, nullptr, 0, false);
  }
  HashEvent(0xe400 + f->fd);
  Fds().erase(f->fd);
  delete f;
  WakeAll(Q());
}

}  // namespace

int OpenFds() { return Fds().size(); }
int Listening(int port) {
  int n = 0;
  for (auto& e : Fds())
    n += e.second->type == kListen && e.second->port == port;
  return n;
}
int Bound(int port) {
  int n = 0;
  for (auto& e : Fds())
    n += e.second->bound && e.second->port == port;
  return n;
}
int Established() {
  int n = 0;
  for (auto c : Conns())
    n += !c->closed[0] || !c->closed[1];
  return n;
}
unsigned long Faults() { return g_resets + g_accept_errors + g_errors; }
unsigned long Resets() { return g_resets; }
unsigned long AcceptErrors() { return g_accept_errors; }
unsigned long OtherErrors() { return g_errors; }
const std::vector<std::pair<int, int>>& Failed() { return Failed_(); }
unsigned long Accepted() { return g_accepted; }
void ResetAll() {
  Rt rt;
  for (auto c : Conns())
    if (!c->dead[0] && !c->dead[1] && !(c->closed[0] && c->closed[1]))
      Lose(c, ECONNRESET);
}
std::string State() {
  std::string s;
  static const char* const kTypes[] = {"socket", "listening", "stream", "eventfd", "timerfd", "epoll"};
  for (auto& e : Fds()) {
    char b[200];
    Fd* f = e.second;
    snprintf(b, sizeof b, "%d %s port %d", f->fd, kTypes[f->type], f->port);
    s += b;
    if (f->type == kStream) {
      snprintf(b, sizeof b, " rx %zu fin %d dead %d tx %zu", f->c->p[f->side].rx.size(), f->c->p[f->side].fin,
               f->c->dead[f->side], f->c->p[1 - f->side].Used());
      s += b;
    }
    s += "; ";
  }
  return s;
}

}  // namespace net

using namespace net;  // NOLINT

int SimNetClose_(int fd) {
  SchedPoint(900);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  CloseFd(f);
  return 0;
}
}  // namespace sim

using namespace sim;       // NOLINT
using namespace sim::net;  // NOLINT

// Hooks of io.cc.
extern "C" int SimNetClose(int fd) { return fd >= kBase ? SimNetClose_(fd) : 1; }
extern "C" ssize_t SimNetRead(int fd, void* b, size_t n, int* handled) {
  if (fd < kBase)
    return 0;
  *handled = 1;
  Fd* f;
  {
    Rt rt;
    f = Get(fd);
  }
  if (f && (f->type == kEvent || f->type == kTimer)) {
    SchedPoint(901);
    for (;;) {
      {
        Rt rt;
        f = Get(fd);
        if (!f)
          return Fail_(EBADF);
        if (f->count) {
          if (n < 8)
            return Fail_(EINVAL);
          AcquireFrom(&f->tag);
          memcpy(b, &f->count, 8);
          f->count = 0;
          return 8;
        }
        if (f->nonblock)
          return Fail_(EAGAIN);
      }
      WaitOn(Q(), "read", UINT64_MAX);
    }
  }
  iovec v{b, n};
  return RecvImpl(fd, &v, 1, 0);
}
extern "C" ssize_t SimNetWrite(int fd, const void* b, size_t n, int* handled) {
  if (fd < kBase)
    return 0;
  *handled = 1;
  Fd* f;
  {
    Rt rt;
    f = Get(fd);
  }
  if (f && f->type == kEvent) {
    SchedPoint(902);
    Rt rt;
    uint64_t x;
    if (n < 8)
      return Fail_(EINVAL);
    memcpy(&x, b, 8);
    ReleaseTo(&f->tag);
    f->count += x;
    Notify(f, EPOLLIN);
    return 8;
  }
  iovec v{const_cast<void*>(b), n};
  return SendImpl(fd, &v, 1, 0);
}

extern "C" {
int socket(int domain, int type, int protocol) {
  SIM_REAL(socket);
  if (!Active())
    return real(domain, type, protocol);
  SchedPoint(903);
  Rt rt;
  bool udp = (type & 0xf) == SOCK_DGRAM && g_route;
  if ((domain != AF_INET && domain != AF_INET6) || ((type & 0xf) != SOCK_STREAM && !udp))
    Fail("harness-limit", "a socket which isn't simulated");
  if (domain == AF_INET6 ? g_no_ipv6 : g_no_ipv4)
    return Fail_(EAFNOSUPPORT);
  if (Err()) {
    static const int kErr[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};
    return Fail_(kErr[Data(4)]);
  }
  Fd* f = New(udp ? kDatagram : kSocket);
  f->v6 = domain == AF_INET6;
  f->nonblock = (type & SOCK_NONBLOCK) != 0;
  return f->fd;
}
int bind(int fd, const sockaddr* a, socklen_t n) {
  SIM_REAL(bind);
  if (!Active() || fd < kBase)
    return real(fd, a, n);
  SchedPoint(904);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  bool v6;
  int port;
  if (f->type != kSocket || f->bound || !AddrPort(a, n, &v6, &port) || v6 != f->v6)
    return Fail_(EINVAL);
  if (Err())
    return Fail_(Data(2) ? EADDRINUSE : EACCES);
  if (port && PortTaken(port, v6, f))
    return Fail_(EADDRINUSE);
  f->port = port ? port : Ephemeral(v6);
  f->bound = true;
  HashEvent(0xe500 + f->port);
  return 0;
}
int listen(int fd, int backlog) __THROW {
  SIM_REAL(listen);
  if (!Active() || fd < kBase)
    return real(fd, backlog);
  SchedPoint(905);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (f->type != kSocket && f->type != kListen)
    return Fail_(EINVAL);
  if (Err())
    return Fail_(EADDRINUSE);
  if (!f->bound) {
    f->port = Ephemeral(f->v6);
    f->bound = true;
  }
  f->type = kListen;
  f->backlog_max = std::max(1, backlog);
  return 0;
}
int accept(int fd, sockaddr* a, socklen_t* n) {
  SIM_REAL(accept);
  if (!Active() || fd < kBase)
    return real(fd, a, n);
  return AcceptImpl(fd, a, n, 0);
}
int accept4(int fd, sockaddr* a, socklen_t* n, int flags) {
  SIM_REAL(accept4);
  if (!Active() || fd < kBase)
    return real(fd, a, n, flags);
  return AcceptImpl(fd, a, n, flags);
}
int connect(int fd, const sockaddr* a, socklen_t n) {
  SIM_REAL(connect);
  if (!Active() || fd < kBase)
    return real(fd, a, n);
  SchedPoint(906);
  bool v6;
  int port;
  uint64_t until;
  {
    Rt rt;
    Fd* f = Get(fd);
    if (!f)
      return Fail_(EBADF);
    if (f->type == kDatagram) {
      if (Err()) {
        static const int kErr[] = {EHOSTUNREACH, ENETUNREACH, EACCES, EINVAL};
        return Fail_(kErr[Data(4)]);
      }
      if (a->sa_family != (f->v6 ? AF_INET6 : AF_INET))
        return Fail_(EAFNOSUPPORT);
      f->local = g_route(a);
      if (f->local.empty())
        return Fail_(ENETUNREACH);
      f->port = Ephemeral(f->v6);
      return 0;
    }
    if (f->type == kStream)
      return Fail_(EISCONN);
    if (f->type != kSocket || !AddrPort(a, n, &v6, &port) || v6 != f->v6)
      return Fail_(EINVAL);
    if (f->connecting)
      return Fail_(EALREADY);
    if (Err()) {
      static const int kErr[] = {ETIMEDOUT, EHOSTUNREACH, EADDRNOTAVAIL, ENETUNREACH};
      return Fail_(kErr[Data(4)]);
    }
    until = G.now + Delay();
    if (f->nonblock) {
      f->connecting = true;
      f->connect_error = 0;
      Attempt(f->id, fd, port, until, 0);
      return Fail_(EINPROGRESS);
    }
  }
  Wait("connect", until, [] { return false; });
  for (;;) {
    {
      Rt rt;
      Fd* f = Get(fd);
      if (!f)
        return Fail_(EBADF);
      f->connect_error = 0;
      if (Join(f, port))
        return 0;
      if (f->connect_error)
        return Fail_(ECONNREFUSED);
    }
    WaitOn(Q(), "connect", UINT64_MAX);
  }
}
int getsockname(int fd, sockaddr* a, socklen_t* n) __THROW {
  SIM_REAL(getsockname);
  if (!Active() || fd < kBase)
    return real(fd, a, n);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (f->type == kDatagram && Err())
    return Fail_(Data(2) ? ENOBUFS : ENOTCONN);
  FillAddr(f->v6, f->port, a, n);
  if (f->type == kDatagram) {
    memset(f->v6 ? static_cast<void*>(&reinterpret_cast<sockaddr_in6*>(a)->sin6_addr)
                 : &reinterpret_cast<sockaddr_in*>(a)->sin_addr, 0, f->v6 ? 16 : 4);
    if (!f->local.empty())
      inet_pton(f->v6 ? AF_INET6 : AF_INET, f->local.c_str(),
                f->v6 ? static_cast<void*>(&reinterpret_cast<sockaddr_in6*>(a)->sin6_addr)
                      : &reinterpret_cast<sockaddr_in*>(a)->sin_addr);
  }
  return 0;
}
int getpeername(int fd, sockaddr* a, socklen_t* n) __THROW {
  SIM_REAL(getpeername);
  if (!Active() || fd < kBase)
    return real(fd, a, n);
  SchedPoint(907);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (f->type != kStream || f->c->dead[f->side])
    return Fail_(ENOTCONN);
  FillAddr(f->v6, f->c->port[1 - f->side], a, n);
  return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t n) __THROW {
  SIM_REAL(setsockopt);
  if (!Active() || fd < kBase)
    return real(fd, level, name, v, n);
  Rt rt;
  if (!Get(fd))
    return Fail_(EBADF);
  return 0;
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* n) __THROW {
  SIM_REAL(getsockopt);
  if (!Active() || fd < kBase)
    return real(fd, level, name, v, n);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  int r = 0;
  if (level == SOL_SOCKET && name == SO_ERROR && f->type == kStream) {
    r = f->c->err[f->side];
    f->c->err[f->side] = 0;
  } else if (level == SOL_SOCKET && name == SO_ERROR) {
    r = f->connect_error;
    f->connect_error = 0;
  } else if (level == SOL_SOCKET && name == SO_TYPE) {
    r = SOCK_STREAM;
  }
  if (*n >= sizeof r) {
    memcpy(v, &r, sizeof r);
    *n = sizeof r;
  }
  return 0;
}
int ioctl(int fd, unsigned long request, ...) __THROW {
  SIM_REAL(ioctl);
  va_list l;
  va_start(l, request);
  void* p = va_arg(l, void*);
  va_end(l);
  if (!Active() || fd < kBase)
    return real(fd, request, p);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (request == FIONBIO)
    f->nonblock = *static_cast<int*>(p) != 0;
  else if (request == FIONREAD)
    *static_cast<int*>(p) = f->type == kStream ? f->c->p[f->side].rx.size() : 0;
  else
    return Fail_(EINVAL);
  return 0;
}
static int FcntlImpl(int fd, int cmd, long arg) {
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (cmd == F_GETFL)
    return f->nonblock ? O_RDWR | O_NONBLOCK : O_RDWR;
  if (cmd == F_SETFL)
    f->nonblock = (arg & O_NONBLOCK) != 0;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list l;
  va_start(l, cmd);
  long a = va_arg(l, long);
  va_end(l);
  if (!Active() || fd < kBase)
    return syscall(SYS_fcntl, fd, cmd, a);
  return FcntlImpl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  va_list l;
  va_start(l, cmd);
  long a = va_arg(l, long);
  va_end(l);
  if (!Active() || fd < kBase)
    return syscall(SYS_fcntl, fd, cmd, a);
  return FcntlImpl(fd, cmd, a);
}
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
  SIM_REAL(sendmsg);
  if (!Active() || fd < kBase)
    return real(fd, m, flags);
  return SendImpl(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
  SIM_REAL(send);
  if (!Active() || fd < kBase)
    return real(fd, b, n, flags);
  iovec v{const_cast<void*>(b), n};
  return SendImpl(fd, &v, 1, flags);
}
ssize_t recvmsg(int fd, msghdr* m, int flags) {
  SIM_REAL(recvmsg);
  if (!Active() || fd < kBase)
    return real(fd, m, flags);
  return RecvImpl(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
  SIM_REAL(recv);
  if (!Active() || fd < kBase)
    return real(fd, b, n, flags);
  iovec v{b, n};
  return RecvImpl(fd, &v, 1, flags);
}
int shutdown(int fd, int how) __THROW {
  SIM_REAL(shutdown);
  if (!Active() || fd < kBase)
    return real(fd, how);
  SchedPoint(908);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (f->type == kListen)
    return 0;
  if (f->type != kStream || f->c->dead[f->side])
    return Fail_(ENOTCONN);
  Pipe& out = f->c->p[1 - f->side];
  if (how != SHUT_RD && !out.fin_sent) {
    out.fin_sent = true;
    Push(f->c, 1 - f->side, 1, nullptr, 0, false);
    Notify(f, EPOLLOUT | (f->c->p[f->side].fin ? EPOLLHUP : 0));
  }
  if (how != SHUT_WR) {
    f->c->p[f->side].fin = true;
    Notify(f, EPOLLIN | EPOLLRDHUP);
  }
  return 0;
}
int getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** out) {
  SIM_REAL(getaddrinfo);
  if (!Active())
    return real(host, service, hints, out);
  SchedPoint(912);
  uint64_t until;
  {
    Rt rt;
    until = G.now + Delay();
  }
  Wait("getaddrinfo", until, [] { return false; });
  Rt rt;
  if (!host || !service || !g_host || strcmp(host, g_host))
    return EAI_NONAME;
  if (Err(K_SYS)) {
    static const int kErr[] = {EAI_AGAIN, EAI_FAIL, EAI_MEMORY};
    return kErr[Data(3)];
  }
  addrinfo* head = nullptr;
  for (int i = 0; i < 2; ++i) {  // IPv6 first
    bool v6 = i == 1;
    if ((v6 ? g_no_ipv6 || !g_host_v6 : g_no_ipv4))
      continue;
    auto* a = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in6)));
    a->ai_family = v6 ? AF_INET6 : AF_INET;
    a->ai_socktype = SOCK_STREAM;
    a->ai_protocol = IPPROTO_TCP;
    a->ai_addr = reinterpret_cast<sockaddr*>(a + 1);
    a->ai_addrlen = sizeof(sockaddr_in6);
    FillAddr(v6, atoi(service), a->ai_addr, &a->ai_addrlen);
    a->ai_next = head;
    head = a;
  }
  *out = head;
  ++g_resolved;
  return head ? 0 : EAI_NONAME;
}
void freeaddrinfo(addrinfo* a) __THROW {
  SIM_REAL(freeaddrinfo);
  if (!Active())
    return real(a);
  Rt rt;
  if (a)
    --g_resolved;
  while (a) {
    addrinfo* n = a->ai_next;
    free(a);
    a = n;
  }
}
int poll(pollfd* p, nfds_t n, int timeout) {
  SIM_REAL(poll);
  bool ours = Active() && n > 0;
  for (nfds_t i = 0; i < n && ours; ++i)
    ours = p[i].fd >= kBase;
  if (!ours)
    return real(p, n, timeout);
  SchedPoint(909);
  if (g_poll_interrupted) {
    Rt rt;
    if (Err(K_SYS))
      return Fail_(EINTR);
  }
  int r = 0;
  uint64_t deadline = timeout < 0 ? UINT64_MAX : G.now + 1000000ull * timeout;
  Wait("poll", deadline, [&] {
    r = 0;
    for (nfds_t i = 0; i < n; ++i) {
      Fd* f = Get(p[i].fd);
      uint32_t e = f ? Ready(f) : 0;
      p[i].revents = f ? e & (p[i].events | POLLERR | POLLHUP) : POLLNVAL;
      r += p[i].revents != 0;
    }
    return r != 0;
  });
  return r;
}

int epoll_create1(int) __THROW {
  if (!Active())
    return syscall(SYS_epoll_create1, 0);
  Rt rt;
  if (g_fault_sockets && Fault(K_SYS)) {
    ++g_errors;
    return Fail_(EMFILE);
  }
  return New(kEpoll)->fd;
}
int epoll_create(int) __THROW { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, epoll_event* ev) __THROW {
  SIM_REAL(epoll_ctl);
  if (!Active() || ep < kBase)
    return real(ep, op, fd, ev);
  SchedPoint(913);
  Rt rt;
  Fd* e = Get(ep);
  Fd* f = Get(fd);
  if (!e || !f)
    return Fail_(EBADF);
  if (e->type != kEpoll)
    return Fail_(EINVAL);
  auto it = e->regs.find(fd);
  if (op == EPOLL_CTL_ADD) {
    if (it != e->regs.end())
      return Fail_(EEXIST);
    if (g_fault_sockets && Fault(K_SYS)) {
      ++g_errors;
      return Fail_(ENOSPC);
    }
  } else if (it == e->regs.end()) {
    return Fail_(ENOENT);
  }
  if (op == EPOLL_CTL_DEL) {
    e->regs.erase(it);
    return 0;
  }
  ReleaseTo(&f->tag);
  Reg r{ev->events, ev->data.u64, 0};
  r.pending = Ready(f) & (r.events | EPOLLERR | EPOLLHUP);
  e->regs[fd] = r;
  if (r.pending)
    WakeAll(Q());
  return 0;
}
int epoll_wait(int ep, epoll_event* ev, int max, int timeout) {
  SIM_REAL(epoll_wait);
  if (!Active() || ep < kBase)
    return real(ep, ev, max, timeout);
  SchedPoint(914);
  {
    Rt rt;
    if (!Get(ep))
      return Fail_(EBADF);
    if (Fault(K_EINTR))
      return Fail_(EINTR);
  }
  int r = 0;
  uint64_t deadline = timeout < 0 ? UINT64_MAX : G.now + 1000000ull * timeout;
  Wait("epoll_wait", deadline, [&] {
    Fd* e = Get(ep);
    if (!e)
      return true;
    std::vector<int> ready;
    for (auto& x : e->regs) {
      Fd* f = Get(x.first);
      uint32_t now = Ready(f) & (x.second.events | EPOLLERR | EPOLLHUP);
      if (!(x.second.events & EPOLLET))
        x.second.pending = now;
      if (x.second.pending && now)
        ready.push_back(x.first);
      else
        x.second.pending = 0;
    }
    if (ready.empty())
      return false;
    if (ready.size() > 1 && Choose(K_NET_SEG, 2)) {
      int one = ready[Data(ready.size())];
      ready.assign(1, one);
    }
    for (int fd : ready) {
      if (r == max)
        break;
      Reg& g = e->regs[fd];
      Fd* f = Get(fd);
      ev[r].events = Ready(f) & (g.events | EPOLLERR | EPOLLHUP);
      ev[r].data.u64 = g.data;
      ++r;
      AcquireFrom(&f->tag);
      if (g.events & EPOLLET)
        g.pending = 0;
    }
    return true;
  });
  HashEvent(0xe700 + r);
  return r;
}
int eventfd(unsigned int count, int flags) __THROW {
  if (!Active())
    return syscall(SYS_eventfd2, count, flags);
  Rt rt;
  if (g_fault_sockets && Fault(K_SYS)) {
    ++g_errors;
    return Fail_(EMFILE);
  }
  Fd* f = New(kEvent);
  f->count = count;
  f->nonblock = (flags & EFD_NONBLOCK) != 0;
  return f->fd;
}
int timerfd_create(clockid_t c, int flags) __THROW {
  if (!Active())
    return syscall(SYS_timerfd_create, c, flags);
  Rt rt;
  if (g_fault_sockets && Fault(K_SYS)) {
    ++g_errors;
    return Fail_(EMFILE);
  }
  Fd* f = New(kTimer);
  f->nonblock = (flags & TFD_NONBLOCK) != 0;
  return f->fd;
}
int timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* o) __THROW {
  SIM_REAL(timerfd_settime);
  if (!Active() || fd < kBase)
    return real(fd, flags, n, o);
  SchedPoint(915);
  Rt rt;
  Fd* f = Get(fd);
  if (!f)
    return Fail_(EBADF);
  if (o)
    memset(o, 0, sizeof *o);
  ++f->generation;
  f->count = 0;
  uint64_t v = 1000000000ull * n->it_value.tv_sec + n->it_value.tv_nsec;
  f->interval = 1000000000ull * n->it_interval.tv_sec + n->it_interval.tv_nsec;
  ReleaseTo(&f->tag);
  if (v) {
    f->due = (flags & TFD_TIMER_ABSTIME) ? v : G.now + v;
    uint64_t g = f->generation;
    if (f->due <= G.now)
      Expire(fd, g);
    else
      At(f->due, [fd, g] { Expire(fd, g); });
  }
  return 0;
}
}  // extern "C"
