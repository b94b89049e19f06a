// C12-C15: TCP connections and listeners over the simulated network.
#include "maidsafe/common/tcp/connection.h"
#include "maidsafe/common/tcp/listener.h"

#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <deque>
#include <memory>

#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"

#include "../sim/net.h"
#include "util.h"

using namespace h;  // NOLINT
namespace mt = maidsafe::tcp;
namespace net = sim::net;
using mt::Connection;
using mt::ConnectionPtr;
using mt::Message;

namespace {

const uint64_t kSec = 1000000000ull;
const size_t kMax = 1024 * 1024;

struct Sent {
  std::vector<std::string> by_thread[12];  // what each sending thread sent
  size_t next[12] = {0};
};
// One end of a connection.
struct End {
  int slot = -1, side = 0;             // side 0: the client
  ConnectionPtr c;
  std::weak_ptr<Connection> weak;
  bool made = false, started = false, usable = false, dropped = false, close_called = false;
  int closed = 0, received = 0, in_callback = 0;
  Sent sent;                           // by this end
  int cb_close_after = -1;             // close from the callback after so many messages
  bool cb_reply = false, cb_on_closed = false;
  bool replied_ = false;
};
struct Slot {
  int port = 0;                        // the client's
  End* end[2] = {nullptr, nullptr};
  bool raw = false;
  std::deque<std::string> expect;      // raw: messages which may arrive, in order
  bool bad = false;                    // raw: the stream is malformed after these
  bool complete = false, aborted = false;
  int handed = 0;
  uint64_t connected = 0;              // when connect returned
  bool used = false;
};
struct World {
  std::vector<Slot> slots;
  std::map<int, int> by_port;          // client's port -> slot
  std::vector<End*> ends;
  std::map<int, int> handed;           // client's port -> times handed over
  int handed_unknown = 0, handed_total = 0;
  bool stop_called = false, released = false;
  uint64_t stop_begin = UINT64_MAX;
  int port = 0;
  bool ends_done = false;
  bool big = false, no_start = false, cb_stop = false;
  int cb_close_after = -1;
  bool cb_reply = false, cb_on_closed = false;
  double refuse = 0;
  uint64_t garbage = 0;
  std::shared_ptr<mt::Listener>* listener = nullptr;
  std::vector<std::unique_ptr<maidsafe::AsioService>> services;
  std::vector<std::unique_ptr<asio::io_service::strand>> strands;
  bool prop14 = false;
};
World* w;

bool Lossless() { return net::Faults() == 0; }

std::string Content(int slot, int side, int thread, int seq, size_t n) {
  std::string s;
  char b[16];
  snprintf(b, sizeof b, "%c%c%c%c", 'A' + slot, 'a' + side, '0' + thread, 1 + seq);
  s = b;
  if (n > 4)
    s += Bytes(slot * 1000003 + side * 10007 + thread * 101 + seq, n - 4);
  return s;
}

void DoSend(End* e, ConnectionPtr c, int thread, size_t n) {
  std::string s;
  std::vector<unsigned char> m;
  {
    sim::NoSim ns;
    auto& v = e->sent.by_thread[thread];
    s = Content(e->slot, e->side, thread, v.size(), std::max<size_t>(4, n));
    v.push_back(s);
  }
  m.assign(s.begin(), s.end());
  try {
    c->Send(std::move(m));
  } catch (const std::exception& x) {
    sim::NoSim ns;
    sim::Fail("send-refused", Str("sending %d bytes was refused: ", static_cast<int>(s.size())) + x.what());
  }
}

// Access to what several threads use; it orders nothing but what is published.
ConnectionPtr Get(End* e) {
  sim::NoSim ns;
  sim::AcquireFrom(e);
  return e->c;
}
void Drop(End* e) {
  ConnectionPtr c;
  sim::SyncPoint("drop");
  {
    sim::NoSim ns;
    sim::AcquireFrom(e);
    c.swap(e->c);
  }
}
void Set(bool* b) {
  sim::NoSim ns;
  *b = true;
}
mt::ListenerPtr GetListener() {
  sim::NoSim ns;
  sim::AcquireFrom(w);
  return w->listener ? *w->listener : nullptr;
}
void DropListener() {
  mt::ListenerPtr l;
  {
    sim::NoSim ns;
    sim::AcquireFrom(w);
    l.swap(*w->listener);
  }
}

// Called when the message m arrives at e.
void Check(End* e, const Message& m) {
  std::string s(m.begin(), m.end());
  if (e->slot < 0) {
    if (!net::Resets() && !net::OtherErrors())
      sim::Fail("stranger", "a message arrived on a connection whose peer is unknown");
    return;
  }
  Slot& sl = w->slots[e->slot];
  if (sl.raw) {
    if (sl.expect.empty() || sl.expect.front() != s) {
      if (s.empty() && !sl.expect.empty())
        sim::Fail("wrong-message", "an empty message was handed over instead of the one which was sent");
      sim::Fail(sl.expect.empty() ? "bad-message" : "wrong-message",
                Str("%d bytes were handed over which are no message that was sent", static_cast<int>(s.size())));
    }
    sl.expect.pop_front();
    return;
  }
  End* peer = sl.end[1 - e->side];
  if (!peer)
    sim::Fail("stranger", "a message arrived before anything was sent");
  Sent& t = peer->sent;
  if (s.size() < 4 || s[2] < '0' || s[2] >= '0' + 12)
    sim::Fail("altered", Str("a message of %d bytes arrived which was not sent", static_cast<int>(s.size())));
  int th = s[2] - '0';
  if (t.next[th] >= t.by_thread[th].size())
    sim::Fail("altered", "a message arrived which was not sent, or not yet");
  const std::string& want = t.by_thread[th][t.next[th]];
  if (s != want) {
    for (size_t i = 0; i < t.by_thread[th].size(); ++i)
      if (s == t.by_thread[th][i])
        sim::Fail(i < t.next[th] ? "repeated" : "reordered",
                  Str("message %d of a thread arrived when message %d was due", static_cast<int>(i),
                      static_cast<int>(t.next[th])));
    sim::Fail("altered", Str("a message of %d bytes was altered", static_cast<int>(s.size())));
  }
  ++t.next[th];
}

void OnMessage(End* e, Message m) {
  int n;
  {
    sim::NoSim ns;
    sim::Log("connection %d.%d: message of %d bytes", e->slot, e->side, static_cast<int>(m.size()));
    if (e->closed)
      sim::Fail("message-after-close", Str("connection %d.%d handed over a message after it reported closing", e->slot, e->side));
    if (w->ends_done)
      sim::Fail("late-callback", "a message was handed over after the service had stopped");
    ++e->in_callback;
    n = ++e->received;
    Check(e, m);
  }
  sim::SyncPoint("message");
  ConnectionPtr c(e->weak.lock());
  if (c && e->cb_reply && n % 2 == 1 && e->slot >= 0 && !w->slots[e->slot].raw)
    DoSend(e, c, 11, 4 + n * 7);
  if (c && n == e->cb_close_after) {
    Set(&e->close_called);
    c->Close();
  }
  sim::NoSim ns;
  --e->in_callback;
}
void OnClosed(End* e) {
  {
    sim::NoSim ns;
    sim::Log("connection %d.%d: closed", e->slot, e->side);
    if (++e->closed > 1)
      sim::Fail("closed-twice", Str("connection %d.%d reported closing %d times", e->slot, e->side, e->closed));
    if (w->ends_done)
      sim::Fail("late-callback", "closing was reported after the service had stopped");
  }
  sim::SyncPoint("closed");
  ConnectionPtr c(e->weak.lock());
  if (c && e->cb_on_closed) {
    c->Close();
    if (e->slot >= 0 && !w->slots[e->slot].raw)
      DoSend(e, c, 10, 9);
    Drop(e);
  }
}

End* NewEnd(int slot, int side, ConnectionPtr c) {
  End* e = new End;  // on the simulated heap: touched after the end of the run, it's reported
  sim::NoSim ns;
  w->ends.push_back(e);
  e->slot = slot;
  e->side = side;
  e->c = c;
  e->weak = c;
  e->made = true;
  e->cb_reply = w->cb_reply;
  e->cb_on_closed = w->cb_on_closed;
  e->cb_close_after = w->cb_close_after;
  return e;
}
void Start(End* e) {
  ConnectionPtr c(Get(e));
  if (!c)
    return;
  Set(&e->started);
  c->Start([e](Message m) { OnMessage(e, std::move(m)); }, [e] { OnClosed(e); });
  sim::NoSim ns;
  sim::ReleaseTo(e);
  e->usable = true;
}

void OnNew(ConnectionPtr c) {
  int port = 0, slot = -1;
  std::error_code ec;
  auto r = c->Socket().remote_endpoint(ec);
  if (!ec)
    port = r.port();
  bool refuse, start;
  {
    sim::NoSim ns;
    sim::Log("handed over: port %d", port);
    if (w->released)
      sim::Fail("accepted-after-stop", "a connection was handed over after the port had been released");
    if (++w->handed_total > static_cast<int>(net::Accepted()))
      sim::Fail("handed-nothing", "more connections were handed over than were accepted");
    if (!port) {
      ++w->handed_unknown;
    } else {
      if (++w->handed[port] > 1)
        sim::Fail("handed-twice", Str("a connection was handed over %d times", w->handed[port]));
      auto it = w->by_port.find(port);
      if (it != w->by_port.end())
        slot = it->second;
    }
    refuse = w->refuse && Rng(w->garbage + w->handed_total).Chance(w->refuse);
    start = true;
  }
  sim::SyncPoint("new connection");
  if (w->cb_stop) {
    Set(&w->stop_called);
    auto l = GetListener();
    if (l)
      l->StopListening();
  }
  if (refuse)
    return;
  End* e = NewEnd(slot, 1, c);
  {
    sim::NoSim ns;
    auto it = w->by_port.find(port);
    if (port && it != w->by_port.end())  // meanwhile
      e->slot = slot = it->second;
    if (slot < 0 && port) {
      // The client doesn't know its port yet; it registers itself later.
      e->slot = -2 - port;
    } else if (slot >= 0) {
      w->slots[slot].end[1] = e;
    }
  }
  Start(e);
}
// A client's port is known now.
void Register(int slot, int port) {
  sim::NoSim ns;
  w->slots[slot].port = port;
  w->by_port[port] = slot;
  for (auto e : w->ends)
    if (e->slot == -2 - port && e->side == 1) {
      e->slot = slot;
      w->slots[slot].end[1] = e;
    }
}

// ---------------------------------------------------------------- raw peers
int RawConnect(int port, bool v6) {
  int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
  if (fd < 0)
    return -1;
  int r;
  if (v6) {
    sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    a.sin6_port = htons(port);
    r = connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  } else {
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    r = connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
  if (r) {
    close(fd);
    return -1;
  }
  return fd;
}
int LocalPort(int fd) {
  union {
    sockaddr_in6 a6;
    sockaddr_in a4;
    sockaddr a;
  } u;
  socklen_t n = sizeof u;
  if (getsockname(fd, &u.a, &n))
    return 0;
  return ntohs(u.a.sa_family == AF_INET6 ? u.a6.sin6_port : u.a4.sin_port);
}
int Occupy(int port, bool v6) {
  int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
  int r;
  if (v6) {
    sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    a.sin6_port = htons(port);
    r = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  } else {
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    r = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
  listen(fd, 5);
  return r ? -1 : fd;
}
std::string Frame(uint32_t n, const std::string& body) {
  std::string s;
  for (int i = 3; i >= 0; --i)
    s += static_cast<char>(n >> (8 * i));
  return s + body;
}

// a: slot, seed, frames, kind of malformation, kind of end
void Raw(const Op& o, bool v6) {
  int slot = static_cast<int>(o.a[0]);
  std::string stream;
  std::deque<std::string> expect;
  bool bad = false;
  {
    sim::NoSim ns;
    if (w->slots[slot].used)
      return;
    w->slots[slot].used = true;
    Rng r(o.a[1]);
    for (int i = 0; i < o.a[2]; ++i) {
      size_t n = 1 + r.Below(r.Chance(0.2) ? 3000 : 60);
      if (w->big && r.Chance(0.2))
        n = kMax - (r.Chance(0.5) ? 0 : r.Below(3));
      std::string b = Bytes(o.a[1] * 31 + i, n);
      expect.push_back(b);
      stream += Frame(n, b);
    }
    switch (o.a[3]) {
      case 1: {  // too large
        uint32_t n = Pick<uint32_t>(r, {kMax + 1, kMax + 2, 2 * kMax, 0x00200000u, 0x01000000u, 0x7fffffffu, 0x80000000u,
                                        0x80000001u, 0xfffffffeu, 0xffffffffu, 0xff000010u, 0x80000010u});
        bad = true;
        stream += Frame(n, Bytes(o.a[1], r.Below(200)));
        if (r.Chance(0.5))
          stream += Frame(5, "after");
        break;
      }
      case 2:  // cut within a message
        bad = true;
        stream += Frame(200, Bytes(o.a[1], r.Below(200)));
        break;
      case 3:  // cut within the size
        bad = true;
        stream += Frame(200, "").substr(0, 1 + r.Below(3));
        break;
      case 4: {  // anything
        std::string b = Bytes(o.a[1] * 7, 4 + r.Below(40));
        if (r.Chance(0.5))
          b[0] = b[1] = 0;
        size_t at = 0;
        while (b.size() - at >= 4) {
          uint32_t n = 0;
          for (int i = 0; i < 4; ++i)
            n = n << 8 | static_cast<unsigned char>(b[at + i]);
          if (n > kMax || b.size() - at - 4 < n)
            break;
          expect.push_back(b.substr(at + 4, n));
          at += 4 + n;
        }
        bad = true;
        stream += b;
        break;
      }
      default:
        break;
    }
    w->slots[slot].raw = true;
  }
  int fd = RawConnect(w->port, v6);
  if (fd < 0)
    return;
  {
    sim::NoSim ns;
    Slot& s = w->slots[slot];
    s.expect = expect;
    s.bad = bad;
    s.connected = sim::Seq();
  }
  Register(slot, LocalPort(fd));
  size_t at = 0;
  Rng r(o.a[1] + 5);
  bool ok = true;
  while (at < stream.size()) {
    size_t n = std::min<size_t>(stream.size() - at, r.Chance(0.5) ? 1 + r.Below(8) : 1 + r.Below(100000));
    ssize_t k = send(fd, stream.data() + at, n, MSG_NOSIGNAL);
    if (k < 0) {
      ok = false;
      break;
    }
    at += k;
    if (r.Chance(0.1))
      sim::SleepNs(1000 * r.Below(5000));
  }
  if (ok && o.a[4] == 1) {
    shutdown(fd, SHUT_WR);
    char b[16];
    while (recv(fd, b, sizeof b, 0) > 0) {
    }
  } else if (ok && o.a[4] == 2) {
    char b[16];
    if (o.a[3] == 1)  // the other end must close
      while (recv(fd, b, sizeof b, 0) > 0) {
      }
  }
  close(fd);
  sim::NoSim ns;
  w->slots[slot].complete = ok;
  sim::Log("raw peer %d: %s", slot, ok ? "all sent" : "sending failed");
}

// ---------------------------------------------------------------- operations of the program's threads
void Connect(const Op& o) {
  int slot = static_cast<int>(o.a[0]);
  {
    sim::NoSim ns;
    if (w->slots[slot].used)
      return;
    w->slots[slot].used = true;
  }
  ConnectionPtr c;
  try {
    c = Connection::MakeShared(*w->strands[1 + slot % (w->strands.size() - 1)], w->port);
  } catch (const std::exception& e) {
    sim::NoSim ns;
    sim::Log("connection %d failed: %s", slot, e.what());
    auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&e);
    if (m && m->code() != make_error_code(maidsafe::VaultManagerErrors::failed_to_connect))
      sim::Fail("wrong-error", std::string("connecting failed: ") + e.what());
    if (Lossless() && !w->stop_called)
      sim::Fail("connect-failed", std::string("connecting failed: ") + e.what());
    return;
  }
  std::error_code ec;
  int port = c->Socket().local_endpoint(ec).port();
  End* e = NewEnd(slot, 0, c);
  {
    sim::NoSim ns;
    Slot& s = w->slots[slot];
    s.connected = sim::Seq();
    s.end[0] = e;
  }
  Register(slot, port);
  c.reset();
  if (!o.a[1])
    Start(e);
}
End* EndOf(int slot, int side) {
  sim::NoSim ns;
  End* e = w->slots[slot].end[side];
  return e && e->c && e->usable ? e : nullptr;
}

void Perform(const Op& o, int thread, bool v6) {
  int slot = static_cast<int>(o.a[0]) % static_cast<int>(w->slots.size());
  int side = static_cast<int>(o.a[1]) & 1;
  if (o.verb == "conn") {
    Connect(o);
  } else if (o.verb == "raw") {
    Raw(o, v6);
  } else if (o.verb == "send") {
    End* e = EndOf(slot, side);
    if (!e)
      return;
    ConnectionPtr c(Get(e));
    for (int i = 0; c && i < o.a[3]; ++i)
      DoSend(e, c, thread, o.a[2]);
  } else if (o.verb == "bigsend") {
    End* e = EndOf(slot, side);
    if (!e)
      return;
    ConnectionPtr c(Get(e));
    if (!c)
      return;
    bool refused = false;
    try {
      c->Send(Message(o.a[2], 'x'));
    } catch (const std::exception& x) {
      refused = true;
      auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&x);
      auto want = o.a[2] ? make_error_code(maidsafe::VaultManagerErrors::ipc_message_too_large)
                         : make_error_code(maidsafe::CommonErrors::outside_of_bounds);
      sim::NoSim ns;
      if (!m || m->code() != want)
        sim::Fail("wrong-error", Str("sending %d bytes: ", static_cast<int>(o.a[2])) + x.what());
    }
    if (!refused)
      sim::Fail("not-refused", Str("a message of %d bytes was not refused", static_cast<int>(o.a[2])));
  } else if (o.verb == "close") {
    End* e = EndOf(slot, side);
    if (!e)
      return;
    ConnectionPtr c(Get(e));
    for (int i = 0; c && i < 1 + o.a[2]; ++i) {
      Set(&e->close_called);
      c->Close();
    }
  } else if (o.verb == "drop") {
    End* e = EndOf(slot, side);
    if (e)
      Drop(e);
  } else if (o.verb == "stop") {
    {
      sim::NoSim ns;
      w->stop_called = true;
    }
    auto l = GetListener();
    if (l)
      for (int i = 0; i < 1 + o.a[2]; ++i)
        l->StopListening();
  } else if (o.verb == "dropl") {
    bool stopped;
    {
      sim::NoSim ns;
      stopped = w->stop_called;
    }
    if (stopped)
      DropListener();
  } else if (o.verb == "dead") {
    bool refused = false;
    try {
      Connection::MakeShared(*w->strands[0], 3999);
    } catch (const std::exception& e) {
      refused = true;
      auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&e);
      sim::NoSim ns;
      if (!m || m->code() != make_error_code(maidsafe::VaultManagerErrors::failed_to_connect))
        sim::Fail("wrong-error", std::string("connecting to a port nobody listens on: ") + e.what());
    }
    if (!refused)
      sim::Fail("connected-to-nobody", "connecting to a port nobody listens on returned a connection");
  } else if (o.verb == "pause") {
    sim::SleepNs(o.a[0] * 1000);
  }
}

// Waits until cond holds; false if it doesn't in bounded steps.
template <class F>
bool Await(F cond) {
  uint64_t step = 1000000;
  for (int i = 0; i < 200; ++i) {
    {
      sim::NoSim ns;
      if (cond())
        return true;
    }
    sim::SleepNs(step);
    step = std::min<uint64_t>(step * 2, 100 * kSec);
  }
  return false;
}

bool Delivered(End* e) {  // everything which e sent
  for (int t = 0; t < 12; ++t)
    if (e->sent.next[t] != e->sent.by_thread[t].size())
      return false;
  return true;
}

void CheckRefused(int port, bool v6) {
  bool refused = false;
  try {
    Connection::MakeShared(*w->strands[0], port);
  } catch (const std::exception&) {
    refused = true;
  }
  if (!refused)
    sim::Fail("port-not-released", "after stopping, the listener's port still accepts connections");
}

void Run(const Program& p) {
  std::vector<Op>* ops;
  int threads = static_cast<int>(p.P("threads"));
  bool v6 = p.P("no6") == 0;
  bool listener_only = p.P("listener") != 0;
  {
    sim::NoSim ns;
    w = new World;
    ops = new std::vector<Op>(Parse(p));
    w->slots.resize(std::max<int64_t>(1, p.P("slots")));
    w->big = p.P("big") != 0;
    w->cb_close_after = static_cast<int>(p.P("cbclose", -1));
    w->cb_reply = p.P("cbreply") != 0;
    w->cb_on_closed = p.P("cbclosed") != 0;
    w->cb_stop = p.P("cbstop") != 0;
    w->refuse = p.P("refuse") / 100.0;
    w->garbage = p.P("salt");
    w->prop14 = p.P("hostile") != 0;
    net::g_capacity = p.P("capacity", 65536);
    net::g_no_ipv6 = !v6;
    net::g_fault_sockets = Faulty(p);
  }
  sim::SetFaultsEnabled(false);
  int base = sim::LiveThreads();
  size_t live0 = sim::Heap().live_blocks;
  // strand 0: the listener and what it accepts; the others: clients
  w->services.emplace_back(new maidsafe::AsioService(p.P("sthreads", 1)));
  if (!p.P("shared"))
    w->services.emplace_back(new maidsafe::AsioService(p.P("cthreads", 1)));
  w->strands.emplace_back(new asio::io_service::strand(w->services[0]->service()));
  for (int i = 0; i < p.P("cstrands", 1); ++i)
    w->strands.emplace_back(new asio::io_service::strand(w->services.back()->service()));
  int desired = 5000;
  std::vector<int> taken;
  int lowest_free = -1;
  for (int i = 0; i < 12; ++i)
    if (p.P("occupied") >> i & 1) {
      int fd = Occupy(desired + i, v6);
      if (fd >= 0)
        taken.push_back(fd);
    } else if (lowest_free < 0) {
      lowest_free = desired + i;
    }
  mt::ListenerPtr listener;
  sim::SetFaultsEnabled(true);
  std::string error;
  bool ready = false;
  try {
    listener = mt::Listener::MakeShared(*w->strands[0], OnNew, desired);
    ready = true;
  } catch (const std::exception& e) {
    sim::NoSim ns;
    error = e.what();
    auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&e);
    if (!m || m->code() != make_error_code(maidsafe::VaultManagerErrors::failed_to_listen))
      sim::Fail("wrong-error", "listening failed: " + error);
    if (Lossless() && lowest_free >= 0 && lowest_free <= desired + 10)
      sim::Fail("not-listening", "listening failed although ports are free: " + error);
    sim::Probe("could not listen");
  }
  if (ready) {
    int port = listener->ListeningPort();
    sim::NoSim ns;
    w->port = port;
    w->listener = new mt::ListenerPtr(listener);
    sim::ReleaseTo(w);
    if (!net::Listening(port))
      sim::Fail("wrong-port", Str("the listener says that it listens on port %d, where nobody does", port));
    if (p.P("occupied") >> (port - desired) & 1 || port < desired || port > desired + 11)
      sim::Fail("wrong-port", Str("the listener listens on port %d", port));
    if (Lossless() && lowest_free >= 0 && port != lowest_free)
      sim::Fail("wrong-port", Str("the listener listens on port %d instead of %d, which was free", port, lowest_free));
    if (port != desired)
      sim::Probe("listening on another port");
  }
  listener.reset();
  if (ready) {
    std::vector<std::thread> ts;
    for (int t = 1; t <= threads; ++t)
      ts.emplace_back([&, t] {
        for (auto& o : *ops)
          if (o.thread == t)
            Perform(o, t, v6);
      });
    for (auto& t : ts)
      t.join();
  }
  sim::SetFaultsEnabled(false);
  // Everything which was sent arrives, as long as nothing failed and nobody closed.
  auto undisturbed = [&](Slot& s) {
    return Lossless() && s.end[0] && s.end[1] && s.end[0]->started && !s.end[0]->close_called && !s.end[1]->close_called;
  };
  auto all_handed = [&] {
    if (w->stop_called || !ready)
      return true;
    int n = 0;
    for (auto& s : w->slots)
      if (s.connected)
        ++n;
    return w->handed_total >= n;
  };
  if (ready) {
    if (!Await(all_handed) && !net::Resets() && !net::OtherErrors())
      sim::Fail("not-accepted", "a connection was never handed over although the listener listens");
    if (w->refuse == 0 && !Await([&] {
          for (auto& s : w->slots)
            if (!s.raw && undisturbed(s) && !(Delivered(s.end[0]) && Delivered(s.end[1])))
              return false;
          return true;
        })) {
      sim::NoSim ns;
      std::string d;
      for (auto& s : w->slots)
        for (int i = 0; i < 2; ++i)
          if (!s.raw && s.end[i])
            for (int t = 0; t < 12; ++t)
              if (s.end[i]->sent.next[t] != s.end[i]->sent.by_thread[t].size())
                d += Str("connection %d.%d: %d of %d messages of thread %d; ", static_cast<int>(&s - &w->slots[0]), i,
                         static_cast<int>(s.end[i]->sent.next[t]), static_cast<int>(s.end[i]->sent.by_thread[t].size()), t);
      sim::Fail("lost-message", "messages never arrived: " + d + net::State());
    }
    for (auto& s : w->slots) {
      if (!s.raw)
        continue;
      // What was sent correctly arrives, and the connection ends.
      if (s.complete && Lossless() && !w->stop_called && w->cb_close_after < 0 && w->refuse == 0) {
        if (!Await([&] { return s.expect.empty(); })) {
          sim::NoSim ns;
          sim::Fail("lost-message", Str("%d correctly framed messages were not handed over", static_cast<int>(s.expect.size())));
        }
      }
      if (!Await([&] { return !s.end[1] || !s.end[1]->started || s.end[1]->closed; }))
        sim::Fail("not-closed", "a connection was not closed although its peer is gone or sent garbage");
    }
    if (sim::Heap().max_request > 3 * kMax)
      sim::Fail("huge-allocation", Str("%llu bytes were allocated at once",
                                       static_cast<unsigned long long>(sim::Heap().max_request)));
    sim::NoSim ns;
    for (auto& s : w->slots)
      if (!s.raw && undisturbed(s) && w->refuse == 0 && (s.end[0]->closed || s.end[1]->closed))
        sim::Fail("closed-by-itself", "a connection was closed although nothing failed and nobody closed it");
  }
  // A connection whose network failed closes by itself.
  if (!Await([&] {
        for (auto& f : net::Failed())
          for (auto& s : w->slots)
            for (int k = 0; k < 2; ++k)
              if (s.port && s.port == (k ? f.second : f.first) && s.end[k] && s.end[k]->started && !s.end[k]->closed)
                return false;
        return true;
      }))
    sim::Fail("not-closed", "a connection on which sending or receiving failed never reported closing");
  // The listener stops and releases its port.
  if (ready) {
    Set(&w->stop_called);
    listener = GetListener();
    DropListener();
    if (listener)
      listener->StopListening();
    listener.reset();
    if (!Await([&] { return net::Bound(w->port) == 0; }))
      sim::Fail("port-not-released", "the listener's port was not released");
    w->released = true;
    CheckRefused(w->port, v6);
  }
  for (size_t i = 0; i < w->slots.size(); ++i) {
    Slot& s = w->slots[i];
    int side = static_cast<int>(w->garbage >> i) & 1;
    if (s.raw)
      continue;
    for (int k = 0; k < 2; ++k) {
      End* e;
      {
        sim::NoSim ns;
        e = s.end[k ? 1 - side : side];
      }
      // Closing one end is enough, if the other one notices.
      bool now;
      {
        sim::NoSim ns;
        now = e && (k == 0 || !s.end[side] || !s.end[side]->started);
      }
      if (now) {
        ConnectionPtr c(e->weak.lock());
        if (c) {
          Set(&e->close_called);
          c->Close();
        }
      }
    }
  }
  std::vector<End*> ends;
  {
    sim::NoSim ns;
    ends = w->ends;
  }
  for (auto e : ends) {  // whose other end isn't there
    bool now;
    {
      sim::NoSim ns;
      now = e->slot < 0 || (!w->slots[e->slot].raw && !w->slots[e->slot].end[1 - e->side]);
    }
    if (now) {
      ConnectionPtr c(e->weak.lock());
      if (c)
        c->Close();
    }
  }
  if (!Await([&] {
        for (auto e : w->ends)
          if (e->started && !e->closed)
            return false;
        return true;
      })) {
    sim::NoSim ns;
    std::string d;
    for (auto e : w->ends)
      if (e->started && !e->closed)
        d += Str("connection %d.%d ", e->slot, e->side);
    sim::Fail("not-closed", "closing was never reported by " + d);
  }
  for (auto e : ends)
    Drop(e);
  for (auto& s : w->services)
    s->Stop();
  if (sim::LiveThreads() != base)
    sim::Fail("thread-left", "service threads are left after the stop");
  w->ends_done = true;
  for (auto e : w->ends)
    if (!e->weak.expired())
      sim::Fail("leak", "a connection still exists after everything was stopped");
  w->strands.clear();
  w->services.clear();
  for (int fd : taken)
    close(fd);
  if (net::OpenFds())
    sim::Fail("leak", "descriptors are left: " + net::State());
  for (auto e : w->ends)
    delete e;
  (void)live0;
}

void Common(Rng& r, Program& p, Config& c) {
  p.params["shared"] = r.Chance(0.3);
  p.params["sthreads"] = 1 + r.Below(3);
  p.params["cthreads"] = 1 + r.Below(3);
  p.params["cstrands"] = 1 + r.Below(2);
  p.params["salt"] = r.Below(1 << 20);
  p.params["no6"] = r.Chance(0.1);
  p.params["capacity"] = Pick<int64_t>(r, {1, 7, 64, 600, 4096, 65536, 200000});
  c.prob[sim::K_NET_SEG] = Pick<double>(r, {0, 0.1, 0.5, 0.9});
  c.prob[sim::K_NET_DELAY] = Pick<double>(r, {0, 0.2, 0.8});
  c.prob[sim::K_NET_STALL] = Pick<double>(r, {0, 0, 0.02});
  if (r.Chance(0.2))
    c.prob[sim::K_EINTR] = 0.03;
  c.max_steps = 6000000;
}
int64_t Size(Rng& r, const Program& p) {
  int64_t cap = p.P("capacity");
  if (p.P("many"))
    return r.Below(60);
  if (cap < 600)
    return r.Below(40);
  if (cap >= 65536 && r.Chance(0.05))
    return r.Chance(0.5) ? kMax - r.Below(3) : r.Below(kMax);
  if (cap >= 4096 && r.Chance(0.06))  // about a power of two
    return std::max<int64_t>(1, std::min<int64_t>(kMax, (int64_t{1} << r.Range(8, cap >= 65536 ? 17 : 13)) * r.Range(1, 3) + r.Range(-4, 4)));
  return r.Chance(0.3) ? r.Below(8000) : r.Below(100);
}
void Sends(Rng& r, Program& p, int threads, int slots, int n, double close) {
  for (int i = 0; i < n; ++i) {
    int t = 1 + r.Below(threads);
    int64_t slot = r.Below(slots), side = r.Below(2);
    double u = r.Unit();
    if (u < close)
      p.ops.push_back(Line(t, "close", {slot, side, static_cast<int64_t>(r.Below(2))}));
    else if (u < close * 1.3)
      p.ops.push_back(Line(t, "drop", {slot, side}));
    else if (u > 0.93)
      p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(20000))}));
    else if (u > 0.9)
      p.ops.push_back(Line(t, "bigsend", {slot, side, r.Chance(0.3) ? 0 : static_cast<int64_t>(kMax + 1 + r.Below(3))}));
    else
      p.ops.push_back(Line(t, "send", {slot, side, Size(r, p), 1 + static_cast<int64_t>(r.Below(4))}));
  }
}
void Faults(Rng& r, Program& p, Config& c, double p_faults) {
  p.params["faults"] = r.Chance(p_faults);
  if (Faulty(p)) {
    c.prob[sim::K_NET_RESET] = Pick<double>(r, {0, 0.005, 0.03});
    c.prob[sim::K_NET_ERR] = Pick<double>(r, {0, 0.003, 0.02});
  }
}
void Conns(Rng& r, Program& p, int threads, int slots) {
  for (int s = 0; s < slots; ++s) {
    int t = 1 + r.Below(threads);
    p.ops.push_back(Line(t, "conn", {s}));
  }
  for (int t = 1; t <= threads; ++t)
    p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(3000))}));
}

void Gen12(Rng& r, Program& p, Config& c) {
  Common(r, p, c);
  int threads = 1 + r.Below(4), slots = 1 + r.Below(3);
  p.params["threads"] = threads;
  p.params["slots"] = slots;
  p.params["cbreply"] = r.Chance(0.3);
  Conns(r, p, threads, slots);
  bool many = r.Chance(0.02);
  if (many) {
    p.params["many"] = 1;
    p.params["capacity"] = std::max<int64_t>(64, p.P("capacity"));
  }
  Sends(r, p, threads, slots, many ? 40 + r.Below(120) : 3 + r.Below(12), r.Chance(0.4) ? 0.15 : 0);
  if (r.Chance(0.1))
    p.params["cbclose"] = 1 + r.Below(3);
  Faults(r, p, c, 0.3);
}
void Gen13(Rng& r, Program& p, Config& c) {
  Common(r, p, c);
  int threads = 1 + r.Below(4), slots = 1 + r.Below(3);
  p.params["threads"] = threads;
  p.params["slots"] = slots;
  p.params["cbreply"] = r.Chance(0.2);
  p.params["cbclosed"] = r.Chance(0.4);
  p.params["refuse"] = r.Chance(0.1) ? 40 : 0;
  if (r.Chance(0.3))
    p.params["cbclose"] = 1 + r.Below(3);
  Conns(r, p, threads, slots);
  Sends(r, p, threads, slots, 2 + r.Below(10), 0.4);
  if (r.Chance(0.2))
    p.ops.push_back(Line(1 + r.Below(threads), "dead"));
  Faults(r, p, c, 0.4);
}
void Gen14(Rng& r, Program& p, Config& c) {
  Common(r, p, c);
  int threads = 2 + r.Below(3), slots = 2 + r.Below(3);
  p.params["threads"] = threads;
  p.params["slots"] = slots;
  p.params["hostile"] = 1;
  p.params["big"] = p.P("capacity") >= 65536 && r.Chance(0.3);
  p.ops.push_back(Line(1, "conn", {0}));
  for (int s = 1; s < slots; ++s)
    p.ops.push_back(Line(1 + r.Below(threads), "raw", {s, static_cast<int64_t>(r.Below(1 << 20)),
                                                       static_cast<int64_t>(r.Below(4)), static_cast<int64_t>(r.Below(5)),
                                                       static_cast<int64_t>(r.Below(3))}));
  p.ops.push_back(Line(1, "pause", {static_cast<int64_t>(r.Below(3000))}));
  Sends(r, p, 1, 1, 1 + r.Below(5), 0);
  Faults(r, p, c, 0.2);
}
void Gen15(Rng& r, Program& p, Config& c) {
  Common(r, p, c);
  p.params["listener"] = 1;
  int threads = 1 + r.Below(4), slots = 1 + r.Below(6);
  p.params["threads"] = threads;
  p.params["slots"] = slots;
  if (r.Chance(0.4))
    p.params["occupied"] = r.Chance(0.3) ? 0xfff : r.Chance(0.4) ? 0x7ff : r.Below(0x1000);
  p.params["cbstop"] = r.Chance(0.1);
  p.params["refuse"] = r.Chance(0.2) ? 50 : 0;
  bool stop = r.Chance(0.5);
  for (int s = 0; s < slots; ++s)
    p.ops.push_back(Line(1 + r.Below(threads), "conn", {s}));
  int n = stop ? 1 + r.Below(4) : 0;
  for (int i = 0; i < n; ++i) {
    size_t at = r.Below(p.ops.size() + 1);
    int t = 1 + r.Below(threads);
    p.ops.insert(p.ops.begin() + at, Line(t, r.Chance(0.3) ? "dropl" : "stop", {0, 0, static_cast<int64_t>(r.Below(2))}));
  }
  for (int i = 0; i < 2; ++i)
    p.ops.insert(p.ops.begin() + r.Below(p.ops.size() + 1),
                 Line(1 + r.Below(threads), "pause", {static_cast<int64_t>(r.Below(3000))}));
  if (r.Chance(0.2)) {  // the last references go while stopping goes on
    int t = 1 + r.Below(threads);
    p.ops.push_back(Line(t, "stop", {0, 0, static_cast<int64_t>(r.Below(2))}));
    p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(3000))}));
    p.ops.push_back(Line(t, "stop", {0, 0, static_cast<int64_t>(r.Below(2))}));
    p.ops.push_back(Line(t, "dropl"));
  }
  p.params["faults"] = r.Chance(0.5);
  if (Faulty(p))
    c.prob[sim::K_NET_ERR] = Pick<double>(r, {0.01, 0.1});
}

const std::vector<std::string> kReal = {"tcp/connection.cc", "tcp/listener.cc", "asio_service.h",
                                        "asio 1.28 (sockets, strands, reactor, composed reads and writes)"};
const std::vector<std::string> kStub = {"the kernel's TCP, epoll, eventfd and timerfd: simulated",
                                        "threads, mutexes, condition variables, clocks: simulated"};
sim::Registrar r12({"C12", Gen12, Run, "a run of sending over some connections; non-trivial: threads alternate",
                    kReal, kStub, 8000, 200000});
sim::Registrar r13({"C13", Gen13, Run, "a run of sending, closing and dropping connections; non-trivial: threads alternate",
                    kReal, kStub, 20000, 600000});
sim::Registrar r14({"C14", Gen14, Run,
                    "a run of peers which send correct and malformed streams next to a correct connection; non-trivial: "
                    "threads alternate",
                    kReal, kStub, 8000, 200000});
sim::Registrar r15({"C15", Gen15, Run, "a run of clients which connect while the listener is stopped; non-trivial: "
                    "threads alternate",
                    kReal, kStub, 40000, 1000000});

}  // namespace
