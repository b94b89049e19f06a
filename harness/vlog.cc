// C34: messages for the log server and the visualiser's log file, on a simulated network.
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include <iostream>
#include <memory>

#include "maidsafe/common/error.h"
#include "maidsafe/common/log.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"

#include "../sim/io.h"
#include "../sim/net.h"
#include "../sim/sys.h"
#include "util.h"

namespace maidsafe {
DEFINE_OSTREAMABLE_ENUM_VALUES(VPersona, int32_t, (MaidNode)(DataGetter)(CacheHandler))
DEFINE_OSTREAMABLE_ENUM_VALUES(VAction, uint64_t, (Put)(Get)(Transfer)(Increment)(Decrement))
}  // namespace maidsafe

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;
namespace lg = maidsafe::log;
using lg::Logging;
using maidsafe::VAction;
using maidsafe::VPersona;
typedef lg::VisualiserLogMessage V;

const int kPort = 8080;
const char* const kHost = "visualiser.example.net";
const char* const kDir = "/testlog";

enum { kHealthy, kStatus, kCloseAfter, kResetMid, kSilent, kGarbage, kCut, kUnframed, kChunked, kBehaviours };

void Gen(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  p.params["sync"] = r.Chance(0.3);
  p.params["abrupt"] = r.Chance(0.3);
  p.params["late"] = r.Chance(0.15) ? r.Range(1, 5000) : 0;  // ms until the server listens
  p.params["nosession"] = r.Chance(0.05);
  p.params["inits"] = r.Chance(0.25) ? r.Range(1, threads) : 0;
  p.params["v6"] = r.Chance(0.4);
  p.params["capacity"] = Pick<int64_t>(r, {40, 300, 2000, 60000});
  p.params["faults"] = r.Chance(0.5);
  double bad = r.Chance(0.4) ? 0 : Pick(r, {0.3, 0.8});
  for (int i = 0; i < 6; ++i)
    p.params[Str("beh%d", i)] = r.Chance(bad) ? r.Range(1, kBehaviours - 1) : r.Chance(0.4) ? kStatus : kHealthy;
  for (int i = 0; i < 6; ++i)
    p.params[Str("n%d", i)] = r.Range(0, 3);  // requests until it misbehaves
  int n = static_cast<int>(r.Range(1, 12));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    if (r.Chance(0.85))
      p.ops.push_back(Line(t, "vlog", {static_cast<int64_t>(r.Below(12)), r.Range(0, 2), r.Range(0, 4), static_cast<int64_t>(r.Below(5))}));
    else
      p.ops.push_back(Line(t, "sleep", {r.Range(1, 2000000000)}));
  }
  if (p.P("faults")) {
    double q = Pick(r, {0.01, 0.05, 0.2});
    c.prob[sim::K_NET_ERR] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_NET_RESET] = r.Chance(0.5) ? q / 2 : 0;
    c.prob[sim::K_SYS] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_NET_STALL] = r.Chance(0.2) ? 0.05 : 0;
    c.prob[sim::K_IO_OPEN] = r.Chance(0.1) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.2) ? q : 0;
  }
  c.prob[sim::K_NET_SEG] = Pick(r, {0.0, 0.05, 0.3});
  c.prob[sim::K_NET_DELAY] = Pick(r, {0.0, 0.1});
  c.max_steps = 1000000;
}

struct Msg {
  bool valid = false, stopped = false;
  int thread = 0;
  uint64_t t0 = 0, t1 = 0;  // wall clock
  uint64_t s0 = 0, s1 = 0;  // order of events
  std::map<std::string, std::string> body;
  std::string line;         // of the file, after the time
  int received = 0;
  uint64_t at = 0;          // when the server had it
};
struct W {
  std::vector<Msg> m;
  bool stop = false, calm = false;
  bool listening = false;
  int breaks = 0;           // connections which the server ended or left alone
  bool odd = false;         // answers for which the warnings are not predicted
  std::vector<int> codes;   // other than 200, in order
  std::vector<int> order;   // messages as received
  bool initialised = false;
  std::string prefix, session;
};
W* w;

std::string Hex(const std::string& s) {
  std::string o;
  for (unsigned char c : s)
    o += Str("%02x", c);
  return o;
}
std::string Short(const std::string& h) { return h.size() > 14 ? h.substr(0, 6) + ".." + h.substr(h.size() - 6) : h; }

// A flat object of strings.
bool Json(const std::string& s, std::map<std::string, std::string>* out) {
  size_t i = 0;
  auto space = [&] {
    while (i < s.size() && isspace(static_cast<unsigned char>(s[i])))
      ++i;
  };
  auto str = [&](std::string* o) {
    space();
    if (i >= s.size() || s[i++] != '"')
      return false;
    while (i < s.size() && s[i] != '"') {
      if (static_cast<unsigned char>(s[i]) < 32)
        return false;
      if (s[i] != '\\') {
        *o += s[i++];
        continue;
      }
      if (++i >= s.size())
        return false;
      switch (s[i++]) {
        case 'n': *o += '\n'; break;
        case 't': *o += '\t'; break;
        case 'r': *o += '\r'; break;
        case 'b': *o += '\b'; break;
        case 'f': *o += '\f'; break;
        case 'u': {
          if (i + 4 > s.size())
            return false;
          int v = static_cast<int>(strtol(s.substr(i, 4).c_str(), nullptr, 16));
          if (v > 127)
            return false;
          *o += static_cast<char>(v);
          i += 4;
          break;
        }
        default: *o += s[i - 1];
      }
    }
    return i < s.size() && s[i++] == '"';
  };
  space();
  if (i >= s.size() || s[i++] != '{')
    return false;
  for (;;) {
    std::string k, v;
    if (!str(&k))
      return false;
    space();
    if (i >= s.size() || s[i++] != ':' || !str(&v) || out->count(k))
      return false;
    (*out)[k] = v;
    space();
    if (i < s.size() && s[i] == ',') {
      ++i;
      continue;
    }
    break;
  }
  if (i >= s.size() || s[i++] != '}')
    return false;
  space();
  return i == s.size();
}
std::string Unquote(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else {
      o += s[i] == '+' ? ' ' : s[i];
    }
  return o;
}
bool Form(const std::string& s, std::map<std::string, std::string>* out) {
  size_t i = 0;
  while (i <= s.size()) {
    size_t e = std::min(s.find('&', i), s.size());
    std::string f = s.substr(i, e - i);
    size_t q = f.find('=');
    if (q == std::string::npos || out->count(f.substr(0, q)))
      return false;
    (*out)[f.substr(0, q)] = Unquote(f.substr(q + 1));
    i = e + 1;
  }
  return true;
}
// The time of a message, and that it's the one it was logged at.
bool TimeOk(const std::string& s, const Msg& m) {
  int y, mo, d, hh, mi, ss, len = 0, at = 0;
  long sub;
  if (sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%n%ld%n", &y, &mo, &d, &hh, &mi, &ss, &at, &sub, &len) != 7 ||
      len != static_cast<int>(s.size()) || len - at > 9)
    return false;
  for (int i = len - at; i < 9; ++i)
    sub *= 10;
  tm x;
  memset(&x, 0, sizeof x);
  x.tm_year = y - 1900, x.tm_mon = mo - 1, x.tm_mday = d;
  x.tm_hour = hh, x.tm_min = mi, x.tm_sec = ss;
  uint64_t unit = 1;
  for (int i = len - at; i < 9; ++i)
    unit *= 10;
  uint64_t t = static_cast<uint64_t>(timegm(&x)) * 1000000000ull + sub;
  return t + unit > m.t0 && t <= m.t1;
}

// ---------------------------------------------------------------- the server
void Received(const std::string& body, bool form) {
  sim::NoSim ns;
  std::map<std::string, std::string> f;
  if (!(form ? Form(body, &f) : Json(body, &f)))
    sim::Fail("bad-request", "the server received a body which isn't well-formed: " + body.substr(0, 300));
  std::string ts = f["ts"];
  f.erase("ts");
  for (size_t i = 0; i < w->m.size(); ++i) {
    Msg& m = w->m[i];
    if (!m.valid || m.body != f)
      continue;
    if (!TimeOk(ts, m))
      sim::Fail("wrong-time", "the server received the time '" + ts + "', at which the message was not logged");
    if (++m.received > 1)
      sim::Fail("duplicate-message", Str("the server received message %zu twice", i));
    m.at = sim::Seq();
    w->order.push_back(static_cast<int>(i));
    sim::Log("server has message %zu", i);
    return;
  }
  sim::Fail("unknown-message", "the server received what was not logged: " + body.substr(0, 300));
}

struct Peer {
  int fd;
  std::string got;
  bool Fill() {
    char b[4096];
    ssize_t n = recv(fd, b, 1 + sim::Data(sizeof b), 0);
    if (n <= 0)
      return false;
    sim::NoSim ns;
    got.append(b, n);
    return true;
  }
  // The next request's body; false if the client is gone.
  bool Request(std::string* body, bool* form) {
    for (;;) {
      {
        sim::NoSim ns;
        while (got.size() >= 2 && got.substr(0, 2) == "\r\n")
          got.erase(0, 2);
        size_t e = got.find("\r\n\r\n");
        static const std::string kStart = Str("POST %s HTTP/1.1\r\n", kDir);
        if (got.compare(0, std::min(got.size(), kStart.size()), kStart, 0, std::min(got.size(), kStart.size())) &&
            got != "\r")
          sim::Fail("bad-request", "the server received: " + got.substr(0, 200));
        if (e != std::string::npos) {
          size_t length = std::string::npos;
          bool host = false, type = false;
          for (size_t i = kStart.size(); i < e + 2;) {
            size_t l = got.find("\r\n", i);
            std::string line = got.substr(i, l - i);
            i = l + 2;
            size_t q = line.find(':');
            if (q == std::string::npos)
              sim::Fail("bad-request", "the server received the header line: " + line);
            std::string name = line.substr(0, q), value = line.substr(q + 1);
            for (auto& c : name)
              c = static_cast<char>(tolower(c));
            while (!value.empty() && value[0] == ' ')
              value.erase(0, 1);
            if (name == "host")
              host = value == Str("%s:%d", kHost, kPort);
            else if (name == "content-type")
              type = value == "application/json";
            else if (name == "content-length")
              length = strtoul(value.c_str(), nullptr, 10);
          }
          if (!host || !type || length == std::string::npos)
            sim::Fail("bad-request", "headers are wrong or missing: " + got.substr(0, e));
          if (got.size() - e - 4 >= length) {
            *body = got.substr(e + 4, length);
            *form = body->compare(0, 3, "ts=") == 0;
            got.erase(0, e + 4 + length);
            return true;
          }
        }
      }
      if (!Fill())
        return false;
    }
  }
  bool Send(const std::string& s, Rng& r) {
    size_t at = 0;
    while (at < s.size()) {
      size_t n = r.Chance(0.3) ? s.size() - at : 1 + r.Below(s.size() - at);
      while (n) {
        ssize_t k = send(fd, s.data() + at, n, MSG_NOSIGNAL);
        if (k < 0)
          return false;
        at += k;
        n -= k;
      }
      if (r.Chance(0.4))
        sim::SleepNs(1000 * (1 + r.Below(100000)));
    }
    return true;
  }
};

std::string Response(Rng& r, int code, int kind) {
  static const std::map<int, std::string> kText{{200, "OK"}, {404, "Not Found"}, {500, "Internal Server Error"},
                                                {503, "Service Unavailable"}, {400, "Bad Request"}};
  std::string body = Bytes(r.Below(1000), r.Chance(0.3) ? 0 : r.Chance(0.3) ? r.Below(3000) : r.Below(150));
  if (r.Chance(0.5))
    for (auto& c : body)
      c = " \r\n:HTTP/1 2004"[static_cast<unsigned char>(c) % 15];
  std::string s = Str("HTTP/1.1 %d %s\r\n", code, kText.at(code).c_str());
  std::vector<std::string> headers;
  for (size_t i = r.Below(4); i > 0; --i)
    headers.push_back(Str("X-Filler-%zu: %s", i, std::string(r.Below(120), 'x').c_str()));
  if (kind == kChunked)
    headers.push_back("Transfer-Encoding: chunked");
  else if (kind != kUnframed)
    headers.push_back(Str(r.Chance(0.5) ? "Content-Length: %zu" : r.Chance(0.5) ? "content-length:%zu" : "Content-Length:  %zu ", body.size()));
  for (size_t i = headers.size(); i > 1; --i)
    std::swap(headers[i - 1], headers[r.Below(i)]);
  for (auto& l : headers)
    s += l + "\r\n";
  s += "\r\n";
  if (kind == kChunked) {
    if (!body.empty())
      s += Str("%zx\r\n", body.size()) + body + "\r\n";
    s += "0\r\n\r\n";
  } else {
    s += body;
  }
  return s;
}

int Listen(bool v6) {
  int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
  int r;
  if (v6) {
    sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_any;
    a.sin6_port = htons(kPort);
    r = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  } else {
    sockaddr_in a = {};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = INADDR_ANY;
    a.sin_port = htons(kPort);
    r = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
  if (r || listen(fd, 8)) {
    if (fd >= 0)
      close(fd);
    return -1;
  }
  return fd;
}

void Serve(const Program& p) {
  if (p.P("late"))
    sim::SleepNs(1000000ull * p.P("late"));
  int l;
  while ((l = Listen(p.P("v6") != 0 && !sim::Data(2))) < 0)
    sim::SleepNs(1000000);
  w->listening = true;
  for (int i = 0; !w->stop; ++i) {
    Peer peer;
    peer.fd = accept(l, nullptr, nullptr);
    if (peer.fd < 0) {
      if (!w->stop)
        sim::SleepNs(1000000);
      continue;
    }
    if (w->stop) {
      close(peer.fd);
      break;
    }
    int kind = w->calm || i >= 6 ? kHealthy : static_cast<int>(p.P(Str("beh%d", i)));
    int n = static_cast<int>(p.P(Str("n%d", i % 6)));
    Rng r(sim::Mix(p.P("n0") + 7 * i, 1 + i));
    sim::Log("server accepts connection %d, kind %d, %d requests", i, kind, n);
    if (kind != kHealthy && kind != kStatus) {
      ++w->breaks;
      w->odd = true;
    }
    std::string body;
    bool form;
    for (int k = 0;; ++k) {
      if (kind == kResetMid && k == n) {
        peer.Fill();  // a part of it
        break;
      }
      if (!peer.Request(&body, &form))
        break;
      Received(body, form);
      if (kind == kSilent && k == n) {
        sim::Probe("server doesn't answer");
        while (peer.Fill()) {
        }
        break;
      }
      if (w->calm && kind != kHealthy && kind != kStatus && kind != kChunked && kind != kUnframed)
        break;
      int code = kind == kStatus && r.Chance(0.5) ? Pick<int>(r, {404, 500, 503, 400}) : 200;
      bool odd = (kind == kUnframed || kind == kChunked) && k >= n;
      std::string s;
      {
        sim::NoSim ns;
        if (code != 200)
          w->codes.push_back(code);
        s = Response(r, code, odd ? kind : kHealthy);
        if (kind == kGarbage && k == n)
          s = Bytes(k, 1 + r.Below(400));
        if (kind == kCut && k == n)
          s.resize(r.Below(s.size()));
      }
      sim::Log("server answers %d with %zu bytes", code, s.size());
      if (!peer.Send(s, r))
        break;
      if (k >= n && (kind == kCloseAfter || kind == kCut || kind == kGarbage || kind == kUnframed))
        break;
    }
    close(peer.fd);
  }
  close(l);
}

// ---------------------------------------------------------------- the program
void Vlog(Msg& m, int id, const Op& o, int thread) {
  std::string one, two, text;
  maidsafe::Identity i1, i2;
  int64_t number = 0;
  int kind = static_cast<int>(o.a[0]);
  VPersona persona = static_cast<VPersona>(o.a[1]);
  VAction action = static_cast<VAction>(o.a[2]);
  static const char* const kP[] = {"MaidNode", "DataGetter", "CacheHandler"};
  static const char* const kA[] = {"Put", "Get", "Transfer", "Increment", "Decrement"};
  bool bad = false;
  {
    sim::NoSim ns;
    m.thread = thread;
    one = Bytes(id * 2 + 1, 64);
    two = Bytes(id * 2 + 2, 64);
    number = (o.a[3] % 2 ? -1 : 1) * (int64_t(id) + 1 + o.a[3] * 1000003);
    static const char* const kForm[] = {"plain%d", "\"quoted\\%d\"", "two\nlines\t%d", "{%d}, a:b&c=d+%%", "\x01%d"};
    text = Str(kForm[o.a[3]], id);
  }
  if (kind != 9) {
    i1 = maidsafe::Identity(one);
    i2 = maidsafe::Identity(two);
  }
  {
    sim::NoSim ns;
    auto& b = m.body;
    b["vaultId"] = w->prefix;
    b["sessionId"] = w->session;
    b["actionId"] = std::to_string(o.a[2]);
    std::string p, v1, v2;
    if (kind < 3) {
      b["personaId"] = std::to_string(o.a[1]);
      p = std::string(kP[o.a[1]]) + ",";
    }
    switch (kind) {
      case 0: case 3: b["valueOne"] = Hex(one); b["valueTwo"] = Hex(two); break;
      case 1: case 4: b["valueOne"] = Hex(one); break;
      case 2: case 5: b["valueOne"] = std::to_string(number); break;
      case 6: b["valueOne"] = text; break;
      case 7: b["valueOne"] = Hex(one); b["valueTwo"] = text; break;
      case 8: b["actionId"] = "18"; b["valueOne"] = std::to_string(number); m.stopped = true; break;
      default: bad = true;
    }
    if (b.count("valueTwo"))
      v2 = "," + (kind == 7 ? text : Short(b["valueTwo"]));
    v1 = kind < 2 || kind == 3 || kind == 4 || kind == 7 ? Short(b["valueOne"]) : b["valueOne"];
    m.line = "," + w->prefix + "," + w->session + "," + p + kA[o.a[2]] + "," + v1 + v2 + "\n";
    m.s0 = sim::Seq();
    m.t0 = sim::WallNs();
    m.t1 = ~0ull;
    m.valid = !bad;
  }
  bool was = w->initialised;
  bool threw = false;
  try {
    switch (kind) {
      case 0: V(persona, action, i1, i2); break;
      case 1: V(persona, action, i1); break;
      case 2: V(persona, action, number); break;
      case 3: V(action, i1, i2); break;
      case 4: { V v(action, i1); break; }
      case 5: { V v(action, number); break; }
      case 6: { V v(action, text); break; }
      case 7: { V v(action, i1, text); break; }
      case 8:
        if (was)  // It doesn't check this itself.
          sim::AcquireFrom(&w->initialised);
        if (was)
          V::SendVaultStoppedMessage(w->prefix, w->session, static_cast<int>(number));
        else
          m.valid = false;
        break;
      case 9: V(persona, action, i1); break;
      case 10: V(persona, static_cast<VAction>(77), i1); break;
      case 11: V(static_cast<VPersona>(-3), action, i1); break;
    }
  } catch (const maidsafe::common_error& e) {
    sim::NoSim ns;
    threw = true;
    m.valid = false;
    if (was && !bad)
      sim::Fail("refused", std::string("logging a valid message threw: ") + e.what());
  } catch (const std::exception& e) {
    sim::NoSim ns;
    sim::Fail("threw", std::string("logging threw an unexpected exception: ") + e.what());
  }
  sim::NoSim ns;
  if (bad && !threw)
    sim::Fail("accepted", "an invalid message was accepted");
  m.t1 = sim::WallNs();
  m.s1 = sim::Seq();
  sim::Log("message %d kind %d%s", id, kind, threw ? " threw" : "");
}

std::string FileEnding(const std::string& folder, const std::string& tail) {
  for (auto& f : io::List(folder))
    if (f.size() > 19 && f.substr(19) == tail)
      return folder + "/" + f;
  return "";
}

// What the file holds, checked against the messages logged; those up to "upto" must be there.
void CheckFile(const std::string& path, bool need_all, int id) {
  std::string s = io::Slurp(path);
  size_t at = 0;
  std::vector<int> order;
  std::set<int> have;
  while (at < s.size()) {
    size_t comma = s.find(',', at);
    bool ok = false;
    if (comma != std::string::npos)
      for (size_t i = 0; i < w->m.size() && !ok; ++i) {
        const Msg& m = w->m[i];
        if (!m.valid || m.stopped || s.compare(comma, m.line.size(), m.line))
          continue;
        if (!TimeOk(s.substr(at, comma - at), m))
          sim::Fail("wrong-time", "the file has the time '" + s.substr(at, comma - at) + "', at which the message was not logged");
        if (!have.insert(static_cast<int>(i)).second)
          sim::Fail("duplicate-message", Str("the file has message %zu twice", i));
        order.push_back(static_cast<int>(i));
        at = comma + m.line.size();
        ok = true;
      }
    if (!ok && !need_all) {  // Another thread's message may be written in parts.
      std::string rest = comma == std::string::npos ? "" : s.substr(comma);
      for (auto& m : w->m)
        ok = ok || (m.valid && !m.stopped && !m.s1 && (comma == std::string::npos ? s.size() - at < 30 : m.line.compare(0, rest.size(), rest) == 0));
      if (ok)
        break;
    }
    if (!ok)
      sim::Fail("message-damaged", "the file has: " + s.substr(at, 200));
  }
  for (size_t i = 0; i < order.size(); ++i)
    for (size_t j = i + 1; j < order.size(); ++j)
      if (w->m[order[j]].s1 && w->m[order[j]].s1 < w->m[order[i]].s0)
        sim::Fail("misordered", Str("the file has message %d before the earlier %d", order[i], order[j]));
  for (size_t i = 0; i < w->m.size(); ++i)
    if ((need_all || static_cast<int>(i) == id) && w->m[i].valid && !w->m[i].stopped && w->m[i].s1 && !have.count(static_cast<int>(i)))
      sim::Fail("message-lost", Str("message %zu is not in the file", i));
}

void Run(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  bool sync = p.P("sync") != 0, faults = p.P("faults") != 0;
  std::string folder;
  std::vector<std::string>* args;
  std::ostringstream* cout_sink;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new W;
    w->m.resize(ops.size() + 2);
    sim::net::g_host = kHost;
    sim::net::g_host_v6 = p.P("v6") != 0;
    sim::net::g_poll_interrupted = true;
    sim::net::g_capacity = static_cast<size_t>(p.P("capacity"));
    folder = sim::Scratch() + "/logs";
    args = new std::vector<std::string>{"prog", "--log_no_console", "--log_common", "W", "--log_folder", folder};
    if (sync)
      args->push_back("--log_no_async");
    w->session = p.P("nosession") ? "" : "54ca73ce-0c3c-4155";
    w->prefix = "abcdef..012345";
    cout_sink = new std::ostringstream;
    std::cout.rdbuf(cout_sink->rdbuf());
  }
  sim::SetFaultsEnabled(false);
  {
    std::vector<char*> argv;
    for (auto& a : *args)
      argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    Logging::Instance().Initialise(static_cast<int>(args->size()), argv.data());
  }
  std::thread server([&] { Serve(p); });
  while (!p.P("late") && !w->listening)
    sim::SleepNs(1000);
  auto init = [&](bool first) {
    bool threw = false, was = w->initialised;
    try {
      Logging::Instance().InitialiseVlog(w->prefix, w->session, kHost, kPort, kDir);
    } catch (const maidsafe::common_error& e) {
      threw = true;
      sim::NoSim ns;
      if (first || e.code() != maidsafe::make_error_code(maidsafe::CommonErrors::already_initialised))
        sim::Fail("not-initialised", std::string("initialising threw: ") + e.what());
    }
    sim::NoSim ns;
    if (!threw && was)
      sim::Fail("initialised-twice", "a later call which initialises did not throw");
    if (!threw) {
      w->initialised = true;
      sim::ReleaseTo(&w->initialised);
    }
    return !threw;
  };
  int inits = static_cast<int>(p.P("inits"));
  int succeeded = 0;
  sim::SetFaultsEnabled(faults);
  if (!inits)
    succeeded += init(true);
  sim::SetFaultsEnabled(false);
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      if (t <= inits && init(false)) {
        sim::NoSim ns;
        ++succeeded;
      }
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        if (o.verb == "sleep") {
          sim::SleepNs(o.a[0]);
          continue;
        }
        Vlog(w->m[o.index], o.index, o, t);
        if (sync && w->m[o.index].valid && !w->m[o.index].stopped && !w->session.empty()) {
          sim::NoSim ns;
          std::string f = FileEnding(folder, "_visualiser.log");
          if (!f.empty() && !io::g_broken.count(f))
            CheckFile(f, false, o.index);
        }
      }
    });
  sim::SetFaultsEnabled(faults);
  for (auto& t : ts)
    t.join();
  if (inits && succeeded != 1)
    sim::Fail("initialised-twice", Str("%d of %d concurrent calls initialised", succeeded, inits));
  bool abrupt = p.P("abrupt") != 0;
  if (!abrupt) {
    if (!sim::Settle(20000ull * 1000000000ull, 800000))
      sim::Fail("stuck", "logging does not come to rest: " + sim::BlockedThreads());
    // Faults cease; of two more messages the second must arrive.
    w->calm = true;
    sim::SetFaultsEnabled(false);
    for (int i = 0; i < 2 && !w->session.empty(); ++i) {
      Op o;
      o.a = {6, 0, 1, 0, 0, 0};
      Vlog(w->m[ops.size() + i], static_cast<int>(ops.size()) + i, o, 0);
      if (!sim::Settle(20000ull * 1000000000ull, 800000))
        sim::Fail("stuck", "logging does not come to rest: " + sim::BlockedThreads());
    }
    sim::NoSim ns;
    if (!w->session.empty() && !w->m[ops.size() + 1].received)
      sim::Fail("not-recovered", "the server does not get messages again after faults have ceased");
    sim::Probe("recovered");
  }
  Logging::Instance().~Logging();
  // Whatever is still on its way arrives.
  if (!sim::Settle(20000ull * 1000000000ull, 800000))
    sim::Fail("stuck", "the server does not come to rest: " + sim::BlockedThreads());
  w->stop = true;
  sim::SetFaultsEnabled(false);
  for (int v6 = 0; v6 < 2; ++v6) {
    int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
    int r;
    if (v6) {
      sockaddr_in6 a = {};
      a.sin6_family = AF_INET6;
      a.sin6_addr = in6addr_loopback;
      a.sin6_port = htons(kPort);
      r = connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
    } else {
      sockaddr_in a = {};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(kPort);
      r = connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
    }
    close(fd);
  }
  server.join();
  sim::NoSim ns;
  if (sim::net::OpenFds())
    sim::Fail("descriptor-leak", "sockets are left open: " + sim::net::State());
  if (sim::net::g_resolved)
    sim::Fail("leak", "address lists were not freed");

  std::string file = FileEnding(folder, "_visualiser.log");
  if (w->session.empty()) {
    int stopped = 0;
    for (auto& m : w->m)
      stopped += m.stopped;
    if (static_cast<int>(w->order.size()) > stopped || (!file.empty() && !io::Slurp(file).empty()))
      sim::Fail("not-disabled", "messages were written although there is no session");
    return;
  }
  if (file.empty()) {
    if (!faults)
      sim::Fail("message-lost", "there is no file");
  } else if (!io::g_broken.count(file)) {
    CheckFile(file, true, -1);
  }
  for (size_t i = 0; i < w->order.size(); ++i)
    for (size_t j = i + 1; j < w->order.size(); ++j)
      if (w->m[w->order[j]].s1 && w->m[w->order[j]].s1 < w->m[w->order[i]].s0)
        sim::Fail("misordered", Str("the server received message %d before the earlier %d", w->order[i], w->order[j]));
  int lost = 0, arrived = 0;
  std::string which;
  for (size_t i = 0; i < w->m.size(); ++i)
    if (w->m[i].valid) {
      lost += !w->m[i].received;
      arrived += w->m[i].received;
      if (!w->m[i].received)
        which += Str(" %zu", i);
    }
  if (!faults && !p.P("late") && lost > w->breaks)
    sim::Fail("message-lost", Str("the server did not receive%s; connections ended %d times", which.c_str(), w->breaks));
  if (lost)
    sim::Probe("lost with its connection");
  if (arrived > 2)
    sim::Probe("arrived");
  // What the server refused is reported.
  if (!faults && !p.P("late") && !w->odd && !abrupt) {
    std::string log = FileEnding(folder, "_common.log");
    std::string s = log.empty() ? "" : io::Slurp(log);
    std::vector<int> got;
    for (size_t at = 0; (at = s.find("responded with \"", at)) != std::string::npos; ++at)
      got.push_back(atoi(s.c_str() + at + 16));
    if (got != w->codes) {
      std::string a, b;
      for (int c : w->codes)
        a += Str(" %d", c);
      for (int c : got)
        b += Str(" %d", c);
      sim::Fail("wrong-report", "the server answered" + a + ", reported were" + b);
    }
    if (!w->codes.empty())
      sim::Probe("refusals reported");
  }
}

sim::Registrar r34({"C34", Gen, Run,
                    "one simulated run of 1-3 threads logging for the visualiser's server, which is slow, silent, late, "
                    "refuses, answers in any segmentation or breaks connections; non-trivial: at least two context switches or a fault",
                    {"visualiser_log.cc", "log.cc", "active.cc", "asio socket streams and resolver", "cereal JSON archive"},
                    {"thread scheduler", "clock", "network and name resolution", "the server", "write/open errors"},
                    20000, 300000});
}  // namespace
