// C38 (test directories, parallel runs, ports), C39 (the local address).
#include <arpa/inet.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <memory>
#include <stdexcept>
#include <system_error>

#include "asio/ip/udp.hpp"

#include "maidsafe/common/config.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/test.h"
#include "maidsafe/common/utils.h"

#include "../sim/io.h"
#include "../sim/net.h"
#include "../sim/sys.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;
namespace mt = maidsafe::test;

// ---------------------------------------------------------------------------------------- C38
enum { kSlots = 3 };
const char* const kPrefix[] = {"", "MaidSafe_Test", "MaidSafe_TestAbc", "Other"};

void GenTest(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.5);
  p.params["notmp"] = r.Chance(0.1) ? r.Range(1, 2) : 0;
  p.params["boot"] = r.Chance(0.4) ? r.Range(1, 4) : 0;
  p.params["bootsize"] = r.Chance(0.2) ? 0 : r.Chance(0.5) ? r.Range(1, 300) : r.Range(1, 30000);
  p.params["old"] = r.Chance(0.5) ? r.Range(0, 40000) : -1;
  int n = static_cast<int>(r.Range(1, 10));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    double x = r.Below(1000) / 1000.0;
    if (x < 0.4)
      p.ops.push_back(Line(t, "make", {r.Range(0, kSlots - 1), r.Range(0, 3), r.Range(0, 4)}));
    else if (x < 0.55)
      p.ops.push_back(Line(t, "copy", {r.Range(0, kSlots - 1), r.Range(0, kSlots - 1)}));
    else if (x < 0.65)
      p.ops.push_back(Line(t, "drop", {r.Range(0, kSlots - 1)}));
    else if (x < 0.85)
      p.ops.push_back(Line(t, "parallel", {r.Range(0, 5), r.Chance(0.3) ? r.Range(0, 5) : -1, r.Chance(0.15) ? r.Range(0, 5) : -1}));
    else
      p.ops.push_back(Line(t, "ports", {r.Chance(0.01) ? r.Range(1000, 6000) : r.Range(1, 20)}));
  }
  if (p.P("faults")) {
    double q = Pick(r, {0.02, 0.1, 0.3});
    c.prob[sim::K_IO_META] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_OPEN] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_IO_READ] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_SYS] = r.Chance(0.5) ? q : 0;
  }
  c.max_steps = 400000;
}

struct TestError : std::runtime_error {
  explicit TestError(int n) : std::runtime_error("test"), number(n) {}
  int number;
};
struct Call {
  int started = 0, finished = 0, elsewhere = 0;
  bool over = false;
};
struct Dir {
  int holders = 0;
};
struct T {
  std::map<std::string, Dir> live;
  std::set<uint16_t> ports;
  std::vector<std::shared_ptr<Call>> calls;
  std::string tmp;
};
T* w;

bool IsDir(const std::string& p) {
  struct stat st;
  return ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
bool Exists(const std::string& p) {
  struct stat st;
  return ::lstat(p.c_str(), &st) == 0;
}

void Check() {
  for (auto& l : w->live)
    if (!IsDir(l.first))
      sim::Fail("directory-lost", "a test directory was removed while it's in use");
  if (io::Slurp(w->tmp + "/MaidSafe_Test_keep/file") != "keep" || io::Slurp(w->tmp + "/other") != "other")
    sim::Fail("foreign-file-lost", "files of others in the temporary directory were removed");
}
void Release(std::shared_ptr<boost::filesystem::path>& slot) {
  std::string path;
  bool last = false;
  uint64_t before = 0;
  {
    sim::NoSim ns;
    if (!slot)
      return;
    path = slot->string();
    if (!path.empty()) {
      auto it = w->live.find(path);
      if (--it->second.holders == 0) {
        w->live.erase(it);
        last = true;
      }
    }
    before = sim::FaultsFired();
  }
  slot.reset();
  sim::NoSim ns;
  if (last && Exists(path) && sim::FaultsFired() == before)
    sim::Fail("directory-left", "a test directory is left after its last user has gone");
  if (last)
    sim::Probe("removed");
  Check();
}

void RunTest(const Program& p) {
  std::vector<Op> ops;
  std::string cwd;
  bool faults = p.P("faults") != 0;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new T;
    char b[4096];
    cwd = getcwd(b, sizeof b);
    w->tmp = cwd + "/tmp";
    mkdir(w->tmp.c_str(), 0700);
    mkdir((w->tmp + "/MaidSafe_Test_keep").c_str(), 0700);
    io::Spit(w->tmp + "/MaidSafe_Test_keep/file", "keep");
    io::Spit(w->tmp + "/other", "other");
    setenv("TMPDIR", p.P("notmp") == 1 ? (cwd + "/nowhere").c_str() : p.P("notmp") == 2 ? (w->tmp + "/other").c_str() : w->tmp.c_str(), 1);
    mkdir((cwd + "/bin").c_str(), 0700);
    sim::sys::g_exe_simulated = true;
    sim::sys::g_exe_path = cwd + "/bin/prog";
  }
  sim::SetFaultsEnabled(false);
  const char* argv[] = {"prog", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  sim::SetFaultsEnabled(faults);
  int threads = static_cast<int>(p.P("threads"));
  auto body = [&](int t) {
    std::shared_ptr<boost::filesystem::path> slot[kSlots];
    for (auto& o : ops) {
      if (o.thread != t)
        continue;
      if (o.verb == "make") {
        auto& s = slot[o.a[0]];
        Release(s);
        uint64_t before = sim::FaultsFired();
        s = mt::CreateTestPath(kPrefix[o.a[1]]);
        sim::NoSim ns;
        if (!s)
          sim::Fail("no-path", "there is no path");
        std::string path = s->string();
        sim::Log("made %s", path.empty() ? "nothing" : "a directory");
        if (path.empty()) {
          if (sim::FaultsFired() == before && !p.P("notmp"))
            sim::Fail("no-path", "no directory although nothing failed");
          sim::Probe("no directory");
          continue;
        }
        std::string want = w->tmp + "/" + (o.a[1] ? kPrefix[o.a[1]] : "MaidSafe_Test") + "_";
        if (p.P("notmp") || path.compare(0, want.size(), want) || path.size() != want.size() + 14 ||
            path.find('/', want.size()) != std::string::npos)
          sim::Fail("wrong-path", "the directory is " + path);
        if (!w->live.insert({path, Dir()}).second)
          sim::Fail("path-shared", "two test directories are one");
        w->live[path].holders = 1;
        if (!IsDir(path) || !io::List(path).empty())
          sim::Fail("no-directory", "the directory doesn't exist or isn't empty");
        for (int64_t i = 0; i < o.a[2]; ++i) {
          std::string f = path + "/" + std::to_string(i);
          if (i % 2) {
            mkdir(f.c_str(), 0700);
            io::Spit(f + "/x", "x");
          } else {
            io::Spit(f, "y");
          }
        }
      } else if (o.verb == "copy") {
        auto& a = slot[o.a[0]];
        auto& b = slot[o.a[1]];
        if (o.a[0] == o.a[1] || !a)
          continue;
        Release(b);
        sim::NoSim ns;
        b = a;
        if (!b->empty())
          ++w->live[b->string()].holders;
      } else if (o.verb == "drop") {
        Release(slot[o.a[0]]);
      } else if (o.verb == "parallel") {
        int count = static_cast<int>(o.a[0]);
        std::shared_ptr<Call> c;
        std::thread::id me = std::this_thread::get_id();
        {
          sim::NoSim ns;
          c = std::make_shared<Call>();
          w->calls.push_back(c);
        }
        int64_t bad = o.a[1], bad2 = o.a[2];
        Call* k = c.get();
        auto functor = [=] {
          int n;
          {
            sim::NoSim ns;
            if (k->over)
              sim::Fail("still-running", "a parallel call starts after RunInParallel has ended");
            n = k->started++;
            k->elsewhere += std::this_thread::get_id() != me;
          }
          sim::SyncPoint("parallel");
          sim::SleepNs(1 + sim::Data(1000));
          sim::NoSim ns;
          if (k->over)
            sim::Fail("still-running", "a parallel call is running after RunInParallel has ended");
          ++k->finished;
          if (n == bad || n == bad2)
            throw TestError(n);
        };
        int threw = 0;
        uint64_t before = sim::FaultsFired();
        try {
          mt::RunInParallel(count, functor);
        } catch (const TestError& e) {
          sim::NoSim ns;
          threw = 1;
          if (e.number != bad && e.number != bad2)
            sim::Fail("wrong-exception", "an exception which no call has thrown");
        } catch (const std::system_error&) {
          threw = 2;
        } catch (const std::exception& e) {
          sim::NoSim ns;
          sim::Fail("wrong-exception", std::string("RunInParallel threw: ") + e.what());
        }
        sim::NoSim ns;
        c->over = true;
        bool must = (bad >= 0 && bad < c->started) || (bad2 >= 0 && bad2 < c->started);
        if (c->started != c->finished)
          sim::Fail("still-running", "calls are running after RunInParallel has ended");
        if (threw == 2 && sim::FaultsFired() == before)
          sim::Fail("wrong-exception", "a thread could not be started although nothing failed");
        if (must != (threw == 1) && threw != 2)
          sim::Fail("exception-lost", Str("exceptions thrown by calls: %d, by RunInParallel: %d", must, threw));
        if (!threw && c->elsewhere != count)
          sim::Fail("wrong-count", Str("%d of %d parallel calls were made", c->elsewhere, count));
        sim::Log("parallel %d: %d calls, threw %d", count, c->started, threw);
        if (threw)
          sim::Probe("parallel threw");
      } else if (o.verb == "ports") {
        for (int64_t i = 0; i < o.a[0]; ++i) {
          uint16_t port = mt::GetRandomPort();
          sim::NoSim ns;
          if (port < 1025)
            sim::Fail("wrong-port", Str("port %d", port));
          if (!w->ports.insert(port).second)
            sim::Fail("port-repeated", Str("port %d was handed out twice", port));
        }
      }
    }
    for (auto& s : slot)
      Release(s);
  };
  sim::SetFaultsEnabled(false);
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back(body, t);
  sim::SetFaultsEnabled(faults);
  for (auto& t : ts)
    t.join();

  if (int64_t boot = p.P("boot")) {
    std::string dest = cwd + "/bin/bootstrap_override.dat", content;
    boost::filesystem::path from;
    {
      sim::NoSim ns;
      content = Bytes(p.P("bootsize"), p.P("bootsize"));
      io::Spit(cwd + "/contacts.dat", content);
      if (p.P("old") >= 0)
        io::Spit(dest, Bytes(7, p.P("old")));
    }
    from = boot == 1 ? "none" : boot == 2 ? "contacts.dat" : boot == 3 ? cwd + "/contacts.dat" : "missing.dat";
    bool threw = false;
    uint64_t before = sim::FaultsFired();
    try {
      mt::PrepareBootstrapFile(from);
    } catch (const maidsafe::maidsafe_error&) {
      threw = true;
    }
    sim::NoSim ns;
    bool failed = sim::FaultsFired() != before;
    if (threw && !failed && boot != 4)
      sim::Fail("not-prepared", "preparing the bootstrap file failed although nothing else did");
    if (!threw && boot == 4)
      sim::Fail("not-reported", "a missing bootstrap file wasn't reported");
    if (!threw && boot == 1 && Exists(dest))
      sim::Fail("not-reported", "the bootstrap file is still there");
    if (!threw && (boot == 2 || boot == 3) && io::Slurp(dest) != content)
      sim::Fail("not-reported", "the bootstrap file differs from its source");
    if (threw && boot != 4)
      sim::Probe("preparing failed");
    if (io::Slurp(cwd + "/contacts.dat") != content)
      sim::Fail("source-changed", "the source was changed");
  }
  sim::NoSim ns;
  if (!faults) {
    auto left = io::List(w->tmp);
    if (left.size() != 2)
      sim::Fail("directory-left", "directories are left: " + left[0]);
  }
  Check();
  if (io::OpenFds())
    sim::Fail("descriptor-leak", "files are left open");
}

// ---------------------------------------------------------------------------------------- C39
const char* const kV4[] = {"", "0.0.0.0", "127.0.0.1", "10.1.2.3", "192.168.7.200", "127.3.4.5", "198.51.100.77"};
const char* const kV6[] = {"", "::", "::1", "2001:db8::5", "fd00::17", "2001:db8:1:2:3:4:5:6", "::2"};
const int kRoutes = 7;
std::map<std::string, std::string>* g_routes;
std::string Route(const sockaddr* a) {
  char b[INET6_ADDRSTRLEN] = "";
  if (a->sa_family == AF_INET6)
    inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr, b, sizeof b);
  else
    inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(a)->sin_addr, b, sizeof b);
  auto it = g_routes->find(b);
  if (it == g_routes->end())
    sim::Fail("wrong-peer", std::string("connected to ") + b);
  return it->second;
}
void GenIp(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.5);
  p.params["default"] = static_cast<int64_t>(r.Below(kRoutes));
  p.params["nov6"] = r.Chance(0.2);
  int n = static_cast<int>(r.Range(1, 6));
  for (int i = 0; i < n; ++i)
    p.ops.push_back(Line(static_cast<int>(r.Range(1, threads)), "ask",
                         {static_cast<int64_t>(r.Below(3)), static_cast<int64_t>(r.Below(kRoutes)), r.Range(0, 65535)}));
  if (p.P("faults")) {
    c.prob[sim::K_NET_ERR] = Pick(r, {0.02, 0.1, 0.3});
    c.prob[sim::K_SYS] = Pick(r, {0.0, 0.05, 0.2});
  }
}
void RunIp(const Program& p) {
  std::vector<Op> ops;
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_routes = new std::map<std::string, std::string>;
    (*g_routes)["203.0.113.0"] = kV4[p.P("default")];
    for (int i = 0; i < kRoutes; ++i) {
      (*g_routes)[Str("198.18.0.%d", i)] = kV4[i];
      (*g_routes)[Str("2001:db8:ffff::%d", i + 1)] = kV6[i];
    }
    sim::net::g_route = Route;
    sim::net::g_no_ipv6 = p.P("nov6") != 0;
  }
  sim::SetFaultsEnabled(false);
  std::vector<std::thread> ts;
  for (int t = 1; t <= p.P("threads"); ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        bool v6 = o.a[0] == 1;
        std::string want, got;
        asio::ip::udp::endpoint peer;
        {
          sim::NoSim ns;
          want = o.a[0] == 2 ? kV4[p.P("default")] : v6 ? kV6[o.a[1]] : kV4[o.a[1]];
          peer = asio::ip::udp::endpoint(asio::ip::make_address(v6 ? Str("2001:db8:ffff::%d", static_cast<int>(o.a[1]) + 1)
                                                                     : Str("198.18.0.%d", static_cast<int>(o.a[1]))),
                                         static_cast<uint16_t>(o.a[2]));
          if (want == "" || want == "::" || want == "::1" || want.compare(0, 4, "127.") == 0 || (v6 && p.P("nov6")))
            want = "0.0.0.0";
        }
        uint64_t before = sim::net::OtherErrors();
        try {
          asio::ip::address a = o.a[0] == 2 ? maidsafe::GetLocalIp() : maidsafe::GetLocalIp(peer);
          sim::NoSim ns;
          got = a.to_string();
        } catch (const std::exception& e) {
          sim::NoSim ns;
          sim::Fail("threw", std::string("asking for the local address threw: ") + e.what());
        }
        sim::NoSim ns;
        sim::Log("local address %s", got.c_str());
        if (got != want && !(got == "0.0.0.0" && sim::net::OtherErrors() != before))
          sim::Fail("wrong-address", "the local address is " + want + ", reported was " + got);
        if (got != "0.0.0.0")
          sim::Probe("address known");
        else if (want != got)
          sim::Probe("address unknown for an error");
      }
    });
  sim::SetFaultsEnabled(p.P("faults") != 0);
  for (auto& t : ts)
    t.join();
  sim::NoSim ns;
  if (sim::net::OpenFds())
    sim::Fail("descriptor-leak", "sockets are left open: " + sim::net::State());
}

sim::Registrar r38({"C38", GenTest, RunTest,
                    "one simulated run of 1-4 threads which make, share and drop test directories, run calls in parallel and draw ports; "
                    "non-trivial: at least two context switches or a fault",
                    {"test.cc", "utils.cc", "config.cc", "Boost.Filesystem"},
                    {"thread scheduler and creation", "errors of files and directories", "random device", "path of the executable"},
                    20000, 500000});
sim::Registrar r39({"C39", GenIp, RunIp,
                    "one simulated run of 1-3 threads asking for the address used towards some peer; non-trivial: at least two "
                    "context switches or a fault",
                    {"utils.cc", "asio"},
                    {"thread scheduler", "sockets and routes"},
                    30000, 500000});
}  // namespace
