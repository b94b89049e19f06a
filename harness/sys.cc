// C32 (where is the executable), C33 (sleeps and clocks), C35 (home directory), C36 (processes).
#include <errno.h>
#include <limits.h>
#include <unistd.h>

#include "boost/filesystem.hpp"

#include <signal.h>

#include "maidsafe/common/application_support_directories.h"
#include "maidsafe/common/clock.h"
#include "maidsafe/common/config.h"
#include "maidsafe/common/process.h"
#include "maidsafe/common/utils.h"

#include "../sim/sys.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT

// ---------------------------------------------------------------------------------------- C32
std::string LongPath(int64_t len, int64_t id) {
  std::string s = "/";
  uint64_t x = id;
  while (static_cast<int64_t>(s.size()) < len) {
    x = sim::Mix(x, 5);
    s += x % 37 == 0 && s.back() != '/' && static_cast<int64_t>(s.size()) + 1 < len ? '/' : static_cast<char>('a' + x / 64 % 26);
  }
  return s;
}
std::string Argv0(int t, int64_t kind) {
  switch (kind) {
    case 0:
      return "prog" + std::to_string(t);
    case 1:
      return "./bin/prog" + std::to_string(t);
    default:
      return "/usr/bin/prog" + std::to_string(t);
  }
}

void GenExe(Rng& r, Program& p, Config&) {
  p.params["threads"] = r.Range(1, 4);
  int64_t len = r.Chance(0.4) ? r.Range(2, 200) : r.Chance(0.5) ? r.Range(200, 4095) : r.Range(4090, 4100);
  p.params["len"] = len;
  p.params["id"] = static_cast<int64_t>(r.Below(1000000));
  p.params["err"] = r.Chance(0.35) ? Pick(r, {ENOENT, EACCES, ENAMETOOLONG, EIO, EINVAL, ENOMEM}) : 0;
  p.params["cwd"] = r.Chance(0.3) ? Pick(r, {ENOENT, EACCES, ERANGE, ENOMEM}) : 0;
  if (p.P("cwd") == ERANGE)
    p.params["cwd"] = EACCES;
  for (int t = 1; t <= p.P("threads"); ++t)
    p.ops.push_back(Line(t, "set", {static_cast<int64_t>(r.Below(3)), r.Chance(0.2)}));
}

void RunExe(const Program& p) {
  std::vector<Op> ops;
  std::string exe, cwd;
  {
    sim::NoSim ns;
    ops = Parse(p);
    char b[PATH_MAX];
    cwd = getcwd(b, sizeof b);
    exe = LongPath(p.P("len"), p.P("id"));
    sim::sys::g_exe_simulated = true;
    sim::sys::g_exe_path = exe;
    sim::sys::g_exe_errno = static_cast<int>(p.P("err"));
    sim::sys::g_cwd_errno = static_cast<int>(p.P("cwd"));
    if (p.P("err"))
      sim::Probe("the system cannot say");
    if (exe.size() >= PATH_MAX)
      sim::Probe("path longer than any buffer for paths");
    if (exe.size() == PATH_MAX)
      sim::Probe("path exactly as long as a buffer for paths");
  }
  auto ask = [&](std::string* path, std::string* dir) {
    try {
      *path = maidsafe::ThisExecutablePath().string();
      *dir = maidsafe::ThisExecutableDir().string();
      return true;
    } catch (const maidsafe::maidsafe_error&) {
      return false;
    }
  };
  std::string a, b;
  if (ask(&a, &b))
    sim::Fail("garbage", "a path was reported before it was known: " + a);
  std::vector<std::thread> ts;
  std::vector<std::string> seen(8), seend(8);
  for (auto& o : ops)
    ts.emplace_back([&, o] {
      std::string arg = Argv0(o.thread, o.a[0]);
      const char* const argv[] = {arg.c_str(), nullptr};
      maidsafe::SetThisExecutablePath(argv);
      // What was passed may change afterwards.
      for (auto& c : arg)
        c = '#';
      if (o.a[1])
        maidsafe::SetThisExecutablePath(argv);
      if (!ask(&seen[o.thread], &seend[o.thread]))
        sim::Fail("unknown", "no path is reported after it was set");
    });
  for (auto& t : ts)
    t.join();
  sim::NoSim ns;
  std::set<std::string> ok;
  bool known = !p.P("err") && exe.size() < PATH_MAX;
  if (known) {
    ok.insert(exe);
  } else {
    for (auto& o : ops) {
      std::string arg = Argv0(o.thread, o.a[0]);
      bool absolute = arg[0] == '/';
      if (!absolute && p.P("cwd"))
        ok.insert(arg);
      ok.insert(absolute ? arg : cwd + "/" + arg);
      if (!absolute)
        ok.insert((boost::filesystem::path(cwd) / arg).string());
    }
  }
  std::string first;
  for (auto& o : ops) {
    std::string& s = seen[o.thread];
    if (first.empty())
      first = s;
    if (s != first)
      sim::Fail("disagree", "threads were told different paths: " + first.substr(0, 200) + " and " + s.substr(0, 200));
    if (!ok.count(s))
      sim::Fail("wrong-path", Str("reported path '%.200s' (%zu characters), expected '%.200s' (%zu characters)", s.c_str(), s.size(),
                                  ok.begin()->c_str(), ok.begin()->size()));
    if (seend[o.thread] != s.substr(0, std::max<size_t>(1, s.rfind('/') == std::string::npos ? 0 : s.rfind('/'))) && s.find('/') != std::string::npos)
      sim::Fail("wrong-path", "reported directory '" + seend[o.thread] + "' of '" + s + "'");
  }
}

// ---------------------------------------------------------------------------------------- C33
struct Wall {  // remembers how the wall clock was stepped
  std::vector<std::pair<uint64_t, std::pair<uint64_t, uint64_t>>> steps;  // seq, before, after
};
Wall* g_wall;
struct Interval {
  uint64_t seq, w0;
  void Begin() {
    sim::NoSim ns;
    seq = sim::Seq();
    w0 = sim::WallNs();
  }
  void End(uint64_t* lo, uint64_t* hi) {
    uint64_t w1 = sim::WallNs();
    *lo = std::min(w0, w1);
    *hi = std::max(w0, w1);
    for (auto& s : g_wall->steps)
      if (s.first > seq) {
        *lo = std::min(*lo, s.second.second);
        *hi = std::max(*hi, s.second.first);
      }
  }
};

void GenTime(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.5);
  if (p.P("faults")) {
    c.prob[sim::K_EINTR] = Pick(r, {0.2, 0.6, 0.9});
    c.prob[sim::K_TIMEJUMP] = 0.1;
  }
  p.params["base"] = r.Chance(0.3) ? r.Range(946684800, 946684900) : r.Range(946684800, 4000000000);
  int n = static_cast<int>(r.Range(3, 25));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    double u = r.Unit();
    if (u < 0.35)
      p.ops.push_back(Line(t, "sleep", {static_cast<int64_t>(r.Below(5)), r.Chance(0.1) ? -r.Range(0, 5) : r.Chance(0.5) ? r.Range(1, 30) : r.Range(1, 5000)}));
    else if (u < 0.55)
      p.ops.push_back(Line(t, "clock"));
    else if (u < 0.75)
      p.ops.push_back(Line(t, "stamp"));
    else if (u < 0.85)
      p.ops.push_back(Line(t, "conv", {r.Range(-4000000000, 8000000000), r.Range(0, 999999999)}));
    else
      p.ops.push_back(Line(threads + 1, "step", {r.Chance(0.5) ? r.Range(-1000000000, 1000000000) : r.Range(-3600, 360000) * 1000000000ll}));
    if (r.Chance(0.3))
      p.ops.push_back(Line(threads + 1, "nap", {r.Range(1, 3000000)}));
  }
}

const uint64_t k2000 = 946684800ull * 1000000000ull;

void RunTime(const Program& p) {
  std::vector<Op> ops;
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_wall = new Wall;
    sim::StepWallClock(static_cast<int64_t>(p.P("base")) * 1000000000ll - static_cast<int64_t>(sim::WallNs()));
  }
  if (maidsafe::kMaidSafeEpoch != boost::posix_time::ptime(boost::gregorian::date(2000, 1, 1)))
    sim::Fail("epoch", "the epoch is not the beginning of the year 2000");
  std::vector<std::thread> ts;
  for (int t = 1; t <= p.P("threads") + 1; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        if (o.verb == "sleep") {
          uint64_t a = sim::Now();
          int64_t n = o.a[1], want = 0;
          switch (o.a[0]) {
            case 0:
              maidsafe::Sleep(std::chrono::nanoseconds(n));
              want = n;
              break;
            case 1:
              maidsafe::Sleep(std::chrono::microseconds(n));
              want = n * 1000;
              break;
            case 2:
              maidsafe::Sleep(std::chrono::milliseconds(n));
              want = n * 1000000;
              break;
            case 3:
              maidsafe::Sleep(std::chrono::seconds(n));
              want = n * 1000000000;
              break;
            default:
              maidsafe::Sleep(std::chrono::duration<int64_t, std::ratio<1, 3000000>>(n));
              want = n * 1000 / 3;
          }
          sim::NoSim ns;
          int64_t el = static_cast<int64_t>(sim::Now() - a);
          sim::Log("slept %lld ns of %lld", (long long)el, (long long)want);
          if (want > 0 && el < want)
            sim::Fail("short-sleep", Str("a sleep of %lld ns lasted %lld ns", (long long)want, (long long)el));
        } else if (o.verb == "clock") {
          Interval iv;
          iv.Begin();
          auto now = maidsafe::common::Clock::now();
          sim::NoSim ns;
          uint64_t lo, hi, got = now.time_since_epoch().count();
          iv.End(&lo, &hi);
          sim::Log("clock %llu", (unsigned long long)got);
          if (got < lo || got > hi)
            sim::Fail("clock", Str("the clock reads %llu ns, the system clock was between %llu and %llu", (unsigned long long)got,
                                   (unsigned long long)lo, (unsigned long long)hi));
        } else if (o.verb == "stamp") {
          Interval iv;
          iv.Begin();
          uint64_t got = maidsafe::GetTimeStamp();
          boost::posix_time::ptime pt = maidsafe::TimeStampToPtime(got);
          sim::NoSim ns;
          uint64_t lo, hi;
          iv.End(&lo, &hi);
          sim::Log("stamp %llu", (unsigned long long)got);
          if (lo < k2000)
            continue;  // there are no time stamps before the epoch
          if (got < (lo - k2000) / 1000000 || got > (hi - k2000) / 1000000)
            sim::Fail("stamp", Str("the time stamp is %llu ms, it was between %llu and %llu", (unsigned long long)got,
                                   (unsigned long long)((lo - k2000) / 1000000), (unsigned long long)((hi - k2000) / 1000000)));
          if (static_cast<uint64_t>((pt - maidsafe::kMaidSafeEpoch).total_milliseconds()) != got ||
              (pt - maidsafe::kMaidSafeEpoch).total_microseconds() % 1000)
            sim::Fail("stamp", Str("time stamp %llu does not convert back to the same time", (unsigned long long)got));
        } else if (o.verb == "conv") {
          typedef maidsafe::Clock C;
          std::time_t tt = static_cast<std::time_t>(o.a[0]);
          if (C::to_time_t(C::from_time_t(tt)) != tt || C::from_time_t(tt).time_since_epoch() != std::chrono::seconds(tt))
            sim::Fail("conversion", Str("time %lld does not convert back", (long long)tt));
          if (tt >= 0 && C::to_time_t(C::from_time_t(tt) + std::chrono::nanoseconds(o.a[1])) != tt)
            sim::Fail("conversion", Str("time %lld and %lld ns converts to another second", (long long)tt, (long long)o.a[1]));
        } else if (o.verb == "step") {
          sim::NoSim ns;
          uint64_t b = sim::WallNs();
          int64_t d = o.a[0];
          if (static_cast<int64_t>(b) + d < static_cast<int64_t>(k2000))
            d = 0;
          sim::StepWallClock(d);
          g_wall->steps.push_back({sim::Seq(), {b, sim::WallNs()}});
          sim::Log("wall clock stepped by %lld", (long long)d);
          sim::Probe(d < 0 ? "wall clock stepped back" : "wall clock stepped forward");
        } else if (o.verb == "nap") {
          sim::SleepNs(o.a[0]);
        }
      }
    });
  for (auto& t : ts)
    t.join();
}

// ---------------------------------------------------------------------------------------- C35
void GenHome(Rng& r, Program& p, Config&) {
  p.params["threads"] = r.Range(1, 4);
  p.params["known"] = r.Chance(0.7);
  p.params["dir"] = r.Chance(0.2) ? 0 : r.Chance(0.1) ? r.Range(1000, 4000) : r.Range(2, 60);
  p.params["size"] = r.Chance(0.7) ? 0 : r.Range(500, 20000);
  p.params["id"] = static_cast<int64_t>(r.Below(1000000));
  p.params["env"] = r.Chance(0.35) ? -1 : r.Chance(0.3) ? 0 : r.Range(2, 300);
  if (r.Chance(0.4)) {
    p.params["err"] = Pick(r, {EINTR, EIO, EMFILE, ENFILE, ENOMEM});
    p.params["failures"] = r.Chance(0.5) ? 1000000 : r.Range(1, 4);
    if (p.P("err") == EINTR)
      p.params["failures"] = r.Range(1, 20);
  }
  for (int t = 1; t <= p.P("threads"); ++t)
    for (int64_t n = r.Range(1, 3); n > 0; --n)
      p.ops.push_back(Line(t, r.Chance(0.6) ? "home" : "app"));
}
void RunHome(const Program& p) {
  std::vector<Op> ops;
  std::set<std::string>* ok;
  {
    sim::NoSim ns;
    ops = Parse(p);
    auto& a = sim::sys::g_account;
    a.simulated = true;
    a.known = p.P("known") != 0;
    a.dir = p.P("dir") ? LongPath(p.P("dir"), p.P("id")) : "";
    a.size = p.P("size");
    a.error = static_cast<int>(p.P("err"));
    a.failures = static_cast<int>(p.P("failures"));
    a.has_env = p.P("env") >= 0;
    a.env = p.P("env") > 0 ? LongPath(p.P("env"), p.P("id") + 77) : "";
    ok = new std::set<std::string>;
    if (a.known && !a.dir.empty())
      ok->insert(a.dir);
    if (!a.known || a.dir.empty() || a.failures)
      ok->insert(a.env);
    if (a.env.empty())
      sim::Probe("no home directory in the environment");
    if (!a.known)
      sim::Probe("no account");
  }
  std::vector<std::thread> ts;
  for (int t = 1; t <= p.P("threads"); ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        bool app = o.verb == "app";
        std::string got;
        try {
          got = app ? maidsafe::GetUserAppDir().string() : maidsafe::GetHomeDir().string();
        } catch (const std::exception& e) {
          sim::NoSim ns;
          sim::Fail("threw", std::string("asking for a directory threw: ") + e.what());
        }
        sim::NoSim ns;
        sim::Log("%s: %.200s", o.verb.c_str(), got.c_str());
        bool good = false;
        for (auto& x : *ok)
          good |= got == (app && !x.empty() ? (boost::filesystem::path(x) / ".config" / "MaidSafe" / "Verif").string() : x);
        if (!good)
          sim::Fail("wrong-directory", Str("%s: '%.200s' was reported, expected '%.200s'", o.verb.c_str(), got.c_str(),
                                           ok->begin()->c_str()));
      }
    });
  for (auto& t : ts)
    t.join();
}

// ---------------------------------------------------------------------------------------- C36
struct Processes {
  std::map<int, int> now;                                // pid -> what kill reports
  std::vector<std::pair<uint64_t, std::pair<int, int>>> past;  // when, pid, what it was before
};
Processes* g_proc;
void GenProcess(Rng& r, Program& p, Config&) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["id"] = static_cast<int64_t>(r.Below(1000000));
  for (int64_t n = r.Range(2, 20); n > 0; --n) {
    int t = static_cast<int>(r.Range(1, threads));
    int64_t pid = Pick<int64_t>(r, {1, 2, 1000, 32768, 4194304});
    double u = r.Unit();
    if (u < 0.5)
      p.ops.push_back(Line(t, "ask", {pid}));
    else if (u < 0.9)
      p.ops.push_back(Line(t, "state", {pid, Pick<int64_t>(r, {0, 0, ESRCH, ESRCH, EPERM})}));
    else
      p.ops.push_back(Line(t, "other", {static_cast<int64_t>(r.Below(3))}));
  }
}
void RunProcess(const Program& p) {
  std::vector<Op> ops;
  std::string exe;
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_proc = new Processes;
    sim::sys::g_kill = [](int pid, int signal) {
      if (signal)
        sim::Fail("signalled", Str("signal %d was sent to process %d", signal, pid));
      auto it = g_proc->now.find(pid);
      return it == g_proc->now.end() ? ESRCH : it->second;
    };
    exe = LongPath(3 + p.P("id") % 300, p.P("id"));
    if (p.P("id") % 3 == 1)
      exe += ".exe";
    sim::sys::g_exe_simulated = true;
    sim::sys::g_exe_path = exe;
  }
  const char* const argv[] = {"/x", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  std::vector<std::thread> ts;
  for (int t = 1; t <= p.P("threads"); ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        if (o.verb == "state") {
          sim::SyncPoint("state");
          sim::NoSim ns;
          int pid = static_cast<int>(o.a[0]);
          int old = g_proc->now.count(pid) ? g_proc->now[pid] : ESRCH;
          g_proc->past.push_back({sim::Seq(), {pid, old}});
          g_proc->now[pid] = static_cast<int>(o.a[1]);
        } else if (o.verb == "ask") {
          int pid = static_cast<int>(o.a[0]);
          uint64_t seq = sim::Seq();
          int got;  // 0: running, 1: not, 2: error
          try {
            got = maidsafe::process::IsRunning(pid) ? 0 : 1;
          } catch (const maidsafe::maidsafe_error&) {
            got = 2;
          }
          sim::NoSim ns;
          std::set<int> st;
          st.insert(g_proc->now.count(pid) ? g_proc->now[pid] : ESRCH);
          for (auto& x : g_proc->past)
            if (x.first >= seq && x.second.first == pid)
              st.insert(x.second.second);
          sim::Log("process %d: %d", pid, got);
          bool good = got == 0 ? st.count(0) || st.count(EPERM) : got == 1 ? st.count(ESRCH) != 0 : st.count(EPERM) != 0;
          if (!good)
            sim::Fail("wrong-state", Str("process %d was reported as %s", pid, got == 0 ? "running" : got == 1 ? "not running" : "unknown"));
        } else {
          static const char* const kNames[] = {"vault", "a b", "x1"};
          std::string name = kNames[o.a[0]];
          std::string got = maidsafe::process::GetOtherExecutablePath(name).string();
          sim::NoSim ns;
          boost::filesystem::path e(exe);
          std::string dir = e.parent_path().string(), want = dir + (dir.back() == '/' ? "" : "/") + name + e.extension().string();
          if (got != want)
            sim::Fail("wrong-path", "the other executable is '" + want + "', reported was '" + got + "'");
        }
      }
    });
  for (auto& t : ts)
    t.join();
}

sim::Registrar r35({"C35", GenHome, RunHome,
                    "one simulated run of 1-4 threads asking for the home and application directories with any entry or failure of "
                    "the account database and any environment; non-trivial: at least two context switches or a failure",
                    {"maidsafe::GetHomeDir, GetUserAppDir", "boost::filesystem"},
                    {"getpwuid, getpwuid_r, getenv (answers chosen by the simulator)", "threads (simulated)"}, 40000, 2000000});
sim::Registrar r36({"C36", GenProcess, RunProcess,
                    "one simulated run of 1-4 threads asking for the state of processes which start, end and change owners "
                    "meanwhile; non-trivial: at least two context switches",
                    {"maidsafe::process::IsRunning, GetOtherExecutablePath"},
                    {"kill, readlink (answers chosen by the simulator)", "threads (simulated)"}, 40000, 2000000});
sim::Registrar r32({"C32", GenExe, RunExe,
                    "one simulated run of 1-4 threads announcing and asking for the executable's path, with the operating "
                    "system's answer (any length, or an error) chosen by the seed; non-trivial: at least two context switches or a failure",
                    {"maidsafe::SetThisExecutablePath, ThisExecutablePath, ThisExecutableDir", "boost::filesystem"},
                    {"readlink and getcwd (answers chosen by the simulator)", "threads (simulated)"}, 40000, 2000000});
sim::Registrar r33({"C33", GenTime, RunTime,
                    "one simulated run of 1-4 threads sleeping and reading clocks while signals cut sleeps short and the wall clock "
                    "steps; non-trivial: at least two context switches or a fault",
                    {"maidsafe::Sleep, GetTimeStamp, TimeStampToPtime, Clock", "libstdc++ sleeps, boost::posix_time"},
                    {"nanosleep and clocks (simulated)", "threads (simulated)"}, 40000, 2000000});
}  // namespace
