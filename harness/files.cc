// C10: file helpers; C37: paths from program options.
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "maidsafe/common/utils.h"

#include "../sim/io.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;

// Paths 0..3 are plain files; 4 is a directory; 5 lies in a directory that does not exist; 6 has no
// file name.
std::string PathOf(int i) {
  if (i < 4)
    return Str("f%d", i);
  if (i == 4)
    return "dir";
  if (i == 5)
    return "missing/f";
  return "";
}
std::vector<unsigned char> Content(int id, int size) {
  std::string s = Bytes(id, size);
  return std::vector<unsigned char>(s.begin(), s.end());
}

void Gen(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.75);
  if (p.P("faults")) {
    double q = Pick(r, {0.01, 0.05, 0.2});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_READ] = r.Chance(0.7) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.7) ? q : 0;
    c.prob[sim::K_IO_CLOSE] = r.Chance(0.7) ? q : 0;
    c.prob[sim::K_IO_META] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_WFAULT1] = r.Chance(0.3) ? 0.3 : 0;
  }
  c.prob[sim::K_IO_SLOW] = r.Chance(0.3) ? 0.1 : 0;
  int n = static_cast<int>(r.Range(2, 14));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    // Each thread has files of its own: path number is file * 8 + thread.
    int64_t f = r.Chance(0.85) ? r.Below(3) : 4 + r.Below(3);
    int64_t size = r.Chance(0.15) ? r.Below(3) : r.Chance(0.2) ? r.Range(4000, 20000) : r.Range(1, 700);
    if (r.Chance(0.06))  // about a power of two, or just large
      size = r.Chance(0.7) ? (int64_t{1} << r.Range(12, 18)) * r.Range(1, 3) + r.Range(-1, 1)
                           : r.Range(20000, 600000);
    double u = r.Unit();
    if (u < 0.45)
      p.ops.push_back(Line(t, "write", {f, i, size}));
    else if (u < 0.85)
      p.ops.push_back(Line(t, "read", {f}));
    else if (u < 0.93)
      p.ops.push_back(Line(t, "put", {f, i, size}));  // written by somebody else
    else
      p.ops.push_back(Line(t, "rm", {f}));
  }
  c.max_steps = 2000000;
}

void Run(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  struct W {
    // the file another party changes while it is being read, and what it held then
    std::map<int, std::string> reading;          // tid -> path
    std::map<int, std::vector<std::string>> held;
  };
  W* w;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new W;
    for (int t = 1; t <= threads; ++t) {
      mkdir(Str("t%d", t).c_str(), 0700);
      mkdir(Str("t%d/dir", t).c_str(), 0700);
    }
    io::g_after = [w](const char* op, const std::string& path) {
      auto it = w->reading.find(sim::Tid());
      if (it == w->reading.end() || it->second != path || (strcmp(op, "stat") && strcmp(op, "open")))
        return;
      if (w->held[sim::Tid()].size() > 1)
        return;  // one change per read
      if (uint32_t v = sim::Choose(sim::K_WFAULT1, 3)) {
        bool ok;
        std::string cur = io::Slurp(path, &ok);
        if (!ok)
          return;
        if (v == 1)
          cur.resize(cur.size() * sim::Data(100) / 100);
        else
          cur += Bytes(99, 1 + sim::Data(50));
        io::Spit(path, cur);
        w->held[sim::Tid()].push_back(cur);
        sim::Probe(v == 1 ? "file shrank while being read" : "file grew while being read");
      }
    };
  }
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        std::string path;
        bool valid = o.a[0] < 4;
        {
          sim::NoSim ns;
          std::string rel = PathOf(static_cast<int>(o.a[0]));
          path = rel.empty() ? "" : Str("t%d/%s", t, rel.c_str());
        }
        uint64_t f0;
        if (o.verb == "write") {
          std::vector<unsigned char> c = Content(static_cast<int>(o.a[1]), static_cast<int>(o.a[2]));
          f0 = io::Faults();
          bool ok = maidsafe::WriteFile(path, c);
          sim::NoSim ns;
          bool faults = io::Faults() != f0;
          sim::Log("write %s %lld bytes -> %d", path.c_str(), (long long)o.a[2], ok);
          bool exists;
          std::string now = io::Slurp(path, &exists);
          if (ok && (!exists || now != std::string(c.begin(), c.end())))
            sim::Fail("write-lied", Str("WriteFile of %lld bytes to %s reported success, the file holds %lld%s bytes",
                                        (long long)o.a[2], path.c_str(), (long long)now.size(),
                                        now.size() == c.size() ? " different" : ""));
          if (!ok && valid && !faults)
            sim::Fail("write-refused", "WriteFile reported failure although nothing failed");
          if (!ok)
            sim::Probe("write reported failure");
        } else if (o.verb == "read") {
          {
            sim::NoSim ns;
            bool ok;
            w->held[sim::Tid()].clear();
            std::string cur = io::Slurp(path, &ok);
            if (ok)
              w->held[sim::Tid()].push_back(cur);
            w->reading[sim::Tid()] = path;
          }
          f0 = io::Faults();
          auto res = maidsafe::ReadFile(path);
          sim::NoSim ns;
          bool faults = io::Faults() != f0;
          w->reading.erase(sim::Tid());
          auto& held = w->held[sim::Tid()];
          bool exists = !held.empty() && valid;
          sim::Log("read %s -> %s", path.c_str(), res ? Str("%zu bytes", res->size()).c_str() : "error");
          if (res) {
            std::string got(res->begin(), res->end());
            bool match = false;
            for (auto& x : held)
              match |= got == x;
            if (!match)
              sim::Fail("read-wrong", Str("ReadFile of %s succeeded with %zu bytes the file never held", path.c_str(), got.size()));
          } else if (exists && !faults && held.size() == 1) {
            sim::Fail("read-refused", "ReadFile reported failure although nothing failed");
          } else if (exists) {
            sim::Probe("read reported failure");
          }
        } else if (o.verb == "put") {
          sim::NoSim ns;
          if (valid)
            io::Spit(path, Bytes(o.a[1], o.a[2]));
        } else if (o.verb == "rm") {
          sim::NoSim ns;
          if (valid)
            ::unlink(path.c_str());
        }
        if (int n = io::OpenFds())
          if (threads == 1)
            sim::Fail("descriptor-leak", Str("%d descriptors left open", n));
      }
    });
  for (auto& t : ts)
    t.join();
  if (io::OpenFds())
    sim::Fail("descriptor-leak", "descriptors left open");
}

// ---------------------------------------------------------------------------------------- C37
// Path 0..2: files or directories; 3: below a directory which doesn't exist; 4: below a file.
std::string OptionPath(int i) {
  static const char* const kNames[] = {"a", "b", "d/c", "x/y", "f/z", ""};
  return kNames[i];
}
struct Disk {
  std::map<std::string, std::string> content;  // what files hold which others have put there
  std::map<int, std::string> looking;          // tid -> path
  std::map<int, std::set<char>> seen;          // tid -> states of it during the call: f(ile), d(irectory), n(one)
};
Disk* g_disk;
char StateOf(const std::string& path) {
  struct stat st;
  if (path.empty() || syscall(SYS_lstat, path.c_str(), &st))
    return 'n';
  return S_ISDIR(st.st_mode) ? 'd' : S_ISREG(st.st_mode) ? 'f' : 'o';
}
void GenOption(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.6);
  if (p.P("faults")) {
    double q = Pick(r, {0.02, 0.1, 0.3});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_CLOSE] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_META] = r.Chance(0.8) ? q : 0;
  }
  c.prob[sim::K_WFAULT1] = r.Chance(0.4) ? 0.2 : 0;
  int n = static_cast<int>(r.Range(2, 14));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    int64_t f = r.Below(r.Chance(0.8) ? 3 : 6);
    if (r.Chance(0.7))
      p.ops.push_back(Line(t, "option", {f, r.Chance(0.4), r.Chance(0.6), r.Chance(0.05)}));
    else
      p.ops.push_back(Line(t, "other", {f, static_cast<int64_t>(r.Below(4)), i}));
  }
  c.max_steps = 2000000;
}
// Somebody else creates or removes a path: 0 a file with content, 1 an empty file, 2 a directory, 3 nothing.
void Other(const std::string& path, int kind, int id) {
  char was = StateOf(path);
  if (path.empty() || StateOf(path.substr(0, std::max<size_t>(1, path.rfind('/') == std::string::npos ? 0 : path.rfind('/')))) == 'f')
    return;
  if (was == 'd' && !io::List(path).empty())
    return;
  if (kind < 2) {
    if (was == 'd')
      ::rmdir(path.c_str());
    std::string c = kind ? "" : Bytes(id, 1 + id % 50);
    if (io::Spit(path, c))
      g_disk->content[path] = c;
  } else if (kind == 2) {
    if (was == 'f' && path != "f")
      ::unlink(path.c_str());
    ::mkdir(path.c_str(), 0700);
    g_disk->content.erase(path);
  } else {
    if (was == 'f')
      ::unlink(path.c_str());
    else if (was == 'd')
      ::rmdir(path.c_str());
    g_disk->content.erase(path);
  }
  for (auto& l : g_disk->looking)
    if (l.second == path)
      g_disk->seen[l.first].insert(StateOf(path));
}
void CheckContents() {
  for (auto& c : g_disk->content) {
    bool ok;
    std::string now = io::Slurp(c.first, &ok);
    if (!ok || now != c.second)
      sim::Fail("content-lost", Str("the file %s held %zu bytes, which are %s now", c.first.c_str(), c.second.size(),
                                    ok ? "changed" : "gone"));
  }
}
void RunOption(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_disk = new Disk;
    mkdir("d", 0700);
    io::Spit("f", "content");
    g_disk->content["f"] = "content";
    io::g_after = [](const char* op, const std::string& path) {
      for (auto& l : g_disk->looking)
        if (l.second == path)
          g_disk->seen[l.first].insert(StateOf(path));
      auto it = g_disk->looking.find(sim::Tid());
      if (it != g_disk->looking.end() && it->second == path)
        if (uint32_t v = sim::Choose(sim::K_WFAULT1, 4)) {
          Other(path, v - 1, 1 + sim::Data(100));
          sim::Probe("somebody else created the path meanwhile");
        }
    };
  }
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        std::string path;
        {
          sim::NoSim ns;
          path = OptionPath(static_cast<int>(o.a[0]));
        }
        if (o.verb == "other") {
          sim::SyncPoint("other");
          sim::NoSim ns;
          Other(path, static_cast<int>(o.a[1]), static_cast<int>(o.a[2]) + 1);
          continue;
        }
        bool dir = o.a[1] != 0, create = o.a[2] != 0;
        boost::program_options::variables_map vm;
        if (!o.a[3])
          vm.insert(std::make_pair(std::string("path"), boost::program_options::variable_value(boost::any(path), false)));
        uint64_t f0;
        bool before;
        {
          sim::NoSim ns;
          f0 = io::Faults();
          before = StateOf(path) != 'n';
          g_disk->looking[sim::Tid()] = path;
          g_disk->seen[sim::Tid()].clear();
          g_disk->seen[sim::Tid()].insert(StateOf(path));
        }
        std::string got;
        try {
          got = maidsafe::GetPathFromProgramOptions("path", vm, dir, create).string();
        } catch (const std::exception& e) {
          sim::NoSim ns;
          sim::Fail("threw", std::string("taking a path from the options threw: ") + e.what());
        }
        sim::NoSim ns;
        auto& seen = g_disk->seen[sim::Tid()];
        seen.insert(StateOf(path));
        g_disk->looking.erase(sim::Tid());
        sim::Log("option %s dir=%d create=%d -> '%s'", path.c_str(), dir, create, got.c_str());
        bool quiet = seen.size() == 1;  // nobody changed it
        if (!got.empty()) {
          if (got != path || o.a[3])
            sim::Fail("wrong-path", "the option is '" + path + "', returned was '" + got + "'");
          if (!seen.count(dir ? 'd' : 'f'))
            sim::Fail("unusable", "the path '" + got + "' was returned, which isn't what was asked for");
          sim::Probe("returned");
        } else if (!o.a[3] && io::Faults() == f0 && threads == 1 && !path.empty()) {
          if (quiet && seen.count(dir ? 'd' : 'f'))
            sim::Fail("refused", "the usable path '" + path + "' was refused");
          if (quiet && create && !before && o.a[0] < (dir ? 4 : 3))
            sim::Fail("not-created", "the path '" + path + "' was not created");
        }
        if (!create && !before && threads == 1 && !g_disk->content.count(path) && StateOf(path) == 'f')
          sim::Fail("created", "the path '" + path + "' was created although that wasn't allowed");
        CheckContents();
      }
    });
  for (auto& t : ts)
    t.join();
  if (io::OpenFds())
    sim::Fail("descriptor-leak", "descriptors left open");
}

sim::Registrar r37({"C37", GenOption, RunOption,
                    "one simulated run of 1-3 threads taking paths from program options while file operations fail and others create and "
                    "remove the same paths; non-trivial: at least two context switches or a fault",
                    {"maidsafe::GetPathFromProgramOptions", "boost::filesystem", "libstdc++ file streams"},
                    {"system calls of the file system (real files behind a fault-injecting layer)"},
                    40000, 500000});
sim::Registrar r1({"C10", Gen, Run,
                   "one simulated run of concurrent WriteFile/ReadFile calls on real files with injected errors, "
                   "short, torn and interrupted operations, compared with what the files hold; non-trivial: at "
                   "least two context switches or a fault; distinct by hash of the whole event and decision sequence",
                   {"maidsafe::ReadFile", "maidsafe::WriteFile", "libstdc++ file streams", "boost::filesystem"},
                   {"system calls of the file system (real files behind a fault-injecting layer)"},
                   30000, 300000});
}  // namespace
