// C22: logging from many threads to console, combined and project files, synchronous and asynchronous.
#include <stdio.h>
#include <sys/stat.h>

#include <iostream>

#include "maidsafe/common/log.h"

#include "../sim/io.h"
#include "../sim/sys.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;
namespace lg = maidsafe::log;
using lg::Logging;

const char* const kProjects[] = {"api", "common", "crux", "drive", "encrypt", "launcher",
                                 "nfs", "passport", "routing", "vault", "vault_manager", "other"};
const int kNumProjects = 12;
const char kLevels[] = "VISWEA";  // level + 1

// How the source file of a message of a project is called; what of it appears in the message.
struct Source {
  std::string path, shown, project;
};
Source SourceOf(int project, int form) {
  std::string p = kProjects[project];
  switch (form) {
    case 0:
    default:
      return {"/home/me/MaidSafe/src/" + p + "/src/maidsafe/" + p + "/foo.cc", p + "/foo.cc", p};
    case 1:
      return {"/MaidSafe/src/" + p + "/include/maidsafe/" + p + "/detail/bar.h", p + "/detail/bar.h", p};
    case 2:
      return {"C:\\MaidSafe\\src\\" + p + "\\src\\maidsafe\\" + p + "\\sub\\baz.cc", p + "/sub/baz.cc", p};
    case 3:
      return {"elsewhere/" + p + "/x.cc", "elsewhere/" + p + "/x.cc", "common"};
  }
}

void Gen(Rng& r, Program& p, Config& c) {
  bool faults = r.Chance(0.4);
  p.params["faults"] = faults;
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["sync"] = r.Chance(0.5);
  p.params["colour"] = static_cast<int64_t>(r.Below(3));
  p.params["console"] = r.Chance(0.75);
  p.params["tty"] = r.Chance(0.3);
  p.params["folder"] = Pick<int64_t>(r, {0, 1, 1, 1, 1, 2, 2, 3});  // none, new, existing, a file
  p.params["config"] = r.Chance(0.3);                             // levels in a configuration file
  p.params["inits"] = r.Chance(0.2) ? threads : 0;                // every thread initialises
  p.params["spell"] = static_cast<int64_t>(r.Below(4));  // how levels are spelt
  p.params["extra"] = r.Chance(0.5) ? static_cast<int64_t>(r.Below(8)) : 0;  // arguments which aren't for logging
  p.params["wide"] = r.Chance(0.2);
  // Filter: all projects at one level (log_*), or some projects.
  p.params["all"] = r.Chance(0.35) ? r.Range(-1, 4) : -5;
  if (p.P("all") == -5) {
    int n = static_cast<int>(Pick<int64_t>(r, {0, 1, 1, 2, 3, 5}));
    for (int i = 0; i < n; ++i)
      p.params[Str("lvl%d", static_cast<int>(r.Below(11)))] = r.Range(-1, 4);
  }
  std::vector<int64_t> favourites;
  for (int i = 0; i < 11; ++i)
    if (p.params.count(Str("lvl%d", i)))
      favourites.push_back(i);
  int n = static_cast<int>(r.Chance(0.02) ? r.Range(60, 200) : r.Range(1, 16));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    double u = r.Unit();
    int64_t size = r.Chance(0.1) ? r.Range(7000, 20000) : r.Chance(0.1) ? 0 : r.Range(1, 200);
    if (r.Chance(0.02))
      size = (int64_t{1} << r.Range(9, 17)) + r.Range(-120, 20);
    if (u < 0.7)
      p.ops.push_back(Line(t, "log",
                           {!favourites.empty() && r.Chance(0.7) ? favourites[r.Below(favourites.size())]
                                                                 : static_cast<int64_t>(r.Below(kNumProjects)),
                            r.Chance(0.6) ? r.Range(2, 4) : r.Range(-1, 4), size,
                            r.Chance(0.7) ? 0 : static_cast<int64_t>(r.Below(4)), static_cast<int64_t>(r.Below(6))}));
    else if (u < 0.85)
      p.ops.push_back(Line(t, "tlog", {static_cast<int64_t>(r.Below(5)), size, static_cast<int64_t>(r.Below(6))}));
    else if (u < 0.95)
      p.ops.push_back(Line(t, "flush"));
    else
      p.ops.push_back(Line(t, "sleep", {r.Range(1, 1500000)}));
  }
  if (faults) {
    double q = Pick(r, {0.01, 0.05, 0.2});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.4) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.8) ? q : 0;
    c.prob[sim::K_IO_CLOSE] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_META] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_SYS] = r.Chance(0.15) ? 0.3 : 0;
  }
  c.prob[sim::K_IO_SLOW] = r.Chance(0.3) ? 0.1 : 0;
  c.max_steps = 400000;
}

struct Msg {
  bool test = false;      // TLOG
  int thread = 0, level = 0, colour = 0, order = 0;
  std::string project;
  std::string text;       // LOG: from the file name on; TLOG: everything
  std::string tid;
  uint64_t t0 = 0, t1 = 0;
  bool done = false;
};
struct W {
  std::vector<Msg> m;
  bool wall = true;
  std::string folder;
  bool tty = false;
  int colour_mode = 0;
};

std::string Filler(int64_t id, int64_t size, int64_t form) {
  std::string s = Bytes(id + 1000, size);
  for (auto& c : s)
    c = static_cast<char>('a' + static_cast<unsigned char>(c) % 26);
  if (form == 1)
    s += "%s%n%d %100x";
  if (form == 2)
    s = "line one " + s + "\nline two";
  if (form == 3)
    s += "\t\xc3\xa9\xff\x1b";
  return s;
}

const char* ColourCode(int colour) {  // Colour enum order
  static const char* const c[] = {"", "1", "2", "3", "6"};
  return c[colour];
}
int ColourOfLevel(int level) {
  static const int c[] = {4, 0, 2, 3, 1, 0};
  return c[level + 1];
}

// Splits what was written to a sink into messages; every deviation from a sequence of whole, properly
// formed messages fails.
struct Parsed {
  std::vector<int> ids;
};
bool ParseSink(const W& w, const std::string& s, bool console, const std::string& sink, Parsed* out,
           std::string* err) {
  size_t at = 0;
  auto bad = [&](const std::string& why) {
    *err = why + " in " + sink + " at offset " + std::to_string(at) + ": \"" +
           s.substr(at, 160) + "\"";
    return false;
  };
  while (at < s.size()) {
    size_t p = at;
    auto lit = [&](const std::string& x) {
      if (s.compare(p, x.size(), x))
        return false;
      p += x.size();
      return true;
    };
    std::string esc;
    if (console && s[p] == '\x1b') {
      size_t e = s.find('m', p);
      if (e == std::string::npos)
        return bad("torn colour sequence");
      esc = s.substr(p, e + 1 - p);
      p = e + 1;
    }
    int id = -1;
    const Msg* m = nullptr;
    if (!s.compare(p, 3, "<<T")) {
      id = atoi(s.c_str() + p + 3);
      if (id < 0 || id >= static_cast<int>(w.m.size()) || !w.m[id].test)
        return bad("unknown message");
      m = &w.m[id];
      std::string code = ColourCode(m->colour);
      if (console && w.tty && !code.empty() ? esc != "\x1b[0;3" + code + "m" : !esc.empty())
        return bad("message with the colour of another one");
      if (!lit(m->text))
        return bad("message not whole");
      if (console && w.tty && !code.empty() && !lit("\x1b[m"))
        return bad("message not whole (colour not reset)");
    } else {
      std::string prefix_at = s.substr(p, 300);
      char level = s[p];
      size_t q = s.find(' ', p + 2);
      if (q == std::string::npos || p + 2 > s.size() || s[p + 1] != ' ')
        return bad("not a whole message");
      std::string tid = s.substr(p + 2, q - p - 2);
      int y, mo, d, hh, mi, ss, len = 0;
      long sub;
      if (sscanf(s.c_str() + q + 1, "%4d-%2d-%2d %2d:%2d:%2d.%ld%n", &y, &mo, &d, &hh, &mi, &ss, &sub, &len) != 7)
        return bad("not a whole message");
      size_t end_prefix = q + 1 + len;
      size_t text_at = end_prefix;
      if (console && w.colour_mode == 1 && !esc.empty()) {
        if (s.compare(text_at, 3, "\x1b[m"))
          return bad("colour of the prefix not reset");
        text_at += 3;
      }
      size_t mark = s.find("] <<M", text_at);
      if (mark == std::string::npos || mark > text_at + 200)
        return bad("prefix without its message");
      id = atoi(s.c_str() + mark + 5);
      if (id < 0 || id >= static_cast<int>(w.m.size()) || w.m[id].test)
        return bad("unknown message");
      m = &w.m[id];
      p = text_at;
      if (!lit(m->text))
        return bad("message not whole or mixed with another one");
      if (level != kLevels[m->level + 1] || tid != m->tid)
        return bad("message with the level or thread of another one");
      std::string code = ColourCode(ColourOfLevel(m->level));
      bool coloured = console && w.tty && w.colour_mode != 0 && !code.empty();
      if (coloured ? esc != "\x1b[0;3" + code + "m" : !esc.empty())
        return bad("message with the colour of another one");
      if (coloured && w.colour_mode == 2 && !lit("\x1b[m"))
        return bad("message not whole (colour not reset)");
      if (w.wall) {
        tm x;
        memset(&x, 0, sizeof x);
        x.tm_year = y - 1900, x.tm_mon = mo - 1, x.tm_mday = d;
        x.tm_hour = hh, x.tm_min = mi, x.tm_sec = ss;
        uint64_t t = static_cast<uint64_t>(timegm(&x)) * 1000000000ull + sub;
        if (t < m->t0 || t > m->t1)
          return bad("message with a time at which it was not logged");
      }
    }
    if (m->done || m->t0)
      out->ids.push_back(id);
    at = p;
  }
  return true;
}

// The messages a sink must hold: exactly once each, those of a thread in order.
void CheckSink(const W& w, const std::string& sink, const std::string& content, bool console, bool broken,
               const std::function<bool(const Msg&)>& wanted) {
  Parsed got;
  std::string err;
  if (!ParseSink(w, content, console, sink, &got, &err)) {
    if (!broken)
      sim::Fail("message-damaged", err);
  }
  std::map<int, int> count;
  std::map<int, int> last;
  for (int id : got.ids) {
    const Msg& m = w.m[id];
    if (!wanted(m))
      sim::Fail("wrong-sink", "message " + std::to_string(id) + " (level " + std::to_string(m.level) +
                                  ", project " + m.project + ") was written to " + sink);
    if (broken)
      continue;
    if (++count[id] > 1)
      sim::Fail("duplicate-message", "message " + std::to_string(id) + " was written twice to " + sink);
    auto it = last.find(m.thread);
    if (it != last.end() && it->second > m.order)
      sim::Fail("misordered", "message " + std::to_string(id) + " of thread " + std::to_string(m.thread) +
                                  " follows a later one in " + sink);
    last[m.thread] = m.order;
  }
  if (broken) {
    sim::Probe("sink failed");
    return;
  }
  int n = 0;
  for (size_t id = 0; id < w.m.size(); ++id)
    if (w.m[id].done && wanted(w.m[id])) {
      ++n;
      if (!count.count(static_cast<int>(id)))
        sim::Fail("message-lost", "message " + std::to_string(id) + " (level " + std::to_string(w.m[id].level) +
                                      ", project " + w.m[id].project + ") is missing from " + sink);
    }
  if (n > 1)
    sim::Probe(console ? "console checked" : "file checked");
}

void Run(const Program& p) {
  std::vector<Op> ops;
  W* w;
  int threads = static_cast<int>(p.P("threads"));
  char* out = nullptr;
  size_t out_size = 0;
  FILE* real_stdout = stdout;
  std::ostringstream* cout_sink;
  std::streambuf* old_cout;
  std::vector<std::string>* args;
  std::vector<std::string>* rest;  // arguments which aren't for logging
  std::map<std::string, int>* levels;
  bool sync = p.P("sync") != 0;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new W;
    args = new std::vector<std::string>;
    rest = new std::vector<std::string>;
    levels = new std::map<std::string, int>;
    w->m.resize(ops.size());
    w->tty = p.P("tty") != 0;
    w->colour_mode = static_cast<int>(p.P("colour"));
    setenv("TERM", "xterm", 1);
    stdout = open_memstream(&out, &out_size);
    sim::sys::g_stdout_simulated = true;
    sim::sys::g_stdout_tty = w->tty;
    cout_sink = new std::ostringstream;
    old_cout = std::cout.rdbuf(cout_sink->rdbuf());
    args->push_back("prog");
    if (sync)
      args->push_back("--log_no_async");
    if (!p.P("console"))
      args->push_back("--log_no_console");
    args->push_back(Str("--log_colour_mode=%d", w->colour_mode));
    args->push_back("--log_config=log.ini");
    std::string folder = p.P("folder") ? sim::Scratch() + "/logs" : "";
    if (p.P("folder") == 2)
      mkdir(folder.c_str(), 0700);
    if (p.P("folder") == 3)
      io::Spit(folder, "a file");
    args->push_back("--log_folder");
    args->push_back(folder);
    if (p.P("folder") != 3)
      w->folder = folder;
    std::string ini;
    auto level = [&](const std::string& project, int l) {
      static const char* const forms[][4] = {{"V", "verbose", "kVerbose", "-1"}, {"i", "Info", "kInfo", "0"},
                                             {"S", "SUCCESS", "kSuccess", "1"},  {"w", "Warning", "kWarning", "2"},
                                             {"E", "error", "KERROR", "3"},      {"a", "always", "kAlways", "4"}};
      std::string v = forms[l + 1][(p.P("spell") + project.size()) % 4];
      if (p.P("config") && (project.size() & 1))
        ini += "log_" + project + " = " + v + "\n";
      else if (v[0] == '-')
          args->push_back("--log_" + project + "=" + v);
        else
          args->push_back("--log_" + project), args->push_back(v);
    };
    if (p.P("all") != -5) {
      level("*", static_cast<int>(p.P("all")));
      for (int i = 0; i < 11; ++i)
        (*levels)[kProjects[i]] = static_cast<int>(p.P("all"));
    }
    for (int i = 0; i < 11; ++i)
      if (p.params.count(Str("lvl%d", i))) {
        level(kProjects[i], static_cast<int>(p.P(Str("lvl%d", i))));
        (*levels)[kProjects[i]] = static_cast<int>(p.P(Str("lvl%d", i)));
      }
    if (!ini.empty())
      io::Spit("log.ini", ini);
    static const char* const extras[] = {"leftover", "--unknown_option", "--unknown=3"};
    for (int i = 0; i < 3; ++i)
      if (p.P("extra") >> i & 1) {
        args->insert(args->begin() + 1 + (i == 1 ? 0 : args->size() / 2 % 2), extras[i]);
        rest->push_back(extras[i]);
      }
  }
  // An argument as it is given back, with the 0 at its end.
  auto text = [](const auto& v) {
    std::string t(v.begin(), v.end());
    if (t.empty() || t.back())
      sim::Fail("arguments-lost", "an argument given back isn't terminated");
    t.pop_back();
    return t;
  };
  auto init = [&] {
    std::vector<char*> argv;
    for (auto& a : *args)
      argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    std::vector<std::string> unused;
    if (!p.P("wide")) {
      for (auto& u : Logging::Instance().Initialise(static_cast<int>(args->size()), argv.data()))
        unused.push_back(text(u));
    } else {
      std::vector<std::wstring> wargs;
      for (auto& a : *args)
        wargs.emplace_back(a.begin(), a.end());
      std::vector<wchar_t*> wargv;
      for (auto& a : wargs)
        wargv.push_back(&a[0]);
      wargv.push_back(nullptr);
      for (auto& u : Logging::Instance().Initialise(static_cast<int>(wargs.size()), wargv.data()))
        unused.push_back(text(u));
    }
    return unused;
  };
  uint64_t f0 = sim::FaultsFired();
  bool each = p.P("inits") != 0;
  std::vector<std::string> unused;
  if (!each)
    unused = init();
  bool init_faults = sim::FaultsFired() != f0;
  if (!each && !init_faults) {
    sim::NoSim ns;
    if (!unused.empty())
      unused.erase(unused.begin());  // the program
    std::sort(unused.begin(), unused.end());
    std::sort(rest->begin(), rest->end());
    if (unused != *rest)
      sim::Fail("arguments-lost", Str("%zu arguments which aren't for logging were given back, not %zu", unused.size(), rest->size()));
  }
  sim::SetFaultsEnabled(false);  // the threads of the program can be created
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      if (each)
        init();
      std::string tid;
      {
        std::ostringstream os;
        os << std::this_thread::get_id();
        sim::NoSim ns;
        tid = os.str();
      }
      int order = 0;
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        Msg& m = w->m[o.index];
        if (o.verb == "log" || o.verb == "tlog") {
          Source src;
          std::string text;
          {
            sim::NoSim ns;
            m.thread = t;
            m.order = ++order;
            m.tid = tid;
            if (o.verb == "log") {
              src = SourceOf(static_cast<int>(o.a[0]), static_cast<int>(o.a[3]));
              m.level = static_cast<int>(o.a[1]);
              m.project = src.project;
              text = Str("<<M%d>>", o.index) + Filler(o.index, o.a[2], o.a[4]);
              m.text = Str(" %s:%d] ", src.shown.c_str(), 100 + o.index) + text + "\n";
            } else {
              m.test = true;
              m.colour = static_cast<int>(o.a[0]);
              text = Str("<<T%d>>", o.index) + Filler(o.index, o.a[1], o.a[2]) + "\n";
              m.text = text;
            }
            m.t0 = sim::WallNs();
            m.t1 = ~0ull;
          }
          if (m.test)
            lg::TestLogMessage(static_cast<lg::Colour>(m.colour)).MessageStream() << text;
          else
            lg::detail::LogMessage(src.path.c_str(), m.level) =
                lg::detail::OstreamBinder<void, void>() << ":" << 100 + o.index << "] " << text;
          m.t1 = sim::WallNs();
          m.done = true;
          if (sync && !w->folder.empty()) {
            // Written before the call returned (to be found even if the program dies now).
            sim::NoSim ns;
            const lg::FilterMap filter = Logging::Instance().Filter();
            auto it = filter.find(m.project);
            if (m.test || (it != filter.end() && it->second <= m.level)) {
              std::string tail = filter.size() != 1 ? "_combined.log" : "_" + filter.begin()->first + ".log";
              for (auto& f : io::List(w->folder)) {
                std::string path = w->folder + "/" + f;
                if (f.size() < 20 || f.substr(19) != tail || io::g_broken.count(path))
                  continue;
                if (io::Slurp(path).find(m.text) == std::string::npos)
                  sim::Fail("message-lost", "message " + std::to_string(o.index) + " is not in " + f +
                                                " although logging it synchronously has returned");
                sim::Probe("found on return");
              }
            }
          }
        } else if (o.verb == "flush") {
          Logging::Instance().Flush();
          sim::Probe("flush returned");
        } else {
          sim::SleepNs(o.a[0]);
        }
      }
    });
  sim::SetFaultsEnabled(true);
  for (auto& t : ts)
    t.join();
  if (each)
    init_faults = sim::FaultsFired() != f0;
  maidsafe::log::FilterMap filter = Logging::Instance().Filter();
  bool console = Logging::Instance().LogToConsole();
  {
    sim::NoSim ns;
    if (!init_faults) {
      if (console != (p.P("console") != 0))
        sim::Fail("option-ignored", "logging to the console is not as requested");
      if (filter.size() != levels->size() || !std::equal(filter.begin(), filter.end(), levels->begin()))
        sim::Fail("option-ignored", "log levels are not as requested");
      if (Logging::Instance().Async() == sync)
        sim::Fail("option-ignored", "asynchronous mode is not as requested");
    }
  }
  Logging::Instance().~Logging();
  sim::NoSim ns;
  fflush(stdout);
  std::string con(out, out_size);
  fclose(stdout);
  stdout = real_stdout;
  sim::sys::g_stdout_simulated = false;
  std::cout.rdbuf(old_cout);

  CheckSink(*w, "the console", con, true, false, [&](const Msg& m) {
    if (m.test)
      return true;
    auto it = filter.find(m.project);
    return console && it != filter.end() && it->second <= m.level;
  });
  if (w->folder.empty())
    return;
  std::map<std::string, std::string> files;  // project -> path
  for (auto& f : io::List(w->folder)) {
    // <date>_<time>_<project>.log
    if (f.size() < 25 || f[19] != '_' || f.substr(f.size() - 4) != ".log")
      sim::Fail("stray-file", "unexpected file " + f + " in the log folder");
    std::string name = f.substr(20, f.size() - 24);
    if (files.count(name))
      sim::Fail("stray-file", "two log files for " + name);
    files[name] = w->folder + "/" + f;
  }
  for (auto& f : files)
    if (f.first != "combined" ? !filter.count(f.first) : filter.size() == 1)
      sim::Fail("stray-file", "log file for " + f.first + ", which is not logged");
  auto check = [&](const std::string& name, const std::function<bool(const Msg&)>& wanted) {
    auto it = files.find(name);
    if (it == files.end()) {
      if (!sim::FaultsFired())
        sim::Fail("message-lost", "no log file for " + name);
      return;  // not created: the folder or the file could not be
    }
    CheckSink(*w, "the " + name + " file", io::Slurp(it->second), false, io::g_broken.count(it->second) != 0,
              wanted);
  };
  if (filter.size() != 1)
    check("combined", [&](const Msg& m) {
      if (m.test)
        return true;
      auto it = filter.find(m.project);
      return it != filter.end() && it->second <= m.level;
    });
  for (auto& f : filter)
    check(f.first, [&](const Msg& m) {
      if (m.test)
        return filter.size() == 1;
      return m.project == f.first && f.second <= m.level;
    });
}

sim::Property Make() {
  sim::Property q;
  q.id = "C22";
  q.generate = Gen;
  q.execute = Run;
  q.rule =
      "one evaluation is one run of a logging program: levels, sinks and mode are drawn, 1-4 threads log and "
      "flush, logging shuts down, and the content of every sink is compared with the messages logged; a run "
      "counts as non-trivial if at least two threads were interleaved";
  q.real = {"log.cc", "active.cc", "utils.cc", "config.cc", "libstdc++ streams", "boost program_options"};
  q.stub = {"thread scheduler", "stdio output to a memory stream", "write/open errors", "clock"};
  q.quick_runs = 25000;
  q.thorough_runs = 300000;
  return q;
}
sim::Registrar reg(Make());

}  // namespace
