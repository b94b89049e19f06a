// C45: the bootstrap file tool, its main() run on simulated input, files and logging.
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <streambuf>

#include "boost/asio/ip/udp.hpp"

#define main ToolMain
#include "maidsafe/common/tools/bootstrap_file_tool.cc"
#undef main

#include "../sim/io.h"
#include "../sim/sys.h"
#include "util.h"

#include "maidsafe/common/log.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/tools/bootstrap_file_tool_cereal.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;

const char* const kGoodEndpoints[] = {"10.0.0.1:5483", "192.168.12.45:64435", "1.2.3.4:1025", "255.255.255.255:65535",
                                      "10.0.0.1:5484", "100.200.30.4:10000"};
const char* const kBadEndpoints[] = {"", "1.2.3.4", "1.2.3.4:80", "1.2.3.4:65536", "1.2.3.400:5483", "0.0.0.0:5483", "1.2.3.4:",
                                     "1.2.3.4:abcde", "::1:5483555", "12345678", "1.2.3:54a83", "1.2.3.4:99999999999999"};
enum { kA, kB, kC, kAlias, kMissing, kNoParent, kDir, kNothing, kEmpty, kGarbage, kCut, kBadIp, kGood, kNone, kPaths };
const char* const kNames[] = {"/a.dat", "/b.dat", "/sub/c.dat", "/./a.dat", "/missing", "/no/x", "/sub", nullptr, "/empty",
                              "/garbage", "/cut", "/badip", "/good", "/none"};

void Gen(Rng& r, Program& p, Config& c) {
  bool faults = r.Chance(0.5);
  p.params["faults"] = faults;
  p.params["sync"] = r.Chance(0.4);
  p.params["nl"] = r.Chance(0.7);
  p.params["files"] = static_cast<int64_t>(r.Below(1000000));
  auto choice = [&](int64_t n) {
    while (r.Chance(0.06))
      p.ops.push_back(Line(0, "text", {static_cast<int64_t>(r.Below(6))}));
    p.ops.push_back(Line(0, "choice", {n}));
  };
  int n = static_cast<int>(r.Range(1, 14));
  for (int i = 0; i < n; ++i) {
    int64_t k = static_cast<int64_t>(r.Range(1, 6));
    if (r.Chance(0.05))
      k = 7;
    if (r.Chance(0.35))
      k = Pick<int64_t>(r, {1, 5, 6});
    choice(k);
    if (k == 1 || k == 5) {
      p.ops.push_back(Line(0, "path", {r.Chance(0.6) ? static_cast<int64_t>(r.Below(4)) : static_cast<int64_t>(r.Below(kPaths))}));
      while (r.Chance(0.4))
        p.ops.push_back(Line(0, "path", {r.Chance(0.7) ? kGood : static_cast<int64_t>(r.Below(kPaths))}));
    } else if (k <= 4) {
      while (r.Chance(0.1))
        p.ops.push_back(Line(0, "bad", {static_cast<int64_t>(r.Below(12))}));
      p.ops.push_back(Line(0, "good", {static_cast<int64_t>(r.Below(6))}));
    }
    if (r.Chance(0.3))
      p.ops.push_back(Line(0, "confirm", {static_cast<int64_t>(r.Below(4))}));
  }
  if (r.Chance(0.7)) {
    choice(6);
    choice(7);
    p.ops.push_back(Line(0, "confirm", {0}));
  }
  if (faults) {
    double q = Pick(r, {0.02, 0.1, 0.3});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_READ] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_CLOSE] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_IO_META] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_WFAULT2] = r.Chance(0.1) ? 0.05 : 0;  // input fails
  }
  c.max_steps = 400000;
}

std::string Text(const Op& o, const std::string& cwd) {
  static const char* const junk[] = {"", "8", "0", "abc", "-1", "99999999999999"};
  static const char* const yes[] = {"y", "n", "Y", ""};
  if (o.verb == "text")
    return junk[o.a[0]];
  if (o.verb == "choice")
    return std::to_string(o.a[0]);
  if (o.verb == "good")
    return kGoodEndpoints[o.a[0]];
  if (o.verb == "bad")
    return kBadEndpoints[o.a[0]];
  if (o.verb == "confirm")
    return yes[o.a[0]];
  return kNames[o.a[0]] ? cwd + kNames[o.a[0]] : "";
}

// One line per read, then the end.
struct In : std::streambuf {
  std::vector<std::string> lines;
  std::vector<uint64_t> faults;  // before each line
  std::string now;
  size_t next = 0;
  int after_end = 0;
  bool nl = true, with_faults = false;
  int_type underflow() override {
    sim::NoSim ns;
    if (next < lines.size() && sim::Choose(sim::K_WFAULT2, 2)) {
      lines.resize(next);
      ++after_end;
      throw std::ios_base::failure("simulated read error");
    }
    if (next + 1 == lines.size() && !nl && lines.back().empty())
      lines.pop_back();
    if (next >= lines.size()) {
      if (++after_end > 300)
        sim::Fail("endless-loop", "input is read again and again although it has ended");
      return traits_type::eof();
    }
    if (next == 0)
      sim::SetFaultsEnabled(with_faults);
    faults.push_back(sim::FaultsFired());
    now = lines[next++];
    if (nl || next < lines.size())
      now += '\n';
    setg(&now[0], &now[0], &now[0] + now.size());
    return traits_type::to_int_type(*gptr());
  }
  int_type uflow() override {
    int_type c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof()))
      gbump(1);
    return c;
  }
};

using List = std::vector<std::string>;
struct Token {
  std::string kind;
  List list;
};
bool Has(const std::string& s, const char* what) { return s.find(what) != std::string::npos; }
std::vector<Token> Tokens(const std::string& out) {
  std::vector<Token> t;
  std::istringstream is(out);
  std::string l;
  bool listing = false;
  while (std::getline(is, l)) {
    if (Has(l, "Enter a single digit"))
      t.push_back({"retry", {}});
    for (size_t at; (at = l.find(">> ")) != std::string::npos;)
      l = l.substr(at + 3);
    if (listing && l.size() > 8 && isdigit(l[0]) && Has(l, ":")) {
      t.back().list.push_back(l);
      continue;
    }
    listing = false;
    auto starts = [&](const char* w) { return l.compare(0, strlen(w), w) == 0; };
    auto rest = [&](const char* w) { return l.substr(strlen(w)); };
    for (const char* w : {"Loaded ", "Saved ", "Failed to write to ", "Prepended ", "Appended ", "Removed "})
      if (starts(w))
        t.push_back({std::string(w).substr(0, strlen(w) - 1), {rest(w)}});
    if (starts("Exception while loading ") || Has(l, "doesn't parse.") || Has(l, "doesn't contain any endpoints."))
      t.push_back({"not loaded", {Has(l, "any endpoints") ? "empty" : ""}});
    else if (Has(l, " is not one of the loaded endpoints."))
      t.push_back({"unknown", {l.substr(0, l.find(' '))}});
    else if (starts("Current endpoints:"))
      t.push_back({"list", {}}), listing = true;
    else if (starts("Currently no endpoints"))
      t.push_back({"list", {}});
    else if (starts("The loaded bootstrap endpoints have changed"))
      t.push_back({"confirm", {}});
    else if (Has(l, "doesn't exist.") || Has(l, "isn't a regular file.") || Has(l, "is not a valid endpoint"))
      t.push_back({"retry", {}});
  }
  return t;
}

std::string Encode(const List& l, const char* bad = nullptr) {
  maidsafe::detail::BootstrapCereal b;
  for (auto& e : l) {
    b.bootstrap_contacts_.emplace_back();
    b.bootstrap_contacts_.back().ip_ = e.substr(0, e.find(':'));
    b.bootstrap_contacts_.back().port_ = atoi(e.substr(e.find(':') + 1).c_str());
  }
  if (bad) {
    b.bootstrap_contacts_.emplace_back();
    b.bootstrap_contacts_.back().ip_ = bad;
    b.bootstrap_contacts_.back().port_ = 5483;
  }
  auto v = maidsafe::Serialise(b);
  return std::string(v.begin(), v.end());
}
bool Decode(const std::string& s, List* l) {
  try {
    maidsafe::detail::BootstrapCereal b;
    maidsafe::Parse(maidsafe::SerialisedData(s.begin(), s.end()), b);
    l->clear();
    for (auto& c : b.bootstrap_contacts_)
      l->push_back(c.ip_ + ":" + std::to_string(c.port_));
    return true;
  } catch (...) {
    return false;
  }
}

// What a file may hold: lists of endpoints, or something which isn't one.
struct File {
  std::set<List> lists;
  bool other = false, perhaps_absent = false;
  bool exists() const { return other || !lists.empty(); }
};

std::string Show(const List& l) {
  std::string s = "{";
  for (auto& e : l)
    s += " " + e;
  return s + " }";
}

void Check(const In& in, const std::vector<Token>& t, std::map<std::string, File> files, const std::string& cwd, uint64_t last) {
  enum { kChoice, kLoad, kPre, kApp, kRem, kSave, kSure, kSureExit, kOver } state = kChoice;
  std::set<List> now = {List()};
  bool dirty = false;
  std::string loading;
  size_t k = 0;
  auto next = [&](const std::string& after) -> Token {
    if (k >= t.size())
      sim::Fail("no-answer", "nothing is printed after \"" + after + "\"");
    return t[k++];
  };
  auto want = [&](const std::string& after, const std::string& kind, const std::string& arg = "") {
    Token x = next(after);
    if (x.kind != kind || (!arg.empty() && (x.list.empty() || x.list[0] != arg)))
      sim::Fail("wrong-answer", "after \"" + after + "\" there is \"" + x.kind + " " + (x.list.empty() ? "" : x.list[0]) + "\" instead of \"" +
                                    kind + " " + arg + "\"");
  };
  auto keep = [&](std::function<bool(const List&)> f, const std::string& why) {
    std::set<List> out;
    for (auto& l : now)
      if (f(l))
        out.insert(l);
    if (out.empty())
      sim::Fail("wrong-endpoints", why + "; the endpoints should be " + Show(*now.begin()));
    now = out;
  };
  auto load = [&](const std::string& line, bool failed) {
    Token x = next(line);
    File& f = files[loading];
    std::set<List> good;
    for (auto& l : f.lists)
      if (!l.empty())
        good.insert(l);
    if (x.kind == "Loaded") {
      if (good.empty())
        sim::Fail("loaded-nothing", "\"" + line + "\" is said to be loaded although it holds no endpoints");
      now = good;
      dirty = false;
      sim::Probe("loaded");
    } else if (x.kind == "not loaded") {
      if (!failed && !f.other && f.lists.size() == good.size())
        sim::Fail("not-loaded", "\"" + line + "\" isn't loaded although nothing failed");
      if (failed)
        sim::Probe("loading failed");
    } else {
      sim::Fail("wrong-answer", "after loading \"" + line + "\": " + x.kind);
    }
    state = kChoice;
  };
  for (size_t i = 0; i < in.faults.size(); ++i) {
    const std::string& line = in.lines[i];
    bool failed = (i + 1 < in.faults.size() ? in.faults[i + 1] : last) != in.faults[i];
    std::string key = line.find("/./") != std::string::npos ? cwd + "/a.dat" : line;
    switch (state) {
      case kOver:
        sim::Fail("exit-ignored", "input is read after the exit was chosen");
        break;
      case kChoice: {
        long c = strtol(line.c_str(), nullptr, 10);  // a leading number is enough
        if (c < 1 || c > 7) {
          want(line, "retry");
          break;
        }
        if (c == 6) {
          Token x = next(line);
          if (x.kind != "list")
            sim::Fail("wrong-answer", "endpoints aren't listed but: " + x.kind);
          keep([&](const List& l) { return l == x.list; }, "listed are " + Show(x.list));
          sim::Probe("listed");
        } else if (c == 7) {
          if (dirty)
            want(line, "confirm");
          state = dirty ? kSureExit : kOver;
        } else {
          state = c == 1 ? kLoad : c == 2 ? kPre : c == 3 ? kApp : c == 4 ? kRem : kSave;
        }
        break;
      }
      case kLoad:
      case kSave: {
        std::string parent = key.substr(0, key.find_last_of('/') == std::string::npos ? 0 : key.find_last_of('/'));
        bool good = parent == cwd || parent == cwd + "/sub";
        if (state == kLoad)
          good = good && files.count(key) && files[key].exists();
        if (!good || ((failed || (state == kLoad && files[key].perhaps_absent)) && k < t.size() && t[k].kind == "retry")) {
          want(line, "retry");
          break;
        }
        if (state == kLoad) {
          loading = key;
          if (dirty) {
            want(line, "confirm");
            state = kSure;
          } else {
            load(line, failed);
          }
          break;
        }
        Token x = next(line);
        File& f = files[key];
        if (x.kind == "Saved") {
          f.lists = now;
          f.other = f.perhaps_absent = false;
          dirty = false;
        } else if (x.kind == "Failed to write to") {
          if (!failed && key != cwd + "/sub")
            sim::Fail("not-saved", "\"" + line + "\" isn't saved although nothing failed");
          if (key == cwd + "/sub") {
            files.erase(key);
          } else {
            f.perhaps_absent |= !f.exists();
            f.lists.insert(now.begin(), now.end());
            f.other = true;
            sim::Probe("saving failed");
          }
        } else {
          sim::Fail("wrong-answer", "after saving \"" + line + "\": " + x.kind);
        }
        state = kChoice;
        break;
      }
      case kPre:
      case kApp:
      case kRem: {
        bool ok = false;
        for (auto g : kGoodEndpoints)
          ok |= line == g;
        if (!ok) {
          want(line, "retry");
          break;
        }
        if (state == kRem) {
          Token x = next(line);
          bool there = x.kind == "Removed";
          if ((!there && x.kind != "unknown") || x.list[0] != line)
            sim::Fail("wrong-answer", "after removing \"" + line + "\": " + x.kind);
          keep([&](const List& l) { return there == (std::find(l.begin(), l.end(), line) != l.end()); },
               there ? "an endpoint was removed which wasn't there" : "an endpoint isn't found");
          std::set<List> out;
          for (auto l : now) {
            auto it = std::find(l.begin(), l.end(), line);
            if (it != l.end())
              l.erase(it);
            out.insert(l);
          }
          now = out;
          dirty |= there;
        } else {
          want(line, state == kPre ? "Prepended" : "Appended", line);
          std::set<List> out;
          for (auto l : now) {
            l.insert(state == kPre ? l.begin() : l.end(), line);
            out.insert(l);
          }
          now = out;
          dirty = true;
        }
        state = kChoice;
        break;
      }
      case kSure:
      case kSureExit: {
        bool yes = line == "y" || line == "Y";
        if (state == kSureExit) {
          state = yes ? kOver : kChoice;
        } else if (yes) {
          load(line, failed);
        } else {
          state = kChoice;
        }
        break;
      }
    }
  }
  bool ended = in.next >= in.lines.size();
  if (state != kOver && !(ended && in.after_end > 0))
    sim::Fail("exited", "the tool ends although that wasn't chosen");
  if (state == kOver && in.after_end > (in.nl ? 0 : 1))
    sim::Fail("exit-ignored", "input is read after the exit was chosen");
  for (; k < t.size(); ++k)
    if (t[k].kind != "retry" && t[k].kind != "confirm")
      sim::Fail("wrong-answer", "\"" + t[k].kind + "\" is printed without a reason");
  for (auto& f : files) {
    bool ok;
    std::string bytes = io::Slurp(f.first, &ok);
    List l;
    if (f.second.other || !f.second.exists())
      continue;
    if (!Decode(bytes, &l) || !f.second.lists.count(l))
      sim::Fail("wrong-file", f.first + " doesn't hold the endpoints saved to it");
  }
  sim::Log("over, %zu files", files.size());
}

void Run(const Program& p) {
  std::string cwd;
  In in;
  std::map<std::string, File> files;
  char* out = nullptr;
  size_t out_size = 0;
  FILE* real_stdout = stdout;
  std::streambuf* real_cin;
  std::vector<std::string> args;
  std::vector<char*> argv;
  {
    sim::NoSim ns;
    char b[4096];
    cwd = getcwd(b, sizeof b);
    setenv("TMPDIR", cwd.c_str(), 1);
    mkdir((cwd + "/sub").c_str(), 0700);
    for (auto& o : Parse(p))
      in.lines.push_back(Text(o, cwd));
    in.nl = p.P("nl");
    int64_t f = p.P("files");
    auto pick = [&](int n) {
      List l;
      for (int i = 0; i < n; ++i)
        l.push_back(kGoodEndpoints[sim::Mix(f, i) % 6]);
      return l;
    };
    auto add = [&](int which, const std::string& bytes, const List* l) {
      std::string path = cwd + kNames[which];
      io::Spit(path, bytes);
      if (l)
        files[path].lists.insert(*l);
      else
        files[path].other = true;
    };
    List good = pick(1 + f % 4), none;
    add(kGood, Encode(good), &good);
    add(kNone, Encode(none), &none);
    add(kEmpty, "", nullptr);
    std::string bytes = Encode(pick(3));
    add(kCut, bytes.substr(0, bytes.size() - 1 - f % 20), nullptr);
    std::string garbage = Bytes(f, 1 + f % 7);
    add(kGarbage, garbage, nullptr);
    add(kBadIp, Encode(pick(f % 3), "1.2.3"), nullptr);
    args = {"tool", "--log_no_console", "--log_config=log.ini", "--log_colour_mode=0", "--log_folder", ""};
    if (p.P("sync"))
      args.push_back("--log_no_async");
    for (auto& a : args)
      argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    sim::sys::g_stdout_simulated = true;
    stdout = open_memstream(&out, &out_size);
    real_cin = std::cin.rdbuf(&in);
    std::cin.clear();
  }
  in.with_faults = p.P("faults") != 0;
  sim::SetFaultsEnabled(false);
  int code = -1;
  try {
    code = ToolMain(static_cast<int>(args.size()), argv.data());
  } catch (const std::exception& e) {
    sim::NoSim ns;
    sim::Fail("threw", std::string("the tool ends with an exception: ") + e.what());
  }
  maidsafe::log::Logging::Instance().~Logging();
  sim::NoSim ns;
  fflush(stdout);
  std::string text(out, out_size);
  fclose(stdout);
  stdout = real_stdout;
  sim::sys::g_stdout_simulated = false;
  std::cin.rdbuf(real_cin);
  if (getenv("SIM_DEBUG"))
    fprintf(stderr, "%s\n", text.c_str());
  if (code != 0)
    sim::Fail("exit-code", "the tool failed");
  Check(in, Tokens(text), files, cwd, sim::FaultsFired());
  if (io::OpenFds())
    sim::Fail("descriptor-leak", "files are left open");
}

sim::Registrar r45({"C45", Gen, Run,
                    "one simulated run of the tool on up to 50 lines of input, which may end or fail anywhere, with failing file "
                    "operations; non-trivial: at least two context switches or a fault",
                    {"tools/bootstrap_file_tool.cc", "utils.cc", "serialisation", "log.cc", "active.cc"},
                    {"thread scheduler", "standard input and output", "errors of files"},
                    20000, 500000});
}  // namespace

