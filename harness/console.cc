// C27: console input tools (CLI, Menu) under any input, input that ends or fails, and a simulated terminal.
#include <errno.h>
#include <stdio.h>
#include <termios.h>

#include <iostream>
#include <streambuf>

#include "maidsafe/common/cli.h"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/menu.h"

#include "../sim/sys.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
using maidsafe::CLI;
using maidsafe::Menu;
using maidsafe::MenuItem;

enum { kNone, kCount, kThrowMaidsafe, kThrowStd, kReadInt, kReadString, kReadPassword, kActions };

std::string Text(const Op& o) {
  int64_t v = o.a[1];
  switch (o.a[0]) {
    case 0:
    default:
      return std::to_string(v);
    case 1:
      return "  " + std::to_string(v) + " ";
    case 2:
      return std::to_string(v) + "x";
    case 3:
      return "abc" + std::to_string(v);
    case 4:
      return "";
    case 5:
      return std::to_string(v) + "99999999999";
    case 6:
      return "pw_" + std::to_string(v);
    case 7:
      return "two words" + std::to_string(v);
    case 8:
      return std::string("\x01\xff\t") + std::to_string(v);
    case 9:
      return "-" + std::to_string(v);
    case 10:
      return "+" + std::to_string(v);
    case 11:
      return "   ";
    case 12:
      return std::string(1 + v * 37 % 5000, 'z');
    case 13:
      return "-2147483648";
  }
}

void GenConsole(Rng& r, Program& p, Config& c) {
  bool faults = r.Chance(0.4);
  p.params["faults"] = faults;
  p.params["tty"] = r.Chance(0.6);
  p.params["nl"] = r.Chance(0.7);  // the last line is terminated
  p.params["term"] = static_cast<int64_t>(r.Below(1000));
  int items = 0;
  int big = r.Chance(0.05) ? 105 : 0;
  int parents = static_cast<int>(r.Range(1, 4));
  int n = static_cast<int>(r.Chance(0.05) ? 0 : r.Range(1, 8));
  for (int i = 0; i < n; ++i, ++items)
    p.ops.push_back(Line(0, "add", {static_cast<int64_t>(r.Below(std::min(items + 1, parents))),
                                    r.Chance(0.1) ? static_cast<int64_t>(r.Below(4)) : i + 10,
                                    static_cast<int64_t>(r.Chance(0.5) ? kCount : r.Below(kActions))}));
  for (int i = 0; i < big; ++i)
    p.ops.push_back(Line(0, "add", {r.Chance(0.9) ? 1 : 0, 1000 + i, kCount}));
  int lines = static_cast<int>(r.Chance(0.02) ? r.Range(30, 150) : r.Range(0, 16));
  int64_t pw = static_cast<int64_t>(r.Below(50));
  for (int i = 0; i < lines; ++i) {
    int64_t kind = 0, v = r.Range(0, 6);
    if (r.Chance(0.15))
      v = Pick<int64_t>(r, {99, 98, 100, 101, 105, 1});
    if (r.Chance(0.3))
      kind = static_cast<int64_t>(r.Below(14));
    if (r.Chance(0.2)) {
      kind = 6;
      v = r.Chance(0.6) ? pw : static_cast<int64_t>(r.Below(50));
    }
    p.ops.push_back(Line(0, "line", {kind, v}));
  }
  int uses = static_cast<int>(r.Range(1, 3));
  for (int i = 0; i < uses; ++i) {
    const char* what = r.Chance(0.7) ? "run" : Pick<const char*>(r, {"int", "string", "password", "double"});
    p.ops.push_back(Line(0, what, {r.Chance(0.5)}));
  }
  c.prob[sim::K_WFAULT1] = r.Chance(0.5) ? 0 : 0.2;          // input arrives in pieces
  c.prob[sim::K_WFAULT2] = faults && r.Chance(0.7) ? 0.05 : 0;  // input fails
  c.prob[sim::K_SYS] = faults && r.Chance(0.6) ? 0.1 : 0;    // terminal calls fail
}

// Standard input: the given text, in pieces, then end of file; or failing at some point.
struct In : std::streambuf {
  std::string text;
  size_t at = 0;
  bool failed = false, ended = false;
  int after_end = 0;
  std::function<void()> on_read;
  int_type underflow() override {
    sim::NoSim ns;
    on_read();
    if (at >= text.size()) {
      ended = true;
      if (++after_end > 5000)
        sim::Fail("endless-loop", "input is read again and again although it has ended");
      return traits_type::eof();
    }
    if (sim::Choose(sim::K_WFAULT2, 2)) {
      failed = true;
      text.resize(at);
      sim::Probe("console input fails");
      throw std::ios_base::failure("simulated read error");
    }
    size_t n = text.size() - at;
    if (uint32_t k = sim::Choose(sim::K_WFAULT1, 6))
      n = std::min<size_t>(n, k);
    setg(&text[at], &text[at], &text[at] + n);
    at += n;
    return traits_type::to_int_type(*gptr());
  }
  int_type uflow() override {
    int_type c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof()))
      gbump(1);
    return c;
  }
};

struct Event {
  std::string what;
  bool operator==(const Event& o) const { return what == o.what; }
};
struct MItem {
  int parent;
  std::string name;
  int action;
  std::vector<int> children;
};

struct ActionError {};

struct Exit {  // an error leaving an operation: its integer form
  int code;
};

const int kUnknown = maidsafe::ErrorToInt(maidsafe::MakeError(maidsafe::CommonErrors::unknown));
const int kInvalid = maidsafe::ErrorToInt(maidsafe::MakeError(maidsafe::CommonErrors::invalid_argument));
const int kActionError = maidsafe::ErrorToInt(maidsafe::MakeError(maidsafe::CommonErrors::unable_to_handle_request));

// What a user would expect, computed from the lines entered.
struct Model {
  std::vector<std::string> lines;
  size_t next = 0;
  std::vector<MItem> items;
  int current = 0;
  std::vector<std::string> events;

  std::string GetLine() {
    if (next >= lines.size())
      throw Exit{kUnknown};
    return lines[next++];
  }
  static bool Space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  static size_t Skip(const std::string& s) {
    size_t i = 0;
    while (i < s.size() && Space(s[i]))
      ++i;
    return i;
  }
  int64_t GetInt() {
    std::string s = GetLine();
    size_t i = Skip(s);
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+'))
      neg = s[i++] == '-';
    if (i >= s.size() || s[i] < '0' || s[i] > '9')
      throw Exit{kInvalid};
    int64_t v = 0;
    for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
      v = v * 10 + (s[i] - '0');
      if (v > 2147483648ll || (v == 2147483648ll && !neg))
        throw Exit{kInvalid};
    }
    return neg ? -v : v;
  }
  std::string GetString() {
    std::string s = GetLine();
    size_t i = Skip(s), j = i;
    while (j < s.size() && !Space(s[j]))
      ++j;
    if (i == j)
      throw Exit{kInvalid};
    return s.substr(i, j - i);
  }
  std::string GetPassword(bool repeat) {
    for (;;) {
      std::string a = GetString();
      if (!repeat || GetString() == a)
        return a;
    }
  }
  void Act(int i) {
    int kind = items[i].action;
    if (kind == kNone)
      return;
    events.push_back("action " + std::to_string(i));
    if (kind == kThrowMaidsafe)
      throw Exit{kActionError};
    if (kind == kThrowStd)
      throw Exit{kUnknown};
    if (kind == kReadInt)
      events.push_back("int " + std::to_string(GetInt()));
    if (kind == kReadString)
      events.push_back("string " + GetString());
    if (kind == kReadPassword)
      events.push_back("password " + GetPassword(true));
  }
  int Run() {
    try {
      bool show = true;
      for (;;) {
        if (show && items[current].children.empty() && items[current].parent >= 0)
          current = items[current].parent;
        show = false;
        int64_t v;
        try {
          v = GetInt();
        } catch (const Exit& e) {
          if (e.code != kInvalid)
            throw;
          continue;
        }
        if (v == 0)
          return 0;
        if (v == 99 && items[current].parent >= 0)
          current = items[current].parent;
        else if (v >= 1 && v <= static_cast<int64_t>(items[current].children.size()))
          current = items[current].children[v - 1];
        else
          continue;
        Act(current);
        show = true;
      }
    } catch (const Exit& e) {
      return e.code;
    }
  }
};

void RunConsole(const Program& p) {
  std::vector<Op> ops;
  Model m;
  In in;
  char* out = nullptr;
  size_t out_size = 0;
  FILE* real_stdout = stdout;
  std::streambuf* real_cin;
  bool reading_secret = false;
  std::vector<std::string> events;
  bool tty = p.P("tty");
  {
    sim::NoSim ns;
    ops = Parse(p);
    std::vector<std::string> lines;
    for (auto& o : ops)
      if (o.verb == "line")
        lines.push_back(Text(o));
    for (size_t i = 0; i < lines.size(); ++i)
      in.text += lines[i] + (i + 1 < lines.size() || p.P("nl") ? "\n" : "");
    sim::sys::g_tty_simulated = true;
    sim::sys::g_tty = tty;
    memset(&sim::sys::g_tty_state, 0, sizeof sim::sys::g_tty_state);
    sim::sys::g_tty_state.c_lflag = ECHO | ((p.P("term") & 1) ? ICANON : 0) | ((p.P("term") & 2) ? ISIG : 0);
    sim::sys::g_tty_state.c_iflag = p.P("term") >> 2;
    sim::sys::g_tty_state.c_cc[VMIN] = p.P("term") % 7;
    stdout = open_memstream(&out, &out_size);
    real_cin = std::cin.rdbuf(&in);
    std::cin.clear();
  }
  termios before = sim::sys::g_tty_state;
  auto tty_faults = [&] { return sim::FaultsFiredKind(sim::K_SYS); };
  auto terminal_unchanged = [&](const char* when) {
    termios a = before, b = sim::sys::g_tty_state;
    a.c_lflag &= ~ECHO;
    b.c_lflag &= ~ECHO;
    if (memcmp(&a, &b, sizeof a))
      sim::Fail("terminal", h::Str("%s: terminal settings other than echo were changed", when));
  };
  in.on_read = [&] {
    if (tty && reading_secret && !tty_faults() && (sim::sys::g_tty_state.c_lflag & ECHO))
      sim::Fail("echo", "a password is read while the terminal echoes it");
    if (tty && !reading_secret && !tty_faults() && !(sim::sys::g_tty_state.c_lflag & ECHO))
      sim::Fail("echo", "ordinary input is read with echo off");
    terminal_unchanged("while reading");
  };
  auto echo_back = [&](const char* when) {
    if (tty && !tty_faults() && !(sim::sys::g_tty_state.c_lflag & ECHO))
      sim::Fail("echo", h::Str("after %s the terminal's echo is still off", when));
    terminal_unchanged(when);
  };
  CLI cli("] ");
  auto note = [&](const std::string& s) {
    sim::NoSim ns;
    events.push_back(s);
  };
  auto get_password = [&](bool repeat) {
    reading_secret = true;
    try {
      std::string hash = cli.GetPassword(repeat);
      reading_secret = false;
      echo_back("reading a password");
      return hash;
    } catch (...) {
      reading_secret = false;
      echo_back("failing to read a password");
      throw;
    }
  };
  {
    Menu menu("Main", "> ");
    std::vector<MenuItem*> real_items(1, nullptr);
    m.items.push_back({-1, "Main", kCount, {}});
    m.items[0].action = kNone;
    for (auto& o : ops) {
      if (o.verb != "add")
        continue;
      int parent = static_cast<int>(o.a[0]) % static_cast<int>(m.items.size());
      std::string name = o.a[1] == 0 ? "" : "item" + std::to_string(o.a[1]);
      int id = static_cast<int>(m.items.size());
      int action = static_cast<int>(o.a[2]) % kActions;
      MenuItem::Functor f;
      if (action != kNone)
        f = [&, id, action] {
          note("action " + std::to_string(id));
          if (action == kThrowMaidsafe)
            BOOST_THROW_EXCEPTION(maidsafe::MakeError(maidsafe::CommonErrors::unable_to_handle_request));
          if (action == kThrowStd)
            throw std::runtime_error("action failed");
          if (action == kReadInt)
            note("int " + std::to_string(cli.Get<int>("value?")));
          if (action == kReadString)
            note("string " + cli.Get<std::string>("value?"));
          if (action == kReadPassword)
            note("hash " + get_password(true));
        };
      bool refuse = name.empty();
      for (int c : m.items[parent].children)
        refuse |= m.items[c].name == name;
      MenuItem* it = nullptr;
      try {
        it = parent ? real_items[parent]->AddChildItem(name, f) : menu.AddItem(name, f);
      } catch (const maidsafe::maidsafe_error&) {
      }
      if (!it != refuse)
        sim::Fail("add-item", h::Str("adding item '%s' %s", name.c_str(), it ? "was accepted" : "was refused"));
      if (refuse)
        continue;
      real_items.push_back(it);
      m.items.push_back({parent, name, action, {}});
      m.items[parent].children.push_back(id);
    }
    std::vector<std::pair<std::string, std::string>> results;  // real
    auto guard = [&](const std::function<std::string()>& f) -> std::string {
      try {
        return f();
      } catch (const maidsafe::maidsafe_error& e) {
        return "error " + std::to_string(maidsafe::ErrorToInt(e));
      }
    };
    for (auto& o : ops) {
      if (o.verb == "add" || o.verb == "line")
        continue;
      std::string res;
      if (o.verb == "run")
        res = guard([&] { return std::to_string(menu.Run()); });
      else if (o.verb == "int")
        res = guard([&] { return std::to_string(cli.Get<int>("n")); });
      else if (o.verb == "double")
        res = guard([&] { return std::to_string(cli.Get<double>("d")); });
      else if (o.verb == "string")
        res = guard([&] { return cli.Get<std::string>("s"); });
      else
        res = guard([&] { return get_password(o.a[0]); });
      echo_back(o.verb.c_str());
      sim::NoSim ns;
      sim::Log("%s -> %s", o.verb.c_str(), o.verb == "password" ? "(hash)" : res.substr(0, 60).c_str());
      results.emplace_back(o.verb, res);
    }
    // Compare with the model.
    sim::NoSim ns;
    size_t from = 0;
    for (size_t i = 0; i <= in.text.size(); ++i)
      if (i == in.text.size() || in.text[i] == '\n') {
        bool whole = i < in.text.size() || (!in.failed && i > from);
        if (whole)
          m.lines.push_back(in.text.substr(from, i - from));
        from = i + 1;
      }
    std::vector<std::string> expected;
    size_t k = 0;
    for (auto& o : ops) {
      if (o.verb == "add" || o.verb == "line")
        continue;
      std::string want;
      try {
        if (o.verb == "run") {
          want = std::to_string(m.Run());
        } else if (o.verb == "int") {
          want = std::to_string(m.GetInt());
        } else if (o.verb == "string") {
          want = m.GetString();
        } else if (o.verb == "double") {
          std::istringstream is(m.GetLine());
          double d;
          if (is >> d)
            want = std::to_string(d);
          else
            want = "error " + std::to_string(kInvalid);
        } else {
          want = maidsafe::crypto::Hash<maidsafe::crypto::SHA512>(m.GetPassword(o.a[0])).string();
        }
      } catch (const Exit& e) {
        want = "error " + std::to_string(e.code);
      }
      std::string got = results[k++].second;
      bool ended = m.next >= m.lines.size();
      if (got != want) {
        // Any definite error will do once input has ended.
        bool both_errors = o.verb == "run" ? want == std::to_string(kUnknown) && ended && got != "0" : false;
        if (!both_errors)
          sim::Fail("result", h::Str("%s returned %s, expected %s", o.verb.c_str(), got.c_str(), want.c_str()));
      }
    }
    std::vector<std::string> want = m.events;
    for (auto& e : want)
      if (e.compare(0, 9, "password ") == 0)
        e = "hash " + maidsafe::crypto::Hash<maidsafe::crypto::SHA512>(e.substr(9)).string();
    if (want != events) {
      size_t i = 0;
      while (i < want.size() && i < events.size() && want[i] == events[i])
        ++i;
      sim::Fail("actions", h::Str("action step %zu was '%s', expected '%s'", i,
                                  i < events.size() ? events[i].substr(0, 40).c_str() : "nothing",
                                  i < want.size() ? want[i].substr(0, 40).c_str() : "nothing"));
    }
    fflush(stdout);
    if (out && std::string(out, out_size).find("pw_") != std::string::npos)
      sim::Fail("password-shown", "a password entered appears in the program's output");
    if (in.ended)
      sim::Probe("input ended");
    if (m.items.size() > 90)
      sim::Probe("menu with more than 90 entries");
    if (m.next > 6)
      sim::Probe("more than six lines read");
  }
  sim::NoSim ns;
  std::cin.rdbuf(real_cin);
  stdout = real_stdout;
}

sim::Property C27() {
  sim::Property q;
  q.id = "C27";
  q.generate = GenConsole;
  q.execute = RunConsole;
  q.serial = true;
  q.rule = "one run builds a random menu tree and reads random console input in random pieces until it ends or fails; "
           "non-trivial if at least two operations ran";
  q.real = {"CLI", "Menu", "MenuItem", "TLOG console output"};
  q.stub = {"standard input (simulated stream)", "terminal settings (simulated tcgetattr/tcsetattr)", "standard output (memory)"};
  q.quick_runs = 50000;
  q.thorough_runs = 400000;
  return q;
}
sim::Registrar r27(C27());
}  // namespace
