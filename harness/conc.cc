// C03 (thread-safe queue), C23 (profiler), C24 (scope-exit guard).
#include <algorithm>
#include <iostream>
#include <memory>
#include <new>
#include <unordered_set>

#include "maidsafe/common/on_scope_exit.h"
#include "maidsafe/common/profiler.h"
#include "maidsafe/common/safe_queue.h"

#include "util.h"

namespace {
using namespace h;  // NOLINT

// ---------------------------------------------------------------------------------------- C03
struct Item {
  int id = -1;
  std::string payload;
};
std::string Payload(int id) { return Bytes(id + 1000, 3 + (id * 7) % 40); }

enum QKind { Q_PUSH, Q_TRY, Q_WAIT, Q_SIZE, Q_EMPTY };
const char* kQNames[] = {"push", "try", "wait", "size", "empty"};
struct QOp {
  QKind k;
  int arg = -1;      // push: id
  int64_t res = -1;  // pop: id or -1; size; empty
  uint64_t call = 0, ret = UINT64_MAX;
};

// Wing & Gong: is there an order, consistent with real time, that a sequential FIFO queue allows?
struct Lin {
  const std::vector<QOp>& ops;
  std::unordered_set<uint64_t> seen;
  uint64_t visited = 0;
  std::vector<uint64_t> pop_call, pop_ret;  // of the element a push adds
  explicit Lin(const std::vector<QOp>& o)
      : ops(o), pop_call(o.size(), UINT64_MAX), pop_ret(o.size(), UINT64_MAX) {
    for (size_t i = 0; i < o.size(); ++i)
      if (o[i].k == Q_PUSH)
        for (auto& x : o)
          if ((x.k == Q_TRY || x.k == Q_WAIT) && x.res == o[i].arg) {
            pop_call[i] = x.call;
            pop_ret[i] = x.ret;
          }
  }
  // Elements popped one after the other were pushed in that order: prunes the search.
  bool MustWait(uint64_t mask, size_t i) const {
    for (size_t j = 0; j < ops.size(); ++j)
      if (ops[j].k == Q_PUSH && j != i && !(mask >> j & 1) && pop_ret[j] < pop_call[i])
        return true;
    return false;
  }
  bool Go(uint64_t mask, std::vector<int>& q, size_t head) {
    if (mask == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1))
      return true;
    uint64_t hsh = sim::Mix(mask, q.size() - head);
    for (size_t i = head; i < q.size(); ++i)
      hsh = sim::Mix(hsh, q[i]);
    if (!seen.insert(hsh).second)
      return false;
    uint64_t first_ret = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); ++i)
      if (!(mask >> i & 1))
        first_ret = std::min(first_ret, ops[i].ret);
    for (size_t i = 0; i < ops.size(); ++i) {
      if ((mask >> i & 1) || ops[i].call > first_ret)
        continue;
      const QOp& o = ops[i];
      bool empty = head == q.size();
      switch (o.k) {
        case Q_PUSH:
          if (MustWait(mask, i))
            break;
          q.push_back(o.arg);
          if (Go(mask | 1ull << i, q, head))
            return true;
          q.pop_back();
          break;
        case Q_TRY:
        case Q_WAIT:
          if (o.res < 0) {
            if (o.k == Q_TRY && empty && Go(mask | 1ull << i, q, head))
              return true;
          } else if (!empty && q[head] == o.res && Go(mask | 1ull << i, q, head + 1)) {
            return true;
          }
          break;
        case Q_SIZE:
          if (static_cast<int64_t>(q.size() - head) == o.res && Go(mask | 1ull << i, q, head))
            return true;
          break;
        case Q_EMPTY:
          if (static_cast<int64_t>(empty) == o.res && Go(mask | 1ull << i, q, head))
            return true;
          break;
      }
    }
    return false;
  }
};

void GenQueue(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(2, 5));
  int n = static_cast<int>(r.Range(4, 26));
  bool big = r.Chance(0.01);  // fewer callers, so that the history can still be explained
  if (big) {
    threads = 2;
    n = static_cast<int>(r.Range(100, 400));
  }
  p.params["threads"] = threads;
  p.params["faults"] = r.Chance(0.2);
  if (p.P("faults"))
    c.prob[sim::K_ALLOC] = 0.08;
  double waits = r.Unit() * 0.5, queries = r.Unit() * 0.3;
  int id = 0;
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    double u = r.Unit();
    if (u < waits)
      p.ops.push_back(Line(t, "wait"));
    else if (u < waits + 0.2)
      p.ops.push_back(Line(t, "try"));
    else if (u < waits + 0.2 + queries)
      p.ops.push_back(Line(t, r.Chance(0.5) ? "size" : "empty"));
    else
      p.ops.push_back(Line(t, "push", {id++}));
  }
  c.max_steps = 60000;
}

void RunQueue(const Program& p) {
  struct W {
    std::vector<QOp> hist;
    int waiting = 0;
    int done = 0;
  };
  W* w;
  std::vector<Op> ops;
  {
    sim::NoSim ns;
    w = new W;
    ops = Parse(p);
  }
  bool af = Faulty(p);
  auto* q = new SafeQueue<Item>;
  auto one = [&](QKind k, int id) {
    size_t slot;
    Item in, out;
    {
      sim::NoSim ns;
      slot = w->hist.size();
      w->hist.push_back(QOp{k, id});
      if (k == Q_WAIT)
        ++w->waiting;
    }
    if (k == Q_PUSH) {
      in.id = id;
      in.payload = Payload(id);
    } else {
      out.id = -77;
      out.payload = "untouched";
    }
    {
      sim::NoSim ns;
      w->hist[slot].call = sim::Seq();
      sim::Log("%s %d called", kQNames[k], id);
    }
    int64_t res = -1;
    bool refused = false;
    switch (k) {
      case Q_PUSH:
        if (af)
          sim::AllocFaults(true);
        try {
          q->Push(std::move(in));
        } catch (const std::bad_alloc&) {
          refused = true;
        }
        sim::AllocFaults(false);
        break;
      case Q_TRY:
        if (q->TryPop(out)) {
          res = out.id;
        } else {
          sim::NoSim ns;
          if (out.id != -77 || out.payload != "untouched")
            sim::Fail("output-touched", "a failed TryPop changed its output");
        }
        break;
      case Q_WAIT:
        q->WaitAndPop(out);
        res = out.id;
        break;
      case Q_SIZE:
        res = static_cast<int64_t>(q->Size());
        break;
      case Q_EMPTY:
        res = q->Empty();
        break;
    }
    sim::NoSim ns;
    QOp& h = w->hist[slot];
    h.ret = sim::Seq();
    h.res = res;
    if (k == Q_WAIT)
      --w->waiting;
    sim::Log("%s %d returned %lld", kQNames[k], id, static_cast<long long>(res));
    if (refused) {
      h.arg = -2;
      sim::Probe("push refused for lack of memory");
    }
    if ((k == Q_TRY || k == Q_WAIT) && (res >= 0 || k == Q_WAIT)) {
      if (res < 0 || out.payload != Payload(static_cast<int>(res)))
        sim::Fail("element-altered", Str("popped element %lld with wrong content", static_cast<long long>(res)));
    }
  };
  int threads = static_cast<int>(p.P("threads"));
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        for (int k = 0; k < 5; ++k)
          if (o.verb == kQNames[k])
            one(static_cast<QKind>(k), static_cast<int>(o.a[0]));
      }
      sim::NoSim ns;
      ++w->done;
    });
  if (!sim::Quiesce())
    sim::Fail("no-progress", "queue users do not come to rest");
  // Release the blocked consumers one by one; each wake-up must be delivered.
  int extra = 5000;
  while (true) {
    int waiting;
    {
      sim::NoSim ns;
      waiting = w->waiting;
      if (w->done == threads)
        break;
    }
    if (waiting) {
      if (!q->Empty())
        sim::Fail("lost-wakeup", Str("%d blocked pop(s) although the queue holds %d elements", waiting,
                                     static_cast<int>(q->Size())));
      sim::Probe("consumer blocked on an empty queue");
    }
    if (extra > 5060 + static_cast<int>(p.ops.size()))
      sim::Fail("no-progress", "a consumer is never released");
    one(Q_PUSH, extra++);
    if (!sim::Quiesce())
      sim::Fail("no-progress", "queue users do not come to rest");
  }
  for (auto& t : ts)
    t.join();
  std::vector<QOp> hist;
  {
    sim::NoSim ns;
    for (auto& o : w->hist)
      if (o.arg != -2)
        hist.push_back(o);
  }
  // Conservation: pushed = popped + left, in order.
  std::vector<int> left;
  while (true) {
    Item it;
    if (!q->TryPop(it))
      break;
    sim::NoSim ns;
    if (it.id < 0 || it.payload != Payload(it.id))
      sim::Fail("element-altered", Str("element %d left in the queue has wrong content", it.id));
    QOp o{Q_TRY};
    o.res = it.id;
    o.call = sim::Seq();
    o.ret = sim::Seq();
    hist.push_back(o);
  }
  {
    sim::NoSim ns;
    std::map<int, int> n;
    for (auto& o : hist) {
      if (o.k == Q_PUSH)
        ++n[o.arg];
      if ((o.k == Q_TRY || o.k == Q_WAIT) && o.res >= 0)
        --n[static_cast<int>(o.res)];
    }
    for (auto& e : n)
      if (e.second)
        sim::Fail(e.second > 0 ? "element-lost" : "element-duplicated", Str("element %d", e.first));
    // In any number of operations, elements leave in the order in which they came.
    std::map<int, std::pair<const QOp*, const QOp*>> e;
    for (auto& o : hist) {
      if (o.k == Q_PUSH)
        e[o.arg].first = &o;
      else if ((o.k == Q_TRY || o.k == Q_WAIT) && o.res >= 0)
        e[static_cast<int>(o.res)].second = &o;
    }
    for (auto& a : e)
      for (auto& b : e)
        if (a.second.first && b.second.first && a.second.second && b.second.second &&
            a.second.first->ret < b.second.first->call && b.second.second->ret < a.second.second->call)
          sim::Fail("wrong-order", Str("element %d was pushed before %d, but popped after it", a.first, b.first));
    // More than 64 operations: the rest is sequential popping, checked by the order above.
    if (hist.size() <= 63) {
      Lin lin(hist);
      std::vector<int> st;
      if (!lin.Go(0, st, 0)) {
        std::string s;
        for (auto& o : hist)
          s += Str("[%llu-%llu] %s arg %d -> %lld\n", (unsigned long long)o.call, (unsigned long long)o.ret,
                   kQNames[o.k], o.arg, (long long)o.res);
        sim::Fail("not-linearizable", "no sequential FIFO order explains:\n" + s);
      }
    } else {
      sim::Probe("history too long for the linearizability check");
    }
  }
  uint64_t live0 = sim::Heap().live_blocks;
  (void)live0;
  delete q;
}

sim::Registrar rq({"C03", GenQueue, RunQueue,
                   "one simulated run of concurrent pushes, pops and queries on a real SafeQueue, its history "
                   "checked for linearizability against a sequential FIFO queue; non-trivial: at least two "
                   "context switches or a fault; distinct by hash of the whole event and decision sequence",
                   {"SafeQueue", "std::mutex/condition_variable call sites"},
                   {"pthread primitives and scheduler (simulated)", "heap (simulated)"},
                   40000, 600000});

// ---------------------------------------------------------------------------------------- C23
struct Loc {
  std::string file, fn, shown;
  int line;
};
Loc MakeLoc(int i) {
  Loc l;
  switch (i % 4) {
    case 0: l.file = Str("src%d.cc", i); l.shown = l.file; break;
    case 1: l.file = Str("/home/x/maidsafe/common/f%d.cc", i); l.shown = Str("common/f%d.cc", i); break;
    case 2: l.file = Str("C:\\work\\maidsafe\\pd\\f%d.cc", i); l.shown = Str("pd/f%d.cc", i); break;
    default: l.file = Str("/opt/app/q%d.h", i); l.shown = l.file; break;
  }
  l.line = 10 * i + 3;
  l.fn = Str("void fn%d(int)", i);
  l.shown += ":" + std::to_string(l.line) + "] " + l.fn;
  return l;
}
struct Exp {
  uint64_t n = 0;
  int64_t lo = 0, hi = 0;  // bounds of the total; equal when every duration is known exactly
};

void GenProfiler(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["pre"] = r.Below(2);
  int locs = static_cast<int>(r.Range(1, 6));
  bool scopes = r.Chance(0.6);
  int n = static_cast<int>(r.Range(0, 16));
  if (r.Chance(0.02)) {
    locs = static_cast<int>(r.Range(1, 60));
    n = static_cast<int>(r.Range(100, 400));
  }
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    int64_t loc = r.Below(locs);
    if (scopes && r.Chance(0.5)) {
      p.ops.push_back(Line(t, "scope", {loc, static_cast<int64_t>(r.Below(4)), static_cast<int64_t>(r.Below(locs)),
                                       static_cast<int64_t>(r.Chance(0.5) ? 0 : r.Below(3000000000ull))}));
    } else {
      int64_t d = r.Chance(0.3) ? r.Below(10) : r.Chance(0.5) ? r.Below(2000000000ull) : r.Below(900) * 1000000000ll + r.Below(3);
      p.ops.push_back(Line(t, "add", {loc, d}));
    }
  }
  c.max_steps = n > 50 ? 800000 : 80000;
}

bool ParseDur(const std::string& s, int64_t* out) {
  long long sec, ns;
  int used = 0;
  if (sscanf(s.c_str(), " %lld.%lld s%n", &sec, &ns, &used) != 2 || used != static_cast<int>(s.size()))
    return false;
  size_t dot = s.find('.');
  if (s.substr(dot + 1).size() != 11)
    return false;
  *out = sec * 1000000000ll + ns;
  return true;
}

void RunProfiler(const Program& p) {
  using maidsafe::profile::Profiler;
  using maidsafe::profile::ProfileEntry;
  std::vector<Op> ops;
  std::map<std::string, Exp>* exp;
  {
    sim::NoSim ns;
    ops = Parse(p);
    exp = new std::map<std::string, Exp>;
  }
  int threads = static_cast<int>(p.P("threads"));
  auto note = [&](const Loc& l, int64_t lo, int64_t hi) {
    sim::NoSim ns;
    Exp& e = (*exp)[l.shown];
    ++e.n;
    e.lo += lo;
    e.hi += hi;
  };
  if (p.P("pre"))
    Profiler::Instance();
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        Loc l = MakeLoc(static_cast<int>(o.a[0]));
        if (o.verb == "add") {
          Profiler::Instance().AddEntry(ProfileEntry::Location(l.file, l.line, l.fn),
                                        std::chrono::nanoseconds(o.a[1]));
          note(l, o.a[1], o.a[1]);
        } else {
          uint64_t t0 = sim::Now(), t1, t2;
          {
            ProfileEntry e(l.file, l.line, l.fn);
            t1 = sim::Now();
            if (o.a[1] > 1) {
              Loc m = MakeLoc(static_cast<int>(o.a[2]));
              uint64_t u0 = sim::Now(), u1, u2;
              {
                ProfileEntry f(m.file, m.line, m.fn);
                u1 = sim::Now();
                for (int i = 0; i < o.a[1]; ++i)
                  sim::Yield();
                u2 = sim::Now();
              }
              note(m, u2 - u1, sim::Now() - u0);
            }
            if (o.a[3])
              sim::SleepNs(o.a[3]);
            t2 = sim::Now();
          }
          note(l, t2 - t1, sim::Now() - t0);
        }
      }
    });
  for (auto& t : ts)
    t.join();
  bool any;
  {
    sim::NoSim ns;
    any = !exp->empty();
  }
  if (!any && !p.P("pre"))
    return;
  std::ostringstream os;
  auto* old = std::cout.rdbuf(os.rdbuf());
  Profiler::Instance().~Profiler();
  std::cout.rdbuf(old);
  if (!sim::Quiesce())
    sim::Fail("worker-left", "a thread is still busy after the report");
  sim::NoSim ns;
  std::string text = os.str();
  const char* kSec[] = {"Sorted by name", "Sorted by call count", "Sorted by average duration",
                        "Sorted by total duration"};
  struct Ent {
    std::string name;
    uint64_t n;
    int64_t avg, total;
  };
  std::map<std::string, Ent> first;
  size_t pos = 0;
  for (int s = 0; s < 4; ++s) {
    size_t at = text.find(kSec[s], pos);
    if (at == std::string::npos)
      sim::Fail("report-section", Str("section '%s' missing or out of place:\n%s", kSec[s], text.c_str()));
    size_t end = s == 3 ? text.size() : text.find(kSec[s + 1], at);
    if (end == std::string::npos)
      sim::Fail("report-section", Str("section '%s' missing or out of place:\n%s", kSec[s + 1], text.c_str()));
    pos = end;
    std::istringstream is(text.substr(at, end - at));
    std::string line;
    std::vector<Ent> ents;
    std::getline(is, line);
    std::getline(is, line);
    while (std::getline(is, line)) {
      if (line.empty())
        continue;
      Ent e;
      e.name = line;
      std::string a, b, cc;
      std::getline(is, a);
      std::getline(is, b);
      std::getline(is, cc);
      unsigned long long n;
      int u = 0;
      if (sscanf(a.c_str(), " Called: %llu times%n", &n, &u) != 1 || u != static_cast<int>(a.size()))
        sim::Fail("report-format", "unexpected line: " + a);
      e.n = n;
      size_t q = b.find("Average duration:"), z = cc.find("Total duration:");
      if (q == std::string::npos || z == std::string::npos || !ParseDur(b.substr(q + 17), &e.avg) ||
          !ParseDur(cc.substr(z + 15), &e.total))
        sim::Fail("report-format", "unexpected lines: " + b + " / " + cc);
      ents.push_back(e);
    }
    std::set<std::string> names;
    for (auto& e : ents) {
      if (!names.insert(e.name).second)
        sim::Fail("report-duplicate", "listed twice in one section: " + e.name);
      auto it = exp->find(e.name);
      if (it == exp->end())
        sim::Fail("report-unknown", "listed but never recorded: " + e.name);
      if (e.n != it->second.n)
        sim::Fail("report-count", Str("%s: reported %llu entries, recorded %llu", e.name.c_str(),
                                      (unsigned long long)e.n, (unsigned long long)it->second.n));
      if (e.total < it->second.lo || e.total > it->second.hi)
        sim::Fail("report-total", Str("%s: reported total %lld ns, expected %lld..%lld", e.name.c_str(),
                                      (long long)e.total, (long long)it->second.lo, (long long)it->second.hi));
      if (e.avg != e.total / static_cast<int64_t>(e.n))
        sim::Fail("report-average", Str("%s: average %lld is not total %lld / %llu", e.name.c_str(), (long long)e.avg,
                                        (long long)e.total, (unsigned long long)e.n));
      if (s == 0)
        first[e.name] = e;
      else if (first[e.name].n != e.n || first[e.name].total != e.total)
        sim::Fail("report-sections-differ", e.name);
    }
    if (names.size() != exp->size())
      sim::Fail("report-missing", Str("section '%s' lists %d of %d locations", kSec[s],
                                      static_cast<int>(names.size()), static_cast<int>(exp->size())));
    for (size_t i = 1; i < ents.size(); ++i) {
      auto &a = ents[i - 1], &b = ents[i];
      bool ok = s == 0 ? a.name < b.name : s == 1 ? a.n >= b.n : s == 2 ? a.avg >= b.avg : a.total >= b.total;
      if (!ok)
        sim::Fail("report-order", Str("section '%s': %s before %s", kSec[s], a.name.c_str(), b.name.c_str()));
    }
  }
}

sim::Registrar rp({"C23", GenProfiler, RunProfiler,
                   "one simulated run of threads recording profile entries (given and measured durations) and "
                   "the report being prepared, parsed and compared with the recorded history; non-trivial: at "
                   "least two context switches; distinct by hash of the whole event and decision sequence",
                   {"maidsafe::profile::Profiler", "ProfileEntry", "maidsafe::Active", "std::async"},
                   {"pthread primitives, scheduler and clocks (simulated)", "std::cout (captured)"},
                   40000, 300000});

// ---------------------------------------------------------------------------------------- C24
struct GW {
  std::map<int, int> runs;      // action id -> times run
  std::map<int, int> expected;
  bool copies_fail = false;
};
template <size_t Pad>
struct Act {
  GW* w;
  int id;
  char pad[Pad];
  Act(GW* ww, int i) : w(ww), id(i) {}
  Act(const Act& o) : w(o.w), id(o.id) {
    if (w->copies_fail && sim::Fault(sim::K_WFAULT1))
      throw std::runtime_error("copy of the action failed");
  }
  void operator()() const {
    sim::NoSim ns;
    sim::Log("action %d runs", id);
    if (++w->runs[id] > 1)
      sim::Fail("action-twice", Str("action %d ran %d times", id, w->runs[id]));
  }
};
struct Abort {};

struct Values {
  int i = 1;
  std::string s = "initial value that does not fit a small string buffer";
  std::vector<int> v{1, 2, 3};
};

void GenScope(Rng& r, Program& p, Config& c) {
  int n = static_cast<int>(r.Range(1, 8));
  p.params["faults"] = r.Chance(0.7);
  if (p.P("faults")) {
    c.prob[sim::K_ALLOC] = 0.15;
    c.prob[sim::K_WFAULT1] = 0.1;
  }
  // scope <kind> <step> : kind 0 small lambda, 1 copying action, 2 large action, 3 std::function,
  // 4-6 revert int / string / vector.  step 0 none, 1 release, 2 replace, 3 throw, 4 release then
  // replace, 5 replace then throw, 6 replace twice, 7 release then throw
  for (int i = 0; i < n; ++i)
    p.ops.push_back(Line(0, "scope", {static_cast<int64_t>(r.Below(7)), static_cast<int64_t>(r.Below(8))}));
  c.max_steps = 50000;
}

struct ScopeRunner {
  GW& w;
  Values& vals;
  const std::vector<Op>& ops;
  bool faults;
  int next_id = 100;

  void On() {
    if (faults) {
      sim::AllocFaults(true);
      w.copies_fail = true;
    }
  }
  void Off() {
    sim::AllocFaults(false);
    w.copies_fail = false;
  }
  void Expect(int id, int n) {
    sim::NoSim ns;
    w.expected[id] = n;
  }
  void CheckRuns(int id, const char* when) {
    sim::NoSim ns;
    if (w.runs[id] != w.expected[id])
      sim::Fail("action-count", Str("action %d ran %d times, expected %d (%s)", id, w.runs[id], w.expected[id], when));
  }

  void Inside(maidsafe::on_scope_exit& g, size_t i, int* current) {
    int step = static_cast<int>(ops[i].a[1]);
    auto release = [&] {
      g.Release();
      if (*current >= 0)
        Expect(*current, 0);
      *current = -1;
    };
    auto replace = [&] {
      int id = next_id++;
      On();
      bool done = true;
      try {
        g.SetAction(Act<64>(&w, id));
      } catch (const std::exception&) {
        done = false;
      }
      Off();
      if (done) {
        if (*current >= 0)
          Expect(*current, 0);
        *current = id;
        Expect(id, 1);
      } else {
        sim::Probe("replacing an action failed");
        Expect(id, 0);
      }
    };
    if (step == 1 || step == 4 || step == 7)
      release();
    if (step == 2 || step == 4 || step == 5 || step == 6)
      replace();
    if (step == 6)
      replace();
    if (i + 1 < ops.size())
      Scope(i + 1);
    if (step == 3 || step == 5 || step == 7)
      throw Abort();
  }

  // Runs scope i (and those inside it); absorbs every exception after checking.
  void Scope(size_t i) {
    int kind = static_cast<int>(ops[i].a[0]);
    int id = next_id++;
    int current = id;
    bool built = false;
    Values before = vals;
    auto body = [&](maidsafe::on_scope_exit& g) {
      Off();
      built = true;
      if (kind < 4)
        Expect(id, 1);
      vals.i = 1000 + static_cast<int>(i);
      vals.s = "changed";
      vals.v.assign(7, static_cast<int>(i));
      Inside(g, i, &current);
      // actions must not run before the end of the scope
      sim::NoSim ns;
      if (current >= 0 && w.runs[current])
        sim::Fail("action-early", Str("action %d ran before its scope ended", current));
    };
    bool threw = false;
    try {
      On();
      switch (kind) {
        case 0: {
          GW* wp = &w;
          struct Small {
            GW* w;
            int id;
            void operator()() const {
              sim::NoSim ns;
              if (++w->runs[id] > 1)
                sim::Fail("action-twice", Str("action %d ran %d times", id, w->runs[id]));
            }
          };
          maidsafe::on_scope_exit g(Small{wp, id});
          body(g);
          break;
        }
        case 1: {
          maidsafe::on_scope_exit g(Act<1>(&w, id));
          body(g);
          break;
        }
        case 2: {
          maidsafe::on_scope_exit g(Act<200>(&w, id));
          body(g);
          break;
        }
        case 3: {
          Off();
          maidsafe::on_scope_exit::ExitAction f(Act<64>(&w, id));
          On();
          maidsafe::on_scope_exit g(std::move(f));
          body(g);
          break;
        }
        case 4: {
          maidsafe::on_scope_exit g(maidsafe::on_scope_exit::RevertValue(vals.i));
          body(g);
          break;
        }
        case 5: {
          maidsafe::on_scope_exit g(maidsafe::on_scope_exit::RevertValue(vals.s));
          body(g);
          break;
        }
        default: {
          maidsafe::on_scope_exit g(maidsafe::on_scope_exit::RevertValue(vals.v));
          body(g);
          break;
        }
      }
    } catch (const Abort&) {
      Off();
      threw = true;
    } catch (const std::exception& e) {
      Off();
      threw = true;
      if (!built)
        sim::Probe("guard could not be set up");
      else
        sim::Fail("unexpected-exception", e.what());
    }
    Off();
    (void)threw;
    if (kind < 4) {
      if (!built) {
        Expect(id, 1);
        CheckRuns(id, "setting the guard up failed");
      } else {
        CheckRuns(id, "scope ended");
        if (current >= 0)
          CheckRuns(current, "scope ended");
      }
    } else if (!built) {
      sim::NoSim ns;
      if (vals.i != before.i || vals.s != before.s || vals.v != before.v)
        sim::Fail("value-changed", "setting up a reverting guard failed but changed the value");
    } else {
      if (current != id && current >= 0)
        CheckRuns(current, "scope ended");
      sim::NoSim ns;
      bool reverted = current == id;
      int si = 1000 + static_cast<int>(i);
      // Only the guarded value reverts; the other two keep what inner scopes left.
      bool ok = kind == 4 ? (vals.i == (reverted ? before.i : vals.i))
                          : kind == 5 ? (!reverted || vals.s == before.s) : (!reverted || vals.v == before.v);
      (void)si;
      if (!ok)
        sim::Fail("value-not-reverted", Str("kind %d: the value held when the guard was created was not restored", kind));
      if (!reverted && kind == 4 && current == -1 && i + 1 == ops.size() && vals.i != si)
        sim::Fail("value-reverted-after-release", "a released guard changed the value");
    }
  }
};

void RunScope(const Program& p) {
  std::vector<Op> ops;
  GW* w;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new GW;
  }
  uint64_t live = sim::Heap().live_blocks;
  {
    Values vals;
    ScopeRunner r{*w, vals, ops, Faulty(p)};
    if (!ops.empty())
      r.Scope(0);
    sim::NoSim ns;
    for (auto& e : w->expected)
      if (w->runs[e.first] != e.second)
        sim::Fail("action-count", Str("action %d ran %d times, expected %d (at the end)", e.first, w->runs[e.first], e.second));
  }
  if (sim::Heap().live_blocks != live)
    sim::Fail("leak", "scope-exit guards leaked memory:\n" + sim::DescribeLiveBlocks(0, 4));
}

sim::Registrar rs({"C24", GenScope, RunScope,
                   "one simulated run of a nest of scopes with guards, replacements, releases and exceptions, "
                   "with failing allocations and failing copies of the action; non-trivial: at least one fault "
                   "fired; distinct by hash of the whole event and decision sequence",
                   {"maidsafe::on_scope_exit"},
                   {"heap (simulated, failing)"},
                   60000, 500000});
}  // namespace
