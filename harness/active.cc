// C01, C02: the active object.
#include <stdarg.h>

#include <atomic>
#include <memory>
#include <new>

#include "maidsafe/common/active.h"

#include "util.h"

namespace {
using namespace h;  // NOLINT

struct Task {
  int id = 0, parent = -1;
  int submitter = 0;          // program thread, or -2 for tasks submitted by tasks
  uint64_t call = 0, ret = 0; // of Send
  bool sent = false, returned = false;
  uint64_t start = 0, end = 0;
  int runs = 0;
  int tid = -1;
};

struct World {
  std::vector<Task> tasks;
  uint64_t destroy_call = 0, destroy_ret = 0;
  int running = 0;
  std::set<int> task_tids;
};

// The body of a task: checks overlap, submits children.
void Submit(World& w, maidsafe::Active& a, int id, int submitter, std::vector<std::vector<Op>>& children);

void Body(World& w, maidsafe::Active& a, int id, std::vector<std::vector<Op>>& children) {
  {
    sim::NoSim ns;
    Task& t = w.tasks[id];
    ++t.runs;
    t.start = sim::Seq();
    t.tid = sim::Tid();
    sim::Log("task %d starts", id);
    if (t.runs > 1)
      sim::Fail("task-run-twice", Str("task %d ran %d times", id, t.runs));
    if (w.destroy_ret)
      sim::Fail("task-after-destruction", Str("task %d ran after the destructor returned", id));
    if (w.running)
      sim::Fail("tasks-overlap", Str("task %d started while another task was running", id));
    ++w.running;
    w.task_tids.insert(t.tid);
    if (w.task_tids.size() > 1)
      sim::Fail("task-thread", "tasks ran on more than one thread");
    if (t.submitter >= 0 && t.tid == 0)
      sim::Fail("task-thread", "a task ran on the submitting thread");
  }
  sim::SyncPoint("in task");
  for (auto& c : children[id]) {
    if (c.verb == "sub")
      Submit(w, a, static_cast<int>(c.a[1]), -2, children);
    else if (c.verb == "work")
      for (int i = 0; i < c.a[1]; ++i)
        sim::Yield();
    else if (c.verb == "nap")
      sim::SleepNs(c.a[1] * 1000);
  }
  {
    sim::NoSim ns;
    --w.running;
    w.tasks[id].end = sim::Seq();
    sim::Log("task %d ends", id);
  }
}

void Submit(World& w, maidsafe::Active& a, int id, int submitter,
            std::vector<std::vector<Op>>& children) {
  {
    sim::NoSim ns;
    w.tasks[id].submitter = submitter;
    w.tasks[id].sent = true;
    w.tasks[id].call = sim::Seq();
    sim::Log("send %d called", id);
  }
  World* wp = &w;
  maidsafe::Active* ap = &a;
  auto* cp = &children;
  a.Send([wp, ap, cp, id] { Body(*wp, *ap, id, *cp); });
  sim::NoSim ns;
  w.tasks[id].returned = true;
  w.tasks[id].ret = sim::Seq();
  sim::Log("send %d returned", id);
}

void GenActive(Rng& r, Program& p, Config& c, bool destruction) {
  int threads = destruction ? static_cast<int>(r.Range(0, 2)) : static_cast<int>(r.Range(1, 4));
  int n = static_cast<int>(destruction ? r.Range(0, 12) : r.Range(1, 18));
  if (r.Chance(0.02))
    n = static_cast<int>(r.Range(60, 300));
  p.params["threads"] = threads;
  p.params["prefill"] = r.Below(2);
  p.params["gap"] = r.Chance(0.3) ? r.Below(60) : 0;  // steps between joining and destroying
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Below(threads + 1));  // 0 is the owner
    int id = i;
    double u = r.Unit();
    if (i > 0 && u < (destruction ? 0.4 : 0.25)) {
      // a task submitted by an earlier task
      p.ops.push_back(Line(-1, "sub", {static_cast<int64_t>(r.Below(i)), id}));
    } else {
      p.ops.push_back(Line(t, "send", {id}));
      if (r.Chance(0.15))
        p.ops.push_back(Line(t, "yield", {static_cast<int64_t>(r.Range(1, 6))}));
      if (r.Chance(0.1))
        p.ops.push_back(Line(t, "nap", {static_cast<int64_t>(r.Range(1, 500))}));
    }
    if (r.Chance(0.15))
      p.ops.push_back(Line(-1, r.Chance(0.5) ? "work" : "nap", {id, static_cast<int64_t>(r.Range(1, 8))}));
  }
  c.max_steps = n > 50 ? 400000 : 60000;
}

void RunActive(const Program& p, bool destruction) {
  World* w;
  std::vector<std::vector<Op>>* children;
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  {
    sim::NoSim ns;
    w = new World;
    children = new std::vector<std::vector<Op>>;
    ops = Parse(p);
    int maxid = 0;
    for (auto& o : ops)
      for (auto v : o.a)
        maxid = std::max<int>(maxid, static_cast<int>(v));
    w->tasks.resize(maxid + 2);
    children->resize(maxid + 2);
    for (size_t i = 0; i < w->tasks.size(); ++i)
      w->tasks[i].id = static_cast<int>(i);
    for (auto& o : ops)
      if (o.thread == -1)
        (*children)[o.a[0]].push_back(o);
  }
  // The object's memory is filled with garbage first, so that nothing relies on it being zero.
  void* mem = ::operator new(sizeof(maidsafe::Active));
  memset(mem, static_cast<int>(sim::Data(256)), sizeof(maidsafe::Active));
  maidsafe::Active* a = new (mem) maidsafe::Active;
  auto run = [&](int me) {
    for (auto& o : ops) {
      if (o.thread != me)
        continue;
      if (o.verb == "send")
        Submit(*w, *a, static_cast<int>(o.a[0]), me, *children);
      else if (o.verb == "yield")
        for (int i = 0; i < o.a[0]; ++i)
          sim::Yield();
      else if (o.verb == "nap")
        sim::SleepNs(o.a[0] * 1000);
    }
  };
  std::vector<std::thread> ts;
  if (p.P("prefill"))
    run(0);
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&run, t] { run(t); });
  if (!p.P("prefill"))
    run(0);
  for (auto& t : ts)
    t.join();
  for (int i = 0; i < p.P("gap"); ++i)
    sim::Yield();
  {
    sim::NoSim ns;
    w->destroy_call = sim::Seq();
    sim::Log("destructor called");
    bool pending = false;
    for (auto& t : w->tasks)
      pending |= t.sent && !t.end;
    if (pending)
      sim::Probe("destroyed with a backlog");
    if (w->running)
      sim::Probe("destroyed while a task runs");
  }
  a->~Active();
  {
    sim::NoSim ns;
    w->destroy_ret = sim::Seq();
    sim::Log("destructor returned");
    for (auto& t : w->tasks) {
      // Submitted before destruction began: must have run.
      if (t.sent && t.returned && t.ret < w->destroy_call && t.runs != 1)
        sim::Fail("task-lost", Str("task %d, accepted before destruction began, ran %d times", t.id, t.runs));
      if (t.runs && !t.end)
        sim::Fail("destructor-early", Str("destructor returned while task %d was running", t.id));
      if (t.sent && t.runs == 0)
        sim::Probe("task refused during shutdown");
    }
    // Order: Send(a) returned before Send(b) was called => a runs before b.
    for (auto& x : w->tasks)
      for (auto& y : w->tasks)
        if (x.id != y.id && x.sent && y.sent && x.runs && y.runs && x.returned && x.ret < y.call &&
            x.start > y.start)
          sim::Fail("task-order", Str("task %d was submitted before task %d but ran after it", x.id, y.id));
    // A task refused while an even later submission is accepted would also be a loss.
    for (auto& x : w->tasks)
      for (auto& y : w->tasks)
        if (x.sent && y.sent && !x.runs && y.runs && x.returned && x.ret < y.call)
          sim::Fail("task-lost", Str("task %d was dropped although later task %d ran", x.id, y.id));
  }
  ::operator delete(mem);
  // Nothing runs afterwards, and no worker is left behind.
  if (!sim::Quiesce())
    sim::Fail("worker-left", "a thread is still busy after the destructor returned");
  {
    sim::NoSim ns;
    if (sim::LiveThreads() != 1)
      sim::Fail("worker-left", "a thread is left after the destructor returned");
  }
}

sim::Registrar r1({"C01",
                   [](Rng& r, Program& p, Config& c) { GenActive(r, p, c, false); },
                   [](const Program& p) { RunActive(p, false); },
                   "one simulated run of a generated multi-threaded submission program against a real "
                   "active object; non-trivial: at least two context switches or a fault; distinct by "
                   "hash of the whole event and decision sequence",
                   {"maidsafe::Active", "boost::thread", "std::mutex/condition_variable call sites"},
                   {"pthread primitives and scheduler (simulated)"},
                   30000, 400000});
sim::Registrar r2({"C02",
                   [](Rng& r, Program& p, Config& c) { GenActive(r, p, c, true); },
                   [](const Program& p) { RunActive(p, true); },
                   "one simulated run of construction, submissions (also by tasks) and destruction of a "
                   "real active object; non-trivial: at least two context switches or a fault; distinct "
                   "by hash of the whole event and decision sequence",
                   {"maidsafe::Active", "boost::thread", "std::mutex/condition_variable call sites"},
                   {"pthread primitives and scheduler (simulated)"},
                   30000, 400000});
}  // namespace
