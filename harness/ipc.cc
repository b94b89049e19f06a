// C28: what one process publishes in shared memory another reads exactly, or gets an error.
#include "maidsafe/common/ipc.h"

#include "../sim/shm.h"
#include "util.h"

using namespace h;  // NOLINT
namespace shm = sim::shm;

namespace {

std::string Name(int i) {
  switch (i) {
    case 0: return "name";
    case 1: return std::string("\0/\xff..", 5);
    case 2: return Bytes(5, 100);
    default: return Bytes(6, 200);  // too long for the system
  }
}
const int kNames = 4;

std::vector<std::string> Items(int64_t id, int64_t count, int64_t size) {
  std::vector<std::string> v;
  for (int64_t i = 0; i < count; ++i)
    v.push_back(Bytes(id * 1000 + i, size <= 0 ? 0 : (sim::Mix(id, i) % (2 * size))));
  return v;
}

void Gen(Rng& r, Program& p, Config& c) {
  int threads = 2 + r.Below(4);
  p.params["threads"] = threads;
  int n = 3 + r.Below(12);
  bool kills = r.Chance(0.5);
  int names = 1 + r.Below(2);
  for (int i = 0; i < n; ++i) {
    int t = 1 + r.Below(threads);
    int name = r.Chance(0.05) ? r.Below(kNames) : r.Below(names);
    double u = r.Unit();
    if (i == 0 || u < 0.35) {
      int64_t size = Pick<int64_t>(r, {0, 3, 20, 200, 600});
      int64_t count = r.Chance(0.1) ? r.Below(65) : r.Below(9);
      if (r.Chance(0.05))
        size = 20000;
      p.ops.push_back(Line(t, "pub", {name, i + 1, count, size}));
    } else if (u < 0.75) {
      p.ops.push_back(Line(t, "read", {name, static_cast<int64_t>(r.Below(r.Chance(0.1) ? 66 : 10)) - (r.Chance(0.05) ? 8 : 0)}));
    } else if (u < 0.85) {
      p.ops.push_back(Line(t, "rm", {name}));
    } else if (kills) {
      int victim = 1 + r.Below(threads);
      if (victim != t)
        p.ops.push_back(Line(t, "kill", {victim, static_cast<int64_t>(r.Below(30000))}));
    } else {
      p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(20000))}));
    }
  }
  p.params["faults"] = r.Chance(0.4);
  if (Faulty(p)) {
    c.prob[sim::K_SYS] = 0.02;
    c.prob[sim::K_ALLOC] = r.Chance(0.5) ? 0.01 : 0;
  }
  c.mem_mean = Pick<double>(r, {50, 300, 2000, 0});
  c.tick_ns = 1000;
  c.max_steps = 2000000;
}

struct Change {          // a publication or a removal
  int name;
  std::vector<std::string> items;
  bool pub = false, ok = false, threw = false, killed = false, faulted = false;
  uint64_t start = 0, end = UINT64_MAX;
  bool small = false;
  std::string what;
};
struct W {
  std::vector<Change*> changes;
  std::map<int, Change*> publishing;  // simulated thread -> what it publishes now
  std::map<int, int> tid;             // program thread -> simulated thread
  bool any_killed = false;
};

uint64_t FaultCount() { return shm::Faults() + sim::AllocFaultsFired(); }

void Publish(W* w, const Op& o) {
  Change* c;
  std::string name;
  std::vector<std::string>* items;
  uint64_t f0 = FaultCount();
  {
    sim::NoSim ns;
    c = new Change;
    c->name = o.a[0];
    c->pub = true;
    c->items = Items(o.a[1], o.a[2], o.a[3]);
    size_t total = 0;
    for (auto& i : c->items)
      total += i.size();
    c->small = total <= 10000;
    c->start = sim::Seq();
    c->what = Str("publication %d of %d items", static_cast<int>(o.a[1]), static_cast<int>(c->items.size()));
    w->changes.push_back(c);
    w->publishing[sim::Tid()] = c;
  }
  std::string error;
  {
    std::string n(Name(c->name));
    std::vector<std::string> v(c->items);
    sim::AllocFaults(true);
    bool bad = false;
    try {
      maidsafe::ipc::CreateSharedMemory(n, v);
    } catch (const std::exception& e) {
      sim::AllocFaults(false);
      bad = true;
      sim::NoSim ns;
      error = e.what();
    }
    sim::AllocFaults(false);
    c->threw = bad;
  }
  sim::NoSim ns;
  c->end = sim::Seq();
  c->ok = !c->threw;
  c->faulted = c->threw && FaultCount() != f0;
  w->publishing.erase(sim::Tid());
  sim::Log("publish %d items as %d -> %s", static_cast<int>(c->items.size()), c->name, c->ok ? "ok" : error.c_str());
  if (c->name == 3) {
    if (c->ok)
      sim::Fail("bad-name-accepted", "publishing under a name too long for the system succeeded");
    return;
  }
  if (c->threw && c->small && FaultCount() == f0) {
    for (auto x : w->changes)
      if (x != c && x->name == c->name && x->end > c->start && x->start < c->end)
        return;
    sim::Fail("publish-refused", c->what + " failed although nothing failed: " + error);
  }
  if (c->threw)
    sim::Probe(c->small ? "publication failed" : "too large to publish");
}

void Remove(W* w, const Op& o) {
  Change* c;
  {
    sim::NoSim ns;
    c = new Change;
    c->name = o.a[0];
    c->start = sim::Seq();
    c->what = "removal";
    w->changes.push_back(c);
  }
  std::string n(Name(c->name));
  maidsafe::ipc::RemoveSharedMemory(n);
  sim::NoSim ns;
  c->ok = true;
  c->end = sim::Seq();
  sim::Log("remove %d", c->name);
}

void Read(W* w, const Op& o, bool alloc_faults) {
  int name = o.a[0], number = o.a[1];
  uint64_t start = sim::Seq(), f0 = FaultCount();
  std::vector<std::string> got;
  bool threw = false;
  std::string error;
  {
    std::string n(Name(name));
    sim::AllocFaults(alloc_faults);
    try {
      got = maidsafe::ipc::ReadSharedMemory(n, number);
    } catch (const std::exception& e) {
      sim::AllocFaults(false);
      threw = true;
      sim::NoSim ns;
      error = e.what();
    }
    sim::AllocFaults(false);
  }
  sim::NoSim ns;
  uint64_t end = sim::Seq();
  sim::Log("read %d of %d -> %s", number, name, threw ? error.c_str() : "ok");
  if (threw) {
    if (FaultCount() != f0)
      return;
    for (auto c : w->changes) {
      if (c->name != name || !c->pub || !c->ok || c->end >= start || number > static_cast<int>(c->items.size()))
        continue;
      bool certain = true;
      for (auto x : w->changes)
        certain &= x == c || x->name != name || x->end < c->start || x->start > end;
      if (certain)
        sim::Fail("read-refused", Str("reading %d items of ", number) + c->what + " failed: " + error);
    }
    sim::Probe("read refused");
    return;
  }
  if (static_cast<int>(got.size()) != std::max(number, 0))
    sim::Fail("wrong-count", Str("%d items read when %d were asked for", static_cast<int>(got.size()), number));
  for (auto c : w->changes) {
    if (c->name != name || !c->pub || got.size() > c->items.size())
      continue;
    if (!std::equal(got.begin(), got.end(), c->items.begin()))
      continue;
    bool gone = false;
    for (auto x : w->changes)
      gone |= x != c && x->name == name && !x->killed && !x->faulted && x->start > c->end && x->end < start;
    if (gone)
      continue;
    if (c->killed)
      sim::Probe("read what a crashed publisher had published");
    else if (c->end > start)
      sim::Probe("read while publishing");
    return;
  }
  std::string known;
  for (auto c : w->changes)
    if (c->name == name)
      known += "; " + c->what + (c->killed ? " (crashed)" : c->threw ? " (failed)" : "");
  sim::Fail("not-published", Str("read %d items nobody had published then: item 0 has %d bytes", number,
                                 got.empty() ? -1 : static_cast<int>(got[0].size())) + known);
}

void Run(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  W* w;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new W;
    shm::g_on = true;
  }
  bool alloc = Faulty(p);
  sim::SetFaultsEnabled(false);
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      {
        sim::NoSim ns;
        w->tid[t] = sim::Tid();
      }
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        if (o.verb == "pub") {
          Publish(w, o);
        } else if (o.verb == "read") {
          Read(w, o, alloc);
        } else if (o.verb == "rm") {
          Remove(w, o);
        } else if (o.verb == "pause") {
          sim::SleepNs(o.a[0]);
        } else if (o.verb == "kill") {
          sim::SleepNs(1 + o.a[1]);
          int victim = -1;
          {
            sim::NoSim ns;
            auto it = w->tid.find(static_cast<int>(o.a[0]));
            if (it != w->tid.end())
              victim = it->second;
          }
          for (int i = 0; victim >= 0 && i < 100; ++i) {
            bool done;
            {
              sim::NoSim ns;
              auto it = w->publishing.find(victim);
              done = it == w->publishing.end();
              if (!done && sim::Kill(victim, reinterpret_cast<void*>(shm::kBase), reinterpret_cast<void*>(shm::kEnd))) {
                it->second->killed = true;
                it->second->end = sim::Seq();
                w->publishing.erase(it);
                w->any_killed = true;
                sim::Log("publisher crashed");
                sim::Probe("publisher crashed");
                done = true;
              }
            }
            if (done)
              break;
            sim::Yield();
          }
        }
      }
    });
  sim::SetFaultsEnabled(true);
  for (auto& t : ts)
    t.join();
  sim::SetFaultsEnabled(false);
  for (int n = 0; n < 3; ++n) {
    Op o;
    o.a = {n, 0, 0, 0, 0, 0};
    for (int k : {0, 1, 3}) {
      o.a[1] = k;
      Read(w, o, false);
    }
    Remove(w, o);
    o.a[1] = 0;
    Read(w, o, false);
    o.a = {n, 900 + n, 3, 50, 0, 0};
    Publish(w, o);
    o.a[1] = 3;
    Read(w, o, false);
    Remove(w, o);
  }
  sim::NoSim ns;
  // (Boost leaks the descriptor if memory runs out in its own constructor.)
  if (!w->any_killed && !sim::FaultsFiredKind(sim::K_ALLOC) && (shm::Mappings() || shm::OpenFds()))
    sim::Fail("leak", Str("%d mappings and %d descriptors are left", shm::Mappings(), shm::OpenFds()));
  if (shm::Objects())
    sim::Fail("name-left", "a removed name still exists");
}

sim::Registrar r28({"C28", Gen, Run,
                    "a run of publishers, readers and removers of shared memory; non-trivial: at least two "
                    "threads alternate",
                    {"ipc.cc", "boost.interprocess managed segments, allocator, strings and locks", "hex encoding"},
                    {"shm_open, ftruncate, mmap: one address space, the same address for every mapping",
                     "processes: threads which share only the segment; a crash ends one wherever it is"},
                    18000, 100000});

}  // namespace
