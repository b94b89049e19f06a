// C11: the least-recently-used cache, under a simulated clock and failing allocations.
#include <list>
#include <memory>
#include <new>

#include "maidsafe/common/error.h"
#include "maidsafe/common/containers/lru_cache.h"

#include "util.h"

namespace {
using namespace h;  // NOLINT

struct MEntry {
  int key;
  int val;
  int64_t at;
};
struct Model {
  std::list<MEntry> l;  // least recently used first
  uint64_t cap;
  int64_t ttl;
  std::list<MEntry>::iterator Find(int k) {
    auto it = l.begin();
    while (it != l.end() && it->key != k)
      ++it;
    return it;
  }
  // Drops what adding a new key drops.  Returns how many.
  int Prune(int64_t now) {
    int n = 0;
    if (cap == 0)
      return 0;
    if (l.size() == cap) {
      l.pop_front();
      ++n;
      sim::Probe("evicted for capacity");
    }
    while (ttl && !l.empty() && l.front().at + ttl < now) {
      if (l.front().at + ttl == now - 1)
        sim::Probe("expired by one nanosecond");
      l.pop_front();
      ++n;
      sim::Probe("expired");
    }
    if (ttl && !l.empty() && l.front().at + ttl == now)
      sim::Probe("exactly at the limit");
    return n;
  }
};

int64_t SteadyNs() { return std::chrono::steady_clock::now().time_since_epoch().count(); }

std::string KeyStr(int k) { return Bytes(k, 5 + k % 30); }
std::string ValStr(int v) { return Bytes(v + 1000, v % 60); }

// The two variants behind one interface.
struct Cache {
  std::unique_ptr<maidsafe::LruCache<std::string, std::string>> c;
  std::unique_ptr<maidsafe::LruCache<std::string, void>> f;
};

void Gen(Rng& r, Program& p, Config& c) {
  p.params["filter"] = r.Chance(0.3);
  int kind = static_cast<int>(r.Below(3));  // size, time, both
  p.params["kind"] = kind;
  p.params["cap"] = r.Chance(0.05) ? 0 : r.Chance(0.2) ? 1 : r.Range(1, 12);
  int64_t ttl = r.Chance(0.3) ? r.Range(1, 1000) : r.Range(1000, 2000000000);
  p.params["ttl"] = ttl;
  p.params["faults"] = r.Chance(0.4);
  if (p.P("faults"))
    c.prob[sim::K_ALLOC] = Pick(r, {0.02, 0.1, 0.3});
  int n = static_cast<int>(r.Range(5, 60));
  int keys = static_cast<int>(r.Range(2, 20));
  if (r.Chance(0.03)) {
    p.params["cap"] = r.Chance(0.5) ? int64_t{1} << r.Range(4, 9) : r.Range(12, 300);
    n = static_cast<int>(r.Range(100, 900));
    keys = static_cast<int>(r.Range(20, 600));
  }
  for (int i = 0; i < n; ++i) {
    int64_t k = static_cast<int64_t>(r.Below(keys));
    double u = r.Unit();
    if (u < 0.45)
      p.ops.push_back(Line(0, "add", {k, i}));
    else if (u < 0.62)
      p.ops.push_back(Line(0, "get", {k}));
    else if (u < 0.7)
      p.ops.push_back(Line(0, "check", {k}));
    else if (u < 0.78)
      p.ops.push_back(Line(0, "del", {k}));
    else {
      int64_t d = r.Chance(0.3) ? ttl : r.Chance(0.3) ? ttl / r.Range(2, 6) : r.Chance(0.5) ? ttl + r.Range(-3000, 3000) : r.Range(1, 3000);
      p.ops.push_back(Line(0, "pass", {d > 0 ? d : 1}));
    }
  }
  c.tick_ns = r.Chance(0.5) ? 1 : 200;
}

void Run(const Program& p) {
  Model m;
  std::vector<Op> ops;
  bool filter = p.P("filter");
  int64_t cap = p.P("cap"), ttl = p.P("ttl");
  {
    sim::NoSim ns;
    ops = Parse(p);
    m.cap = p.P("kind") == 1 ? UINT64_MAX : cap;
    m.ttl = p.P("kind") == 0 ? 0 : ttl;
  }
  Cache c;
  std::chrono::nanoseconds t(ttl);
  switch (p.P("kind")) {
    case 0:
      filter ? c.f.reset(new maidsafe::LruCache<std::string, void>(static_cast<size_t>(cap))) : c.c.reset(new maidsafe::LruCache<std::string, std::string>(static_cast<size_t>(cap)));
      break;
    case 1:
      filter ? c.f.reset(new maidsafe::LruCache<std::string, void>(t)) : c.c.reset(new maidsafe::LruCache<std::string, std::string>(t));
      break;
    default:
      filter ? c.f.reset(new maidsafe::LruCache<std::string, void>(cap, t)) : c.c.reset(new maidsafe::LruCache<std::string, std::string>(cap, t));
  }
  auto check_all = [&](const char* when) {
    size_t n = filter ? c.f->size() : c.c->size();
    for (int k = 0; k < 20; ++k) {
      std::string ks = KeyStr(k);
      bool has = filter ? c.f->Check(ks) : c.c->Check(ks);
      sim::NoSim ns;
      bool want = m.Find(k) != m.l.end();
      if (has != want)
        sim::Fail(has ? "not-removed" : "lost", Str("%s: key %d is %s but should %s", when, k, has ? "present" : "absent", want ? "be present" : "have been removed"));
    }
    sim::NoSim ns;
    if (n != m.l.size())
      sim::Fail("size", Str("%s: size is %zu, %zu entries are live", when, n, m.l.size()));
  };
  for (auto& o : ops) {
    int key = static_cast<int>(o.a[0]);
    if (o.verb == "pass") {
      sim::AdvanceClock(o.a[0]);
      continue;
    }
    std::string ks = KeyStr(key);
    if (o.verb == "add") {
      std::string vs = ValStr(static_cast<int>(o.a[1]));
      std::string expect = vs;
      int64_t before, after;
      bool threw = false;
      {
        std::string k2 = ks;
        before = SteadyNs();
        sim::AllocFaults(true);
        try {
          filter ? c.f->Add(std::move(k2)) : c.c->Add(std::move(k2), std::move(vs));
        } catch (const std::bad_alloc&) {
          threw = true;
        }
        sim::AllocFaults(false);
        after = SteadyNs();
      }
      sim::NoSim ns;
      sim::Log("add key %d value %d %s", key, static_cast<int>(o.a[1]), threw ? "-> out of memory" : "");
      // Between the two clock readings nothing may be on the edge (it would be undecidable).
      if (m.Find(key) == m.l.end()) {
        Model m2 = m;
        Model m1 = m;
        m1.Prune(before);
        m2.Prune(after);
        size_t have;
        // pick the one the cache agrees with; anything between is allowed
        have = filter ? c.f->size() : c.c->size();
        size_t hi = m1.l.size(), lo = m2.l.size();
        size_t extra = (threw || m.cap == 0) ? 0 : 1;
        if (threw) {
          // nothing was added; entries due for removal may or may not have gone yet
          hi = m.l.size();
          if (have > hi || have < lo)
            sim::Fail("size", Str("adding key %d ran out of memory: size is %zu, expected %zu to %zu", key, have, lo, hi));
          sim::Probe("add ran out of memory");
        } else if (have < lo + extra || have > hi + extra) {
          sim::Fail("size", Str("after adding key %d: size is %zu, expected %zu to %zu", key, have, lo + extra, hi + extra));
        }
        while (m.l.size() > have - extra)
          m.l.pop_front();
        if (extra)
          m.l.push_back({key, static_cast<int>(o.a[1]), before});
      } else {
        sim::Probe("added an existing key");
      }
    } else if (o.verb == "get" && !filter) {
      bool threw = false, found = false;
      std::string got;
      // Making the error for an absent key may not throw (by declaration): memory is not made short there.
      bool there;
      {
        sim::NoSim ns;
        there = m.Find(key) != m.l.end();
      }
      if (there)
        sim::AllocFaults(true);
      try {
        auto g = c.c->Get(ks);
        found = static_cast<bool>(g);
        if (found)
          got.swap(*g);
      } catch (const std::bad_alloc&) {
        threw = true;
      }
      if (there)
        sim::AllocFaults(false);
      sim::NoSim ns;
      auto it = m.Find(key);
      sim::Log("get key %d -> %s", key, threw ? "out of memory" : found ? "found" : "not found");
      if (it != m.l.end()) {
        if (!threw && !found)
          sim::Fail("lost", Str("get of key %d found nothing", key));
        if (!threw && got != ValStr(it->val))
          sim::Fail("wrong-value", Str("get of key %d returned something other than value %d", key, it->val));
        m.l.splice(m.l.end(), m.l, it);
      } else if (found) {
        sim::Fail("not-removed", Str("get of key %d found a removed entry", key));
      }
    } else if (o.verb == "del" && !filter) {
      c.c->Delete(ks);
      sim::NoSim ns;
      sim::Log("delete key %d", key);
      auto it = m.Find(key);
      if (it != m.l.end())
        m.l.erase(it);
    }
    check_all(o.verb.c_str());
  }
  check_all("at the end");
}

sim::Registrar r11({"C11", Gen, Run,
                    "one seeded history of adds, gets, deletes, checks and clock advances on a real cache compared step by step "
                    "with a reference list; non-trivial: at least two operations; distinct by hash of program, decisions and log",
                    {"maidsafe::LruCache (map and filter)", "std::map, std::list"},
                    {"clock (simulated)", "heap (fails on demand)"}, 30000, 3000000, true});
}  // namespace
