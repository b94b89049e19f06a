// C04: the thread-pool service, for both back ends.
#include "maidsafe/common/asio_service.h"

#include "asio/post.hpp"
#include "asio/steady_timer.hpp"
#include "boost/asio/post.hpp"
#include "boost/asio/steady_timer.hpp"

#include "../sim/net.h"
#include "util.h"

using namespace h;  // NOLINT

namespace {

struct Handler {
  int id = 0, parent = -1;
  uint64_t posted = 0;   // when post returned
  int runs = 0;
  bool must = false;     // posted before any stop, or by a handler which must run
};
struct World {
  std::vector<Handler> handlers;
  size_t threads = 0;
  bool stopping = false;          // a stop from outside has begun
  bool stopped = false;           // a stop from outside has returned
  bool gone = false;              // the service has been destroyed
  int base_threads = 0;
  std::set<int> workers;
  int running = 0, meeting = 0;
  uint64_t stop_begin = 0;
};

maidsafe::CommonErrors CodeOf(const std::exception& e, bool* ok) {
  auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&e);
  *ok = m != nullptr;
  if (m)
    for (auto c : {maidsafe::CommonErrors::cannot_invoke_from_this_thread, maidsafe::CommonErrors::invalid_argument})
      if (m->code() == make_error_code(c))
        return c;
  return maidsafe::CommonErrors::unknown;
}

template <class Service, class Timer>
struct Test {
  World* w;
  std::unique_ptr<maidsafe::IoService<Service>> s;

  template <class F>
  static void Post(asio::io_service& s, F f) { asio::post(s, f); }
  template <class F>
  static void Post(boost::asio::io_service& s, F f) { boost::asio::post(s, f); }

  // kind: 0 plain, 1 timer
  void Submit(int parent, const Op& o, int depth) {
    int id;
    {
      sim::NoSim ns;
      id = w->handlers.size();
      w->handlers.push_back(Handler());
      w->handlers[id].id = id;
      w->handlers[id].parent = parent;
      w->handlers[id].must = parent >= 0 ? w->handlers[parent].must : false;
    }
    const Op* op = &o;
    if (o.a[0] == 1) {
      auto t = std::make_shared<Timer>(s->service());
      t->expires_after(std::chrono::microseconds(o.a[1]));
      t->async_wait([this, t, id, op, depth](const auto& ec) {
        if (ec)
          sim::Fail("handler-cancelled", "a timer was cancelled");
        Run(id, *op, depth);
      });
    } else {
      Post(s->service(), [this, id, op, depth] { Run(id, *op, depth); });
    }
    sim::NoSim ns;
    w->handlers[id].posted = sim::Seq();
    if (parent < 0 && !w->stopping)
      w->handlers[id].must = true;
  }

  void Run(int id, const Op& o, int depth) {
    {
      sim::NoSim ns;
      Handler& h = w->handlers[id];
      sim::Log("handler %d", id);
      if (++h.runs > 1)
        sim::Fail("handler-twice", Str("handler %d ran %d times", id, h.runs));
      if (w->stopped)
        sim::Fail("handler-after-stop", Str("handler %d ran after a stop returned", id));
      w->workers.insert(sim::Tid());
      if (w->workers.size() > w->threads)
        sim::Fail("too-many-workers", Str("handlers ran in %d threads", static_cast<int>(w->workers.size())));
      if (++w->running > static_cast<int>(w->threads))
        sim::Fail("too-many-workers", Str("%d handlers ran at once", w->running));
    }
    sim::SyncPoint("in handler");
    if (o.verb == "post") {
      if (o.a[2])
        sim::SleepNs(o.a[2] * 1000);
      if (depth < o.a[3])
        for (int i = 0; i < o.a[4]; ++i)
          Submit(id, o, depth + 1);
    } else if (o.verb == "selfstop") {
      SelfStop();
      if (o.a[4])
        Submit(id, o, depth);
    }
    sim::NoSim ns;
    --w->running;
  }

  void SelfStop() {
    bool refused = false, alone = !w->stopping;
    try {
      s->Stop();
    } catch (const std::exception& e) {
      bool ok;
      refused = CodeOf(e, &ok) == maidsafe::CommonErrors::cannot_invoke_from_this_thread;
      if (!refused)
        sim::Fail("wrong-error", std::string("stopping from a worker: ") + e.what());
    }
    if (!refused)
      sim::Fail("self-stop", "stopping the service from a worker was not refused");
    sim::Probe("stop refused");
    size_t n = s->ThreadCount();
    if (alone && !w->stopping && n != w->threads)
      sim::Fail("thread-count", Str("after a refused stop the service says that it has %d threads",
                                    static_cast<int>(n)));
  }

  void Meet() {
    // Every worker must be able to take part at the same time.
    int n = w->threads;
    w->meeting = 0;
    auto arrived = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < n; ++i)
      Post(s->service(), [this, arrived, n] {
        ++*arrived;
        for (int k = 0; *arrived < n; ++k) {
          if (k > 10000)
            sim::Fail("too-few-workers", Str("only %d of %d handlers run at once", arrived->load(), n));
          sim::SleepNs(100000);
        }
      });
    for (int k = 0; *arrived < n; ++k) {
      if (k > 10000)
        sim::Fail("too-few-workers", Str("only %d of %d handlers run at once", arrived->load(), n));
      sim::SleepNs(100000);
    }
  }

  void Stop() {
    {
      sim::NoSim ns;
      w->stopping = true;
      sim::Log("stop begins");
    }
    try {
      s->Stop();
    } catch (const std::exception& e) {
      sim::NoSim ns;
      sim::Fail("stop-failed", std::string("stopping from outside failed: ") + e.what());
    }
    sim::NoSim ns;
    sim::Log("stop returned");
    w->stopped = true;
    CheckStopped();
  }
  void CheckStopped() {
    for (auto& h : w->handlers)
      if (h.must && h.runs != 1)
        sim::Fail("handler-lost", Str("handler %d, posted before the stop began, had not run when it returned", h.id));
    if (w->running)
      sim::Fail("stop-early", "a handler was running when a stop returned");
    if (s && s->ThreadCount() != 0)
      sim::Fail("thread-count", "a stopped service says that it has threads");
  }

  void Main(const Program& p, const std::vector<Op>& ops) {
    int callers = static_cast<int>(p.P("callers"));
    size_t n = p.P("threads");
    if (n == 0) {
      bool refused = false;
      try {
        s.reset(new maidsafe::IoService<Service>(0));
      } catch (const std::exception& e) {
        bool ok;
        refused = CodeOf(e, &ok) == maidsafe::CommonErrors::invalid_argument;
        if (!refused && !sim::FaultsFired())
          sim::Fail("wrong-error", std::string("no threads: ") + e.what());
      }
      if (s)
        sim::Fail("zero-threads", "a service without threads was created");
      if (sim::net::OpenFds())
        sim::Fail("leak", "descriptors are left: " + sim::net::State());
      return;
    }
    int base = sim::LiveThreads();
    {
      bool created = false;
      std::string error;
      try {
        bool alloc = p.P("alloc") != 0;
        sim::AllocFaults(alloc);
        s.reset(new maidsafe::IoService<Service>(n));
        sim::AllocFaults(false);
        created = true;
      } catch (const std::exception& e) {
        sim::AllocFaults(false);
        sim::NoSim ns;
        error = e.what();
      }
      sim::SetFaultsEnabled(false);
      if (!created) {
        sim::NoSim ns;
        if (!sim::FaultsFired())
          sim::Fail("not-created", "the service can't be created: " + error);
        if (sim::LiveThreads() != base)
          sim::Fail("thread-left", "a service which couldn't be created left threads running");
        if (sim::net::OpenFds())
          sim::Fail("leak", "descriptors are left: " + sim::net::State());
        sim::Probe("service not created");
        return;
      }
    }
    if (s->ThreadCount() != n || sim::LiveThreads() != base + static_cast<int>(n))
      sim::Fail("thread-count", Str("a service of %d threads has %d and says it has %d", static_cast<int>(n),
                                    sim::LiveThreads() - base, static_cast<int>(s->ThreadCount())));
    if (p.P("meet"))
      Meet();
    std::vector<std::thread> ts;
    for (int c = 1; c <= callers; ++c)
      ts.emplace_back([&, c] {
        for (auto& o : ops) {
          if (o.thread != c)
            continue;
          if (o.verb == "post" || o.verb == "selfstop")
            Submit(-1, o, 0);
          else if (o.verb == "stop")
            Stop();
          else if (o.verb == "pause")
            sim::SleepNs(o.a[0] * 1000);
        }
      });
    for (auto& t : ts)
      t.join();
    if (p.P("meet") && !w->stopping)
      Meet();
    // Handlers may still use s while the destructor runs.
    {
      sim::NoSim ns;
      w->stopping = true;
    }
    if (p.P("destroy")) {
      delete s.get();
      (void)s.release();
      sim::NoSim ns;
      w->stopped = true;
      CheckStopped();
    } else {
      Stop();
      Stop();
      if (sim::LiveThreads() != base)
        sim::Fail("thread-left", "workers run after the stop has returned");
      s.reset();
    }
    if (sim::LiveThreads() != base)
      sim::Fail("thread-left", "workers are left after the destruction");
    if (sim::net::OpenFds())
      sim::Fail("leak", "descriptors are left: " + sim::net::State());
  }
};

void Run(const Program& p) {
  World* w;
  std::vector<Op>* ops;
  {
    sim::NoSim ns;
    w = new World;
    w->threads = p.P("threads");
    ops = new std::vector<Op>(Parse(p));
    sim::net::g_fault_sockets = Faulty(p);
  }
  if (p.P("boost")) {
    Test<boost::asio::io_service, boost::asio::steady_timer> t{w, nullptr};
    t.Main(p, *ops);
  } else {
    Test<asio::io_service, asio::steady_timer> t{w, nullptr};
    t.Main(p, *ops);
  }
}

void Gen(Rng& r, Program& p, Config& c) {
  p.params["boost"] = r.Chance(0.3);
  p.params["threads"] = r.Chance(0.03) ? 0 : 1 + r.Below(r.Chance(0.2) ? 8 : 4);
  p.params["meet"] = r.Chance(0.2);
  p.params["destroy"] = r.Chance(0.3);
  int callers = 1 + r.Below(4);
  p.params["callers"] = callers;
  int n = r.Chance(0.02) ? 50 + r.Below(150) : 1 + r.Below(10);
  double stops = r.Chance(0.6) ? 0.15 : 0;
  for (int i = 0; i < n; ++i) {
    int t = 1 + r.Below(callers);
    double u = r.Unit();
    if (u < stops)
      p.ops.push_back(Line(t, "stop"));
    else if (u < stops + 0.1)
      p.ops.push_back(Line(t, "selfstop", {r.Chance(0.2), static_cast<int64_t>(r.Below(200)), 0, 0, 0}));
    else if (u < stops + 0.2)
      p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(300))}));
    else
      p.ops.push_back(Line(t, "post", {r.Chance(0.25), static_cast<int64_t>(r.Below(400)),
                                       r.Chance(0.2) ? static_cast<int64_t>(r.Below(300)) : 0,
                                       static_cast<int64_t>(r.Below(4)), static_cast<int64_t>(r.Below(3))}));
  }
  p.params["faults"] = r.Chance(0.15);
  if (Faulty(p)) {
    c.prob[sim::K_SYS] = Pick<double>(r, {0.05, 0.3});
    if (r.Chance(0.5)) {
      p.params["alloc"] = 1;
      c.prob[sim::K_ALLOC] = Pick<double>(r, {0.02, 0.1});
    }
  }
  if (r.Chance(0.3))
    c.prob[sim::K_EINTR] = 0.05;
}

sim::Registrar r04({"C04", Gen, Run,
                    "a run of posting, timers, stops from outside and from workers, and destruction; non-trivial: "
                    "threads alternate",
                    {"asio_service.h", "asio 1.28 and Boost.Asio 1.83 (scheduler, reactor, timers)"},
                    {"epoll, eventfd, timerfd: simulated", "threads, mutexes, condition variables, clocks: simulated"},
                    50000,
                    600000});

}  // namespace
