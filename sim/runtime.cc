#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <elf.h>
#include <fcntl.h>

#include <algorithm>
#include <exception>
#include <typeinfo>

#include "internal.h"

namespace sim {

State G;
__thread Thr* self __attribute__((tls_model("initial-exec"))) = nullptr;
void (*g_on_free)(void* p, size_t n) = nullptr;

const char* const kKindNames[K_NUM] = {
    "sched",     "mem",      "block",    "signal",     "spurious_wakeup", "time_jump", "clock_step",
    "alloc",     "io_open",  "io_read",  "io_write",   "io_close",        "io_meta",   "net_delay",
    "net_segment", "net_reset", "net_error", "net_stall", "db_io",        "db_busy",   "crash",
    "syscall",   "fault1",   "fault2",   "fault3", "io_slow", "io_dead", "eintr"};

// ------------------------------------------------------------------ rng
static uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) {
  s[0] = SplitMix(seed);
  s[1] = SplitMix(seed);
}
uint64_t Rng::Next() {
  uint64_t s1 = s[0];
  const uint64_t s0 = s[1];
  const uint64_t result = s0 + s1;
  s[0] = s0;
  s1 ^= s1 << 23;
  s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return result;
}
uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
  return SplitMix(x);
}

// ------------------------------------------------------------------ raw futex
static long RawFutex(volatile int* addr, int op, int val) {
  long ret;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"((long)SYS_futex), "D"(addr), "S"((long)op), "d"((long)val), "r"(r10)
                   : "rcx", "r11", "memory");
  return ret;
}
static void Park(Thr* t) {
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
    RawFutex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void Release(Thr* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  RawFutex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

// ------------------------------------------------------------------ failure
static void AppendLog(const char* s, size_t n) {
  if (!G.keep_log || !G.res)
    return;
  if (G.res->log_len + n + 1 >= kLogCap)
    return;
  memcpy(G.res->log + G.res->log_len, s, n);
  G.res->log_len += n;
  G.res->log[G.res->log_len++] = '\n';
}

static void Finalise(int status) {
  Result* r = G.res;
  r->steps = G.steps;
  uint64_t m = 0;
  for (int i = 0; i < G.nthr; ++i)
    m += G.thr[i]->mem;
  r->mem = m;
  r->sim_ns = G.now - 1000000000ull;
  r->threads = G.nthr;
  __atomic_store_n(&r->status, status, __ATOMIC_SEQ_CST);
  _exit(0);
}

static bool g_failing = false;
[[noreturn]] void Fail(const std::string& cls, const std::string& message) {
  if (self)
    ++self->in_rt;
  if (g_failing)
    _exit(77);
  g_failing = true;
  snprintf(G.res->cls, sizeof G.res->cls, "%s", cls.c_str());
  snprintf(G.res->msg, sizeof G.res->msg, "%s", message.c_str());
  HashEvent(0xfa11);
  if (G.keep_log) {
    std::string s = "!! " + cls + ": " + message;
    AppendLog(s.data(), s.size());
  }
  Finalise(S_FAIL);
  __builtin_unreachable();
}

std::string g_scrub;
void Log(const char* fmt, ...) {
  char buf[2048];
  if (self)
    ++self->in_rt;
  int n = snprintf(buf, sizeof buf, "[%6lu t%d %.6fs] ", (unsigned long)G.seq, self ? self->tid : -1,
                   (G.now - 1000000000ull) / 1e9);
  va_list ap;
  va_start(ap, fmt);
  int m = vsnprintf(buf + n, sizeof buf - n, fmt, ap);
  va_end(ap);
  n += std::min<int>(m, sizeof buf - n - 1);
  // The scratch directory's name differs from process to process.
  if (size_t len = g_scrub.size())
    for (char* at = buf; (at = strstr(at, g_scrub.c_str()));) {
      memmove(at + 1, at + len, buf + n + 1 - (at + len));
      *at++ = '.';
      n -= static_cast<int>(len) - 1;
    }
  uint64_t h = 1469598103934665603ull;
  // The prefix holds the sequence number and the time, so it is hashed too.
  for (int i = 0; i < n; ++i)
    h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
  HashEvent(h);
  AppendLog(buf, n);
  ++G.seq;
  if (self)
    --self->in_rt;
}

void Probe(const char* name, uint64_t n) {
  Result* r = G.res;
  for (int i = 0; i < r->nprobes; ++i)
    if (strcmp(r->probes[i].name, name) == 0) {
      r->probes[i].n += n;
      return;
    }
  if (r->nprobes < kMaxProbes) {
    snprintf(r->probes[r->nprobes].name, sizeof r->probes[0].name, "%s", name);
    r->probes[r->nprobes++].n = n;
  }
}

void HashEvent(uint64_t a) {
  if (G.res)
    G.res->hash = Mix(G.res->hash, a);
}
void NoteFired(Kind k) { ++G.res->fired[k]; }

// ------------------------------------------------------------------ symbols
struct Sym {
  uintptr_t a, e;
  std::string n;
};
static std::vector<Sym>* g_syms = nullptr;
static void LoadSyms() {
  if (g_syms)
    return;
  g_syms = new std::vector<Sym>;
  int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/proc/self/exe", O_RDONLY));
  if (fd < 0)
    return;
  off_t len = syscall(SYS_lseek, fd, 0, SEEK_END);
  char* m = static_cast<char*>(mmap(nullptr, len, PROT_READ, MAP_PRIVATE, fd, 0));
  syscall(SYS_close, fd);
  if (m == MAP_FAILED)
    return;
  Elf64_Ehdr* eh = reinterpret_cast<Elf64_Ehdr*>(m);
  Elf64_Shdr* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i) {
    if (sh[i].sh_type != SHT_SYMTAB)
      continue;
    Elf64_Sym* st = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
    const char* str = m + sh[sh[i].sh_link].sh_offset;
    for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
      if (ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && st[k].st_size)
        g_syms->push_back({st[k].st_value, st[k].st_value + st[k].st_size, str + st[k].st_name});
  }
  std::sort(g_syms->begin(), g_syms->end(), [](const Sym& x, const Sym& y) { return x.a < y.a; });
}
static std::string RawSym(const void* pc) {
  LoadSyms();
  uintptr_t a = reinterpret_cast<uintptr_t>(pc) - 1;
  auto it = std::upper_bound(g_syms->begin(), g_syms->end(), a,
                             [](uintptr_t v, const Sym& s) { return v < s.a; });
  if (it == g_syms->begin())
    return "?";
  --it;
  if (a >= it->e) {
    Dl_info di;
    if (dladdr(const_cast<void*>(pc), &di) && di.dli_sname)
      return di.dli_sname;
    return "?";
  }
  return it->n;
}
std::string Where(const void* pc) {
  std::string n = RawSym(pc);
  int st = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  std::string r = d ? d : n;
  free(d);
  // Keep it readable: drop template arguments and parameter lists beyond a length.
  if (r.size() > 160)
    r = r.substr(0, 157) + "...";
  return r;
}
std::string StackOf(Thr* t, int frames) {
  std::string s;
  int d = std::min(t->depth, 256);
  for (int i = d - 1; i >= 0 && frames > 0; --i, --frames)
    s += (s.empty() ? "" : " <- ") + Where(t->stack[i]);
  return s;
}

// ------------------------------------------------------------------ choices
static uint32_t Lookup(Kind k, int tid, uint64_t ctr) {
  auto it = G.dev.find((uint64_t(k) << 8) | tid);
  if (it == G.dev.end())
    return 0;
  auto jt = it->second.find(ctr);
  return jt == it->second.end() ? 0 : jt->second;
}
static void Record(Kind k, int tid, uint64_t ctr, uint32_t v) {
  Result* r = G.res;
  ++r->fired[k];
  if (r->ndev < kMaxDev)
    r->dev[r->ndev++] = Deviation{uint8_t(k), uint8_t(tid), v, ctr};
  else
    r->dev_overflow = true;
  HashEvent(Mix(uint64_t(k) << 8 | tid, Mix(ctr, v)));
}
uint32_t ChooseP(Kind k, uint32_t n, double p) {
  if (!self || n < 2)
    return 0;
  Thr* t = self;
  uint64_t c = t->ctr[k]++;
  if (!G.faults_on && k > K_BLOCK && k != K_SIGNAL)
    return 0;
  uint32_t v = 0;
  if (G.replay) {
    v = Lookup(k, t->tid, c);
    if (v >= n)
      v = n - 1;
  } else if (p > 0 && G.rng.Unit() < p) {
    v = 1 + static_cast<uint32_t>(G.rng.Below(n - 1));
  }
  if (v) {
    Record(k, t->tid, c, v);
    if (G.keep_log && k > K_BLOCK) {
      char b[128];
      int m = snprintf(b, sizeof b, "        fault/choice %s: value %u (t%d #%lu)", kKindNames[k], v,
                       t->tid, (unsigned long)c);
      AppendLog(b, m);
    }
  }
  return v;
}
uint32_t Choose(Kind k, uint32_t n) { return ChooseP(k, n, G.cfg.prob[k]); }

uint64_t Data(uint64_t n) { return G.garbage.Below(n); }
uint64_t Now() { return G.now; }
uint64_t WallNs() { return G.now + G.wall_off; }
uint64_t Seq() { return ++G.seq; }
int Tid() { return self ? self->tid : -1; }
uint64_t FaultsFiredKind(Kind k) { return G.res->fired[k]; }
uint64_t FaultsFired() {
  uint64_t s = 0;
  for (int k = K_SPURIOUS; k < K_NUM; ++k)
    s += G.res->fired[k];
  return s;
}
void SetFaultsEnabled(bool on) { G.faults_on = on; }
bool FaultsEnabled() { return G.faults_on; }
const std::string& Scratch() { return G.scratch; }

NoSim::NoSim() {
  if (self)
    ++self->in_rt;
}
NoSim::~NoSim() {
  if (self)
    --self->in_rt;
}

// ------------------------------------------------------------------ scheduler
static void FireDue() {
  while (!G.events.empty() && G.events.top().at <= G.now) {
    Event e = G.events.top();
    G.events.pop();
    (*e.fn)();
    delete e.fn;
  }
  for (int i = 0; i < G.nthr; ++i) {
    Thr* t = G.thr[i];
    if (t->st == T_BLK && t->deadline <= G.now) {
      t->timedout = true;
      t->st = T_RUN;
      t->deadline = UINT64_MAX;
    }
  }
}
uint64_t NextEventTime() {
  uint64_t d = UINT64_MAX;
  if (!G.events.empty())
    d = G.events.top().at;
  for (int i = 0; i < G.nthr; ++i)
    if (G.thr[i]->st == T_BLK)
      d = std::min(d, G.thr[i]->deadline);
  return d;
}
void At(uint64_t t, std::function<void()> fn) {
  ++self->in_rt;
  G.events.push(Event{t, ++G.event_seq, new std::function<void()>(std::move(fn))});
  --self->in_rt;
}

static std::string Blocked() {
  std::string s;
  for (int i = 0; i < G.nthr; ++i) {
    Thr* t = G.thr[i];
    if (t->st == T_FIN)
      continue;
    char b[64];
    snprintf(b, sizeof b, "t%d %s%s: ", t->tid, t->st == T_BLK ? "waits for " : "runnable",
             t->st == T_BLK ? t->what : "");
    s += (s.empty() ? "" : "; ") + std::string(b) + StackOf(t, 4);
  }
  return s;
}

static void SwitchTo(Thr* t) {
  Thr* me = self;
  if (t == me)
    return;
  ++G.res->switches;
  // Which event of which thread each switch lands on: the measure of distinct interleavings.
  G.res->order_hash = Mix(G.res->order_hash, (uint64_t(me->tid) << 40) ^ (uint64_t(t->tid) << 32) ^
                                                 me->ctr[K_SCHED]);
  HashEvent((uint64_t(me->tid) << 8) | t->tid);
  G.cur = t;
  bool park = me->st != T_FIN;  // (once released, t may kill this thread)
  Release(t);
  if (park)
    Park(me);
}

static int Runnable(Thr** out) {
  int n = 0;
  for (int i = 0; i < G.nthr; ++i)
    if (G.thr[i]->st == T_RUN)
      out[n++] = G.thr[i];
  return n;
}

static void CheckSteps() {
  if (++G.steps > G.cfg.max_steps)
    Fail("no-progress", "step bound of " + std::to_string(G.cfg.max_steps) +
                            " scheduling points exceeded; " + Blocked());
}

// Chooses who runs when the current thread cannot (or yields).
static Thr* PickNext(bool yielding) {
  Thr* run[kMaxThreads];
  for (;;) {
    FireDue();
    int n = Runnable(run);
    if (n == 0) {
      uint64_t d = NextEventTime();
      if (d == UINT64_MAX)
        Fail("deadlock", "no thread can run: " + Blocked());
      if (d > G.now)
        G.now = d;
      continue;
    }
    Thr* me = self;
    // Default: the next thread in cyclic order.
    Thr* def = nullptr;
    for (int i = 0; i < n; ++i)
      if (run[i]->tid > me->tid) {
        def = run[i];
        break;
      }
    if (!def)
      def = run[0];
    uint64_t c = me->ctr[K_BLOCK]++;
    Thr* target = def;
    if (G.replay) {
      uint32_t v = Lookup(K_BLOCK, me->tid, c);
      if (v)
        for (int i = 0; i < n; ++i)
          if (run[i]->tid == int(v) - 1)
            target = run[i];
    } else if (G.cfg.strategy == 1) {
      if (yielding)
        me->prio = --G.pct_low;
      target = run[0];
      for (int i = 1; i < n; ++i)
        if (run[i]->prio > target->prio)
          target = run[i];
    } else if (G.cfg.strategy != 3 && n > 1 && G.rng.Unit() < G.cfg.p_block) {
      target = run[G.rng.Below(n)];
    }
    if (target != def)
      Record(K_BLOCK, me->tid, c, target->tid + 1);
    return target;
  }
}

bool Block(const char* what, const void* obj, uint64_t deadline) {
  Thr* me = self;
  ++me->in_rt;
  me->ctr[K_SCHED]++;
  CheckSteps();
  G.now += G.cfg.tick_ns;
  me->what = what;
  me->obj = obj;
  me->timedout = false;
  me->deadline = deadline;
  me->st = T_BLK;
  Thr* t = PickNext(false);
  SwitchTo(t);
  me->deadline = UINT64_MAX;
  --me->in_rt;
  return me->timedout;
}

void Wake(Thr* t) {
  if (t->st == T_BLK) {
    t->st = T_RUN;
    t->timedout = false;
    t->deadline = UINT64_MAX;
  }
}

static bool PctPoint() {
  if (G.pct_pos < G.pct_points.size() && G.steps >= G.pct_points[G.pct_pos]) {
    ++G.pct_pos;
    return true;
  }
  return false;
}

void SchedPoint(int code) {
  Thr* me = self;
  ++me->in_rt;
  CheckSteps();
  G.now += G.cfg.tick_ns;
  HashEvent((uint64_t(me->tid) << 16) | code);
  if (G.cfg.prob[K_TIMEJUMP] > 0 || G.replay) {
    if (ChooseP(K_TIMEJUMP, 2, G.cfg.prob[K_TIMEJUMP])) {
      uint64_t d = NextEventTime();
      if (d != UINT64_MAX && d > G.now)
        G.now = d;
    }
  }
  FireDue();
  uint64_t c = me->ctr[K_SCHED]++;
  Thr* target = me;
  Thr* run[kMaxThreads];
  if (G.replay) {
    uint32_t v = Lookup(K_SCHED, me->tid, c);
    if (v && G.thr[v - 1] && int(v) <= G.nthr && G.thr[v - 1]->st == T_RUN)
      target = G.thr[v - 1];
  } else if (G.cfg.strategy == 0) {
    if (G.cfg.p_sync > 0 && G.rng.Unit() < G.cfg.p_sync) {
      int n = Runnable(run);
      target = run[G.rng.Below(n)];
    }
  } else if (G.cfg.strategy == 1) {
    if (PctPoint())
      me->prio = --G.pct_low;
    int n = Runnable(run);
    for (int i = 0; i < n; ++i)
      if (run[i]->prio > target->prio)
        target = run[i];
  } else if (G.cfg.strategy == 2) {
    if (G.few_left > 0 && G.steps >= G.few_next) {
      int n = Runnable(run);
      if (n > 1) {
        --G.few_left;
        G.few_next = G.steps + 1 + G.rng.Below(G.cfg.pct_len / 3 + 1);
        do
          target = run[G.rng.Below(n)];
        while (target == me);
      }
    }
  }
  if (target != me) {
    Record(K_SCHED, me->tid, c, target->tid + 1);
    SwitchTo(target);
  }
  --me->in_rt;
}

static void YieldPoint() {
  Thr* me = self;
  ++me->in_rt;
  CheckSteps();
  G.now += G.cfg.tick_ns;
  HashEvent((uint64_t(me->tid) << 16) | 0x77);
  me->ctr[K_SCHED]++;
  Thr* t = PickNext(true);
  SwitchTo(t);
  --me->in_rt;
}

// Preemption at a memory access.
static void ScheduleMem(Thr* t) {
  if (G.replay) {
    while (t->mem_dev_pos < t->mem_dev.size() && t->mem_dev[t->mem_dev_pos].first <= t->mem)
      ++t->mem_dev_pos;
    t->next_mem = t->mem_dev_pos < t->mem_dev.size() ? t->mem_dev[t->mem_dev_pos].first : UINT64_MAX;
  } else if (G.cfg.mem_mean > 0 && G.cfg.strategy != 3) {
    double u = G.rng.Unit();
    double gap = -G.cfg.mem_mean * __builtin_log(1 - u * 0.999999);
    t->next_mem = t->mem + 1 + static_cast<uint64_t>(gap);
  } else {
    t->next_mem = UINT64_MAX;
  }
  // Bound on memory accesses (infinite loops in the program).
  uint64_t bound = G.cfg.max_mem;
  if (t->next_mem > bound)
    t->next_mem = bound;
}

static void __attribute__((noinline)) MemPoint(Thr* me) {
  ++me->in_rt;
  if (me->mem >= G.cfg.max_mem)
    Fail("no-progress",
         "t" + std::to_string(me->tid) + " made " + std::to_string(me->mem) +
             " memory accesses in one run: " + StackOf(me, 6));
  Thr* run[kMaxThreads];
  Thr* target = me;
  uint64_t c = me->mem;
  if (G.replay) {
    if (me->mem_dev_pos < me->mem_dev.size() && me->mem_dev[me->mem_dev_pos].first == c) {
      uint32_t v = me->mem_dev[me->mem_dev_pos].second;
      if (v && int(v) <= G.nthr && G.thr[v - 1]->st == T_RUN)
        target = G.thr[v - 1];
    }
  } else {
    int n = Runnable(run);
    if (n > 1) {
      if (G.cfg.strategy == 1) {
        me->prio = --G.pct_low;
        target = run[0];
        for (int i = 1; i < n; ++i)
          if (run[i]->prio > target->prio)
            target = run[i];
      } else {
        target = run[G.rng.Below(n)];
      }
    }
  }
  if (target != me) {
    CheckSteps();
    Record(K_MEM, me->tid, c, target->tid + 1);
    SwitchTo(target);
  }
  ScheduleMem(me);
  --me->in_rt;
}

void Yield() {
  if (Active())
    YieldPoint();
}
void SyncPoint(const char*) {
  if (Active())
    SchedPoint(1);
}
void SleepNs(uint64_t ns) { Block("sleep", nullptr, G.now + ns); }
void AdvanceClock(uint64_t ns) {
  ++self->in_rt;
  G.now += ns;
  FireDue();
  --self->in_rt;
}
void StepWallClock(int64_t ns) { G.wall_off += ns; }
int LiveThreads() {
  int n = 0;
  for (int i = 0; i < G.nthr; ++i)
    n += G.thr[i]->st != T_FIN;
  return n;
}
std::string BlockedThreads() { return Blocked(); }
bool AllOthersBlocked() {
  for (int i = 0; i < G.nthr; ++i)
    if (G.thr[i] != self && G.thr[i]->st == T_RUN)
      return false;
  return true;
}
bool Quiesce(uint64_t max_steps) {
  uint64_t start = G.steps;
  while (!AllOthersBlocked() || (!G.events.empty() && G.events.top().at <= G.now)) {
    if (G.steps - start > max_steps)
      return false;
    YieldPoint();
  }
  return true;
}

bool Settle(uint64_t max_ns, uint64_t max_steps) {
  uint64_t end = G.now + max_ns, steps = G.steps;
  for (;;) {
    if (G.steps - steps > max_steps || !Quiesce(max_steps))
      return false;
    uint64_t d = UINT64_MAX;
    {
      NoSim ns;
      d = NextEventTime();
    }
    if (d == UINT64_MAX)
      return true;
    if (d > end)
      return false;
    SleepNs(d > G.now ? d - G.now : 1);
  }
}

bool WaitOn(WaitQ& q, const char* what, uint64_t deadline) {
  ++self->in_rt;
  q.tids.push_back(self->tid);
  --self->in_rt;
  bool to = Block(what, &q, deadline);
  ++self->in_rt;
  q.tids.erase(std::remove(q.tids.begin(), q.tids.end(), self->tid), q.tids.end());
  --self->in_rt;
  return !to;
}
void WakeAll(WaitQ& q) {
  if (self) ++self->in_rt;
  for (int t : q.tids)
    Wake(G.thr[t]);
  q.tids.clear();
  if (self) --self->in_rt;
}
void WakeOne(WaitQ& q) {
  if (q.tids.empty())
    return;
  ++self->in_rt;
  q.tids.erase(std::remove_if(q.tids.begin(), q.tids.end(), [](int t) { return G.thr[t]->killed; }), q.tids.end());
  if (q.tids.empty()) {
    --self->in_rt;
    return;
  }
  size_t i = q.tids.size() > 1 ? Choose(K_SIGNAL, q.tids.size()) : 0;
  Thr* t = G.thr[q.tids[i]];
  q.tids.erase(q.tids.begin() + i);
  Wake(t);
  --self->in_rt;
}

// ------------------------------------------------------------------ synchronisation state
struct Mtx {
  int owner = -1;
  int count = 0;
  WaitQ q;
  VC vc;
  Mtx() { vc.Clear(); }
};
struct Rw {
  int writer = -1;
  int readers = 0;
  WaitQ q;
  VC vc, rvc;
  Rw() { vc.Clear(); rvc.Clear(); }
};
struct Cond {
  std::vector<Thr*> waiters;
};
struct Once {
  int st = 0;
  int runner = -1;
  WaitQ q;
};
struct Sem {
  long v = 0;
  WaitQ q;
  VC vc;
  Sem() { vc.Clear(); }
};
static std::unordered_map<const void*, Mtx> g_mtx;
static std::unordered_map<const void*, Rw> g_rw;
static std::unordered_map<const void*, Cond> g_cond;
static std::unordered_map<const void*, Once> g_once;
static std::unordered_map<const void*, VC> g_sync;   // atomics, guards, futexes
static std::unordered_map<const void*, WaitQ> g_futex;

static void Tick(Thr* t) { ++t->vc.c[t->tid]; }
void AcquireFrom(const void* a) {
  ++self->in_rt;
  auto it = g_sync.find(a);
  if (it != g_sync.end())
    self->vc.Join(it->second);
  --self->in_rt;
}
void ReleaseTo(const void* a) {
  ++self->in_rt;
  auto it = g_sync.find(a);
  if (it == g_sync.end()) {
    it = g_sync.emplace(a, VC()).first;
    it->second.Clear();
  }
  it->second.Join(self->vc);
  Tick(self);
  --self->in_rt;
}

static void LockMtx(const void* m, const char* what, uint64_t deadline, bool* timedout) {
  // in_rt > 0 here
  Thr* me = self;
  for (;;) {
    Mtx& x = g_mtx[m];
    if (x.owner == -1) {
      x.owner = me->tid;
      x.count = 1;
      me->vc.Join(x.vc);
      return;
    }
    if (x.owner == me->tid) {
      int kind = static_cast<const pthread_mutex_t*>(m)->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE) {
        ++x.count;
        return;
      }
      if (deadline == UINT64_MAX)
        Fail("deadlock", "t" + std::to_string(me->tid) + " locks a mutex it already holds: " +
                             StackOf(me, 6));
    }
    if (!WaitOn(x.q, what, deadline)) {
      if (timedout)
        *timedout = true;
      return;
    }
  }
}
static void UnlockMtx(const void* m) {
  Thr* me = self;
  Mtx& x = g_mtx[m];
  if (x.owner != me->tid) {
    if (x.owner == -1 && x.count == 0)
      Fail("bad-unlock", "unlock of a mutex that is not locked: " + StackOf(me, 6));
    Fail("bad-unlock", "unlock of a mutex held by another thread: " + StackOf(me, 6));
  }
  if (--x.count > 0)
    return;
  x.owner = -1;
  x.vc.Join(me->vc);
  Tick(me);
  if (!x.q.tids.empty())
    WakeOne(x.q);
}

static uint64_t AbsToNs(const timespec* ts) {
  if (ts->tv_sec < 0)
    return 0;
  if (ts->tv_sec > 9000000000ll)
    return UINT64_MAX;
  return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec;
}
static uint64_t DeadlineOf(clockid_t clk, const timespec* ts) {
  uint64_t a = AbsToNs(ts);
  if (a == UINT64_MAX)
    return a;
  if (clk == CLOCK_REALTIME) {
    int64_t v = int64_t(a) - G.wall_off;
    return v < 0 ? 0 : uint64_t(v);
  }
  return a;
}

static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  CheckAccess(c, sizeof *c, false, __builtin_return_address(0));
  Rt rt;
  Thr* me = self;
  Cond& cv = g_cond[c];
  bool spurious = ChooseP(K_SPURIOUS, 2, G.cfg.prob[K_SPURIOUS]) != 0;
  int saved = 1;
  {
    Mtx& x = g_mtx[m];
    if (x.owner != me->tid)
      Fail("bad-wait", "condition wait without holding the mutex: " + StackOf(me, 6));
    saved = x.count;
    x.count = 1;
  }
  int rc = 0;
  me->signalled = false;
  cv.waiters.push_back(me);
  UnlockMtx(m);
  if (spurious) {
    SchedPoint(3);
    Cond& c2 = g_cond[c];
    c2.waiters.erase(std::remove(c2.waiters.begin(), c2.waiters.end(), me), c2.waiters.end());
  } else {
    bool to = false;
    if (deadline <= G.now)
      to = true, SchedPoint(3);
    else
      to = Block(deadline == UINT64_MAX ? "condition" : "condition (timed)", c, deadline);
    Cond& c2 = g_cond[c];
    c2.waiters.erase(std::remove(c2.waiters.begin(), c2.waiters.end(), me), c2.waiters.end());
    if (to && !me->signalled)
      rc = ETIMEDOUT;
  }
  LockMtx(m, "mutex (after condition wait)", UINT64_MAX, nullptr);
  g_mtx[m].count = saved;
  return rc;
}

static void CondSignal(const void* c, bool all) {
  auto it = g_cond.find(c);
  if (it == g_cond.end())
    return;
  auto& w = it->second.waiters;
  std::vector<Thr*> cand;
  for (Thr* t : w)
    if (!t->signalled && t->st == T_BLK)
      cand.push_back(t);
  if (cand.empty())
    return;
  if (all) {
    for (Thr* t : cand) {
      t->signalled = true;
      Wake(t);
    }
    w.clear();
  } else {
    size_t i = cand.size() > 1 ? Choose(K_SIGNAL, cand.size()) : 0;
    Thr* t = cand[i];
    t->signalled = true;
    Wake(t);
    w.erase(std::remove(w.begin(), w.end(), t), w.end());
  }
}

// ------------------------------------------------------------------ threads
bool Kill(int tid, const void* lo, const void* hi) {
  Rt rt;
  Thr* t = G.thr[tid];
  if (t == self || t->st == T_FIN)
    return true;
  // It may die holding a lock which lives in [lo, hi), shared with other processes; the
  // others' would hang this process only because all "processes" share one address space.
  if (t->guards)
    return false;
  for (auto& m : g_mtx)
    if (m.second.owner == tid && (m.first < lo || m.first >= hi))
      return false;
  for (auto& r : g_rw)
    if (r.second.writer == tid || r.second.readers)
      return false;
  for (auto& o : g_once)
    if (o.second.st == 1 && o.second.runner == tid)
      return false;
  t->killed = true;
  t->st = T_FIN;
  WakeAll(t->joinq);
  NoteFired(K_CRASH);
  HashEvent(0xc4a50000 + tid);
  return true;
}
bool HoldsStaticLock() {
  for (auto& m : g_mtx)
    if (m.second.owner == self->tid) {
      uintptr_t a = reinterpret_cast<uintptr_t>(m.first);
      if (a < kArenaBase || a >= kArenaBase + kArenaSize)
        return true;
    }
  return self->guards != 0;
}
void Die() {
  Thr* me = self;
  ++me->in_rt;
  me->killed = true;
  me->st = T_FIN;
  WakeAll(me->joinq);
  HashEvent(0xc4a50000 + me->tid);
  CheckSteps();
  me->ctr[K_SCHED]++;
  Thr* t = PickNext(false);
  ++G.res->switches;
  G.cur = t;
  Release(t);
  for (;;)
    Park(me);
}
static pthread_key_t g_exit_key;

static void FinishThread(Thr* me) {
  ++me->in_rt;
  Tick(me);
  me->st = T_FIN;
  WakeAll(me->joinq);
  // Hand over; this OS thread then ends without the runtime.
  bool any = false;
  for (int i = 0; i < G.nthr; ++i)
    any |= G.thr[i]->st != T_FIN;
  if (!any)
    Fail("harness", "all threads finished");
  CheckSteps();
  me->ctr[K_SCHED]++;
  Thr* t = PickNext(false);
  ++G.res->switches;
  G.res->order_hash = Mix(G.res->order_hash, 0xdead00 + me->tid);
  HashEvent(0xdead00 + me->tid);
  G.cur = t;
  self = nullptr;
  Release(t);
}

static void ExitKeyDtor(void* v) {
  Thr* me = static_cast<Thr*>(v);
  // Let the other keys' destructors run first (they are simulated too).
  if (++me->exit_rounds < 3) {
    pthread_setspecific(g_exit_key, v);
    return;
  }
  FinishThread(me);
}

static void* ThreadStart(void* v) {
  Thr* me = static_cast<Thr*>(v);
  Park(me);
  self = me;
  pthread_setspecific(g_exit_key, me);
  --me->in_rt;
  void* r = me->fn(me->arg);
  me->ret = r;
  return r;
}

int g_num_threads = 0;

static Thr* NewThr() {
  if (G.nthr >= kMaxThreads)
    Fail("harness-limit", "too many threads");
  Thr* t = new Thr();
  t->tid = G.nthr;
  t->st = T_RUN;
  t->deadline = UINT64_MAX;
  t->vc.Clear();
  t->vc.c[t->tid] = 1;
  t->in_rt = 1;
  t->prio = static_cast<int64_t>(G.rng.Below(1000000)) + 1;
  if (G.replay) {
    auto it = G.dev.find((uint64_t(K_MEM) << 8) | t->tid);
    if (it != G.dev.end()) {
      for (auto& p : it->second)
        t->mem_dev.push_back(p);
      std::sort(t->mem_dev.begin(), t->mem_dev.end());
    }
  }
  G.thr[G.nthr++] = t;
  g_num_threads = G.nthr;
  ScheduleMem(t);
  return t;
}

static int StartOs(Thr* t) {
  SIM_REAL(pthread_create)
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, reinterpret_cast<void*>(kStackBase + kStackSize * t->tid), kStackSize);
  int rc = real(&t->pt, &a, &ThreadStart, t);
  pthread_attr_destroy(&a);
  return rc;
}

static Thr* FindThr(pthread_t p) {
  for (int i = 0; i < G.nthr; ++i)
    if (G.thr[i]->pt == p)
      return G.thr[i];
  return nullptr;
}

// ------------------------------------------------------------------ heap
struct Blk {
  uint64_t size;
  uint64_t seq;
};
static uintptr_t g_top = kArenaBase;
static uint64_t g_live_blocks = 0, g_live_bytes = 0, g_total_allocs = 0, g_max_request = 0;
// One byte of state per 8 bytes: 0 never allocated, 1..8 that many valid bytes, 0xF0 start marker is
// kept in the header word instead; 0xFD freed.
static inline uint8_t* StateOf(uintptr_t a) {
  return reinterpret_cast<uint8_t*>(kArenaState + ((a - kArenaBase) >> 3));
}
static inline bool InArena(uintptr_t a) { return a - kArenaBase < kArenaSize; }
struct Header {  // precedes each block; 32 bytes keep 16-byte alignment and a red zone
  uint64_t size;
  uint64_t seq;
  uint64_t magic;
  const void* pc;
};
constexpr uint64_t kMagicLive = 0x51b10c4a11fe0001ull, kMagicDead = 0x51b10c4dead00002ull;

static void RaceRange(uintptr_t a, size_t n, bool write, const void* pc);
static void RaceForget(uintptr_t a, size_t n);

// Without a scheduling point: libc allocates while holding locks of its own.
static inline void RawSet(void* d, int v, size_t n) {
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
static void* ArenaAlloc(size_t n, size_t align, const void* pc) {
  if (n > g_max_request)
    g_max_request = n;
  if (n > (256u << 20))
    return nullptr;
  if (align < 16)
    align = 16;
  uintptr_t p = (g_top + sizeof(Header) + align - 1) & ~(align - 1);
  uintptr_t end = (p + n + 16 + 15) & ~uintptr_t(15);
  if (end > kArenaBase + kArenaSize)
    return nullptr;
  g_top = end;
  Header* h = reinterpret_cast<Header*>(p - sizeof(Header));
  h->size = n;
  h->seq = ++g_total_allocs;
  h->magic = kMagicLive;
  h->pc = pc;
  uint8_t* s = StateOf(p);
  RawSet(s, 8, n >> 3);
  if (n & 7)
    s[n >> 3] = n & 7;
  // Recognisable garbage, different from run to run.
  uint64_t g = Mix(G.cfg.garbage, h->seq);
  uint8_t b = static_cast<uint8_t>(g | 1);
  if (n <= 4096)
    for (size_t i = 0; i < n; ++i)
      reinterpret_cast<uint8_t*>(p)[i] = b;
  ++g_live_blocks;
  g_live_bytes += n;
  return reinterpret_cast<void*>(p);
}
static void ArenaFree(void* v, const void* pc) {
  uintptr_t p = reinterpret_cast<uintptr_t>(v);
  Header* h = reinterpret_cast<Header*>(p - sizeof(Header));
  if (h->magic != kMagicLive) {
    ++self->in_rt;
    if (h->magic == kMagicDead)
      Fail("double-free", "block of " + std::to_string(h->size) + " bytes freed twice: " +
                              StackOf(self, 6));
    Fail("bad-free", "free of a pointer that is not a block: " + StackOf(self, 6));
  }
  size_t n = h->size;
  if (G.cfg.races && self->in_rt == 0 && n <= 65536)
    RaceRange(p, n, true, pc);
  if (g_on_free) {
    ++self->in_rt;
    g_on_free(v, n);
    --self->in_rt;
  }
  h->magic = kMagicDead;
  RawSet(StateOf(p), 0xFD, (n + 7) >> 3);
  if (n <= 4096)
    for (size_t i = 0; i < n; ++i)
      reinterpret_cast<uint8_t*>(p)[i] = 0xDD;
  --g_live_blocks;
  g_live_bytes -= n;
}
HeapStats Heap() { return {g_live_blocks, g_live_bytes, g_total_allocs, g_max_request}; }
bool HeapBlock(const void* v, void** base, size_t* size, bool* live) {
  uintptr_t p = reinterpret_cast<uintptr_t>(v);
  if (!InArena(p))
    return false;
  for (uintptr_t q = p & ~uintptr_t(15); q >= kArenaBase + sizeof(Header); q -= 16) {
    Header* h = reinterpret_cast<Header*>(q - sizeof(Header));
    if (h->magic == kMagicLive || h->magic == kMagicDead) {
      if (p - q >= h->size && p != q)
        return false;
      *base = reinterpret_cast<void*>(q);
      *size = h->size;
      *live = h->magic == kMagicLive;
      return true;
    }
  }
  return false;
}
std::string DescribeLiveBlocks(uint64_t since, int max) {
  std::string s;
  for (uintptr_t q = kArenaBase + sizeof(Header); q < g_top && max > 0; q += 16) {
    Header* h = reinterpret_cast<Header*>(q - sizeof(Header));
    if (h->magic == kMagicLive && h->seq > since && *StateOf(q) != 0) {
      s += (s.empty() ? "" : "; ") + std::to_string(h->size) + " bytes #" + std::to_string(h->seq) +
           " from " + Where(h->pc);
      --max;
    }
  }
  return s;
}
void ForEachLive(const std::function<void(void*, size_t, uint64_t)>& fn) {
  for (uintptr_t q = kArenaBase + sizeof(Header); q < g_top; q += 16) {
    Header* h = reinterpret_cast<Header*>(q - sizeof(Header));
    if (h->magic == kMagicLive && (h->size == 0 || *StateOf(q) != 0)) {
      fn(reinterpret_cast<void*>(q), h->size, h->seq);
      q += h->size & ~uintptr_t(15);
    }
  }
}
void AllocFaultsInNewThreads(bool on) { self->starve_children = on; }
void AllocFaults(bool on) { self->alloc_faults += on ? 1 : -1; }
uint64_t AllocFaultsFired() { return self->alloc_fired; }

// ------------------------------------------------------------------ races and bad accesses
// 4 cells per 8 bytes.  cell: [clock:32][tid:8][mask:8][flags:8: 1 write 2 atomic 4 used]
struct Cells {
  uint64_t c[4];
};
static uintptr_t g_data_lo, g_data_hi;
extern "C" char __data_start, _end;

static inline Cells* ShadowOf(uintptr_t a) {
  if (a - kArenaBase < kArenaSize)
    return reinterpret_cast<Cells*>(kArenaShadow + ((a - kArenaBase) >> 3) * sizeof(Cells));
  if (a - kStackBase < kStackSpan)
    return reinterpret_cast<Cells*>(kStackShadow + ((a - kStackBase) >> 3) * sizeof(Cells));
  if (a >= g_data_lo && a < g_data_hi)
    return reinterpret_cast<Cells*>(kGlobShadow + ((a - g_data_lo) >> 3) * sizeof(Cells));
  return nullptr;
}

static bool Suppressed(const std::string& s) {
  // Third-party synchronisation internals whose out-of-line halves are not instrumented.
  return s.rfind("boost::", 0) == 0 || s.rfind("asio::", 0) == 0 || s.rfind("void asio::", 0) == 0 ||
         s.rfind("void boost::", 0) == 0 || s.find("boost::detail::") == 0;
}
static std::string g_last_pc;

struct PcCell {
  const void* pc;
};
// Remembers the pc of the last accesses per shadow cell (for reports only): small hash table.
static const void* g_pcs[1 << 16][2];
static inline size_t PcSlot(uintptr_t a, int tid) { return (Mix(a >> 3, tid)) & 0xffff; }

static void ReportRace(uintptr_t a, bool write, const void* pc, uint64_t old) {
  int otid = (old >> 24) & 0xff;
  const void* opc = g_pcs[PcSlot(a, otid)][0];
  // The innermost frames which are not of std:: give the reader and a stable class.
  Thr* me = self;
  std::string here = Where(pc);
  if (here == "?" && me->depth > 0)
    here = Where(me->stack[std::min(me->depth, 256) - 1]);
  std::string there = opc ? Where(opc) : "?";
  auto user = [](Thr* t) {
    int d = std::min(t->depth, 256);
    for (int i = d - 1; i >= 0; --i) {
      std::string w = Where(t->stack[i]);
      if (w.find("maidsafe") != std::string::npos)
        return w;
    }
    return std::string("?");
  };
  if (Suppressed(here) || Suppressed(there)) {
    ++G.res->races_suppressed;
    return;
  }
  std::string u = user(me);
  std::string key = u.substr(0, u.find('('));
  Fail("data-race", std::string(write ? "write" : "read") + " by t" + std::to_string(me->tid) +
                        " in " + here + " [" + StackOf(me, 5) + "] races with earlier " +
                        ((old & 1) ? "write" : "read") + " by t" + std::to_string(otid) + " in " +
                        there);
}

static inline void RaceAccess(Thr* t, uintptr_t a, unsigned mask, bool write, bool atomic,
                              const void* pc) {
  Cells* s = ShadowOf(a);
  if (!s)
    return;
  uint64_t mine = (uint64_t(t->vc.c[t->tid]) << 32) | (uint64_t(t->tid) << 24) |
                  (uint64_t(mask) << 8) | 4 | (write ? 1 : 0) | (atomic ? 2 : 0);
  int slot = -1;
  for (int i = 0; i < 4; ++i) {
    uint64_t o = s->c[i];
    if (o == mine)
      return;
    if (!(o & 4)) {
      if (slot < 0)
        slot = i;
      continue;
    }
    if (!((o >> 8) & mask & 0xff))
      continue;
    int ot = (o >> 24) & 0xff;
    if (ot == t->tid) {
      // Same thread, covered by the new access: replace.
      if (((o >> 8) & 0xff) == mask && (write || !(o & 1)) && (((o & 2) != 0) == atomic))
        slot = i;
      continue;
    }
    if (t->vc.c[ot] >= uint32_t(o >> 32)) {
      // Ordered before us; our write supersedes it.
      if (write && (((o >> 8) & 0xff) & ~mask) == 0)
        s->c[i] = 0, slot = slot < 0 ? i : slot;
      continue;
    }
    if (!(write || (o & 1)))
      continue;
    if (atomic && (o & 2))
      continue;
    ++t->in_rt;
    ReportRace(a, write, pc, o);
    --t->in_rt;
    s->c[i] = 0;
  }
  if (slot < 0) {
    // Evict deterministically, preferring reads.
    slot = (a >> 3) & 3;
    for (int i = 0; i < 4; ++i)
      if (!(s->c[i] & 1)) {
        slot = i;
        break;
      }
  }
  s->c[slot] = mine;
  g_pcs[PcSlot(a, t->tid)][0] = pc;
}

static void RaceRange(uintptr_t a, size_t n, bool write, const void* pc) {
  Thr* t = self;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~uintptr_t(7);
    unsigned lo = a - g, hi = std::min<uintptr_t>(8, e - g);
    unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
    RaceAccess(t, g, mask & 0xff, write, false, pc);
    a = g + 8;
  }
}

static void __attribute__((noinline)) BadAccess(uintptr_t a, size_t n, bool write, const void* pc) {
  ++self->in_rt;
  uint8_t st = *StateOf(a);
  if (st != 0xFD && st != 0)
    st = *StateOf(a + n - 1);
  std::string cls = st == 0xFD ? "use-after-free" : "heap-overflow";
  Fail(cls, std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes in " +
                Where(pc) + " [" + StackOf(self, 6) + "]");
}

static inline bool BytesOk(uintptr_t a, size_t n) {
  // n <= 16
  uintptr_t e = a + n - 1;
  uint8_t s1 = *StateOf(e);
  if (s1 == 0 || s1 > 8 || (e & 7) >= s1)
    return false;
  if ((a >> 3) != (e >> 3)) {
    uint8_t s0 = *StateOf(a);
    if (s0 != 8)
      return false;
    if ((e >> 3) - (a >> 3) > 1 && *StateOf(a + 8) != 8)
      return false;
  }
  return true;
}

static inline void Access(uintptr_t a, size_t n, bool write, const void* pc) {
  Thr* t = self;
  if (!t || t->in_rt)
    return;
  if (++t->mem >= t->next_mem)
    MemPoint(t);
  if (InArena(a) && !BytesOk(a, n))
    BadAccess(a, n, write, pc);
  if (G.cfg.races) {
    unsigned off = a & 7;
    if (off + n <= 8) {
      RaceAccess(t, a & ~uintptr_t(7), ((1u << n) - 1) << off, write, false, pc);
    } else {
      RaceRange(a, n, write, pc);
    }
  }
}

void CheckAccess(const void* p, size_t n, bool write, const void* pc) {
  // Range access by an intercepted function.
  Thr* t = self;
  if (!t || t->in_rt || n == 0)
    return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (++t->mem >= t->next_mem)
    MemPoint(t);
  if (InArena(a)) {
    uintptr_t e = a + n;
    for (uintptr_t g = a; g < e;) {
      size_t k = std::min<uintptr_t>(e, (g & ~uintptr_t(7)) + 8) - g;
      if (!BytesOk(g, k))
        BadAccess(g, k, write, pc);
      g += k;
    }
  }
  if (G.cfg.races && n <= 65536)
    RaceRange(a, n, write, pc);
}

// ------------------------------------------------------------------ the run
static void OnSignal(int sig, siginfo_t* si, void*) {
  char b[256];
  if (self)
    ++self->in_rt;
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE"
                  : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "signal";
  snprintf(b, sizeof b, "crash-%s", n);
  std::string where = self ? StackOf(self, 8) : "";
  char m[128];
  snprintf(m, sizeof m, "%s%s in t%d: ", n,
           sig == SIGSEGV && reinterpret_cast<uintptr_t>(si->si_addr) < 4096 ? " (null pointer)" : "",
           self ? self->tid : -1);
  Fail(b, m + where);
}
static void OnTerminate() {
  if (self)
    ++self->in_rt;
  std::string s = "std::terminate";
  std::type_info* t = abi::__cxa_current_exception_type();
  if (t) {
    int st;
    char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
    s += std::string(" with uncaught ") + (d ? d : t->name());
    try {
      throw;
    } catch (const std::exception& e) {
      s += std::string(": ") + e.what();
    } catch (...) {
    }
  }
  Fail("terminate", s + (self ? " [" + StackOf(self, 6) + "]" : ""));
}

void MapRegions() {
  auto map = [](uintptr_t a, size_t n) {
    void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(a)) {
      fprintf(stderr, "sim: cannot map region %lx\n", (unsigned long)a);
      _exit(3);
    }
  };
  map(kArenaBase, kArenaSize);
  map(kStackBase, kStackSpan);
  map(kArenaShadow, kArenaSize * 4);
  map(kArenaState, kArenaSize / 8);
  map(kStackShadow, kStackSpan * 4);
  g_data_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t(7);
  g_data_hi = (reinterpret_cast<uintptr_t>(&_end) + 7) & ~uintptr_t(7);
  map(kGlobShadow, ((g_data_hi - g_data_lo) * 4 + 4095) & ~4095ull);
  pthread_key_create(&g_exit_key, &ExitKeyDtor);
  LoadSyms();
  // Lazily resolved real functions and unwinder state: touch them before the first run.
  try {
    throw 1;
  } catch (int) {
  }
}

struct MainArg {
  const Property* prop;
  const Program* prog;
};
static void* MainThread(void* v) {
  MainArg* a = static_cast<MainArg*>(v);
  a->prop->execute(*a->prog);
  ++self->in_rt;
  Finalise(S_OK);
  return nullptr;
}

void RunChild(const Property& prop, const Program& prog, const Config& cfg, bool replay,
              const Deviation* dev, size_t ndev, Result* res, bool keep_log,
              const std::string& scratch) {
  rlimit rl{60, 60};
  setrlimit(RLIMIT_CPU, &rl);
  rlimit rc{0, 0};
  setrlimit(RLIMIT_CORE, &rc);
  // A hang that burns no CPU is a fault of the harness or of unmodelled blocking.
  itimerval it{{0, 0}, {600, 0}};
  setitimer(ITIMER_REAL, &it, nullptr);
  G.cfg = cfg;
  G.replay = replay;
  G.res = res;
  G.keep_log = keep_log;
  G.scratch = scratch;
  G.rng = Rng(Mix(cfg.seed, 0x5c4ed));
  G.garbage = Rng(Mix(cfg.garbage, 0x6a7ba6e));
  res->status = 0;
  res->cls[0] = res->msg[0] = 0;
  res->hash = res->order_hash = 0;
  res->ndev = 0;
  res->dev_overflow = false;
  res->log_len = 0;
  res->nprobes = 0;
  res->switches = 0;
  res->races_suppressed = 0;
  memset(res->fired, 0, sizeof res->fired);
  if (replay)
    for (size_t i = 0; i < ndev; ++i)
      G.dev[(uint64_t(dev[i].kind) << 8) | dev[i].tid][dev[i].counter] = dev[i].value;
  if (cfg.strategy == 1) {
    for (int i = 0; i < cfg.pct_depth; ++i)
      G.pct_points.push_back(1 + G.rng.Below(cfg.pct_len));
    std::sort(G.pct_points.begin(), G.pct_points.end());
  }
  G.few_left = cfg.pct_depth;
  G.few_next = 1 + G.rng.Below(cfg.pct_len);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = &OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS})
    sigaction(s, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  std::set_terminate(&OnTerminate);
  MainArg a{&prop, &prog};
  Thr* t = NewThr();
  t->fn = &MainThread;
  t->arg = &a;
  if (StartOs(t) != 0)
    _exit(76);
  G.on = true;
  G.cur = t;
  Release(t);
  for (;;)
    pause();
}

}  // namespace sim

using namespace sim;  // NOLINT

// ====================================================================== interposition
#define REALV(name) \
  static decltype(&::name) real = nullptr; \
  if (__builtin_expect(!real, 0)) real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))

extern "C" {

// ---------------------------------------------------------------- pthread
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REALV(pthread_create);
  if (!Active())
    return real(out, attr, fn, arg);
  if (Choose(K_SYS, 2))
    return EAGAIN;
  Thr* t;
  {
    Rt rt;
    t = NewThr();
    t->fn = fn;
    t->arg = arg;
    t->alloc_faults = self->starve_children;
    t->starve_children = self->starve_children;
    int ds = PTHREAD_CREATE_JOINABLE;
    if (attr)
      pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
    t->vc.Join(self->vc);
    Tick(self);
    int rc = StartOs(t);
    if (rc)
      Fail("harness-limit", "cannot create OS thread");
    *out = t->pt;
  }
  SchedPoint(10);
  return 0;
}

int pthread_join(pthread_t p, void** ret) {
  REALV(pthread_join);
  if (!Active())
    return real(p, ret);
  SchedPoint(11);
  Thr* t;
  {
    Rt rt;
    t = FindThr(p);
    if (!t || t->joined || t->detached)
      Fail("bad-join", "join of a thread that was joined or detached before: " + StackOf(self, 6));
    if (t == self)
      return EDEADLK;
    t->joined = true;
    while (t->st != T_FIN)
      WaitOn(t->joinq, "thread to finish", UINT64_MAX);
    self->vc.Join(t->vc);
    if (!t->killed)
      real(p, ret);
    t->pt = 0;
    if (ret)
      *ret = t->ret;
  }
  return 0;
}

int pthread_detach(pthread_t p) {
  REALV(pthread_detach);
  if (!Active())
    return real(p);
  Rt rt;
  Thr* t = FindThr(p);
  if (t) {
    if (t->joined || t->detached)
      Fail("bad-join", "detach of a thread that was joined or detached before");
    t->detached = true;
  }
  return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  REALV(pthread_mutex_lock);
  if (!Active())
    return real(m);
  CheckAccess(m, 8, false, __builtin_return_address(0));
  SchedPoint(12);
  Rt rt;
  LockMtx(m, "mutex", UINT64_MAX, nullptr);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  REALV(pthread_mutex_trylock);
  if (!Active())
    return real(m);
  CheckAccess(m, 8, false, __builtin_return_address(0));
  SchedPoint(13);
  Rt rt;
  Mtx& x = g_mtx[m];
  if (x.owner == -1 || (x.owner == self->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) {
    LockMtx(m, "mutex", UINT64_MAX, nullptr);
    return 0;
  }
  return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  REALV(pthread_mutex_timedlock);
  if (!Active())
    return real(m, ts);
  SchedPoint(14);
  Rt rt;
  bool to = false;
  LockMtx(m, "mutex (timed)", DeadlineOf(CLOCK_REALTIME, ts), &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  REALV(pthread_mutex_clocklock);
  if (!Active())
    return real(m, clk, ts);
  SchedPoint(14);
  Rt rt;
  bool to = false;
  LockMtx(m, "mutex (timed)", DeadlineOf(clk, ts), &to);
  return to ? ETIMEDOUT : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REALV(pthread_mutex_unlock);
  if (!Active())
    return real(m);
  CheckAccess(m, 8, false, __builtin_return_address(0));
  {
    Rt rt;
    UnlockMtx(m);
  }
  SchedPoint(15);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  REALV(pthread_mutex_destroy);
  if (!Active())
    return real(m);
  CheckAccess(m, 8, false, __builtin_return_address(0));
  Rt rt;
  auto it = g_mtx.find(m);
  if (it != g_mtx.end()) {
    if (it->second.owner != -1)
      Fail("bad-destroy", "a mutex was destroyed while locked: " + StackOf(self, 6));
    g_mtx.erase(it);
  }
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REALV(pthread_cond_wait);
  if (!Active())
    return real(c, m);
  return CondWait(c, m, UINT64_MAX);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  REALV(pthread_cond_timedwait);
  if (!Active())
    return real(c, m, ts);
  clockid_t clk = (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME;
  return CondWait(c, m, DeadlineOf(clk, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  REALV(pthread_cond_clockwait);
  if (!Active())
    return real(c, m, clk, ts);
  return CondWait(c, m, DeadlineOf(clk, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  REALV(pthread_cond_signal);
  if (!Active())
    return real(c);
  CheckAccess(c, sizeof *c, false, __builtin_return_address(0));
  SchedPoint(16);
  Rt rt;
  CondSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REALV(pthread_cond_broadcast);
  if (!Active())
    return real(c);
  CheckAccess(c, sizeof *c, false, __builtin_return_address(0));
  SchedPoint(17);
  Rt rt;
  CondSignal(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  REALV(pthread_cond_destroy);
  if (!Active())
    return real(c);
  // glibc waits for threads which are still blocked on it: that is a hang.
  Rt rt;
  auto it = g_cond.find(c);
  if (it != g_cond.end()) {
    if (!it->second.waiters.empty())
      Fail("deadlock", "a condition variable was destroyed while a thread waits on it: " +
                           StackOf(self, 6));
    g_cond.erase(it);
  }
  return 0;
}

int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REALV(pthread_rwlock_wrlock);
  if (!Active())
    return real(l);
  CheckAccess(l, 8, false, __builtin_return_address(0));
  SchedPoint(18);
  Rt rt;
  for (;;) {
    Rw& x = g_rw[l];
    if (x.writer == -1 && x.readers == 0) {
      x.writer = self->tid;
      self->vc.Join(x.vc);
      self->vc.Join(x.rvc);
      return 0;
    }
    WaitOn(x.q, "write lock", UINT64_MAX);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REALV(pthread_rwlock_rdlock);
  if (!Active())
    return real(l);
  CheckAccess(l, 8, false, __builtin_return_address(0));
  SchedPoint(19);
  Rt rt;
  for (;;) {
    Rw& x = g_rw[l];
    if (x.writer == -1) {
      ++x.readers;
      self->vc.Join(x.vc);
      return 0;
    }
    WaitOn(x.q, "read lock", UINT64_MAX);
  }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  REALV(pthread_rwlock_trywrlock);
  if (!Active())
    return real(l);
  CheckAccess(l, 8, false, __builtin_return_address(0));
  SchedPoint(18);
  Rt rt;
  Rw& x = g_rw[l];
  if (x.writer != -1 || x.readers)
    return EBUSY;
  x.writer = self->tid;
  self->vc.Join(x.vc);
  self->vc.Join(x.rvc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  REALV(pthread_rwlock_tryrdlock);
  if (!Active())
    return real(l);
  CheckAccess(l, 8, false, __builtin_return_address(0));
  SchedPoint(19);
  Rt rt;
  Rw& x = g_rw[l];
  if (x.writer != -1)
    return EBUSY;
  ++x.readers;
  self->vc.Join(x.vc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REALV(pthread_rwlock_unlock);
  if (!Active())
    return real(l);
  CheckAccess(l, 8, false, __builtin_return_address(0));
  {
    Rt rt;
    Rw& x = g_rw[l];
    if (x.writer == self->tid) {
      x.writer = -1;
      x.vc.Join(self->vc);
    } else {
      if (x.readers <= 0)
        Fail("bad-unlock", "read-write lock released while not held: " + StackOf(self, 6));
      --x.readers;
      x.rvc.Join(self->vc);
    }
    Tick(self);
    WakeAll(x.q);
  }
  SchedPoint(20);
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  REALV(pthread_once);
  if (!Active())
    return real(o, fn);
  CheckAccess(o, sizeof *o, false, __builtin_return_address(0));
  SchedPoint(21);
  for (;;) {
    {
      Rt rt;
      Once& x = g_once[o];
      if (*o == 0 && x.st == 2)
        x.st = 0;  // another flag, at the same address on a stack
      if (*o == 2 || x.st == 2) {
        AcquireFrom(o);
        return 0;
      }
      if (x.st == 1) {
        WaitOn(x.q, "once", UINT64_MAX);
        continue;
      }
      x.st = 1;
      x.runner = self->tid;
    }
    try {
      fn();
    } catch (...) {
      Rt rt;
      Once& x = g_once[o];
      x.st = 0;
      WakeAll(x.q);
      throw;
    }
    Rt rt;
    Once& x = g_once[o];
    x.st = 2;
    *o = 2;
    ReleaseTo(o);
    WakeAll(x.q);
    return 0;
  }
}

// Static initialisation guards.
int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  if (!Active()) {
    if (b[0])
      return 0;
    b[1] = 1;  // single-threaded phase
    return 1;
  }
  SchedPoint(22);
  Rt rt;
  for (;;) {
    if (b[0]) {
      AcquireFrom(g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      ++self->guards;
      return 1;
    }
    WaitOn(g_futex[g], "static initialisation", UINT64_MAX);
  }
}
void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[0] = 1;
  b[1] = 0;
  if (self) {
    Rt rt;
    --self->guards;
    ReleaseTo(g);
    WakeAll(g_futex[g]);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  if (self) {
    Rt rt;
    --self->guards;
    WakeAll(g_futex[g]);
  }
}

int sched_yield() {
  REALV(sched_yield);
  if (!Active())
    return real();
  YieldPoint();
  return 0;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t clk, timespec* ts) {
  if (!Active()) {
    REALV(clock_gettime);
    return real(clk, ts);
  }
  uint64_t t = G.now;
  if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE)
    t += G.wall_off;
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(timeval* tv, void* tz) {
  if (!Active()) {
    static int (*real)(timeval*, void*) = nullptr;
    if (!real)
      real = reinterpret_cast<int (*)(timeval*, void*)>(dlsym(RTLD_NEXT, "gettimeofday"));
    return real(tv, tz);
  }
  uint64_t t = G.now + G.wall_off;
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = (t % 1000000000ull) / 1000;
  return 0;
}
time_t time(time_t* out) {
  if (!Active()) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
      *out = ts.tv_sec;
    return ts.tv_sec;
  }
  time_t t = (G.now + G.wall_off) / 1000000000ull;
  if (out)
    *out = t;
  return t;
}
// Sleeps until the deadline; a signal may end it early.  Returns what is left.
static uint64_t SleepOrSignal(uint64_t until) {
  uint32_t part = G.cfg.prob[K_EINTR] > 0 || G.replay ? Choose(K_EINTR, 8) : 0;
  if (part == 0 || until <= G.now) {
    Block("sleep", nullptr, until);
    return 0;
  }
  Block("sleep", nullptr, G.now + (until - G.now) / 8 * part);
  return until > G.now ? until - G.now : 0;
}
int nanosleep(const timespec* a, timespec* rem) {
  REALV(nanosleep);
  if (!Active())
    return real(a, rem);
  uint64_t left = SleepOrSignal(G.now + AbsToNs(a));
  if (!left)
    return 0;
  if (rem) {
    rem->tv_sec = left / 1000000000ull;
    rem->tv_nsec = left % 1000000000ull;
  }
  errno = EINTR;
  return -1;
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* a, timespec* rem) {
  REALV(clock_nanosleep);
  if (!Active())
    return real(clk, flags, a, rem);
  uint64_t left = SleepOrSignal((flags & TIMER_ABSTIME) ? DeadlineOf(clk, a) : G.now + AbsToNs(a));
  if (!left)
    return 0;
  if (rem && !(flags & TIMER_ABSTIME)) {
    rem->tv_sec = left / 1000000000ull;
    rem->tv_nsec = left % 1000000000ull;
  }
  return EINTR;
}
int usleep(useconds_t us) {
  REALV(usleep);
  if (!Active())
    return real(us);
  Block("sleep", nullptr, G.now + uint64_t(us) * 1000);
  return 0;
}
unsigned sleep(unsigned s) {
  REALV(sleep);
  if (!Active())
    return real(s);
  Block("sleep", nullptr, G.now + uint64_t(s) * 1000000000ull);
  return 0;
}

// ---------------------------------------------------------------- syscall(): futex, getrandom
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (auto& x : a)
    x = va_arg(ap, long);
  va_end(ap);
  if (Active()) {
    if (nr == SYS_futex) {
      int* addr = reinterpret_cast<int*>(a[0]);
      int op = static_cast<int>(a[1]) & 127 & ~FUTEX_CLOCK_REALTIME;
      bool rt_clock = (a[1] & FUTEX_CLOCK_REALTIME) != 0;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        SchedPoint(23);
        Rt rt;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) {
          AcquireFrom(addr);
          errno = EAGAIN;
          return -1;
        }
        uint64_t dl = UINT64_MAX;
        const timespec* ts = reinterpret_cast<const timespec*>(a[3]);
        if (ts)
          dl = op == FUTEX_WAIT ? G.now + AbsToNs(ts)
                                : DeadlineOf(rt_clock ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
        bool ok = WaitOn(g_futex[addr], "futex", dl);
        AcquireFrom(addr);
        if (!ok) {
          errno = ETIMEDOUT;
          return -1;
        }
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        SchedPoint(24);
        Rt rt;
        ReleaseTo(addr);
        auto it = g_futex.find(addr);
        int n = 0;
        if (it != g_futex.end())
          while (n < static_cast<int>(a[2]) && !it->second.tids.empty()) {
            WakeOne(it->second);
            ++n;
          }
        return n;
      }
      ++self->in_rt;
      Fail("harness-limit", "unmodelled futex operation " + std::to_string(op));
    }
    if (nr == SYS_copy_file_range) {
      errno = ENOSYS;
      return -1;
    }
    if (nr == SYS_getrandom) {
      for (long i = 0; i < a[1]; ++i)
        reinterpret_cast<unsigned char*>(a[0])[i] = static_cast<unsigned char>(G.garbage.Next() >> 13);
      return a[1];
    }
  }
  long ret;
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = static_cast<int>(-ret);
    return -1;
  }
  return ret;
}
ssize_t getrandom(void* buf, size_t n, unsigned) {
  if (!Active())
    return syscall(SYS_getrandom, (long)buf, (long)n, 0L, 0L, 0L, 0L);
  for (size_t i = 0; i < n; ++i)
    static_cast<unsigned char*>(buf)[i] = static_cast<unsigned char>(G.garbage.Next() >> 13);
  return n;
}
int getentropy(void* buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid() {
  if (Active())
    return 4242;
  return static_cast<pid_t>(syscall(SYS_getpid, 0L, 0L, 0L, 0L, 0L, 0L));
}

// ---------------------------------------------------------------- memory
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);

static void* SimAlloc(size_t n, size_t align, const void* pc, bool may_fail) {
  Thr* t = self;
  if (may_fail && t->alloc_faults > 0 && Choose(K_ALLOC, 2)) {
    ++t->alloc_fired;
    return nullptr;
  }
  return ArenaAlloc(n, align, pc);
}

void* malloc(size_t n) {
  if (!Active())
    return __libc_malloc(n);
  void* p = SimAlloc(n, 16, __builtin_return_address(0), false);
  if (!p)
    errno = ENOMEM;
  return p;
}
void free(void* p) {
  if (!p)
    return;
  if (!InArena(reinterpret_cast<uintptr_t>(p))) {
    __libc_free(p);
    return;
  }
  if (!self)
    return;
  ArenaFree(p, __builtin_return_address(0));
}
void* calloc(size_t a, size_t b) {
  if (!Active())
    return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = SimAlloc(n, 16, __builtin_return_address(0), false);
  if (p)
    RawSet(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (p && !InArena(reinterpret_cast<uintptr_t>(p)))
    return __libc_realloc(p, n);
  if (!p)
    return malloc(n);
  Header* h = reinterpret_cast<Header*>(reinterpret_cast<uintptr_t>(p) - sizeof(Header));
  size_t old = h->size;
  void* q = (!Active()) ? __libc_malloc(n) : SimAlloc(n, 16, __builtin_return_address(0), false);
  if (!q)
    return nullptr;
  {
    NoSim ns;
    memcpy(q, p, old < n ? old : n);
  }
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  if (!Active())
    return __libc_memalign(al, n);
  return SimAlloc(n, al, __builtin_return_address(0), false);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p)
    return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (p && InArena(reinterpret_cast<uintptr_t>(p)))
    return reinterpret_cast<Header*>(reinterpret_cast<uintptr_t>(p) - sizeof(Header))->size;
  static size_t (*real)(void*) = nullptr;
  if (!real)
    real = reinterpret_cast<size_t (*)(void*)>(dlsym(RTLD_NEXT, "malloc_usable_size"));
  return real(p);
}

static inline void RepMov(void* d, const void* s, size_t n) {
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (self && !self->in_rt) {
    CheckAccess(s, n, false, __builtin_return_address(0));
    CheckAccess(d, n, true, __builtin_return_address(0));
  }
  RepMov(d, s, n);
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
  if (self && !self->in_rt) {
    CheckAccess(s, n, false, __builtin_return_address(0));
    CheckAccess(d, n, true, __builtin_return_address(0));
  }
  if (reinterpret_cast<uintptr_t>(d) - reinterpret_cast<uintptr_t>(s) >= n) {
    RepMov(d, s, n);
  } else {
    void* dd = static_cast<char*>(d) + n - 1;
    const void* ss = static_cast<const char*>(s) + n - 1;
    size_t c = n;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(c) : : "memory");
  }
  return d;
}
void* memset(void* d, int v, size_t n) {
  if (self && !self->in_rt)
    CheckAccess(d, n, true, __builtin_return_address(0));
  void* dd = d;
  __asm__ volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(v) : "memory");
  return d;
}
int memcmp(const void* a, const void* b, size_t n) {
  if (self && !self->in_rt) {
    CheckAccess(a, n, false, __builtin_return_address(0));
    CheckAccess(b, n, false, __builtin_return_address(0));
  }
  const unsigned char* x = static_cast<const unsigned char*>(a);
  const unsigned char* y = static_cast<const unsigned char*>(b);
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i])
      return x[i] < y[i] ? -1 : 1;
  return 0;
}

// ---------------------------------------------------------------- compiler callbacks
#define PC __builtin_return_address(0)
#define A(p) reinterpret_cast<uintptr_t>(p)
void __tsan_init() {}
void __tsan_read1(void* p) { Access(A(p), 1, false, PC); }
void __tsan_read2(void* p) { Access(A(p), 2, false, PC); }
void __tsan_read4(void* p) { Access(A(p), 4, false, PC); }
void __tsan_read8(void* p) { Access(A(p), 8, false, PC); }
void __tsan_read16(void* p) { Access(A(p), 16, false, PC); }
void __tsan_write1(void* p) { Access(A(p), 1, true, PC); }
void __tsan_write2(void* p) { Access(A(p), 2, true, PC); }
void __tsan_write4(void* p) { Access(A(p), 4, true, PC); }
void __tsan_write8(void* p) { Access(A(p), 8, true, PC); }
void __tsan_write16(void* p) { Access(A(p), 16, true, PC); }
void __tsan_unaligned_read2(void* p) { Access(A(p), 2, false, PC); }
void __tsan_unaligned_read4(void* p) { Access(A(p), 4, false, PC); }
void __tsan_unaligned_read8(void* p) { Access(A(p), 8, false, PC); }
void __tsan_unaligned_read16(void* p) { Access(A(p), 16, false, PC); }
void __tsan_unaligned_write2(void* p) { Access(A(p), 2, true, PC); }
void __tsan_unaligned_write4(void* p) { Access(A(p), 4, true, PC); }
void __tsan_unaligned_write8(void* p) { Access(A(p), 8, true, PC); }
void __tsan_unaligned_write16(void* p) { Access(A(p), 16, true, PC); }
void __tsan_volatile_read1(void* p) { Access(A(p), 1, false, PC); }
void __tsan_volatile_read2(void* p) { Access(A(p), 2, false, PC); }
void __tsan_volatile_read4(void* p) { Access(A(p), 4, false, PC); }
void __tsan_volatile_read8(void* p) { Access(A(p), 8, false, PC); }
void __tsan_volatile_write1(void* p) { Access(A(p), 1, true, PC); }
void __tsan_volatile_write2(void* p) { Access(A(p), 2, true, PC); }
void __tsan_volatile_write4(void* p) { Access(A(p), 4, true, PC); }
void __tsan_volatile_write8(void* p) { Access(A(p), 8, true, PC); }
void __tsan_read_range(void* p, unsigned long n) { CheckAccess(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { CheckAccess(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { Access(A(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { Access(A(p), 8, false, PC); }
void __tsan_func_entry(void*) {
  Thr* t = self;
  if (!t)
    return;
  if (t->depth < 256 && t->depth >= 0)
    t->stack[t->depth] = PC;
  ++t->depth;
}
void __tsan_func_exit(void*) {
  Thr* t = self;
  if (!t)
    return;
  if (t->depth > 0)
    --t->depth;
}

}  // extern "C"

namespace {
enum Order { O_RELAXED, O_CONSUME, O_ACQUIRE, O_RELEASE, O_ACQ_REL, O_SEQ_CST };
inline bool Acq(int o) { return o == O_CONSUME || o == O_ACQUIRE || o == O_ACQ_REL || o == O_SEQ_CST; }
inline bool Rel(int o) { return o == O_RELEASE || o == O_ACQ_REL || o == O_SEQ_CST; }

// Every atomic operation is a scheduling point; memory is sequentially consistent.
inline void AtomicPre(const volatile void* p, size_t n, bool write, const void* pc) {
  Thr* t = self;
  if (!t || t->in_rt)
    return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  ++t->mem;
  if (t->mem >= t->next_mem)
    MemPoint(t);
  if (InArena(a) && !BytesOk(a, n))
    BadAccess(a, n, write, pc);
  SchedPoint(30);
  if (InArena(a) && !BytesOk(a, n))
    BadAccess(a, n, write, pc);
  if (G.cfg.races && n <= 8)
    RaceAccess(t, a & ~uintptr_t(7), (((1u << n) - 1) << (a & 7)) & 0xff, write, true, pc);
}
inline void AtomicPost(const volatile void* p, size_t n, bool acq, bool rel) {
  Thr* t = self;
  if (!t || t->in_rt)
    return;
  if (acq)
    AcquireFrom(const_cast<const void*>(p));
  // std::shared_ptr reads both its counts at once.
  if (acq && n == 8)
    AcquireFrom(reinterpret_cast<const void*>(reinterpret_cast<uintptr_t>(p) + 4));
  if (rel)
    ReleaseTo(const_cast<const void*>(p));
}
}  // namespace

#define ATOMICS(N, T)                                                                            \
  extern "C" T __tsan_atomic##N##_load(const volatile T* a, int mo) {                            \
    AtomicPre(a, sizeof(T), false, PC);                                                          \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                  \
    AtomicPost(a, sizeof(T), Acq(mo), false);                                                    \
    return v;                                                                                    \
  }                                                                                              \
  extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                         \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                    \
    AtomicPost(a, sizeof(T), false, Rel(mo));                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                         \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                           \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) {                        \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                            \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) {                        \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                            \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) {                        \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                            \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) {                         \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                             \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) {                        \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                            \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) {                       \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                           \
    AtomicPost(a, sizeof(T), Acq(mo), Rel(mo));                                                  \
    return r;                                                                                    \
  }                                                                                              \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo,    \
                                                            int fmo) {                           \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    AtomicPost(a, sizeof(T), ok ? Acq(mo) : Acq(fmo), ok && Rel(mo));                            \
    return ok;                                                                                   \
  }                                                                                              \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo,      \
                                                          int fmo) {                             \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    AtomicPost(a, sizeof(T), ok ? Acq(mo) : Acq(fmo), ok && Rel(mo));                            \
    return ok;                                                                                   \
  }                                                                                              \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    AtomicPre(a, sizeof(T), true, PC);                                                           \
    bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
    AtomicPost(a, sizeof(T), ok ? Acq(mo) : Acq(fmo), ok && Rel(mo));                            \
    return c;                                                                                    \
  }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

static char g_fence_obj;
extern "C" void __tsan_atomic_thread_fence(int mo) {
  if (!Active())
    return;
  // Over-synchronises (fences are totally ordered), so it can only hide races, not invent them.
  if (Acq(mo))
    AcquireFrom(&g_fence_obj);
  if (Rel(mo))
    ReleaseTo(&g_fence_obj);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- operator new/delete
static void* OpNew(size_t n, size_t al, const void* pc) {
  void* p;
  if (!Active())
    p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1);
  else
    p = SimAlloc(n ? n : 1, al, pc, true);
  return p;
}
void* operator new(size_t n) {
  void* p = OpNew(n, 16, PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) {
  void* p = OpNew(n, 16, PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return OpNew(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return OpNew(n, 16, PC); }
void* operator new(size_t n, std::align_val_t al) {
  void* p = OpNew(n, static_cast<size_t>(al), PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t al) {
  void* p = OpNew(n, static_cast<size_t>(al), PC);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
