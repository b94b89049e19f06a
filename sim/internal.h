#ifndef VERIF_SIM_INTERNAL_H_
#define VERIF_SIM_INTERNAL_H_

#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <string.h>

#include <queue>
#include <string>
#include <unordered_map>
#include <vector>

#include "sim.h"

namespace sim {

constexpr int kMaxThreads = 192;  // in one run, finished ones included; at most 255
constexpr uintptr_t kArenaBase = 0x200000000000ull;
constexpr uintptr_t kArenaSize = 1ull << 30;
constexpr uintptr_t kStackBase = 0x210000000000ull;
constexpr uintptr_t kStackSize = 512 * 1024;
constexpr uintptr_t kStackSpan = kStackSize * kMaxThreads;
constexpr uintptr_t kArenaShadow = 0x220000000000ull;  // 32 bytes per 8 bytes
constexpr uintptr_t kArenaState = 0x230000000000ull;   // 1 byte per 8 bytes
constexpr uintptr_t kStackShadow = 0x240000000000ull;
constexpr uintptr_t kGlobShadow = 0x250000000000ull;

extern int g_num_threads;  // created so far

struct VC {
  uint32_t c[kMaxThreads];
  void Clear() { memset(c, 0, sizeof c); }
  void Join(const VC& o) {
    for (int i = 0; i < g_num_threads; ++i)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

enum TState { T_RUN, T_BLK, T_FIN };

struct Thr {
  int tid;
  TState st;
  pthread_t pt;
  volatile int go;
  int in_rt;
  int alloc_faults;
  bool starve_children;
  uint64_t alloc_fired;
  uint64_t mem;        // instrumented accesses so far
  uint64_t next_mem;   // slow path when mem reaches this
  uint64_t ctr[K_NUM];
  VC vc;
  const char* what;    // what it is blocked on
  const void* obj;
  uint64_t deadline;
  bool timedout;
  bool detached, joined, killed;
  int64_t prio;
  int exit_rounds;
  int guards;          // static initialisations in progress
  void* (*fn)(void*);
  void* arg;
  void* ret;
  WaitQ joinq;
  int depth;
  const void* stack[256];
  // replay of memory preemptions: sorted (counter, target)
  std::vector<std::pair<uint64_t, uint32_t>> mem_dev;
  size_t mem_dev_pos;
  // condition variable bookkeeping
  bool signalled;
};

enum Status : int { S_NONE = 0, S_OK = 1, S_FAIL = 2 };

constexpr size_t kMaxDev = 400000;
constexpr size_t kLogCap = 1 << 20;
constexpr int kMaxProbes = 64;

struct Result {  // in shared memory
  int status;
  char cls[512];
  char msg[16384];
  uint64_t hash, order_hash;
  uint64_t steps, mem, switches, sim_ns, threads;
  uint64_t fired[K_NUM];
  int nprobes;
  struct {
    char name[48];
    uint64_t n;
  } probes[kMaxProbes];
  uint64_t ndev;
  bool dev_overflow;
  size_t log_len;
  uint64_t races_suppressed;
  Deviation dev[kMaxDev];
  char log[kLogCap];
};

struct Event {
  uint64_t at, seq;
  std::function<void()>* fn;
  bool operator<(const Event& o) const { return at != o.at ? at > o.at : seq > o.seq; }
};

struct State {
  bool on = false;          // a run is in progress in this process
  Config cfg;
  bool replay = false;
  std::unordered_map<uint64_t, std::unordered_map<uint64_t, uint32_t>> dev;  // key kind<<8|tid
  Rng rng{1}, garbage{1};
  Result* res = nullptr;
  Thr* thr[kMaxThreads];
  int nthr = 0;
  Thr* cur = nullptr;
  uint64_t now = 1000000000ull;  // monotonic ns
  int64_t wall_off = 1400000000ll * 1000000000ll;
  uint64_t seq = 0;
  uint64_t steps = 0, total_mem = 0;
  bool faults_on = true;
  std::priority_queue<Event> events;
  uint64_t event_seq = 0;
  std::vector<uint64_t> pct_points;
  size_t pct_pos = 0;
  int64_t pct_low = 0;
  int few_left = 0;
  uint64_t few_next = 0;
  bool keep_log = false;
  std::string scratch;
  uint64_t step_bound = 0;  // temporary bound for Quiesce
};
extern State G;
extern __thread Thr* self __attribute__((tls_model("initial-exec")));

inline bool Active() { return self != nullptr && self->in_rt == 0; }

struct Rt {
  Rt() { ++self->in_rt; }
  ~Rt() { --self->in_rt; }
};

// RAII for interposed functions that first check Active().
#define SIM_REAL(name) \
  static decltype(&::name) real = nullptr; \
  if (!real) real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name));

void MapRegions();
void RunChild(const Property& prop, const Program& prog, const Config& cfg, bool replay,
              const Deviation* dev, size_t ndev, Result* res, bool keep_log,
              const std::string& scratch);
bool Block(const char* what, const void* obj, uint64_t deadline);  // true if timed out
void Wake(Thr* t);
void SchedPoint(int code);
extern std::string g_scrub;  // the absolute path of the scratch directory
void HashEvent(uint64_t a);
void NoteFired(Kind k);
bool HoldsStaticLock();      // a lock which isn't on the simulated heap
[[noreturn]] void Die();     // this thread never runs again; what it holds stays held
std::string Where(const void* pc);
std::string StackOf(Thr* t, int frames = 6);
void CheckAccess(const void* p, size_t n, bool write, const void* pc);
void IoReset();
void NetReset();
uint64_t NextEventTime();

}  // namespace sim

#endif
