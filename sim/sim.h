// libsim: deterministic simulation runtime.  See /verif/DESIGN.md.
#ifndef VERIF_SIM_SIM_H_
#define VERIF_SIM_SIM_H_

#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1);
  uint64_t Next();
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Below(hi - lo + 1)); }
  double Unit() { return (Next() >> 11) * (1.0 / 9007199254740992.0); }
  bool Chance(double p) { return Unit() < p; }
};
uint64_t Mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- choices
enum Kind : uint8_t {
  K_SCHED = 0,   // switch thread at a synchronisation point
  K_MEM,         // switch thread at a memory access
  K_BLOCK,       // which thread runs when the current one blocks
  K_SIGNAL,      // which waiter a notify wakes
  K_SPURIOUS,    // spurious condition-variable wake-up
  K_TIMEJUMP,    // clock jumps to the next deadline although threads are runnable
  K_CLOCK,       // wall clock steps
  K_ALLOC,       // allocation fails
  K_IO_OPEN,
  K_IO_READ,
  K_IO_WRITE,
  K_IO_CLOSE,
  K_IO_META,     // stat/unlink/mkdir/... fail
  K_NET_DELAY,
  K_NET_SEG,
  K_NET_RESET,
  K_NET_ERR,     // accept/connect/send/recv error
  K_NET_STALL,
  K_DB_IO,
  K_DB_BUSY,
  K_CRASH,
  K_SYS,         // other system calls fail
  K_WFAULT1,     // harness-specific
  K_WFAULT2,
  K_WFAULT3,
  K_IO_SLOW,     // an I/O operation takes long
  K_IO_DEAD,     // the disk fails for good
  K_EINTR,       // a signal interrupts a call
  K_NUM
};
extern const char* const kKindNames[K_NUM];

// 0 is the default (nothing unusual).  Deviations are recorded and replayed.
uint32_t Choose(Kind k, uint32_t n);
inline bool Fault(Kind k) { return Choose(k, 2) != 0; }
// A choice whose generation probability is given (instead of cfg.prob[k]).
uint32_t ChooseP(Kind k, uint32_t n, double p);

struct Deviation {
  uint8_t kind;
  uint8_t tid;
  uint32_t value;
  uint64_t counter;
};

// ---------------------------------------------------------------- run configuration
struct Config {
  uint64_t seed = 1;          // schedule, faults, garbage
  int strategy = 0;           // 0 random, 1 priorities (PCT), 2 few preemptions, 3 default only
  double p_sync = 0.1;
  double mem_mean = 0;        // mean instrumented accesses between preemptions (0: never)
  int pct_depth = 3;
  uint64_t pct_len = 2000;    // expected number of scheduling points
  double p_block = 0.7;
  double prob[K_NUM] = {0};
  uint64_t tick_ns = 200;     // simulated time per scheduling point
  uint64_t max_steps = 2000000;
  uint64_t max_mem = 400000000;
  bool races = true;
  uint64_t garbage = 1;
};

struct Program {
  std::map<std::string, int64_t> params;
  std::vector<std::string> ops;
  int64_t P(const std::string& n, int64_t def = 0) const;
};

// ---------------------------------------------------------------- properties
struct Property {
  std::string id;
  // Fills in the program and adjusts the configuration for one run.
  std::function<void(Rng&, Program&, Config&)> generate;
  // Runs as simulated thread 0.
  std::function<void(const Program&)> execute;
  std::string rule;                    // what one evaluation is and what makes it non-trivial
  std::vector<std::string> real, stub; // which components ran real code / a stub
  int quick_runs = 3000;
  int thorough_runs = 100000;
  bool serial = false;  // one caller: a run counts if it performs at least two operations
};
void Register(Property p);
struct Registrar {
  explicit Registrar(Property p) { Register(std::move(p)); }
};

// ---------------------------------------------------------------- services for harnesses
[[noreturn]] void Fail(const std::string& violation_class, const std::string& message);
void Log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Probe(const char* name, uint64_t n = 1);  // "this rare condition was reached"
uint64_t Now();                                 // simulated nanoseconds
uint64_t Seq();                                 // global event sequence number (strictly increasing)
int Tid();
void Yield();                                   // explicit scheduling point
void SleepNs(uint64_t ns);
void AdvanceClock(uint64_t ns);                 // a jump of both clocks, by the workload
void StepWallClock(int64_t ns);                 // wall clock (CLOCK_REALTIME) only
uint64_t WallNs();
uint64_t Data(uint64_t n);                      // deterministic garbage (not a choice)
void AllocFaults(bool on);                      // this thread: allocations may fail
void AllocFaultsInNewThreads(bool on);          // those it starts from now on, instead
uint64_t AllocFaultsFired();
struct NoSim {                                  // harness bookkeeping: not simulated, not checked
  NoSim();
  ~NoSim();
};
// Heap accounting of the simulated heap (allocations made outside NoSim sections).
struct HeapStats {
  uint64_t live_blocks, live_bytes, total_allocs, max_request;
};
HeapStats Heap();
std::string DescribeLiveBlocks(uint64_t since_alloc, int max);
void ForEachLive(const std::function<void(void* p, size_t n, uint64_t seq)>& fn);
extern void (*g_on_free)(void* p, size_t n);    // called before a block is released
bool HeapBlock(const void* p, void** base, size_t* size, bool* live);
// Waits until no other simulated thread can make progress without time passing; false if the
// step budget given ran out first.
bool Quiesce(uint64_t max_steps = 200000);
// Also lets time pass until no thread waits with a time limit any more; false if that does not
// happen within the simulated time and steps given.
bool Settle(uint64_t max_ns = 3600ull * 1000000000ull, uint64_t max_steps = 200000);
// True if every other live thread is blocked (ignoring deadlines).
bool AllOthersBlocked();
std::string BlockedThreads();                   // who waits for what
int LiveThreads();
// A crash: thread tid never runs again, wherever it is.  Locks in [lo, hi) stay locked; false if
// it holds another one now.
bool Kill(int tid, const void* lo, const void* hi);
uint64_t FaultsFired();                         // all kinds except scheduling
uint64_t FaultsFiredKind(Kind k);
void SetFaultsEnabled(bool on);                 // stop injecting ("faults cease")
bool FaultsEnabled();
// Schedules fn to run in the runtime's context at simulated time t (must not block).
void At(uint64_t t, std::function<void()> fn);

// Directory for files of the current run (created empty before the run, removed after it).
const std::string& Scratch();

// Simulated wait objects for stubs (network, database...): block the calling thread until Wake.
struct WaitQ {
  std::vector<int> tids;
};
// Returns false on timeout.
bool WaitOn(WaitQ& q, const char* what, uint64_t deadline = UINT64_MAX);
void WakeAll(WaitQ& q);
void WakeOne(WaitQ& q);
void SyncPoint(const char* what);  // scheduling point
void AcquireFrom(const void* addr);  // happens-before edges for stubs
void ReleaseTo(const void* addr);

int Main(int argc, char** argv);

}  // namespace sim

#endif
