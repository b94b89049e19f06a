#include "db.h"

#include <errno.h>

#include <algorithm>
#include <map>
#include <set>

extern "C" {
#include <sqlite3.h>
}

#include "internal.h"

namespace sim {
namespace db {
bool g_crash_ok = false;
namespace {

struct Conn;
struct File {
  std::string path, data;
  bool linked = true;
  std::set<Conn*> conns;
  std::set<Conn*> shm_users;
  std::vector<char*> regions;
};
struct Conn {
  sqlite3_file base;
  File* f;
  int process;
  int level;              // SQLITE_LOCK_*
  unsigned shared, excl;  // bits of the 8 shared-memory locks
  bool del, shm;
};
std::map<std::string, File*>& Files() {
  static auto* m = new std::map<std::string, File*>;
  return *m;
}
std::set<Conn*>& Conns() {
  static auto* m = new std::set<Conn*>;
  return *m;
}
int g_process[kMaxThreads], g_crashed[kMaxThreads];
unsigned long g_faults, g_crashes;

Conn* C(sqlite3_file* f) { return reinterpret_cast<Conn*>(f); }

void Drop(Conn* c) {
  File* f = c->f;
  f->conns.erase(c);
  f->shm_users.erase(c);
  if (f->shm_users.empty()) {
    for (auto r : f->regions)
      std::free(r);
    f->regions.clear();
  }
  Conns().erase(c);
  if (c->del && f->linked) {
    Files().erase(f->path);
    f->linked = false;
  }
  if (!f->linked && f->conns.empty())
    delete f;
}

// The process of this thread crashes here: what it wrote stays, its locks go.
[[noreturn]] void Crash(const char* where) {
  int p = g_process[self->tid];
  ++g_crashes;
  Log("process %d crashes in %s", p, where);
  std::vector<Conn*> mine;
  for (auto c : Conns())
    if (c->process == p)
      mine.push_back(c);
  for (auto c : mine) {
    c->del = false;
    Drop(c);
  }
  g_crashed[self->tid] = p;
  Die();
}
bool CrashNow(const char* where) {
  (void)where;
  if (!g_crash_ok || !FaultsEnabled() || g_process[self->tid] == 0 || HoldsStaticLock())
    return false;
  return Fault(K_CRASH);
}
bool Io(const char* what) {
  if (!Fault(K_DB_IO))
    return false;
  ++g_faults;
  Log("I/O error in %s", what);
  return true;
}
bool Busy(const char* what) {
  if (!Fault(K_DB_BUSY))
    return false;
  ++g_faults;
  Log("spurious busy in %s", what);
  return true;
}

// The library's memory: an outage makes every allocation of the process fail.
sqlite3_mem_methods g_mem;
int g_outage[kMaxThreads];  // by process: 1 no memory, 2 no disk space
int OutageOf() { return self->tid < kMaxThreads && g_process[self->tid] < kMaxThreads ? g_outage[g_process[self->tid]] : 0; }
void* MemMalloc(int n) {
  if (OutageOf() == 1) {
    ++g_faults;
    return nullptr;
  }
  return g_mem.xMalloc(n);
}
void* MemRealloc(void* p, int n) {
  if (OutageOf() == 1) {
    ++g_faults;
    return nullptr;
  }
  return g_mem.xRealloc(p, n);
}
bool DiskFull() {
  if (OutageOf() != 2)
    return false;
  ++g_faults;
  return true;
}

int Close(sqlite3_file* s) {
  SchedPoint(970);
  Rt rt;
  if (C(s)->f) {
    if (CrashNow("close"))
      Crash("close");
    Drop(C(s));
    C(s)->f = nullptr;
  }
  return SQLITE_OK;
}
int Read(sqlite3_file* s, void* buf, int n, sqlite3_int64 off) {
  SchedPoint(971);
  Rt rt;
  File* f = C(s)->f;
  if (CrashNow("read"))
    Crash("read");
  if (Io("read"))
    return SQLITE_IOERR_READ;
  size_t have = size_t(off) < f->data.size() ? std::min<size_t>(n, f->data.size() - off) : 0;
  memcpy(buf, f->data.data() + off, have);
  if (have == size_t(n))
    return SQLITE_OK;
  memset(static_cast<char*>(buf) + have, 0, n - have);
  return SQLITE_IOERR_SHORT_READ;
}
void Apply(File* f, const void* buf, size_t n, size_t off) {
  if (f->data.size() < off + n)
    f->data.resize(off + n);
  memcpy(&f->data[0] + off, buf, n);
}
int Write(sqlite3_file* s, const void* buf, int n, sqlite3_int64 off) {
  SchedPoint(972);
  Rt rt;
  File* f = C(s)->f;
  if (CrashNow("write")) {
    // Nothing, a part or all of it arrives.
    size_t k = Data(3) == 0 ? 0 : Data(2) ? n : Data(n);
    if (k)
      Apply(f, buf, k, off);
    Crash("write");
  }
  if (DiskFull())
    return SQLITE_FULL;
  if (Io("write")) {
    size_t k = Data(2) ? 0 : Data(n + 1);
    if (k)
      Apply(f, buf, k, off);
    return Data(2) ? SQLITE_FULL : SQLITE_IOERR_WRITE;
  }
  Apply(f, buf, n, off);
  HashEvent(0xd000 + n);
  return SQLITE_OK;
}
int Truncate(sqlite3_file* s, sqlite3_int64 n) {
  SchedPoint(973);
  Rt rt;
  if (CrashNow("truncate"))
    Crash("truncate");
  if (Io("truncate"))
    return SQLITE_IOERR_TRUNCATE;
  C(s)->f->data.resize(n);
  return SQLITE_OK;
}
int Sync(sqlite3_file* s, int) {
  SchedPoint(974);
  Rt rt;
  if (CrashNow("sync"))
    Crash("sync");
  return Io("sync") ? SQLITE_IOERR_FSYNC : SQLITE_OK;
}
int FileSize(sqlite3_file* s, sqlite3_int64* n) {
  Rt rt;
  if (Io("file size"))
    return SQLITE_IOERR_FSTAT;
  *n = C(s)->f->data.size();
  return SQLITE_OK;
}
int Lock(sqlite3_file* s, int level) {
  SchedPoint(975);
  Rt rt;
  Conn* c = C(s);
  if (c->level >= level)
    return SQLITE_OK;
  if (CrashNow("lock"))
    Crash("lock");
  if (Io("lock"))
    return SQLITE_IOERR_LOCK;
  if (Busy("lock"))
    return SQLITE_BUSY;
  bool reserved = false, pending = false, exclusive = false, shared = false;
  for (auto o : c->f->conns)
    if (o != c) {
      shared |= o->level >= SQLITE_LOCK_SHARED;
      reserved |= o->level == SQLITE_LOCK_RESERVED;
      pending |= o->level == SQLITE_LOCK_PENDING;
      exclusive |= o->level == SQLITE_LOCK_EXCLUSIVE;
    }
  if (level == SQLITE_LOCK_SHARED) {
    if (pending || exclusive)
      return SQLITE_BUSY;
  } else if (level == SQLITE_LOCK_RESERVED) {
    if (reserved || pending || exclusive)
      return SQLITE_BUSY;
  } else {
    if (reserved || pending || exclusive)
      return SQLITE_BUSY;
    if (shared) {
      c->level = SQLITE_LOCK_PENDING;
      return SQLITE_BUSY;
    }
  }
  c->level = level;
  return SQLITE_OK;
}
int Unlock(sqlite3_file* s, int level) {
  SchedPoint(976);
  Rt rt;
  if (CrashNow("unlock"))
    Crash("unlock");
  if (C(s)->level > level)
    C(s)->level = level;
  return SQLITE_OK;
}
int CheckReserved(sqlite3_file* s, int* out) {
  Rt rt;
  if (Io("reserved lock"))
    return SQLITE_IOERR_CHECKRESERVEDLOCK;
  *out = 0;
  for (auto o : C(s)->f->conns)
    *out |= o->level >= SQLITE_LOCK_RESERVED;
  return SQLITE_OK;
}
int Control(sqlite3_file*, int, void*) { return SQLITE_NOTFOUND; }
int Sector(sqlite3_file*) { return 4096; }
int Device(sqlite3_file*) { return 0; }

int ShmMap(sqlite3_file* s, int region, int size, int extend, void volatile** out) {
  SchedPoint(977);
  Rt rt;
  Conn* c = C(s);
  *out = nullptr;
  if (CrashNow("map"))
    Crash("map");
  if (Io("map"))
    return SQLITE_IOERR_SHMMAP;
  if (!c->shm) {
    c->shm = true;
    c->f->shm_users.insert(c);
  }
  while (int(c->f->regions.size()) <= region) {
    if (!extend)
      return SQLITE_OK;
    c->f->regions.push_back(static_cast<char*>(calloc(1, size)));
  }
  *out = c->f->regions[region];
  return SQLITE_OK;
}
int ShmLock(sqlite3_file* s, int at, int n, int flags) {
  SchedPoint(978);
  Rt rt;
  Conn* c = C(s);
  unsigned bits = ((1u << n) - 1) << at;
  if (CrashNow("shared-memory lock"))
    Crash("shared-memory lock");
  if (flags & SQLITE_SHM_UNLOCK) {
    c->shared &= ~bits;
    c->excl &= ~bits;
    return SQLITE_OK;
  }
  if (Io("shared-memory lock"))
    return SQLITE_IOERR_SHMLOCK;
  if (Busy("shared-memory lock"))
    return SQLITE_BUSY;
  for (auto o : c->f->conns)
    if (o != c && ((o->excl & bits) || ((flags & SQLITE_SHM_EXCLUSIVE) && (o->shared & bits))))
      return SQLITE_BUSY;
  if (flags & SQLITE_SHM_EXCLUSIVE)
    c->excl |= bits;
  else
    c->shared |= bits;
  return SQLITE_OK;
}
void ShmBarrier(sqlite3_file*) { SchedPoint(979); }
int ShmUnmap(sqlite3_file* s, int) {
  SchedPoint(980);
  Rt rt;
  Conn* c = C(s);
  c->shm = false;
  c->shared = c->excl = 0;
  c->f->shm_users.erase(c);
  if (c->f->shm_users.empty()) {
    for (auto r : c->f->regions)
      std::free(r);
    c->f->regions.clear();
  }
  return SQLITE_OK;
}

const sqlite3_io_methods kMethods = {2,      Close,  Read,         Write,  Truncate, Sync,   FileSize, Lock,
                                     Unlock, CheckReserved, Control, Sector, Device, ShmMap, ShmLock,
                                     ShmBarrier, ShmUnmap};

int Open(sqlite3_vfs*, const char* name, sqlite3_file* s, int flags, int* out) {
  SchedPoint(981);
  Rt rt;
  s->pMethods = nullptr;
  if (CrashNow("open"))
    Crash("open");
  if (Io("open"))
    return SQLITE_CANTOPEN;
  File* f = nullptr;
  std::string path(name ? name : "");
  auto it = name ? Files().find(path) : Files().end();
  if (it != Files().end()) {
    if ((flags & SQLITE_OPEN_CREATE) && (flags & SQLITE_OPEN_EXCLUSIVE))
      return SQLITE_CANTOPEN;
    f = it->second;
  } else {
    if (!(flags & SQLITE_OPEN_CREATE))
      return SQLITE_CANTOPEN;
    f = new File;
    f->path = path;
    f->linked = name != nullptr;
    if (name)
      Files()[path] = f;
  }
  Conn* c = new (s) Conn();
  c->base.pMethods = &kMethods;
  c->f = f;
  c->process = g_process[self->tid];
  c->del = flags & SQLITE_OPEN_DELETEONCLOSE;
  f->conns.insert(c);
  Conns().insert(c);
  if (out)
    *out = flags;
  return SQLITE_OK;
}
int Delete(sqlite3_vfs*, const char* name, int) {
  SchedPoint(982);
  Rt rt;
  if (CrashNow("delete"))
    Crash("delete");
  if (Io("delete"))
    return SQLITE_IOERR_DELETE;
  auto it = Files().find(name);
  if (it == Files().end())
    return SQLITE_IOERR_DELETE_NOENT;
  File* f = it->second;
  Files().erase(it);
  f->linked = false;
  if (f->conns.empty())
    delete f;
  return SQLITE_OK;
}
int Access(sqlite3_vfs*, const char* name, int, int* out) {
  SchedPoint(983);
  Rt rt;
  if (Io("access"))
    return SQLITE_IOERR_ACCESS;
  auto it = Files().find(name);
  *out = it != Files().end();
  return SQLITE_OK;
}
int FullPath(sqlite3_vfs*, const char* name, int n, char* out) {
  snprintf(out, n, "%s", name);
  return SQLITE_OK;
}
int Randomness(sqlite3_vfs*, int n, char* out) {
  Rt rt;
  for (int i = 0; i < n; ++i)
    out[i] = Data(256);
  return n;
}
int Sleep(sqlite3_vfs*, int us) {
  SleepNs(uint64_t(us) * 1000);
  return us;
}
int Time64(sqlite3_vfs*, sqlite3_int64* out) {
  *out = 210866760000000ll + WallNs() / 1000000;
  return SQLITE_OK;
}
int Time(sqlite3_vfs* v, double* out) {
  sqlite3_int64 t;
  Time64(v, &t);
  *out = t / 86400000.0;
  return SQLITE_OK;
}
int LastError(sqlite3_vfs*, int, char*) { return 0; }

sqlite3_vfs g_vfs = {2, sizeof(Conn), 512, nullptr, "simulated", nullptr, Open, Delete, Access, FullPath,
                     nullptr, nullptr, nullptr, nullptr, Randomness, Sleep, Time, LastError, Time64};

}  // namespace

void Outage(int kind) {
  int p = g_process[self->tid];
  if (g_outage[p] != kind)
    Log(kind == 1 ? "memory exhausted" : kind == 2 ? "disk full" : "memory and disk space available again");
  g_outage[p] = kind;
}

void Install() {
  sqlite3_config(SQLITE_CONFIG_GETMALLOC, &g_mem);
  static sqlite3_mem_methods m;
  m = g_mem;
  m.xMalloc = MemMalloc;
  m.xRealloc = MemRealloc;
  sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
  std::fill(g_crashed, g_crashed + kMaxThreads, -1);
  sqlite3_vfs_register(&g_vfs, 1);
}
void SetProcess(int id) {
  g_process[self->tid] = id;
  g_outage[id] = 0;
}
int CrashedProcess(int tid) { return g_crashed[tid]; }
int OpenFiles() { return Conns().size(); }
bool Locked() {
  for (auto c : Conns())
    if (c->level || c->shared || c->excl)
      return true;
  return false;
}
unsigned long Faults() { return g_faults; }
unsigned long Crashes() { return g_crashes; }
std::string Content(const std::string& path, bool* exists) {
  auto it = Files().find(path);
  *exists = it != Files().end();
  return *exists ? it->second->data : "";
}
void Put(const std::string& path, const std::string& content) {
  File*& f = Files()[path];
  if (!f) {
    f = new File;
    f->path = path;
  }
  f->data = content;
}
std::string State() {
  std::string s;
  for (auto c : Conns()) {
    char b[200];
    snprintf(b, sizeof b, "%s: process %d level %d shared %x exclusive %x; ", c->f->path.c_str(), c->process,
             c->level, c->shared, c->excl);
    s += b;
  }
  return s;
}
}  // namespace db
}  // namespace sim
