// shm_open and friends over private memory.  Every mapping of an object appears at the same
// address (one address space plays all processes), so simulated locks in it are shared.
#include "shm.h"

#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <map>

#include "internal.h"

namespace sim {
namespace shm {
bool g_on = false;
struct Obj {
  char* base;
  size_t size = 0;
  int maps = 0, fds = 0;
  bool linked = true;
};
static std::map<std::string, Obj*> g_names;
static std::map<int, std::pair<Obj*, bool>> g_fds;  // object, writable
static std::map<uintptr_t, Obj*> g_objs;
static int g_next_fd = 9000;
static unsigned long g_faults;
static int g_objects;
int OpenFds() { return g_fds.size(); }
int Mappings() {
  int n = 0;
  for (auto& o : g_objs)
    n += o.second->maps;
  return n;
}
int Objects() { return g_names.size(); }
unsigned long Faults() { return g_faults; }
static Obj* Of(int fd) {
  auto it = g_fds.find(fd);
  return it == g_fds.end() ? nullptr : it->second.first;
}
static bool Faulted() {
  bool f = Fault(K_SYS);
  g_faults += f;
  return f;
}
// Memory is accessible only while mapped, and only up to the object's size.
static void Protect(Obj* o) {
  size_t n = (o->size + 4095) & ~size_t{4095};
  if (n)
    mprotect(o->base, n, o->maps ? PROT_READ | PROT_WRITE : PROT_NONE);
  mprotect(o->base + n, kObject - n, PROT_NONE);
}
static int Resize(Obj* o, size_t n) {
  if (n > kObject) {
    errno = EFBIG;
    return -1;
  }
  if (Faulted()) {
    errno = ENOSPC;
    return -1;
  }
  if (n < o->size) {
    mprotect(o->base, kObject, PROT_READ | PROT_WRITE);
    memset(o->base + n, 0, o->size - n);
  }
  o->size = n;
  Protect(o);
  HashEvent(0x5400 + n);
  return 0;
}
}  // namespace shm
}  // namespace sim

using namespace sim;       // NOLINT
using namespace sim::shm;  // NOLINT

extern "C" {
int shm_open(const char* name, int flags, mode_t mode) {
  SIM_REAL(shm_open);
  if (!Active() || !g_on)
    return real(name, flags, mode);
  SchedPoint(950);
  Rt rt;
  std::string n(name);
  if (n.size() > 256) {
    errno = ENAMETOOLONG;
    return -1;
  }
  if (n.size() < 2 || n[0] != '/' || n.find('/', 1) != std::string::npos) {
    errno = EINVAL;
    return -1;
  }
  if (Faulted()) {
    errno = EMFILE;
    return -1;
  }
  auto it = g_names.find(n);
  Obj* o;
  if (it == g_names.end()) {
    if (!(flags & O_CREAT)) {
      errno = ENOENT;
      return -1;
    }
    o = new Obj;
    void* at = reinterpret_cast<void*>(kBase + kObject * g_objects++);
    if (reinterpret_cast<uintptr_t>(at) + kObject > kEnd ||
        mmap(at, kObject, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != at)
      Fail("harness-limit", "out of simulated shared memory");
    o->base = static_cast<char*>(at);
    g_names[n] = o;
    g_objs[reinterpret_cast<uintptr_t>(at)] = o;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) {
      errno = EEXIST;
      return -1;
    }
    o = it->second;
    if (flags & O_TRUNC)
      Resize(o, 0);
  }
  ++o->fds;
  g_fds[g_next_fd] = {o, (flags & O_ACCMODE) != O_RDONLY};
  HashEvent(0x5000 + flags);
  return g_next_fd++;
}
int shm_unlink(const char* name) {
  SIM_REAL(shm_unlink);
  if (!Active() || !g_on)
    return real(name);
  SchedPoint(951);
  Rt rt;
  auto it = g_names.find(name);
  if (it == g_names.end()) {
    errno = ENOENT;
    return -1;
  }
  it->second->linked = false;
  g_names.erase(it);
  HashEvent(0x5100);
  return 0;
}
int ftruncate(int fd, off_t n) {
  SIM_REAL(ftruncate);
  Obj* o = Active() && g_on ? Of(fd) : nullptr;
  if (!o)
    return real(fd, n);
  SchedPoint(952);
  Rt rt;
  return Resize(o, n);
}
int posix_fallocate(int fd, off_t at, off_t n) {
  SIM_REAL(posix_fallocate);
  Obj* o = Active() && g_on ? Of(fd) : nullptr;
  if (!o)
    return real(fd, at, n);
  SchedPoint(953);
  Rt rt;
  if (size_t(at + n) <= o->size)
    return 0;
  int e = errno;
  int rc = Resize(o, at + n) ? errno : 0;
  errno = e;
  return rc;
}
int fchmod(int fd, mode_t m) {
  SIM_REAL(fchmod);
  Obj* o = Active() && g_on ? Of(fd) : nullptr;
  if (!o)
    return real(fd, m);
  SchedPoint(954);
  return 0;
}
int fstat(int fd, struct stat* st) {
  SIM_REAL(fstat);
  Obj* o = Active() && g_on ? Of(fd) : nullptr;
  if (!o)
    return real(fd, st);
  SchedPoint(955);
  Rt rt;
  if (Faulted()) {
    errno = EIO;
    return -1;
  }
  memset(st, 0, sizeof *st);
  st->st_size = o->size;
  st->st_mode = S_IFREG | 0600;
  return 0;
}
void* mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off) {
  SIM_REAL(mmap);
  Obj* o = Active() && g_on && fd >= 0 ? Of(fd) : nullptr;
  if (!o)
    return real(addr, n, prot, flags, fd, off);
  SchedPoint(956);
  Rt rt;
  if (off != 0 || !(flags & MAP_SHARED) || n == 0 || n > kObject) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if ((prot & PROT_WRITE) && !g_fds[fd].second) {
    errno = EACCES;
    return MAP_FAILED;
  }
  if (Faulted()) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  ++o->maps;
  Protect(o);
  return o->base;
}
int munmap(void* p, size_t n) {
  SIM_REAL(munmap);
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!Active() || !g_on || a < kBase || a >= kEnd)
    return real(p, n);
  SchedPoint(957);
  Rt rt;
  auto it = g_objs.find(a);
  if (it == g_objs.end() || it->second->maps == 0)
    Fail("bad-unmap", "memory is unmapped which isn't mapped: " + StackOf(self, 6));
  --it->second->maps;
  Protect(it->second);
  return 0;
}
int close(int fd) {
  SIM_REAL(close);
  if (!Active() || !g_on)
    return real(fd);
  {
    Rt rt;
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) {
      if (fd >= 9000)
        Fail("bad-close", "a descriptor is closed which isn't open: " + StackOf(self, 6));
      return real(fd);
    }
    --it->second.first->fds;
    g_fds.erase(it);
  }
  SchedPoint(958);
  return 0;
}
}
