// File-system interposition: scheduling points, delays, errors, short and torn operations.
#undef _FILE_OFFSET_BITS  // the plain and the 64-bit names are both defined here
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <algorithm>
#include <map>

#include "internal.h"
#include "io.h"

namespace sim {
namespace io {
std::function<void(const char*, const std::string&)> g_after;
double g_dead_prob = 0;
bool g_dead = false;
std::set<std::string> g_broken;
bool g_trace = true;
struct Fd {
  std::string path;
  int kind;  // 1 file, 2 random device
  off_t base = 0;  // what the file held when it was opened
  bool wrote = false;
};
static std::map<int, Fd>& Fds() {
  static auto* m = new std::map<int, Fd>;
  return *m;
}
static uint64_t g_faults = 0;
static std::string g_last;
uint64_t Faults() { return g_faults; }
std::string LastFault() { return g_last; }

int OpenFds() {
  NoSim ns;
  int n = 0;
  for (auto& f : Fds())
    n += f.second.kind == 1;
  return n;
}

static bool Tracked(const char* p) {
  static const char* skip[] = {"/proc", "/sys", "/etc", "/usr", "/lib", "/dev", "/bin", "/opt"};
  for (auto s : skip)
    if (!strncmp(p, s, strlen(s)))
      return false;
  return true;
}
// Nothing outside the run's scratch directory (the working directory) may be changed, whatever the code
// under test does.
static void Contain(const char* what, const std::string& path) {
  static std::string* cwd;
  if (!cwd) {
    char b[4096];
    long n = syscall(SYS_getcwd, (long)b, (long)sizeof b, 0L, 0L, 0L, 0L);
    cwd = new std::string(n > 0 ? b : "/nonexistent");
  }
  std::string rest = path;
  if (!path.empty() && path[0] == '/') {
    if (path.compare(0, 5, "/dev/") == 0)
      return;
    if (path.compare(0, cwd->size(), *cwd) || (path.size() > cwd->size() && path[cwd->size()] != '/'))
      Fail("outside-scratch", std::string(what) + " " + path);
    rest = path.substr(cwd->size());
  }
  int depth = 0;
  for (size_t i = 0; i < rest.size();) {
    size_t e = std::min(rest.find('/', i), rest.size());
    std::string c = rest.substr(i, e - i);
    depth += c == ".." ? -1 : c.empty() || c == "." ? 0 : 1;
    if (depth < 0)
      Fail("outside-scratch", std::string(what) + " " + path);
    i = e + 1;
  }
}
static bool RandomDev(const char* p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }

// A scheduling point, a possible delay, and the decision whether this operation fails.
// Returns 0 (no fault) or the chosen fault number below n.
static uint32_t Op(const char* what, const std::string& path, Kind k, uint32_t n) {
  SchedPoint(60);
  if (ChooseP(K_IO_SLOW, 2, G.cfg.prob[K_IO_SLOW]))
    SleepNs(1000 + Data(60000000));
  if (g_dead && FaultsEnabled()) {
    {
      Rt rt;
      g_broken.insert(path);
    }
    errno = EIO;
    return 1;
  }
  uint32_t v = Choose(k, n);
  Rt rt;
  if (v) {
    ++g_faults;
    if (k == K_IO_OPEN || k == K_IO_CLOSE || (k == K_IO_WRITE && v != 3 && v != 4))
      g_broken.insert(path);
    g_last = std::string(what) + " " + path;
    if (g_dead_prob > 0 && ChooseP(K_IO_DEAD, 2, g_dead_prob))
      g_dead = true;
  }
  if (g_trace)
    Log("io %s %s%s", what, path.c_str(), v ? " FAULT" : "");
  return v;
}
static void After(const char* op, const std::string& path) {
  if (!g_after)
    return;
  Rt rt;
  g_after(op, path);
}

uint64_t DirBytes(const std::string& dir, const std::string& except) {
  NoSim ns;
  uint64_t sum = 0;
  DIR* d = opendir(dir.c_str());
  if (!d)
    return 0;
  while (dirent* e = readdir(d)) {
    struct stat st;
    std::string f = dir + "/" + e->d_name;
    if (e->d_name[0] == '.' || e->d_name == except)
      continue;
    if (stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode))
      sum += st.st_size;
  }
  closedir(d);
  return sum;
}
int FileCount(const std::string& dir) {
  NoSim ns;
  int n = 0;
  DIR* d = opendir(dir.c_str());
  if (!d)
    return -1;
  while (dirent* e = readdir(d))
    n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
std::vector<std::string> List(const std::string& dir) {
  NoSim ns;
  std::vector<std::string> out;
  DIR* d = opendir(dir.c_str());
  if (!d)
    return out;
  while (dirent* e = readdir(d))
    if (e->d_name[0] != '.')
      out.push_back(e->d_name);
  closedir(d);
  std::sort(out.begin(), out.end());
  return out;
}
std::string Slurp(const std::string& path, bool* ok) {
  NoSim ns;
  std::string out;
  int fd = open(path.c_str(), O_RDONLY);
  if (ok)
    *ok = fd >= 0;
  if (fd < 0)
    return out;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0)
    out.append(b, n);
  close(fd);
  return out;
}
bool Spit(const std::string& path, const std::string& content) {
  NoSim ns;
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0)
    return false;
  bool ok = write(fd, content.data(), content.size()) == static_cast<ssize_t>(content.size());
  close(fd);
  return ok;
}

static int OpenErr(uint32_t v) {
  static const int e[] = {0, EIO, EMFILE, ENOSPC, EACCES};
  return e[v];
}
static int MetaErr(uint32_t v) {
  static const int e[] = {0, EIO, EACCES, EBUSY};
  return e[v];
}
static std::string AtPath(int dfd, const char* p) {
  if (dfd != AT_FDCWD && p[0] != '/') {
    auto it = Fds().find(dfd);
    if (it != Fds().end())
      return it->second.path + "/" + p;
    return std::string("/unknown/") + p;
  }
  return p;
}
// Resets per-run state (the process runs one simulation only, so there is nothing to do).
}  // namespace io
void IoReset() {}
}  // namespace sim

using namespace sim;      // NOLINT
using namespace sim::io;  // NOLINT

#define REALV(name) \
  static decltype(&::name) real = nullptr; \
  if (!real) { \
    real = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name)); \
  }

extern "C" {

static FILE* FopenImpl(const char* path, const char* mode, FILE* (*real)(const char*, const char*)) {
  if (!Active())
    return real(path, mode);
  if (!Tracked(path) && !RandomDev(path)) {
    Rt rt;
    return real(path, mode);
  }
  if (mode[0] != 'r' || strchr(mode, '+')) {
    Rt rt;
    Contain("open", path);
  }
  if (Tracked(path)) {
    std::string p;
    {
      Rt rt;
      p = path;
    }
    uint32_t v = Op("open", p, K_IO_OPEN, mode[0] == 'r' ? 3 : 5);
    if (v) {
      errno = OpenErr(v);
      return nullptr;
    }
  }
  Rt rt;
  FILE* f = real(path, mode);
  if (f) {
    struct stat st;
    Fds()[fileno(f)] = Fd{path, RandomDev(path) ? 2 : 1, fstat(fileno(f), &st) ? 0 : st.st_size};
    After("open", path);
  }
  return f;
}
FILE* fopen(const char* path, const char* mode) {
  REALV(fopen)
  return FopenImpl(path, mode, real);
}
FILE* fopen64(const char* path, const char* mode) {
  REALV(fopen64)
  return FopenImpl(path, mode, real);
}
int fclose(FILE* f) {
  REALV(fclose)
  if (!Active())
    return real(f);
  Rt rt0;
  int fd = fileno(f);
  auto it = Fds().find(fd);
  if (it == Fds().end() || it->second.kind == 2) {
    if (it != Fds().end())
      Fds().erase(it);
    return real(f);
  }
  std::string p = it->second.path;
  off_t base = it->second.base;
  bool wrote = it->second.wrote;
  --self->in_rt;
  uint32_t v = Op("close", p, K_IO_CLOSE, 3);
  ++self->in_rt;
  Fds().erase(fd);
  int flags = fcntl(fd, F_GETFL);
  int r = real(f);
  if (v) {
    // 2: the buffered data was lost, too, as with delayed allocation.
    if (v == 2 && wrote && (flags & O_ACCMODE) != O_RDONLY) {
      struct stat st;
      if (stat(p.c_str(), &st) == 0 && st.st_size > base)
        if (truncate(p.c_str(), base + static_cast<off_t>(Data(st.st_size - base)))) {
        }
    }
    After("close", p);
    errno = EIO;
    return EOF;
  }
  After("close", p);
  return r;
}

static int OpenImpl(int dfd, const char* path, int flags, mode_t mode) {
  auto sys = [&] { return static_cast<int>(syscall(SYS_openat, (long)dfd, (long)path, (long)flags, (long)mode, 0L, 0L)); };
  if (!Active())
    return sys();
  bool dev = RandomDev(path);
  std::string p;
  {
    Rt rt;
    p = AtPath(dfd, path);
    if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))
      Contain("open", p);
  }
  if (!dev && Tracked(p.c_str())) {
    uint32_t v = Op("open", p, K_IO_OPEN, (flags & O_CREAT) ? 5 : 3);
    if (v) {
      errno = OpenErr(v);
      return -1;
    }
  }
  Rt rt;
  int fd = sys();
  if (fd >= 0 && (dev || Tracked(p.c_str()))) {
    struct stat st;
    Fds()[fd] = Fd{p, dev ? 2 : 1, fstat(fd, &st) ? 0 : st.st_size};
    After("open", p);
  }
  return fd;
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return OpenImpl(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return OpenImpl(AT_FDCWD, path, flags, m);
}
int openat(int dfd, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return OpenImpl(dfd, path, flags, m);
}
int openat64(int dfd, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return OpenImpl(dfd, path, flags, m);
}
int __openat64_2(int dfd, const char* path, int flags) { return OpenImpl(dfd, path, flags, 0); }
int __openat_2(int dfd, const char* path, int flags) { return OpenImpl(dfd, path, flags, 0); }
int __open64_2(const char* path, int flags) { return OpenImpl(AT_FDCWD, path, flags, 0); }
int __open_2(const char* path, int flags) { return OpenImpl(AT_FDCWD, path, flags, 0); }
// Overridden by the network layer where there is one.
__attribute__((weak)) int SimNetClose(int) { return 1; }
__attribute__((weak)) ssize_t SimNetRead(int, void*, size_t, int*) { return 0; }
__attribute__((weak)) ssize_t SimNetWrite(int, const void*, size_t, int*) { return 0; }

int close(int fd) {
  auto sys = [&] { return static_cast<int>(syscall(SYS_close, (long)fd, 0L, 0L, 0L, 0L, 0L)); };
  if (!Active())
    return sys();
  int n = SimNetClose(fd);
  if (n <= 0)
    return n;
  std::string p;
  bool file = false;
  {
    Rt rt;
    auto it = Fds().find(fd);
    if (it != Fds().end()) {
      file = it->second.kind == 1;
      p = it->second.path;
    }
  }
  uint32_t v = file ? Op("close", p, K_IO_CLOSE, 2) : 0;
  Rt rt;
  Fds().erase(fd);
  int r = sys();
  if (v) {
    errno = EIO;
    return -1;
  }
  return r;
}

static bool FdInfo(int fd, std::string* p, int* kind) {
  Rt rt;
  auto it = Fds().find(fd);
  if (it == Fds().end())
    return false;
  *p = it->second.path;
  *kind = it->second.kind;
  return true;
}

ssize_t read(int fd, void* buf, size_t n) {
  auto sys = [&](size_t m) { return syscall(SYS_read, (long)fd, (long)buf, (long)m, 0L, 0L, 0L); };
  if (!Active())
    return sys(n);
  int handled = 0;
  ssize_t nr = SimNetRead(fd, buf, n, &handled);
  if (handled)
    return nr;
  std::string p;
  int kind = 0;
  if (!FdInfo(fd, &p, &kind)) {
    Rt rt;
    return sys(n);
  }
  if (kind == 2) {
    for (size_t i = 0; i < n; ++i)
      static_cast<unsigned char*>(buf)[i] = static_cast<unsigned char>(G.garbage.Next() >> 11);
    return n;
  }
  CheckAccess(buf, n, true, __builtin_return_address(0));
  uint32_t v = Op("read", p, K_IO_READ, 4);
  Rt rt;
  switch (v) {
    case 1: errno = EIO; return -1;
    case 2: errno = EINTR; return -1;
    case 3: return sys(n > 1 ? 1 + Data(n - 1) : n);  // short
  }
  return sys(n);
}
static ssize_t WriteImpl(int fd, const void* buf, size_t n) {
  auto sys = [&](size_t m) { return syscall(SYS_write, (long)fd, (long)buf, (long)m, 0L, 0L, 0L); };
  std::string p;
  int kind = 0;
  if (!FdInfo(fd, &p, &kind)) {
    Rt rt;
    return sys(n);
  }
  CheckAccess(buf, n, false, __builtin_return_address(0));
  {
    Rt rt;
    auto it = Fds().find(fd);
    if (it != Fds().end())
      it->second.wrote = true;
  }
  uint32_t v = Op("write", p, K_IO_WRITE, 6);
  Rt rt;
  ssize_t r;
  switch (v) {
    case 1: errno = EIO; return -1;
    case 2: errno = ENOSPC; return -1;
    case 3: errno = EINTR; return -1;
    case 4: r = sys(n > 1 ? 1 + Data(n - 1) : n); break;  // short
    case 5:                                               // torn: some bytes reach the file, yet it fails
      if (n > 1)
        sys(1 + Data(n - 1));
      After("write", p);
      errno = EIO;
      return -1;
    default: r = sys(n);
  }
  int e = errno;
  After("write", p);
  errno = e;
  return r;
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (!Active())
    return syscall(SYS_write, (long)fd, (long)buf, (long)n, 0L, 0L, 0L);
  int handled = 0;
  ssize_t nr = SimNetWrite(fd, buf, n, &handled);
  if (handled)
    return nr;
  return WriteImpl(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!Active())
    return syscall(SYS_writev, (long)fd, (long)v, (long)c, 0L, 0L, 0L);
  std::string p;
  int kind;
  if (!FdInfo(fd, &p, &kind)) {
    Rt rt;
    return syscall(SYS_writev, (long)fd, (long)v, (long)c, 0L, 0L, 0L);
  }
  std::string all;
  {
    Rt rt;
    for (int i = 0; i < c; ++i)
      all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  }
  return WriteImpl(fd, all.data(), all.size());
}

// Copies within the kernel aren't offered, so that they are reads and writes.
ssize_t sendfile(int out, int in, off_t* at, size_t n) __THROW {
  REALV(sendfile)
  if (!Active())
    return real(out, in, at, n);
  errno = ENOSYS;
  return -1;
}
ssize_t sendfile64(int out, int in, off64_t* at, size_t n) __THROW {
  REALV(sendfile64)
  if (!Active())
    return real(out, in, at, n);
  errno = ENOSYS;
  return -1;
}
ssize_t copy_file_range(int in, off64_t* a, int out, off64_t* b, size_t n, unsigned flags) {
  REALV(copy_file_range)
  if (!Active())
    return real(in, a, out, b, n, flags);
  errno = ENOSYS;
  return -1;
}

// ---- path operations
#define META(what, pathexpr, call)                       \
  std::string p;                                         \
  {                                                      \
    Rt rt;                                               \
    p = pathexpr;                                        \
    if (strcmp(what, "stat") && strcmp(what, "access"))  \
      Contain(what, p);                                  \
  }                                                      \
  if (Tracked(p.c_str())) {                              \
    uint32_t v = Op(what, p, K_IO_META, 4);              \
    if (v) {                                             \
      errno = MetaErr(v);                                \
      return -1;                                         \
    }                                                    \
  }                                                      \
  Rt rt;                                                 \
  int r = call;                                          \
  int e = errno;                                         \
  After(what, p);                                        \
  errno = e;                                             \
  return r;

int unlink(const char* path) {
  REALV(unlink)
  if (!Active())
    return real(path);
  META("unlink", path, real(path))
}
int unlinkat(int dfd, const char* path, int flags) {
  REALV(unlinkat)
  if (!Active())
    return real(dfd, path, flags);
  META("unlink", AtPath(dfd, path), real(dfd, path, flags))
}
int remove(const char* path) {
  REALV(remove)
  if (!Active())
    return real(path);
  META("remove", path, real(path))
}
int rmdir(const char* path) {
  REALV(rmdir)
  if (!Active())
    return real(path);
  META("rmdir", path, real(path))
}
int mkdir(const char* path, mode_t m) {
  REALV(mkdir)
  if (!Active())
    return real(path, m);
  META("mkdir", path, real(path, m))
}
int rename(const char* a, const char* b) {
  REALV(rename)
  if (!Active())
    return real(a, b);
  {
    Rt rt;
    Contain("rename", a);
  }
  META("rename", b, real(a, b))
}
int truncate(const char* path, off_t n) {
  REALV(truncate)
  if (!Active())
    return real(path, n);
  META("truncate", path, real(path, n))
}
int stat(const char* __restrict path, struct stat* __restrict st) {
  REALV(stat)
  if (!Active())
    return real(path, st);
  META("stat", path, real(path, st))
}
int lstat(const char* __restrict path, struct stat* __restrict st) {
  REALV(lstat)
  if (!Active())
    return real(path, st);
  META("stat", path, real(path, st))
}
int stat64(const char* __restrict path, struct stat64* __restrict st) {
  REALV(stat64)
  if (!Active())
    return real(path, st);
  META("stat", path, real(path, st))
}
int lstat64(const char* __restrict path, struct stat64* __restrict st) {
  REALV(lstat64)
  if (!Active())
    return real(path, st);
  META("stat", path, real(path, st))
}
int fstatat(int dfd, const char* __restrict path, struct stat* __restrict st, int flags) {
  REALV(fstatat)
  if (!Active())
    return real(dfd, path, st, flags);
  META("stat", AtPath(dfd, path), real(dfd, path, st, flags))
}
int fstatat64(int dfd, const char* __restrict path, struct stat64* __restrict st, int flags) {
  REALV(fstatat64)
  if (!Active())
    return real(dfd, path, st, flags);
  META("stat", AtPath(dfd, path), real(dfd, path, st, flags))
}
int truncate64(const char* path, off64_t n) {
  REALV(truncate64)
  if (!Active())
    return real(path, n);
  META("truncate", path, real(path, n))
}
int statx(int dfd, const char* __restrict path, int flags, unsigned mask, struct statx* __restrict st) {
  REALV(statx)
  if (!Active())
    return real(dfd, path, flags, mask, st);
  META("stat", AtPath(dfd, path), real(dfd, path, flags, mask, st))
}
int access(const char* path, int m) {
  REALV(access)
  if (!Active())
    return real(path, m);
  META("access", path, real(path, m))
}

// Directory order is made independent of the file system.
struct DirList {
  std::vector<dirent64> v;
  size_t pos = 0;
};
static std::map<DIR*, DirList>& Dirs() {
  static auto* m = new std::map<DIR*, DirList>;
  return *m;
}
static dirent64* NextEntry(DIR* d) {
  static decltype(&::readdir64) real = nullptr;
  if (!real)
    real = reinterpret_cast<decltype(&::readdir64)>(dlsym(RTLD_NEXT, "readdir64"));
  auto it = Dirs().find(d);
  if (it == Dirs().end()) {
    DirList l;
    while (dirent64* e = real(d)) {
      dirent64 c;
      memset(&c, 0, sizeof c);
      memcpy(&c, e, std::min<size_t>(e->d_reclen, sizeof c));
      l.v.push_back(c);
    }
    std::sort(l.v.begin(), l.v.end(),
              [](const dirent64& a, const dirent64& b) { return strcmp(a.d_name, b.d_name) < 0; });
    it = Dirs().emplace(d, std::move(l)).first;
  }
  if (it->second.pos >= it->second.v.size())
    return nullptr;
  return &it->second.v[it->second.pos++];
}
struct dirent64* readdir64(DIR* d) {
  static decltype(&::readdir64) real = nullptr;
  if (!real)
    real = reinterpret_cast<decltype(&::readdir64)>(dlsym(RTLD_NEXT, "readdir64"));
  if (!Active())
    return real(d);
  Rt rt;
  return NextEntry(d);
}
struct dirent* readdir(DIR* d) {
  static decltype(&::readdir) real = nullptr;
  if (!real)
    real = reinterpret_cast<decltype(&::readdir)>(dlsym(RTLD_NEXT, "readdir"));
  if (!Active())
    return real(d);
  Rt rt;
  return reinterpret_cast<struct dirent*>(NextEntry(d));
}
int closedir(DIR* d) {
  REALV(closedir)
  if (!Active())
    return real(d);
  Rt rt;
  Dirs().erase(d);
  Fds().erase(dirfd(d));
  return real(d);
}

}  // extern "C"
