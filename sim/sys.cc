#include <errno.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>

#include "internal.h"
#include "sys.h"

namespace sim {
namespace sys {
bool g_exe_simulated = false;
std::string g_exe_path;
int g_exe_errno = 0;
int g_cwd_errno = 0;
int g_readlinks = 0;
bool g_tty_simulated = false, g_tty = false;
termios g_tty_state;
bool g_stdout_simulated = false, g_stdout_tty = false;
bool g_mlock_simulated = false;
std::map<size_t, bool> g_locked_pages;
void (*g_on_munlock)(size_t) = nullptr;
Account g_account;
int (*g_kill)(int, int) = nullptr;
}  // namespace sys
}  // namespace sim

using namespace sim;  // NOLINT

static struct passwd g_pw;
static char g_pw_strings[5000];

extern "C" {
// The static entry which all callers share is overwritten by each.
struct passwd* getpwuid(uid_t uid) {
  SIM_REAL(getpwuid);
  sys::Account& a = sys::g_account;
  if (!Active() || !a.simulated)
    return real(uid);
  SchedPoint(920);
  Rt rt;
  if (a.failures && a.error) {
    --a.failures;
    NoteFired(K_SYS);
    errno = a.error;
    return nullptr;
  }
  if (!a.known)
    return nullptr;
  size_t n = std::min(a.dir.size(), sizeof g_pw_strings - 1);
  --self->in_rt;
  CheckAccess(&g_pw, sizeof g_pw, true, __builtin_return_address(0));
  CheckAccess(g_pw_strings, n + 1, true, __builtin_return_address(0));
  ++self->in_rt;
  memcpy(g_pw_strings, a.dir.data(), n);
  g_pw_strings[n] = 0;
  g_pw.pw_uid = uid;
  g_pw.pw_dir = g_pw.pw_name = g_pw.pw_shell = g_pw.pw_gecos = g_pw.pw_passwd = g_pw_strings;
  return &g_pw;
}
int getpwuid_r(uid_t uid, struct passwd* pw, char* b, size_t n, struct passwd** out) {
  SIM_REAL(getpwuid_r);
  sys::Account& a = sys::g_account;
  if (!Active() || !a.simulated)
    return real(uid, pw, b, n, out);
  SchedPoint(921);
  *out = nullptr;
  {
    Rt rt;
    if (a.failures && a.error) {
      --a.failures;
      NoteFired(K_SYS);
      return a.error;
    }
    if (!a.known)
      return 0;
    if (n < a.dir.size() + 1 || n < a.size)
      return ERANGE;
  }
  CheckAccess(pw, sizeof *pw, true, __builtin_return_address(0));
  CheckAccess(b, std::max(a.size, a.dir.size() + 1), true, __builtin_return_address(0));
  memcpy(b, a.dir.c_str(), a.dir.size() + 1);
  memset(pw, 0, sizeof *pw);
  pw->pw_uid = uid;
  pw->pw_dir = pw->pw_name = pw->pw_shell = pw->pw_gecos = pw->pw_passwd = b;
  *out = pw;
  return 0;
}
char* getenv(const char* name) {
  SIM_REAL(getenv);
  if (!Active() || !sys::g_account.simulated || strcmp(name, "HOME"))
    return real(name);
  return sys::g_account.has_env ? const_cast<char*>(sys::g_account.env.c_str()) : nullptr;
}
int kill(pid_t pid, int signal) {
  SIM_REAL(kill);
  if (!Active() || !sys::g_kill)
    return real(pid, signal);
  SchedPoint(922);
  int e;
  {
    Rt rt;
    e = sys::g_kill(pid, signal);
  }
  if (!e)
    return 0;
  errno = e;
  return -1;
}
ssize_t readlink(const char* path, char* buf, size_t n) {
  SIM_REAL(readlink);
  if (!Active() || !sys::g_exe_simulated || strcmp(path, "/proc/self/exe"))
    return real(path, buf, n);
  SchedPoint(900);
  Rt rt;
  ++sys::g_readlinks;
  if (sys::g_exe_errno) {
    NoteFired(K_SYS);
    errno = sys::g_exe_errno;
    return -1;
  }
  size_t k = std::min(n, sys::g_exe_path.size());  // not terminated, silently cut short
  CheckAccess(buf, k, true, __builtin_return_address(0));
  memcpy(buf, sys::g_exe_path.data(), k);
  return k;
}
char* getcwd(char* buf, size_t n) {
  SIM_REAL(getcwd);
  if (!Active() || !sys::g_cwd_errno)
    return real(buf, n);
  NoteFired(K_SYS);
  errno = sys::g_cwd_errno;
  return nullptr;
}
int tcgetattr(int fd, termios* t) {
  SIM_REAL(tcgetattr);
  if (!Active() || !sys::g_tty_simulated)
    return real(fd, t);
  SchedPoint(901);
  Rt rt;
  if (!sys::g_tty || Fault(K_SYS)) {
    errno = sys::g_tty ? EIO : ENOTTY;
    return -1;
  }
  CheckAccess(t, sizeof *t, true, __builtin_return_address(0));
  *t = sys::g_tty_state;
  return 0;
}
int tcsetattr(int fd, int when, const termios* t) {
  SIM_REAL(tcsetattr);
  if (!Active() || !sys::g_tty_simulated)
    return real(fd, when, t);
  SchedPoint(902);
  Rt rt;
  if (!sys::g_tty || Fault(K_SYS)) {
    errno = sys::g_tty ? EIO : ENOTTY;
    return -1;
  }
  CheckAccess(t, sizeof *t, false, __builtin_return_address(0));
  sys::g_tty_state = *t;
  return 0;
}

// ---- locked memory
int mlock(const void* p, size_t n) {
  SIM_REAL(mlock);
  if (!Active() || !sys::g_mlock_simulated)
    return real(p, n);
  SchedPoint(903);
  Rt rt;
  bool ok = !Fault(K_SYS);
  for (size_t a = reinterpret_cast<size_t>(p) & ~size_t{4095}; a < reinterpret_cast<size_t>(p) + n; a += 4096)
    sys::g_locked_pages[a] = ok;
  if (!ok)
    errno = ENOMEM;
  return ok ? 0 : -1;
}
int munlock(const void* p, size_t n) {
  SIM_REAL(munlock);
  if (!Active() || !sys::g_mlock_simulated)
    return real(p, n);
  SchedPoint(904);
  Rt rt;
  for (size_t a = reinterpret_cast<size_t>(p) & ~size_t{4095}; a < reinterpret_cast<size_t>(p) + n; a += 4096) {
    if (sys::g_on_munlock)
      sys::g_on_munlock(a);
    sys::g_locked_pages.erase(a);
  }
  return 0;
}

// ---- other sources of nondeterminism
clock_t clock() {
  SIM_REAL(clock);
  return Active() ? static_cast<clock_t>(Now() / 1000) : real();
}
// ---- standard output and calendar time (static buffers, as in the C library)
int isatty(int fd) {
  SIM_REAL(isatty);
  if (!Active() || !sys::g_stdout_simulated)
    return real(fd);
  return sys::g_stdout_tty;
}
int printf(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r;
  if (!Active() || !sys::g_stdout_simulated) {
    r = vfprintf(stdout, f, ap);
  } else {
    SchedPoint(903);
    {
      Rt rt;
      r = vfprintf(stdout, f, ap);
    }
    SchedPoint(904);
  }
  va_end(ap);
  return r;
}
int __printf_chk(int, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r;
  if (!Active() || !sys::g_stdout_simulated) {
    r = vfprintf(stdout, f, ap);
  } else {
    SchedPoint(903);
    {
      Rt rt;
      r = vfprintf(stdout, f, ap);
    }
    SchedPoint(904);
  }
  va_end(ap);
  return r;
}
int fputs(const char* s, FILE* f) {
  SIM_REAL(fputs);
  if (!Active() || !sys::g_stdout_simulated)
    return real(s, f);
  SchedPoint(903);
  int r;
  {
    Rt rt;
    r = real(s, f);
  }
  SchedPoint(904);
  return r;
}
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  SIM_REAL(fwrite);
  if (!Active() || !sys::g_stdout_simulated)
    return real(b, s, n, f);
  SchedPoint(903);
  size_t r;
  {
    Rt rt;
    r = real(b, s, n, f);
  }
  SchedPoint(904);
  return r;
}
int fflush(FILE* f) {
  SIM_REAL(fflush);
  if (!Active() || !sys::g_stdout_simulated)
    return real(f);
  SchedPoint(905);
  Rt rt;
  return real(f);
}
static struct tm g_tm;
static struct tm* Tm(const time_t* t, struct tm* (*conv)(const time_t*, struct tm*)) {
  struct tm x;
  {
    Rt rt;
    conv(t, &x);
  }
  CheckAccess(&g_tm, sizeof g_tm, true, __builtin_return_address(0));
  g_tm = x;
  SchedPoint(906);
  return &g_tm;
}
struct tm* gmtime(const time_t* t) {
  SIM_REAL(gmtime);
  return Active() ? Tm(t, &gmtime_r) : real(t);
}
struct tm* localtime(const time_t* t) {
  SIM_REAL(localtime);
  return Active() ? Tm(t, &localtime_r) : real(t);
}
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) {
  SIM_REAL(strftime);
  if (!Active())
    return real(b, n, f, t);
  CheckAccess(t, sizeof *t, false, __builtin_return_address(0));
  Rt rt;
  return real(b, n, f, t);
}
}
