// Simulated answers of assorted system calls.
#ifndef VERIF_SIM_SYS_H_
#define VERIF_SIM_SYS_H_
#include <termios.h>

#include <map>
#include <string>
namespace sim {
namespace sys {
// readlink("/proc/self/exe"): the path, or an errno if not 0.
extern bool g_exe_simulated;
extern std::string g_exe_path;
extern int g_exe_errno;
extern int g_cwd_errno;  // getcwd fails with it
extern int g_readlinks;
// tcgetattr/tcsetattr on standard input: a terminal or not; calls fail by K_SYS.
extern bool g_tty_simulated, g_tty;
extern termios g_tty_state;
// Standard output through stdio: every call is a scheduling point; whether it is a terminal.
extern bool g_stdout_simulated, g_stdout_tty;
// mlock/munlock: locks of a page do not add up.  Locking fails by K_SYS.
extern bool g_mlock_simulated;
extern std::map<size_t, bool> g_locked_pages;  // page address: false if locking it failed last
extern void (*g_on_munlock)(size_t page);
// The account database and the environment: getpwuid, getpwuid_r, getenv("HOME").
struct Account {
  bool simulated = false, known = true;  // known: there is an entry for the user
  int error = 0;                         // the database fails with it, failures times
  int failures = 0;
  std::string dir;                       // the entry's home directory
  size_t size = 0;                       // bytes the entry takes in getpwuid_r's buffer
  bool has_env = false;
  std::string env;
};
extern Account g_account;
// kill: what it reports for a process (0, ESRCH, EPERM, ...).
extern int (*g_kill)(int pid, int signal);
}  // namespace sys
}  // namespace sim
#endif
