// A simulated file system for SQLite: an in-memory VFS with faults and process crashes.
#ifndef VERIF_SIM_DB_H_
#define VERIF_SIM_DB_H_
#include <string>

namespace sim {
namespace db {
void Install();                    // registers the VFS as the default one
void SetProcess(int id);           // the calling thread belongs to this process
extern bool g_crash_ok;            // crashes may be injected now
int CrashedProcess(int tid);       // the process which crashed in simulated thread tid, or -1
int OpenFiles();
bool Locked();                     // is any lock held on any file?
unsigned long Faults();            // I/O errors and spurious busies which fired
unsigned long Crashes();
std::string Content(const std::string& path, bool* exists);
void Put(const std::string& path, const std::string& content);
void Outage(int kind);             // the calling process has no 1 memory, 2 disk space; 0: it ends
std::string State();
}  // namespace db
}  // namespace sim
#endif
