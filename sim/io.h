// Simulated file-system faults over real files in the run's scratch directory.
#ifndef VERIF_SIM_IO_H_
#define VERIF_SIM_IO_H_
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace sim {
namespace io {
// Called (unsimulated) after every operation that may have changed a file.
extern std::function<void(const char* op, const std::string& path)> g_after;
extern double g_dead_prob;   // probability that a fault turns into "everything fails from now on"
extern bool g_dead;
extern bool g_trace;
int OpenFds();               // tracked descriptors currently open
uint64_t DirBytes(const std::string& dir, const std::string& except = "");
int FileCount(const std::string& dir);
std::vector<std::string> List(const std::string& dir);  // sorted
std::string Slurp(const std::string& path, bool* ok = nullptr);
bool Spit(const std::string& path, const std::string& content);
uint64_t Faults();           // I/O faults that fired
std::string LastFault();
extern std::set<std::string> g_broken;  // files an open or write of which failed for good
}  // namespace io
}  // namespace sim
#endif
