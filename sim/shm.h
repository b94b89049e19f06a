// Simulated POSIX shared memory: objects in this process's memory, with faults.
#ifndef VERIF_SIM_SHM_H_
#define VERIF_SIM_SHM_H_
#include <string>

namespace sim {
namespace shm {
constexpr unsigned long kBase = 0x300000000000ul;   // all mappings lie in [kBase, kEnd)
constexpr unsigned long kObject = 1ul << 20;
constexpr unsigned long kEnd = kBase + (1ul << 30);
extern bool g_on;
int OpenFds();
int Mappings();
int Objects();               // linked names
unsigned long Faults();
}  // namespace shm
}  // namespace sim
#endif
