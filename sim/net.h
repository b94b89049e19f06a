// A simulated loopback network (TCP over IPv4 and IPv6, epoll, eventfd, timerfd), with faults.
#ifndef VERIF_SIM_NET_H_
#define VERIF_SIM_NET_H_
#include <stddef.h>
#include <stdint.h>
#include <sys/socket.h>

#include <string>
#include <utility>
#include <vector>

namespace sim {
namespace net {
extern bool g_no_ipv6;        // sockets of this family can't be created
extern bool g_no_ipv4;
extern size_t g_capacity;     // bytes which a connection buffers in each direction
extern bool g_fault_sockets;  // errors may be injected in the calls of all threads (false: none)
extern const char* g_host;    // the one name which can be resolved, to this host
extern bool g_host_v6;        // it has an IPv6 address, too
extern bool g_poll_interrupted;  // poll may be interrupted (K_SYS)
// Datagram sockets, if set: the local address for a peer (empty: unreachable).
extern std::string (*g_route)(const sockaddr*);
extern int g_resolved;        // results of getaddrinfo which weren't freed
int OpenFds();                // simulated descriptors
int Listening(int port);      // sockets which listen on this port
int Bound(int port);
int Established();            // connections of which an end is open
unsigned long Faults();       // errors injected and connections reset
unsigned long Resets();
unsigned long AcceptErrors();
unsigned long OtherErrors();  // errors other than those of accept
unsigned long Accepted();     // connections which accept returned
// Streams on which send or recv has failed: their port and their peer's.
const std::vector<std::pair<int, int>>& Failed();
std::string State();
void ResetAll();              // every connection is reset now
}  // namespace net
}  // namespace sim
#endif
