#ifndef VERIF_HARNESS_UTIL_H_
#define VERIF_HARNESS_UTIL_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/sim.h"

namespace h {

using sim::Config;
using sim::Program;
using sim::Rng;

// A program line is "<thread> <verb> <args...>".
struct Op {
  int thread;
  std::string verb;
  std::vector<int64_t> a;
  int index;
};
inline std::vector<Op> Parse(const Program& p) {
  std::vector<Op> out;
  int i = 0;
  for (auto& l : p.ops) {
    std::istringstream is(l);
    Op o;
    is >> o.thread >> o.verb;
    int64_t v;
    while (is >> v)
      o.a.push_back(v);
    while (o.a.size() < 6)
      o.a.push_back(0);
    o.index = i++;
    out.push_back(o);
  }
  return out;
}
inline std::string Line(int t, const char* verb, std::initializer_list<int64_t> a = {}) {
  std::string s = std::to_string(t) + " " + verb;
  for (auto v : a)
    s += " " + std::to_string(v);
  return s;
}
// Deterministic content.
inline std::string Bytes(uint64_t id, size_t n) {
  std::string s(n, 0);
  uint64_t x = sim::Mix(id, 77);
  for (size_t i = 0; i < n; ++i) {
    if ((i & 7) == 0)
      x = sim::Mix(x, i);
    s[i] = static_cast<char>(x >> ((i & 7) * 8));
  }
  return s;
}
inline std::string Str(const char* fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
// Whether fault injection is on in this run: about half of the runs are fault-free.
inline bool Faulty(const Program& p) { return p.P("faults") != 0; }

template <typename T>
T Pick(Rng& r, std::initializer_list<T> l) {
  return *(l.begin() + r.Below(l.size()));
}

}  // namespace h

#endif
