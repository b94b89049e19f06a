// C05 - C09: the data buffer.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <memory>

#include "boost/filesystem.hpp"

#include "maidsafe/common/data_buffer.h"
#include "maidsafe/common/utils.h"

#include "../sim/io.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;
using maidsafe::DataBuffer;
using maidsafe::NonEmptyString;
using KeyType = DataBuffer::KeyType;

enum { VALUES = 1, LIMITS = 2, CONSERVE = 4, PROGRESS = 8, FAULTS = 16 };

// Keys 2i and 2i+1 share a name and differ in one bit of the type.  Names differ in one byte each.
KeyType MakeKey(int k) {
  static const int kPos[] = {0, 63, 31, 32, 16, 47, 7, 55};
  static const int kBit[] = {0, 31, 16, 8, 24, 4, 20, 12};
  std::string n = Bytes(1000000, 64);
  int i = k / 2;
  n[kPos[i % 8]] = static_cast<char>(n[kPos[i % 8]] ^ (1 + i / 8));
  uint32_t type = 2u ^ (k % 2 ? 1u << kBit[i % 8] : 0u);
  return KeyType(maidsafe::Identity(n), maidsafe::DataTypeId(type));
}

struct Inst {
  int key = -1, size = 0;
  uint64_t call = 0, ret = 0;
  bool large = false;  // certainly above the memory limit during the whole store
  bool small = false;  // certainly not above it
  bool on_disk = false;  // was seen complete on disk
  bool returned = false, failed = false, popped = false;
  bool gone = false;  // deleted or replaced (the call that did it has begun)
};

struct KeyState {
  std::set<int> possible{-1};  // instances a get may return; -1: not found
  int inflight = 0;            // operations of the owner in progress
  int storing = -1;
  bool busy = false;           // one writer at a time
  sim::WaitQ free;
  std::vector<std::set<int>*> watchers;
  void Note() {
    for (auto* w : watchers) {
      w->insert(possible.begin(), possible.end());
      if (inflight) {
        w->insert(-1);
        if (storing >= 0)
          w->insert(storing);
      }
    }
  }
};

struct Limit {
  uint64_t value, pending;  // pending == value unless a change is in progress
  std::vector<std::pair<uint64_t, uint64_t>> history;  // (time, value) since which it may be in force
  void Init(uint64_t v) {
    value = pending = v;
    history.assign(1, {0, v});
  }
  uint64_t MaxSince(uint64_t t) const {
    uint64_t m = std::max(value, pending);
    for (size_t i = 0; i < history.size(); ++i)
      if (i + 1 == history.size() || history[i + 1].first >= t)
        m = std::max(m, history[i].second);
    return m;
  }
  uint64_t MinSince(uint64_t t) const {
    uint64_t m = std::min(value, pending);
    for (size_t i = 0; i < history.size(); ++i)
      if (i + 1 == history.size() || history[i + 1].first >= t)
        m = std::min(m, history[i].second);
    return m;
  }
};

struct World {
  unsigned on = 0;  // which oracles count for the property being checked
  std::map<int, Inst> inst;
  std::map<int, KeyState> keys;
  std::map<std::string, int> key_of_file;
  Limit mem, disk;
  bool pop = false;
  bool may_die = false;       // a refused value or a fault may have stopped the buffer
  bool dead = false;
  bool alloc = false;         // allocations inside the buffer's functions and its worker may fail
  bool strict_reads = false;  // only reads fail: everything else must be unaffected
  std::string dir;
  int done = 0;
  std::vector<int> pop_order;
  std::map<int, std::pair<int, uint64_t>> storing;  // thread -> (inst, where its own copy lives)
  bool checking_disk = false;
  int threads = 0;

  void Bad(unsigned mask, const char* cls, const std::string& msg) {
    if (on & mask)
      sim::Fail(cls, msg);
  }
  static uint64_t Faults() { return io::Faults() + sim::FaultsFiredKind(sim::K_ALLOC); }
  bool Excused() const { return may_die || (Faults() > 0 && !strict_reads); }
  std::string File(int key) { return maidsafe::detail::GetFileName(MakeKey(key)).string(); }
};
World* W;

std::string IdList(const std::set<int>& s) {
  std::string o;
  for (int i : s)
    o += (o.empty() ? "" : ", ") + (i < 0 ? std::string("none") : std::to_string(i));
  return "{" + o + "}";
}
std::string Value(int id) { return Bytes(id * 31 + 7, W->inst[id].size); }
// Which stored instance has this content? -2: none ever stored under the key.
int Identify(int key, const std::string& v) {
  for (auto& e : W->inst)
    if (e.second.key == key && e.second.size == static_cast<int>(v.size()) && Value(e.first) == v)
      return e.first;
  return -2;
}

// ---- size of what is only in memory (a lower bound seen from outside)
void CheckMemory(uint64_t since, const char* when, bool at_rest = false) {
  if (W->Excused())
    return;
  uint64_t sum = 0, last = 0;
  std::string list;
  for (auto& k : W->keys) {
    if (k.second.inflight || k.second.possible.size() != 1)
      continue;
    int id = *k.second.possible.begin();
    if (id < 0 || W->inst[id].on_disk)
      continue;
    struct stat st;
    std::string f = W->dir + "/" + W->File(k.first);
    if (stat(f.c_str(), &st) == 0 && st.st_size == W->inst[id].size)
      continue;
    if (W->inst[id].large && (at_rest || !W->pop))
      W->Bad(VALUES | CONSERVE, "value-nowhere", Str("value %d was too large for memory but is not on disk", id));
    sum += W->inst[id].size;
    last = std::max(last, W->inst[id].call);
    list += Str(" %d(%d)", id, W->inst[id].size);
  }
  // Lowering the limit doesn't drop anything: what counts is the limit when the last was stored.
  uint64_t lim = W->mem.MaxSince(std::min(since, last));
  if (sum > lim)
    W->Bad(LIMITS, "memory-limit", Str("%s: %llu bytes are held only in memory (%s ), the limit is %llu", when,
                                       (unsigned long long)sum, list.c_str(), (unsigned long long)lim));
}
// All copies of values on the heap, when nothing is being stored except by blocked callers.
void CheckHeap(bool limits_changed) {
  if (W->Excused() || limits_changed)
    return;
  uint64_t sum = 0, biggest = 0;
  std::vector<std::string> vals;
  std::vector<int> ids;
  for (auto& e : W->inst) {
    ids.push_back(e.first);
    vals.push_back(Value(e.first));
    biggest = std::max<uint64_t>(biggest, e.second.size);
  }
  sim::ForEachLive([&](void* p, size_t n, uint64_t) {
    for (size_t i = 0; i < vals.size(); ++i)
      if (n >= vals[i].size() && n <= vals[i].size() + 16 && vals[i].size() >= 8 &&
          !memcmp(p, vals[i].data(), vals[i].size())) {
        bool own = false;
        for (auto& s : W->storing)
          own |= reinterpret_cast<uint64_t>(p) == s.second.second;
        if (!own)
sum += vals[i].size();
        break;
      }
  });
  // The worker keeps a copy of the value it is moving.
  if (sum > W->mem.value + biggest)
    W->Bad(LIMITS, "memory-limit", Str("%llu bytes of values are in memory, the limit is %llu (plus one value being moved)",
                                       (unsigned long long)sum, (unsigned long long)W->mem.value));
}

void OnIo(const char* op, const std::string& path) {
  if (!W || !W->checking_disk || (strcmp(op, "write") && strcmp(op, "close") && strcmp(op, "open")))
    return;
  if (strcmp(op, "write"))
    return;
  auto it = W->key_of_file.find(path.substr(path.rfind('/') + 1));
  if (it != W->key_of_file.end()) {
    int id = Identify(it->second, io::Slurp(path));
    if (id >= 0)
      W->inst[id].on_disk = true;
  }
  uint64_t sum = io::DirBytes(W->dir, "TestFile");
  uint64_t lim = std::max(W->disk.value, W->disk.pending);
  if (sum > lim)
    W->Bad(LIMITS, "disk-limit", Str("%llu bytes in the directory after writing %s, the limit is %llu",
                                     (unsigned long long)sum, path.substr(path.size() > 12 ? path.size() - 12 : 0).c_str(),
                                     (unsigned long long)lim));
}

void OnPop(const KeyType& key, const NonEmptyString& value) {
  {
    sim::NoSim ns;
    if (!value.IsInitialised())
      W->Bad(CONSERVE | VALUES | FAULTS, "evict-wrong-value", "an entry was evicted without its value");
    std::string v(value.string().begin(), value.string().end());
    auto it = W->key_of_file.find(maidsafe::detail::GetFileName(key).string());
    if (it == W->key_of_file.end())
      W->Bad(CONSERVE, "evict-unknown-key", "an unknown key was evicted");
    int k = it->second;
    KeyState& ks = W->keys[k];
    int id = Identify(k, v);
    sim::Log("evicted key %d value %d", k, id);
    if (id == -2)
      W->Bad(CONSERVE | VALUES | FAULTS, "evict-wrong-value", Str("key %d was evicted with a value never stored under it (%zu bytes)", k, v.size()));
    Inst& in = W->inst[id];
    if (in.popped && !W->Excused())
      W->Bad(CONSERVE, "evict-twice", Str("value %d of key %d was evicted twice", id, k));
    bool current = ks.possible.count(id) || ks.storing == id;
    if (!current)
      W->Bad(CONSERVE | FAULTS, "evict-stale", Str("value %d of key %d was evicted although deleted or replaced; current %s", id, k,
                                          IdList(ks.possible).c_str()));
    // Oldest first: nothing stored earlier (in the order of reaching the disk) is left.
    if (!W->Excused())
      for (auto& e : W->inst) {
        const Inst& o = e.second;
        if (e.first == id || !o.returned || o.failed || o.popped || o.gone || o.ret >= in.call)
          continue;
        if (o.large || in.small)
          W->Bad(CONSERVE, "evict-order", Str("value %d was evicted before value %d, which was stored earlier", id, e.first));
      }
    // Not while there is room: the largest value that may be being stored would not have fitted.
    if (!W->Excused()) {
      uint64_t left = io::DirBytes(W->dir, "TestFile"), need = 0;
      for (auto& e : W->inst) {
        if (e.second.failed || e.second.popped || !e.second.call)
          continue;
        struct stat st;
        std::string f = W->dir + "/" + W->File(e.second.key);
        if (e.first != id && !(stat(f.c_str(), &st) == 0 && st.st_size == e.second.size && Identify(e.second.key, io::Slurp(f)) == e.first))
          need = std::max<uint64_t>(need, e.second.size);
      }
      uint64_t lim = std::min(W->disk.value, W->disk.pending);
      if (left + in.size + need <= lim)
        W->Bad(CONSERVE, "evict-needless", Str("value %d (%d bytes) was evicted although %llu of %llu bytes were used and at most %llu needed", id,
                                               in.size, (unsigned long long)(left + in.size), (unsigned long long)lim, (unsigned long long)need));
    }
    in.popped = true;
    W->pop_order.push_back(id);
    ks.possible.insert(-1);
    ks.Note();
    sim::Probe("evicted");
  }
  sim::SyncPoint("in pop functor");
}

// Serialises the operations on one key without ordering them for the race detector.
struct Owning {
  std::vector<int> ks;
  explicit Owning(std::vector<int> keys) {
    sim::NoSim ns;
    ks = keys;
    for (int k : ks)
      while (W->keys[k].busy)
        sim::WaitOn(W->keys[k].free, "key");
    for (int k : ks)
      W->keys[k].busy = true;
  }
  ~Owning() {
    sim::NoSim ns;
    for (int k : ks) {
      W->keys[k].busy = false;
      sim::WakeAll(W->keys[k].free);
    }
  }
};

struct Outcome {
  bool ok = false, not_found = false, threw = false;
  std::string what;
};
struct Starving {
  Starving() {
    if (W->alloc)
      sim::AllocFaults(true);
  }
  ~Starving() {
    if (W->alloc)
      sim::AllocFaults(false);
  }
};
template <typename F>
Outcome Try(F f) {
  Outcome o;
  try {
    Starving starving;
    f();
    o.ok = true;
  } catch (const maidsafe::maidsafe_error& e) {
    sim::NoSim ns;
    o.threw = true;
    o.not_found = e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element);
    o.what = e.what();
  } catch (const std::exception& e) {
    sim::NoSim ns;
    o.threw = true;
    o.what = e.what();
  }
  return o;
}

void DoStore(DataBuffer& b, int me, int key, int id) {
  Owning own({key});
  int size;
  {
    sim::NoSim ns;
    size = W->inst[id].size;
  }
  NonEmptyString value;
  {
    std::vector<unsigned char> v(size);
    {
      sim::NoSim ns;
      std::string s = Value(id);
      memcpy(v.data(), s.data(), s.size());
    }
    value = NonEmptyString(std::move(v));
  }
  KeyType kt = MakeKey(key);
  uint64_t call;
  {
    sim::NoSim ns;
    KeyState& ks = W->keys[key];
    Inst& in = W->inst[id];
    call = in.call = sim::Seq();
    ++ks.inflight;
    ks.storing = id;
    for (int p : ks.possible)
      if (p >= 0)
        W->inst[p].gone = true;
    if (static_cast<uint64_t>(size) > std::min(W->disk.value, W->disk.pending))
      W->may_die = true;
    in.large = static_cast<uint64_t>(size) > W->mem.MaxSince(call);
    in.small = static_cast<uint64_t>(size) <= W->mem.MinSince(call);
    W->storing[me] = {id, reinterpret_cast<uint64_t>(value.string().data())};
    ks.Note();
    sim::Log("store key %d value %d (%d bytes) called", key, id, size);
  }
  Outcome o = Try([&] { b.Store(kt, value); });
  sim::NoSim ns;
  KeyState& ks = W->keys[key];
  Inst& in = W->inst[id];
  in.ret = sim::Seq();
  in.returned = true;
  in.large = static_cast<uint64_t>(size) > W->mem.MaxSince(call);
  in.small = static_cast<uint64_t>(size) <= W->mem.MinSince(call);
  sim::Log("store key %d value %d -> %s", key, id, o.ok ? "ok" : o.what.c_str());
  if (o.ok) {
    ks.possible = {id};
    if (in.popped)
      ks.possible.insert(-1);
    if (W->dead || W->Excused())
      ks.possible.insert(-1);
    if (static_cast<uint64_t>(size) > W->disk.MaxSince(call))
      W->Bad(LIMITS, "too-large-accepted", Str("value %d of %d bytes was accepted, the disk limit is %llu", id, size,
                                               (unsigned long long)W->disk.MaxSince(call)));
  } else {
    in.failed = true;
    ks.possible.insert(id);
    ks.possible.insert(-1);
    if (!W->Excused())
      W->Bad(VALUES | LIMITS | CONSERVE | PROGRESS, "store-refused", Str("storing value %d (%d bytes) failed although nothing was wrong: %s", id, size, o.what.c_str()));
    W->dead = true;
  }
  --ks.inflight;
  ks.storing = -1;
  W->storing.erase(me);
  ks.Note();
  if (o.ok && !in.large)
    CheckMemory(call, "store returned");
}

void DoGet(DataBuffer& b, int key, bool owner) {
  std::unique_ptr<Owning> own(owner ? new Owning({key}) : nullptr);
  std::set<int>* seen = nullptr;
  uint64_t f0;
  {
    sim::NoSim ns;
    KeyState& ks = W->keys[key];
    if (!owner) {
      seen = new std::set<int>(ks.possible);
      if (ks.inflight) {
        seen->insert(-1);
        if (ks.storing >= 0)
          seen->insert(ks.storing);
      }
      ks.watchers.push_back(seen);
    }
    f0 = W->Faults();
    sim::Log("get key %d called", key);
  }
  KeyType kt = MakeKey(key);
  std::string got;
  Outcome o = Try([&] {
    NonEmptyString v = b.Get(kt);
    sim::NoSim ns;
    got.assign(v.string().begin(), v.string().end());
  });
  sim::NoSim ns;
  KeyState& ks = W->keys[key];
  std::set<int> allowed = ks.possible;
  if (!owner) {
    ks.Note();
    allowed = *seen;
    ks.watchers.erase(std::find(ks.watchers.begin(), ks.watchers.end(), seen));
  }
  if (o.ok) {
    int id = Identify(key, got);
    sim::Log("get key %d -> value %d", key, id);
    if (id == -2)
      W->Bad(VALUES | FAULTS, "get-wrong", Str("get of key %d returned %zu bytes never stored under it; expected one of %s", key, got.size(),
                                               IdList(allowed).c_str()));
    if (!allowed.count(id))
      W->Bad(VALUES | FAULTS, "get-stale", Str("get of key %d returned value %d, expected one of %s", key, id, IdList(allowed).c_str()));
    return;
  }
  sim::Log("get key %d -> %s", key, o.what.c_str());
  if (o.not_found && allowed.count(-1))
    return;
  if (W->Excused())
    return;
  if (W->strict_reads && W->Faults() != f0 && !o.not_found)
    return;
  W->Bad(VALUES | FAULTS | CONSERVE, o.not_found ? "get-lost" : "get-error",
         Str("get of key %d reported '%s', expected one of %s", key, o.what.c_str(), IdList(allowed).c_str()));
}

void DeleteBegins(KeyState& ks) {
  ++ks.inflight;
  for (int p : ks.possible)
    if (p >= 0)
      W->inst[p].gone = true;
  ks.Note();
}
void DeleteEnds(int key, const Outcome& o) {
  KeyState& ks = W->keys[key];
  --ks.inflight;
  bool absent_ok = ks.possible.count(-1) != 0;
  sim::Log("delete key %d -> %s", key, o.ok ? "ok" : o.what.c_str());
  if (o.ok || o.not_found) {
    if (o.not_found && !absent_ok && !W->Excused())
      W->Bad(VALUES | CONSERVE, "delete-lost", Str("delete of key %d reported '%s', expected value %s", key, o.what.c_str(), IdList(ks.possible).c_str()));
    if (o.ok || !W->Excused())
      ks.possible = {-1};
    else
      ks.possible.insert(-1);
  } else {
    if (!W->Excused())
      W->Bad(VALUES | CONSERVE | PROGRESS, "delete-error", Str("delete of key %d failed: %s", key, o.what.c_str()));
    ks.possible.insert(-1);
  }
  ks.Note();
}
void DoDelete(DataBuffer& b, int key) {
  Owning own({key});
  {
    sim::NoSim ns;
    DeleteBegins(W->keys[key]);
    sim::Log("delete key %d called", key);
  }
  KeyType kt = MakeKey(key);
  Outcome o = Try([&] { b.Delete(kt); });
  sim::NoSim ns;
  DeleteEnds(key, o);
}
void DoDeleteIf(DataBuffer& b, const std::vector<int>& ks) {
  Owning own(ks);
  std::vector<KeyType> kts;
  for (int k : ks)
    kts.push_back(MakeKey(k));
  {
    sim::NoSim ns;
    for (int k : ks)
      DeleteBegins(W->keys[k]);
    sim::Log("delete by predicate (%zu keys) called", ks.size());
  }
  Outcome o = Try([&] {
    b.Delete([&](const KeyType& k) { return std::find(kts.begin(), kts.end(), k) != kts.end(); });
  });
  sim::NoSim ns;
  for (int k : ks)
    DeleteEnds(k, o);
}
void DoLimit(DataBuffer& b, bool mem, uint64_t v) {
  Limit* l;
  Limit* other;
  {
    sim::NoSim ns;
    l = mem ? &W->mem : &W->disk;
    other = mem ? &W->disk : &W->mem;
    l->pending = v;
    l->history.push_back({sim::Seq(), v});
    if (!mem)
      for (auto& e : W->inst)
        if (static_cast<uint64_t>(e.second.size) > v && e.second.call && !e.second.popped)
          W->may_die = true;
    sim::Log("set %s limit %llu called", mem ? "memory" : "disk", (unsigned long long)v);
  }
  Outcome o = Try([&] {
    if (mem)
      b.SetMaxMemoryUsage(maidsafe::MemoryUsage(v));
    else
      b.SetMaxDiskUsage(maidsafe::DiskUsage(v));
  });
  sim::NoSim ns;
  sim::Log("set %s limit %llu -> %s", mem ? "memory" : "disk", (unsigned long long)v, o.ok ? "ok" : o.what.c_str());
  // Only one thread changes limits.
  bool valid = mem ? v <= other->value : v >= other->value;
  if (o.ok != valid)
    W->Bad(LIMITS, "limit-check", Str("setting the %s limit to %llu was %s (the other limit is %llu)", mem ? "memory" : "disk",
                                      (unsigned long long)v, o.ok ? "accepted" : "refused", (unsigned long long)other->value));
  l->history.push_back({sim::Seq(), l->value});  // may have been in force until now
  if (o.ok)
    l->value = v;
  l->pending = l->value;
  l->history.push_back({sim::Seq(), l->value});
}

// ---------------------------------------------------------------------------- generation
void Gen(Rng& r, Program& p, Config& c, unsigned on) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["on"] = on;
  p.params["threads"] = threads;
  int64_t mem = r.Chance(0.1) ? r.Range(0, 3) : r.Range(20, 300);
  int64_t disk = r.Chance(0.1) ? mem : r.Chance(0.5) ? mem + r.Range(1, 200) : mem + r.Range(100, 1200);
  if (disk < 4)
    disk = 4 + mem;
  const int64_t scale = r.Chance(0.03) ? r.Range(50, 1500) : 1;
  if (scale > 1) {
    mem = mem * scale + r.Range(0, scale);
    disk = disk * scale + r.Range(scale, 2 * scale);
  }
  p.params["mem"] = mem;
  p.params["disk"] = disk;
  p.params["pop"] = r.Chance((on & CONSERVE) ? 0.8 : 0.5);
  p.params["ctor"] = r.Chance(0.8) ? 0 : 1 + r.Below(2);  // 0 given, 1 given and removed, 2 temporary
  p.params["early"] = r.Chance(0.2);
  bool limits = (on & (LIMITS | PROGRESS)) ? r.Chance(0.5) : r.Chance(0.15);
  if (!p.params["pop"] && (on & (LIMITS | PROGRESS)) && r.Chance(0.4)) {
    p.params["raise"] = 1 + r.Below(2);
    p.params["raise_extra"] = r.Chance(0.6) ? 0 : r.Range(1, 100);
  }
  double plarge = r.Chance(0.5) ? 0.2 : 0.05;
  bool faulty = (on & FAULTS) ? r.Chance(0.9) : false;
  p.params["faults"] = faulty;
  if (faulty) {
    double q = Pick(r, {0.01, 0.03, 0.1});
    int prof = static_cast<int>(r.Below(7));
    p.params["strict_reads"] = 0;
    if (prof >= 5) {
      p.params["alloc"] = 1;
      c.prob[sim::K_ALLOC] = Pick(r, {0.002, 0.01, 0.03});
    }
    if (prof == 5) {
    } else if (prof == 0) {
      p.params["strict_reads"] = 1;  // reads only; eviction (which reads) is off
      p.params["pop"] = 0;
      c.prob[sim::K_IO_READ] = 0.3;
      limits = false;
    } else {
      c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
      c.prob[sim::K_IO_READ] = r.Chance(0.5) ? q : 0;
      c.prob[sim::K_IO_WRITE] = r.Chance(0.5) ? q : 0;
      c.prob[sim::K_IO_CLOSE] = r.Chance(0.5) ? q : 0;
      c.prob[sim::K_IO_META] = r.Chance(0.5) ? q : 0;
      p.params["dead"] = r.Chance(0.3);
    }
  }
  c.prob[sim::K_IO_SLOW] = r.Chance(0.5) ? Pick(r, {0.05, 0.3}) : 0;
  int keys = static_cast<int>(r.Range(1, 3)) * threads;
  p.params["keys"] = keys;
  int n = static_cast<int>(r.Range(3, 22));
  bool oversize = (on & LIMITS) && r.Chance(0.1);
  int64_t cur_mem = mem, cur_disk = disk, min_disk = disk;
  std::vector<std::string> lim;
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    int per = keys / threads;
    int64_t key = (t - 1) + threads * static_cast<int64_t>(r.Below(per));
    double u = r.Unit();
    if (u < 0.5) {
      int64_t size;
      if (r.Chance(plarge))
        size = r.Range(std::min(cur_mem + 1, min_disk), min_disk);
      else
        size = r.Range(1, std::max<int64_t>(1, std::min<int64_t>(std::min(cur_mem, min_disk), (r.Chance(0.5) ? 100 : 1000) * scale)));
      if (r.Chance(0.1))
        size = cur_mem ? std::min(cur_mem, min_disk) : 1;
      if (oversize && r.Chance(0.15))
        size = cur_disk + r.Range(1, 50) * (r.Chance(0.5) ? scale : 1);
      p.ops.push_back(Line(t, "store", {key, i, std::max<int64_t>(1, size)}));
    } else if (u < 0.66) {
      p.ops.push_back(Line(t, "get", {key}));
    } else if (u < 0.72) {
      p.ops.push_back(Line(t, "fget", {static_cast<int64_t>(r.Below(keys))}));
    } else if (u < 0.86) {
      p.ops.push_back(Line(t, "del", {key}));
    } else if (u < 0.91) {
      p.ops.push_back(Line(t, "delif", {static_cast<int64_t>(r.Below(8))}));
    } else if (u < 0.95) {
      p.ops.push_back(Line(t, "nap", {static_cast<int64_t>(r.Range(1, 100000))}));
    } else if (limits) {
      bool m = r.Chance(0.5);
      int64_t v = r.Chance(0.6) ? r.Range(1, 2 * disk) : r.Chance(0.5) ? cur_mem : cur_disk;
      // mostly keep to what the values stored so far need
      p.ops.push_back(Line(threads + 1, m ? "setmem" : "setdisk", {v}));
      if (m && v <= cur_disk)
        cur_mem = v;
      if (!m && v >= cur_mem) {
        cur_disk = v;
        min_disk = std::min(min_disk, v);
      }
    }
  }
  if (limits)
    for (int i = 0; i < 3; ++i)
      p.ops.push_back(Line(threads + 1, "nap", {static_cast<int64_t>(r.Range(1, 100000))}));
  c.max_steps = 150000;
}

// ---------------------------------------------------------------------------- execution
void Run(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  int keys = static_cast<int>(p.P("keys"));
  bool limits_changed = false;
  {
    sim::NoSim ns;
    W = new World;
    W->on = static_cast<unsigned>(p.P("on"));
    W->mem.Init(p.P("mem"));
    W->disk.Init(p.P("disk"));
    W->pop = p.P("pop");
    W->strict_reads = p.P("strict_reads");
    W->alloc = p.P("alloc");
    W->threads = threads;
    ops = Parse(p);
    for (int k = 0; k < keys; ++k) {
      W->keys[k];
      W->key_of_file[W->File(k)] = k;
    }
    for (auto& o : ops) {
      if (o.verb == "store") {
        Inst in;
        in.key = static_cast<int>(o.a[0]);
        in.size = static_cast<int>(o.a[2]);
        W->inst[static_cast<int>(o.a[1])] = in;
      }
      limits_changed |= o.verb == "setmem" || o.verb == "setdisk";
    }
    io::g_dead_prob = p.P("dead") ? 0.5 : 0;
    io::g_after = OnIo;
    setenv("TMPDIR", ".", 1);
  }
  DataBuffer::PopFunctor pop;
  if (W->pop)
    pop = OnPop;
  std::unique_ptr<DataBuffer> buf;
  maidsafe::MemoryUsage mu(W->mem.value);
  maidsafe::DiskUsage du(W->disk.value);
  int ctor = static_cast<int>(p.P("ctor"));
  int before = sim::LiveThreads();
  // Boost's create_directories terminates the process if an allocation fails.
  bool alloc = W->alloc;
  W->alloc = false;
  sim::AllocFaultsInNewThreads(alloc);
  Outcome made = Try([&] {
    if (ctor == 2)
      buf.reset(new DataBuffer(mu, du, pop));
    else
      buf.reset(new DataBuffer(mu, du, pop, "db", ctor == 1));
  });
  sim::AllocFaultsInNewThreads(false);
  W->alloc = alloc;
  if (!made.ok) {
    sim::NoSim ns;
    if (!W->Faults())
      W->Bad(~0u, "constructor-failed", made.what);
    if (sim::LiveThreads() != before)
      W->Bad(PROGRESS | FAULTS, "worker-left", "the constructor failed but left its worker running");
    sim::Probe("constructor reported a disk error");
    return;
  }
  {
    sim::NoSim ns;
    W->dir = "db";
    if (ctor == 2) {
      // the only directory there is
      for (auto it = boost::filesystem::directory_iterator("."); it != boost::filesystem::directory_iterator(); ++it)
        W->dir = it->path().string();
    }
    W->checking_disk = true;
  }
  DataBuffer& b = *buf;
  std::vector<std::thread> ts;
  int total = threads + 1;
  for (int t = 1; t <= total; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        int key = static_cast<int>(o.a[0]);
        if (o.verb == "store") {
          DoStore(b, t, key, static_cast<int>(o.a[1]));
        } else if (o.verb == "get") {
          DoGet(b, key, true);
        } else if (o.verb == "fget") {
          DoGet(b, key, key % threads + 1 == t);
        } else if (o.verb == "del") {
          DoDelete(b, key);
        } else if (o.verb == "delif") {
          std::vector<int> ks;
          for (int k = t - 1, i = 0; k < keys; k += threads, ++i)
            if (o.a[0] >> (i % 3) & 1)
              ks.push_back(k);
          DoDeleteIf(b, ks);
        } else if (o.verb == "setmem" || o.verb == "setdisk") {
          DoLimit(b, o.verb == "setmem", o.a[0]);
        } else if (o.verb == "nap") {
          sim::SleepNs(o.a[0] * 1000);
        }
      }
      sim::NoSim ns;
      ++W->done;
    });
  // ---- let everything come to rest; free space where callers wait for it
  std::set<std::pair<int, int>> tried;  // key and its latest value
  for (int round = 0;; ++round) {
    if (!sim::Settle())
      W->Bad(PROGRESS, "no-progress", "callers and worker do not come to rest");
    int victim = -1;
    uint64_t raise_to = 0;
    const int64_t raise = p.P("raise");
    {
      sim::NoSim ns;
      CheckHeap(limits_changed);
      if (W->done == total)
        break;
      sim::SetFaultsEnabled(false);
      std::string who;
      for (auto& s : W->storing)
        who += Str(" value %d (%d bytes)", s.second.first, W->inst[s.second.first].size);
      if (W->pop && !W->Excused())
        W->Bad(PROGRESS, "blocked", "a caller is blocked although space can be made by eviction:" + who);
      if (W->storing.empty())
        W->Bad(PROGRESS | FAULTS, "blocked", "a caller other than a store is blocked");
      if (!W->Excused() && !W->pop) {
        // Is there really no room on disk?
        uint64_t used = io::DirBytes(W->dir, "TestFile"), biggest = 0, needed = 0;
        bool small_blocked = false, unclear = false;
        for (auto& s : W->storing) {
          Inst& in = W->inst[s.second.first];
          in.large = static_cast<uint64_t>(in.size) > W->mem.MaxSince(in.call);
          in.small = static_cast<uint64_t>(in.size) <= W->mem.MinSince(in.call);
          needed = std::max<uint64_t>(needed, in.size);
          if (in.large && used + in.size <= W->disk.value)
            W->Bad(PROGRESS | LIMITS, "blocked", Str("storing value %d of %d bytes is blocked, %llu of %llu bytes of disk are used", s.second.first,
                                            in.size, (unsigned long long)used, (unsigned long long)W->disk.value));
          small_blocked |= !in.large;
        }
        uint64_t in_memory = 0;
        for (auto& k : W->keys) {
          unclear |= !k.second.inflight && k.second.possible.size() != 1;
          if (k.second.inflight || k.second.possible.size() != 1)
            continue;
          int id = *k.second.possible.begin();
          struct stat st;
          if (id < 0 || (stat((W->dir + "/" + W->File(k.first)).c_str(), &st) == 0 && st.st_size == W->inst[id].size))
            continue;
          biggest = std::max<uint64_t>(biggest, W->inst[id].size);
          in_memory += W->inst[id].size;
        }
        if (limits_changed) {
          // Whichever of the values the blocked store or the worker waits to write, it would fit.
          if (!unclear && used + std::max(biggest, needed) <= W->disk.value)
            W->Bad(PROGRESS | LIMITS, "blocked", Str("a store is blocked, %llu of %llu bytes of disk are used and nothing to be written is larger than %llu",
                                          (unsigned long long)used, (unsigned long long)W->disk.value, (unsigned long long)std::max(biggest, needed)));
          for (auto& s : W->storing) {
            Inst& in = W->inst[s.second.first];
            if (!unclear && in.small && in_memory + in.size <= W->mem.value)
              W->Bad(PROGRESS | LIMITS, "blocked", Str("storing value %d of %d bytes is blocked, %llu of %llu bytes of memory are used", s.second.first,
                                            in.size, (unsigned long long)in_memory, (unsigned long long)W->mem.value));
          }
        } else if (small_blocked && used + biggest <= W->disk.value)
          W->Bad(PROGRESS | LIMITS, "blocked", Str("a store is blocked, %llu of %llu bytes of disk are used and nothing in memory is larger than %llu",
                                          (unsigned long long)used, (unsigned long long)W->disk.value, (unsigned long long)biggest));
        for (auto& s : W->storing) {
          Inst& in = W->inst[s.second.first];
          if (!limits_changed && !in.large && in_memory + in.size <= W->mem.value && in_memory == 0)
            W->Bad(PROGRESS | LIMITS, "blocked", "a store is blocked although memory is empty");
        }
        sim::Probe("store blocked for space");
        // Room may also be made by raising a limit.
        if (round == 0 && raise) {
          raise_to = raise == 1 ? used + std::max(biggest, needed) : in_memory + needed;
          raise_to += p.P("raise_extra");

          if (raise == 2)
            raise_to = std::min(raise_to, W->disk.value);
          if (raise_to <= (raise == 1 ? W->disk : W->mem).value)
            raise_to = 0;
        }
      }
      for (auto& k : W->keys)
        if (!raise_to && !k.second.inflight && (k.second.possible.size() > 1 || *k.second.possible.begin() >= 0) &&
            !(W->Excused() && tried.count({k.first, *k.second.possible.rbegin()}))) {
          victim = k.first;
          tried.insert({victim, *k.second.possible.rbegin()});
          break;
        }
      if (!raise_to && (victim < 0 || round > 200))
        W->Bad(PROGRESS | FAULTS, "blocked", "callers stay blocked although everything else was deleted:" + who + "; " + sim::BlockedThreads());
      if (!raise_to && (victim < 0 || round > 200)) {  // not this property's concern
        for (auto& t : ts)
          t.detach();
        buf.release();
        return;
      }
    }
    if (raise_to) {
      sim::Probe(raise == 2 ? "memory limit raised for a blocked store" : "disk limit raised for a blocked store");
      DoLimit(b, raise == 2, raise_to);
      limits_changed = true;
    } else {
      DoDelete(b, victim);
    }
  }
  for (auto& t : ts)
    t.join();
  sim::SetFaultsEnabled(false);
  if (!p.P("early")) {
    for (int k = 0; k < keys; ++k)
      DoGet(b, k, true);
    CheckMemory(sim::Seq(), "at rest", true);
    // ---- give all the space back
    for (int k = 0; k < keys; ++k)
      if (k % 2)
        DoDelete(b, k);
    std::vector<int> rest;
    for (int k = 0; k < keys; k += 2)
      rest.push_back(k);
    DoDeleteIf(b, rest);
    if (!sim::Settle())
      W->Bad(PROGRESS, "no-progress", "the worker does not come to rest");
    for (int k = 0; k < keys; ++k)
      DoGet(b, k, true);
    bool refill;
    {
      sim::NoSim ns;
      refill = !W->Excused() && !W->dead;
      if (refill && io::FileCount(W->dir) != 0)
        W->Bad(LIMITS | CONSERVE, "files-left", Str("%d files (%llu bytes) are left after everything was deleted", io::FileCount(W->dir),
                                         (unsigned long long)io::DirBytes(W->dir)));
    }
    if (refill && W->disk.value < 100000) {
      // The whole capacity is usable again.
      size_t pops;
      int id1 = 5000, id2 = 5001;
      {
        sim::NoSim ns;
        pops = W->pop_order.size();
        W->inst[id1].key = 0;
        W->inst[id1].size = static_cast<int>(W->mem.value);
        W->inst[id2].key = keys > 1 ? 1 : 0;
        W->inst[id2].size = static_cast<int>(W->disk.value);
      }
      std::thread filler([&] {
        if (W->mem.value > 0) {
          DoStore(b, 90, 0, id1);
          DoGet(b, 0, true);
          DoDelete(b, 0);
        }
        if (W->disk.value > W->mem.value) {
          DoStore(b, 90, keys > 1 ? 1 : 0, id2);
          DoGet(b, keys > 1 ? 1 : 0, true);
        }
        sim::NoSim ns;
        ++W->done;
      });
      if (!sim::Settle())
        W->Bad(PROGRESS, "no-progress", "the worker does not come to rest");
      {
        sim::NoSim ns;
        if (W->done != total + 1) {
          W->Bad(LIMITS | PROGRESS, "capacity-lost", "a value of the full size of the limits cannot be stored after everything was deleted");
          filler.detach();
          buf.release();
          return;
        }
        if (W->pop_order.size() != pops)
          W->Bad(LIMITS | CONSERVE, "capacity-lost", "something was evicted while the full capacity was being stored");
      }
      filler.join();
    }
  } else {
    sim::Probe("destroyed with contents");
  }
  // ---- destruction
  buf.reset();
  if (!sim::Settle())
    W->Bad(PROGRESS, "worker-left", "a thread is still busy after destruction");
  sim::NoSim ns;
  if (sim::LiveThreads() != 1)
    W->Bad(PROGRESS, "worker-left", "a thread is left after destruction");
  struct stat st;
  bool there = stat(W->dir.c_str(), &st) == 0;
  if (there != (ctor == 0))
    W->Bad(PROGRESS, "directory", there ? "the directory was not removed" : "the caller's directory was removed");
}

sim::Property P(const char* id, unsigned on, const char* what, int quick) {
  return {id,
          [on](Rng& r, Program& p, Config& c) { Gen(r, p, c, on); },
          Run,
          Str("one simulated run of concurrent stores, gets, deletes and limit changes on a real data buffer (%s), every "
              "result, file and eviction compared with a reference model; non-trivial: at least two context switches or "
              "a fault; distinct by hash of the whole event and decision sequence", what),
          {"maidsafe::DataBuffer", "maidsafe::ReadFile/WriteFile", "boost::filesystem", "libstdc++ streams, futures"},
          {"pthread primitives and scheduler (simulated)", "file system calls (real files, delayed and failing on demand)"},
          quick, 400000};
}
sim::Registrar r5(P("C05", VALUES, "values", 18000));
sim::Registrar r6(P("C06", LIMITS, "limits and capacity", 18000));
sim::Registrar r7(P("C07", CONSERVE, "conservation and eviction", 18000));
sim::Registrar r8(P("C08", PROGRESS, "progress, shutdown and races", 18000));
sim::Registrar r9(P("C09", FAULTS | VALUES, "disk faults", 18000));
}  // namespace
