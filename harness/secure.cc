// C29: memory for secrets, allocated and released by several threads while locking and allocation fail.
// C30: passwords and PINs typed, edited, finalised and derived from, with memory running out.
#include <algorithm>
#include <functional>
#include <memory>
#include <mutex>

#include "maidsafe/common/authentication/detail/secure_string.h"
#include "maidsafe/common/authentication/user_credential_utils.h"

#include "../sim/sys.h"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace au = maidsafe::authentication;
namespace ad = maidsafe::authentication::detail;
typedef std::vector<char, ad::zero_after_free_allocator<char>> ZeroVector;

// ================================================================= C29
struct Block {
  size_t size;
  bool locked;
};
std::map<char*, Block>* g_blocks;

void OnMunlock(size_t page) {
  for (auto& b : *g_blocks) {
    size_t from = std::max(reinterpret_cast<size_t>(b.first), page);
    size_t to = std::min(reinterpret_cast<size_t>(b.first) + b.second.size, page + 4096);
    if (!b.second.locked)
      continue;
    for (size_t a = from; a < to; ++a)
      if (*reinterpret_cast<char*>(a))
        sim::Fail("unlocked-in-use", Str("a page is unlocked while a block of %zu bytes on it holds a secret",
                                         b.second.size));
  }
}
void OnFree(void* p, size_t) {
  auto it = g_blocks->find(static_cast<char*>(p));
  if (it == g_blocks->end())
    return;
  for (size_t i = 0; i < it->second.size; ++i)
    if (it->first[i])
      sim::Fail("not-wiped", Str("byte %zu of a block of %zu bytes was not wiped before it was released", i,
                                 it->second.size));
  sim::Probe("block wiped and released");
  g_blocks->erase(it);
}
void CheckLocked() {
  sim::NoSim ns;
  for (auto& b : *g_blocks) {
    if (!b.second.locked)
      continue;
    for (size_t a = reinterpret_cast<size_t>(b.first) & ~size_t{4095};
         a < reinterpret_cast<size_t>(b.first) + b.second.size; a += 4096) {
      auto it = sim::sys::g_locked_pages.find(a);
      if (it == sim::sys::g_locked_pages.end()) {
        if (std::all_of(b.first, b.first + b.second.size, [](char c) { return !c; }))
          break;  // about to be released
        sim::Fail("not-locked", Str("a page of a block of %zu bytes in use is not locked", b.second.size));
      }
      if (!it->second)
        sim::Probe("page in use which could not be locked");
    }
  }
}
void Own(char* p, size_t n, bool locked) {
  sim::NoSim ns;
  void* base;
  size_t size;
  bool live;
  if (!sim::HeapBlock(p, &base, &size, &live) || !live || base != p)
    return;  // small strings are stored in place
  for (auto& b : *g_blocks)
    if (b.first != p && b.second.locked && locked &&
        (reinterpret_cast<size_t>(b.first) & ~size_t{4095}) == (reinterpret_cast<size_t>(p) & ~size_t{4095})) {
      sim::Probe("blocks sharing a page");
      break;
    }
  if (reinterpret_cast<size_t>(p) / 4096 != (reinterpret_cast<size_t>(p) + n - 1) / 4096)
    sim::Probe("block on several pages");
  (*g_blocks)[p] = {n, locked};
}

struct Held {
  char* p;
  size_t n;  // bytes
  char fill;
  bool wide;
};
char* Allocate(size_t n, bool wide) {
  if (!wide)
    return ad::safe_allocator<char>().allocate(n);
  return reinterpret_cast<char*>(ad::safe_allocator<uint64_t>().allocate(n / 8));
}
void Release(const Held& b) {
  if (!b.wide)
    ad::safe_allocator<char>().deallocate(b.p, b.n);
  else
    ad::safe_allocator<uint64_t>().deallocate(reinterpret_cast<uint64_t*>(b.p), b.n / 8);
}
void Verify(const Held& b) {
  sim::NoSim ns;
  for (size_t i = 0; i < b.n; ++i)
    if (b.p[i] != b.fill)
      sim::Fail("secret-changed", Str("byte %zu of a block of %zu bytes changed while it was in use", i, b.n));
}

void GenMemory(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  bool faults = r.Chance(0.6);
  p.params["faults"] = faults;
  int n = static_cast<int>(r.Range(3, 30));
  for (int i = 0; i < n; ++i) {
    double u = r.Unit();
    int t = static_cast<int>(r.Range(1, threads));
    int64_t slot = static_cast<int64_t>(r.Below(3));
    int64_t size = r.Chance(0.15) ? r.Range(4000, 13000) : r.Chance(0.2) ? r.Range(500, 3000) : r.Range(1, 120);
    if (r.Chance(0.02))
      size = (int64_t{1} << r.Range(12, 18)) + r.Range(-2, 2);
    if (u < 0.3)
      p.ops.push_back(Line(t, "alloc", {slot, size, r.Range(1, 120), r.Chance(0.3)}));
    else if (u < 0.5)
      p.ops.push_back(Line(t, "free", {slot}));
    else if (u < 0.58)
      p.ops.push_back(Line(t, "give", {slot}));
    else if (u < 0.66)
      p.ops.push_back(Line(t, "take"));
    else if (u < 0.8)
      p.ops.push_back(Line(t, "append", {slot, r.Chance(0.3) ? size : r.Range(10, 60), r.Range(1, 120)}));
    else if (u < 0.85)
      p.ops.push_back(Line(t, "copy", {slot, static_cast<int64_t>(r.Below(3))}));
    else if (u < 0.92)
      p.ops.push_back(Line(t, "drop", {slot}));
    else if (u < 0.96)
      p.ops.push_back(Line(t, "zalloc", {size, r.Range(1, 120)}));
    else
      p.ops.push_back(Line(t, "zvec", {size, r.Range(1, 120)}));
  }
  if (faults) {
    c.prob[sim::K_SYS] = Pick(r, {0.0, 0.1, 0.5});
    c.prob[sim::K_ALLOC] = Pick(r, {0.0, 0.05, 0.3});
  }
}

void RunMemory(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_blocks = new std::map<char*, Block>;
    sim::sys::g_mlock_simulated = true;
    sim::sys::g_on_munlock = OnMunlock;
    sim::g_on_free = OnFree;
  }
  uint64_t blocks0 = sim::Heap().live_blocks;
  {
    std::vector<Held> shared;
    std::mutex mutex;
    std::vector<std::thread> ts;
    sim::SetFaultsEnabled(false);
    for (int t = 1; t <= threads; ++t)
      ts.emplace_back([&, t] {
        std::vector<Held> slot(3, Held{nullptr, 0, 0, false});
        std::vector<ad::SafeString> str(3);
        auto release = [&](Held* b) {
          if (!b->p)
            return;
          Verify(*b);
          Release(*b);
          b->p = nullptr;
        };
        auto own = [&](ad::SafeString& s) {
          Own(&s[0], s.capacity() + 1, true);
        };
        for (auto& o : ops) {
          if (o.thread != t)
            continue;
          Held& s = slot[o.a[0] % 3];
          ad::SafeString& w = str[o.a[0] % 3];
          bool faults = Faulty(p);
          if (o.verb == "alloc") {
            release(&s);
            char* q = nullptr;
            bool wide = o.a[3] != 0;
            size_t bytes = wide ? (o.a[1] + 7) / 8 * 8 : o.a[1];
            sim::AllocFaults(faults);
            try {
              q = Allocate(bytes, wide);
            } catch (const std::bad_alloc&) {
              sim::Probe("allocation failed");
            }
            sim::AllocFaults(false);
            if (q) {
              Own(q, bytes, true);
              CheckLocked();
              s = {q, bytes, static_cast<char>(o.a[2]), wide};
              for (size_t i = 0; i < s.n; ++i)
                s.p[i] = s.fill;
            }
          } else if (o.verb == "free") {
            release(&s);
          } else if (o.verb == "give") {
            if (s.p) {
              std::lock_guard<std::mutex> lock(mutex);
              shared.push_back(s);
              s.p = nullptr;
            }
          } else if (o.verb == "take") {
            Held b = {nullptr, 0, 0, false};
            {
              std::lock_guard<std::mutex> lock(mutex);
              if (!shared.empty()) {
                b = shared.back();
                shared.pop_back();
                sim::Probe("released by another thread");
              }
            }
            release(&b);
          } else if (o.verb == "append" || o.verb == "copy") {
            size_t before = w.size();
            sim::AllocFaults(faults);
            bool failed = false;
            try {
              if (o.verb == "append") {
                w.append(o.a[1], static_cast<char>(o.a[2]));
              } else {
                ad::SafeString copy(w);
                copy += 'x';
                sim::AllocFaults(false);
                own(copy);
                CheckLocked();
                str[o.a[1] % 3].swap(copy);
                own(str[o.a[1] % 3]);
              }
            } catch (const std::bad_alloc&) {
              failed = true;
            }
            sim::AllocFaults(false);
            own(w);
            sim::NoSim ns;
            if (failed && w.size() != before)
              sim::Fail("secret-changed", "a string changed although memory ran out");
          } else if (o.verb == "drop") {
            ad::SafeString().swap(w);
          } else if (o.verb == "zalloc") {
            ad::zero_after_free_allocator<char> za;
            char* q = za.allocate(o.a[0]);
            Own(q, o.a[0], false);
            for (int64_t i = 0; i < o.a[0]; ++i)
              q[i] = static_cast<char>(o.a[1]);
            za.deallocate(q, o.a[0]);
          } else if (o.verb == "zvec") {
            ZeroVector v;
            v.assign(o.a[0], static_cast<char>(o.a[1]));
            Own(v.data(), v.capacity(), false);
            v.push_back(1);
            Own(v.data(), v.size(), false);
          }
          CheckLocked();
        }
        for (auto& s : slot)
          release(&s);
      });
    sim::SetFaultsEnabled(true);
    for (auto& t : ts)
      t.join();
    for (auto& b : shared) {
      Verify(b);
      Release(b);
    }
  }
  int counted = ad::LockedPageManager::instance.GetLockedPageCount();
  uint64_t blocks1 = sim::Heap().live_blocks;
  sim::NoSim ns;
  if (!g_blocks->empty())
    sim::Fail("not-released", Str("%zu blocks were not released", g_blocks->size()));
  if (!sim::sys::g_locked_pages.empty() || counted)
    sim::Fail("left-locked", Str("everything was released, %zu pages are still locked, %d by the manager's count",
                                 sim::sys::g_locked_pages.size(), counted));
  if (blocks1 > blocks0)
    sim::Fail("leak", Str("everything was released, %lu blocks of memory are left", blocks1 - blocks0));
}

// ================================================================= C30
std::vector<std::string>* g_secrets;  // long enough not to occur by chance

void ScanFreed(void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  for (auto& s : *g_secrets) {
    const size_t w = 8;
    for (size_t i = 0; i + w <= n; ++i)
      for (size_t j = 0; j + w <= s.size(); j += 4)
        if (c[i] == s[j] && !memcmp(c + i, s.data() + j, w))
          sim::Fail("clear-text-left", Str("a released block of %zu bytes still holds \"%s\"", n,
                                           s.substr(j, w).c_str()));
  }
}

typedef ad::SecureString::size_type Size;
typedef ad::SecureInputString<std::greater_equal<Size>, 1, ad::PasswordTag> AtLeast1;
typedef ad::SecureInputString<std::less_equal<Size>, 6, ad::KeywordTag> AtMost6;
typedef ad::SecureInputString<std::equal_to<Size>, 4, ad::PinTag> Exactly4;

struct Model {
  std::map<size_t, std::string> at;
  bool finalised = false;
  std::string text;
  int kind;
  bool SizeOk(size_t n) const { return kind == 0 ? n >= 1 : kind == 1 ? n <= 6 : n == 4; }
  void Open() {
    if (!finalised)
      return;
    at.clear();
    for (size_t i = 0; i < text.size(); ++i)
      at[i] = text.substr(i, 1);
    finalised = false;
    text.clear();
  }
  std::map<size_t, std::string> Chars() const {
    Model m(*this);
    m.Open();
    return m.at;
  }
};
bool ContiguousFrom(const std::map<size_t, std::string>& at, size_t pos) {
  auto it = at.find(pos);
  for (; it != at.end(); ++it, ++pos)
    if (it->first != pos)
      return false;
  return true;
}
bool Contiguous(const std::map<size_t, std::string>& at) {
  size_t i = 0;
  for (auto& e : at)
    if (e.first != i++)
      return false;
  return true;
}
std::string Text(uint64_t id, size_t n, bool digits) {
  std::string s;
  uint64_t x = id;
  for (size_t i = 0; i < n; ++i) {
    x = sim::Mix(x, i + 1);
    s += digits ? static_cast<char>('0' + x % 10) : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$%&"[x % 56];
  }
  return s;
}

void GenTyping(Rng& r, Program& p, Config& c) {
  int threads = r.Chance(0.7) ? 1 : static_cast<int>(r.Range(2, 3));
  p.params["threads"] = threads;
  bool faults = r.Chance(0.5);
  p.params["faults"] = faults;
  bool digits = r.Chance(0.3);
  p.params["digits"] = digits;
  for (int t = 1; t <= threads; ++t) {
    int64_t kind = r.Chance(0.6) ? 0 : r.Range(1, 2);
    int n = static_cast<int>(r.Chance(0.02) ? r.Range(40, 160) : r.Range(2, 14));
    if (r.Chance(0.4))
      p.ops.push_back(Line(t, "new", {kind, kind == 2 ? 4 : kind == 1 ? r.Range(1, 7) : r.Range(0, 24), r.Range(1, 1 << 20)}));
    else
      p.ops.push_back(Line(t, "new", {kind, -1, 0}));
    int64_t guess = 0;
    for (int i = 0; i < n; ++i) {
      double u = r.Unit();
      if (u < 0.5) {
        int64_t pos = r.Chance(0.6) ? guess : r.Chance(0.8) ? r.Range(0, guess + 2) : r.Range(0, 30);
        p.ops.push_back(Line(t, "ins", {pos, r.Chance(0.85) ? 1 : r.Range(2, 20), r.Range(1, 1 << 20)}));
        ++guess;
      } else if (u < 0.68) {
        p.ops.push_back(Line(t, "rem", {r.Range(0, guess + 1), r.Chance(0.7) ? 1 : r.Range(0, 4)}));
      } else if (u < 0.82) {
        p.ops.push_back(Line(t, "fin"));
      } else if (u < 0.87) {
        p.ops.push_back(Line(t, "clr"));
      } else {
        p.ops.push_back(Line(t, Pick<const char*>(r, {"hash", "val", "valid"}), {static_cast<int64_t>(r.Below(3))}));
      }
    }
    p.ops.push_back(Line(t, "fin"));
    p.ops.push_back(Line(t, "val"));
    if (r.Chance(0.01))
      p.ops.push_back(Line(t, "derive", {r.Range(1, 1 << 20)}));
  }
  if (faults)
    c.prob[sim::K_ALLOC] = Pick(r, {0.005, 0.03, 0.1});
}

ad::SafeString Safe(const std::string& s) { return ad::SafeString(s.begin(), s.end()); }
std::string Plain(const ad::SafeString& s) { return std::string(s.begin(), s.end()); }

template <typename T>
void Type(const std::vector<Op>& ops, int t, int kind, const Program& p) {
  std::unique_ptr<T> s;
  Model m;
  m.kind = kind;
  auto state = [&]() {
    sim::NoSim ns;
    std::string o = m.finalised ? "finalised \"" + m.text + "\"" : "";
    for (auto& e : m.at)
      o += Str("%s%zu:%s", o.empty() ? "" : " ", e.first, e.second.c_str());
    return o;
  };
  for (auto& o : ops) {
    if (o.thread != t)
      continue;
    std::string line, text;
    {
      sim::NoSim ns;
      line = p.ops[o.index].c_str();
      if (o.verb == "new" || o.verb == "ins")
        text = Text(o.a[2], o.a[1] < 0 ? 0 : o.a[1], p.P("digits"));
      if (text.size() >= 8)
        g_secrets->push_back(text);
    }
    enum { kOk, kRefused, kNoMemory } got = kOk, want = kOk;
    Model next;
    bool unclear = false;
    {
      sim::NoSim ns;
      next = m;
      if (o.verb == "new") {
        if (o.a[1] >= 0) {
          next.finalised = true;
          next.text = text;
          if (!m.SizeOk(text.size()))
            want = kRefused;
        }
      } else if (o.verb == "ins") {
        next.Open();
        size_t pos = o.a[0];
        if (next.at.count(pos)) {
          unclear = !ContiguousFrom(next.at, pos);
          std::string carry = text;
          while (next.at.count(pos)) {
            std::swap(next.at[pos], carry);
            ++pos;
          }
          next.at[pos] = carry;
        } else {
          next.at[pos] = text;
        }
      } else if (o.verb == "rem") {
        next.Open();
        size_t pos = o.a[0], len = o.a[1];
        unclear = next.at.count(pos) && !ContiguousFrom(next.at, pos);
        if (!next.at.count(pos) || !len) {
          want = kRefused;
        } else if (!unclear) {
          size_t end = next.at.rbegin()->first + 1;
          if (pos + len > end) {
            want = kRefused;
          } else {
            for (size_t i = pos; i + len < end; ++i)
              next.at[i] = next.at[i + len];
            for (size_t i = end - len; i < end; ++i)
              next.at.erase(i);
          }
        }
      } else if (o.verb == "fin" && !m.finalised) {
        if (!m.SizeOk(m.at.size()) || !Contiguous(m.at)) {
          want = kRefused;
        } else {
          for (auto& e : m.at)
            next.text += e.second;
          next.at.clear();
          next.finalised = true;
        }
      } else if (o.verb == "clr") {
        next = Model();
        next.kind = kind;
      }
    }
    if (unclear) {
      sim::Probe("operation on positions after a gap left out");
      continue;
    }
    uint64_t fired = sim::AllocFaultsFired();
    std::string how, result;
    bool valid = false;
    unsigned long value = 0;
    sim::AllocFaults(Faulty(p));
    try {
      if (o.verb == "new") {
        if (o.a[1] < 0)
          s.reset(new T());
        else
          s.reset(new T(Safe(text)));
      } else if (o.verb == "ins") {
        if (text.size() == 1)
          s->Insert(o.a[0], text[0]);
        else
          s->Insert(o.a[0], Safe(text));
      } else if (o.verb == "rem") {
        s->Remove(o.a[0], o.a[1]);
      } else if (o.verb == "fin") {
        s->Finalise();
      } else if (o.verb == "clr") {
        s->Clear();
      } else if (o.verb == "hash") {
        want = m.finalised ? kOk : kRefused;
        auto hash(s->template Hash<maidsafe::crypto::SHA512>());
        sim::NoSim ns;
        result = std::string(hash.string().begin(), hash.string().end());
      } else if (o.verb == "val") {
        want = m.finalised ? kOk : kRefused;
        value = s->Value();
      } else if (o.verb == "valid") {
        boost::regex re(o.a[0] == 0 ? "[a-z]" : o.a[0] == 1 ? "[0-9]" : ".");
        valid = s->IsValid(re);
      }
    } catch (const std::bad_alloc&) {
      got = kNoMemory;
    } catch (const std::exception& e) {
      got = kRefused;
      sim::NoSim ns;
      how = e.what();
    }
    sim::AllocFaults(false);
    sim::NoSim ns;
    bool starved = sim::AllocFaultsFired() != fired;
    std::string at = Str("thread %d, \"%s\", before: ", t, line.c_str()) + state();
    if (o.verb == "val" && m.finalised) {
      try {
        unsigned long v = std::stoul(m.text);
        if (got == kOk && v != value)
          sim::Fail("wrong-value", at + Str(": value %lu", value));
      } catch (const std::exception&) {
        want = kRefused;
      }
    }
    if (got == kNoMemory && !starved)
      sim::Fail("spurious-failure", at + ": memory was said to have run out");
    if (starved && got != kOk) {
      sim::Probe("memory ran out");
    } else {
      if (got != want)
        sim::Fail("wrong-outcome", at + (got == kOk ? ": accepted" : ": refused: " + how));
      if (got == kRefused)
        sim::Probe("refused");
    }
    if (o.verb == "new" && !s)
      return;
    if (got == kOk && o.verb == "hash") {
      std::string h;
      CryptoPP::SHA512 sha;
      h.resize(64);
      sha.CalculateDigest(reinterpret_cast<CryptoPP::byte*>(&h[0]),
                          reinterpret_cast<const CryptoPP::byte*>(m.text.data()), m.text.size());
      if (h != result)
        sim::Fail("wrong-hash", at + ": the hash is not that of the text");
    }
    if (got == kOk && o.verb == "valid") {
      boost::regex re(o.a[0] == 0 ? "[a-z]" : o.a[0] == 1 ? "[0-9]" : ".");
      bool ok = m.SizeOk(m.finalised ? m.text.size() : m.at.size()) && (m.finalised || Contiguous(m.at));
      if (m.finalised) {
        for (char ch : m.text)
          ok = ok && boost::regex_search(std::string(1, ch), re);
      } else {
        for (auto& e : m.at)
          ok = ok && boost::regex_search(e.second, re);
      }
      if (ok != valid)
        sim::Fail("wrong-outcome", at + (valid ? ": valid" : ": not valid"));
    }
    if (got == kOk)
      m = next;
    if (m.finalised && m.text.size() >= 8)
      g_secrets->push_back(m.text);
    // What is seen afterwards, by copies so that looking changes nothing.
    if (s->IsFinalised() != m.finalised || s->IsInitialised() != m.finalised)
      sim::Fail("wrong-state", at + (got == kOk ? ": done, " : ": failed, ") +
                                   (m.finalised ? "no longer finalised" : "is finalised"));
    std::string now;
    bool has = true;
    try {
      now = Plain(s->string());
    } catch (const std::exception&) {
      has = false;
    }
    if (has != m.finalised || (has && now != m.text))
      sim::Fail("wrong-text", at + (got == kOk ? ": done, " : ": failed, ") +
                                  (has ? "the text is \"" + now + "\"" : "there is no text"));
  }
}

void Derive(int64_t id) {
  auto make = [&](bool typed, int other) {
    au::UserCredentials c;
    std::string k, pin, pw;
    {
      sim::NoSim ns;
      k = Text(id * 4 + (other == 1), 10, false);
      pin = Text(id * 4 + (other == 2), 5, true);
      pw = Text(id * 4 + 2 + (other == 3), 12, false);
      g_secrets->push_back(k);
      g_secrets->push_back(pw);
    }
    if (typed) {
      c.keyword.reset(new au::UserCredentials::Keyword);
      c.pin.reset(new au::UserCredentials::Pin);
      c.password.reset(new au::UserCredentials::Password);
      for (size_t i = k.size(); i-- > 0;)
        c.keyword->Insert(i, k[i]);
      for (size_t i = 0; i < pin.size(); ++i)
        c.pin->Insert(i, pin[i]);
      for (size_t i = 0; i < pw.size(); ++i)
        c.password->Insert(i, pw[i]);
      c.keyword->Finalise();
      c.pin->Finalise();
      c.password->Finalise();
    } else {
      c.keyword.reset(new au::UserCredentials::Keyword(Safe(k)));
      c.pin.reset(new au::UserCredentials::Pin(Safe(pin)));
      c.password.reset(new au::UserCredentials::Password(Safe(pw)));
    }
    return c;
  };
  auto raw = [](const std::vector<unsigned char>& v) { return std::string(v.begin(), v.end()); };
  int other = 1 + static_cast<int>(id % 3);
  au::UserCredentials a(make(true, 0)), b(make(false, 0)), c(make(false, other));
  std::string pa, pb, pc, data, round, ob, oc;
  size_t n = 1 + id % 200;
  pa = raw(au::CreateSecurePassword(a)->string());
  pb = raw(au::CreateSecurePassword(b)->string());
  if (other != 1)
    pc = raw(au::CreateSecurePassword(c)->string());
  data = Bytes(id, n);
  maidsafe::NonEmptyString d(std::vector<unsigned char>(data.begin(), data.end()));
  maidsafe::NonEmptyString o(au::Obfuscate(a, d));
  ob = raw(o.string());
  round = raw(au::Obfuscate(b, o).string());
  oc = raw(au::Obfuscate(c, d).string());
  sim::NoSim ns;
  sim::Probe("credentials derived from");
  if (pa != pb)
    sim::Fail("wrong-derivation", "the same password and PIN give different secure passwords");
  if (pa == pc)
    sim::Fail("wrong-derivation", "another password or PIN gives the same secure password");
  if (round != data)
    sim::Fail("wrong-derivation", Str("%zu bytes obfuscated twice are not what they were", n));
  if (n > 8 && (ob == data || ob == oc))
    sim::Fail("wrong-derivation", "obfuscated data does not depend on the credentials");
}

void RunTyping(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  {
    sim::NoSim ns;
    ops = Parse(p);
    g_secrets = new std::vector<std::string>;
    sim::g_on_free = ScanFreed;
    sim::sys::g_mlock_simulated = true;
  }
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      int kind = 0;
      for (auto& o : ops)
        if (o.thread == t && o.verb == "new")
          kind = static_cast<int>(o.a[0]);
      if (kind == 0)
        Type<AtLeast1>(ops, t, kind, p);
      else if (kind == 1)
        Type<AtMost6>(ops, t, kind, p);
      else
        Type<Exactly4>(ops, t, kind, p);
      for (auto& o : ops)
        if (o.thread == t && o.verb == "derive")
          Derive(o.a[0]);
    });
  for (auto& t : ts)
    t.join();
}

sim::Property R30() {
  sim::Property p{"C30", GenTyping, RunTyping,
                  "one evaluation is one run of 1-3 threads, each typing, editing, finalising and reading back a "
                  "password or PIN; non-trivial if it performed at least two operations",
                  {"secure_string.h", "secure_string.cc", "safe_allocators.h", "user_credential_utils.cc", "Crypto++",
                   "Boost.Regex"},
                  {"thread scheduler", "allocator", "mlock/munlock", "clock"},
                  3000, 150000};
  p.serial = true;
  return p;
}
sim::Registrar r29({"C29", GenMemory, RunMemory,
                    "one evaluation is one run of 1-4 threads allocating, filling, handing over and releasing memory "
                    "for secrets; non-trivial if locking or allocation failed or threads were interleaved",
                    {"safe_allocators.h"},
                    {"thread scheduler", "allocator", "mlock/munlock with a model of locked pages"},
                    40000, 400000});
sim::Registrar r30(R30());
}  // namespace
