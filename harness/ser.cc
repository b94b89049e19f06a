// C21: serialised data damaged on its way.
#include <algorithm>
#include <memory>
#include <new>
#include <vector>

#include "asio/ip/address.hpp"
#include "boost/asio/ip/address.hpp"
#include "boost/filesystem/path.hpp"

#include "maidsafe/common/error.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
#ifdef HAVE_FLY
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
#include "boost/flyweight/no_tracking.hpp"
#endif
#include "cereal/types/memory.hpp"
#include "cereal/types/vector.hpp"
#include "cereal/types/map.hpp"
#include "cereal/types/utility.hpp"

#include "util.h"

namespace {
using namespace h;  // NOLINT
using namespace maidsafe;  // NOLINT
using SDV = StructuredDataVersions;
using VN = SDV::VersionName;

enum { tSdv, tSdvCrafted, tNameType, tImmutable, tMutable, tError, tAsio, tBoostAsio, tPath, tGeneric, tPoly, tVersionName, tBounded, tFly, tNum };
const char* const kTypes[] = {"StructuredDataVersions", "StructuredDataVersions (crafted)", "NameAndTypeId", "ImmutableData", "MutableData", "maidsafe_error", "asio address", "boost::asio address", "path", "containers", "unique_ptr<Data>", "VersionName", "bounded strings", "flyweights"};

#ifdef HAVE_FLY
// The installed cereal cannot compile the saving half of boost_flyweight.h: this writes its format.
SerialisedData SaveFly(const std::vector<std::string>& v) {
  SerialisedData b;
  auto put = [&](const void* p, size_t n) {
    auto c = static_cast<const byte*>(p);
    b.insert(b.end(), c, c + n);
  };
  uint64_t n = v.size();
  put(&n, 8);
  std::map<std::string, uint32_t> ids;
  for (auto& t : v) {
    auto r = ids.insert(std::make_pair(t, static_cast<uint32_t>(ids.size() + 1)));
    uint32_t id = r.first->second | (r.second ? 0x80000000u : 0);
    put(&id, 4);
    if (r.second) {
      uint64_t len = t.size();
      put(&len, 8);
      put(t.data(), t.size());
    }
  }
  return b;
}
#endif

Identity Id(uint64_t k) { return Identity(Bytes(k, 64)); }

using Generic = std::pair<std::vector<std::string>, std::map<uint32_t, std::pair<std::string, boost::optional<uint64_t>>>>;

// The object number 'k' of its type, as bytes.
SerialisedData Make(int type, uint64_t k) {
  Rng r(sim::Mix(k, type));
  switch (type) {
    case tSdv: {
      SDV s(100, 100);
      std::vector<VN> all{VN()};
      int n = static_cast<int>(r.Range(0, 9));
      for (int i = 0; i < n; ++i) {
        VN v(i ? 1 + r.Below(5) : 0, Id(r.Next()));
        VN parent = i == 0 ? VN() : r.Chance(0.2) ? VN(7, Id(r.Next())) : all[1 + r.Below(all.size() - 1)];
        s.Put(parent, v);
        all.push_back(v);
      }
      return s.Serialise()->string();
    }
    case tSdvCrafted: {
      // Bytes in the format of a version structure, of any content: sizes and links need not fit.
      std::vector<byte> b;
      auto put = [&](const void* p, size_t n) {
        auto c = static_cast<const byte*>(p);
        b.insert(b.end(), c, c + n);
      };
      std::vector<uint64_t> ids;
      for (int i = 0; i < 8; ++i)
        ids.push_back(r.Next());
      auto name = [&](bool any) {
        uint64_t idx = r.Below(3);
        put(&idx, 8);
        uint64_t len = 64;
        put(&len, 8);
        std::string id = Bytes(ids[r.Below(any ? 8 : 4)], 64);
        put(id.data(), 64);
        byte none = r.Chance(0.85);
        put(&none, 1);
        if (!none) {
          uint32_t c = static_cast<uint32_t>(r.Below(5));
          put(&c, 4);
        }
      };
      uint32_t maxv = static_cast<uint32_t>(r.Below(12)), maxb = static_cast<uint32_t>(r.Below(6));
      put(&maxv, 4);
      put(&maxb, 4);
      uint64_t nb = r.Below(6);
      put(&nb, 8);
      for (uint64_t i = 0; i < nb; ++i) {
        byte none = r.Chance(0.5);
        put(&none, 1);
        if (!none)
          name(true);
        uint64_t nn = r.Chance(0.1) ? 0 : r.Range(1, 3);
        put(&nn, 8);
        for (uint64_t j = 0; j < nn; ++j)
          name(true);
      }
      return b;
    }
    case tNameType:
      return Serialise(Data::NameAndTypeId(Id(k), DataTypeId(static_cast<uint32_t>(r.Below(5)))));
    case tImmutable:
      return Serialise(ImmutableData(NonEmptyString(Bytes(k, r.Range(1, 200)))));
    case tMutable:
      return Serialise(MutableData(Id(k), NonEmptyString(Bytes(k, r.Range(1, 200)))));
    case tError: {
      static const int codes[] = {-100000, -100003, -200000, -200001, -400002, -600000, -700001, -800002, -900000, -1000001};
      return Serialise(IntToError(codes[k % 10] - 0));
    }
    case tAsio: {
      asio::ip::address a;
      if (r.Chance(0.5))
        a = asio::ip::address_v4(static_cast<uint32_t>(r.Next()));
      else
        a = asio::ip::address_v6::loopback();
      return Serialise(a);
    }
    case tBoostAsio: {
      boost::asio::ip::address a;
      if (r.Chance(0.5))
        a = boost::asio::ip::address_v4(static_cast<uint32_t>(r.Next()));
      else
        a = boost::asio::ip::address_v6::loopback();
      return Serialise(a);
    }
    case tPath:
      return Serialise(boost::filesystem::path("/some/" + std::to_string(r.Next() % 1000) + "/dir/" + std::string(r.Below(60), 'x')));
    case tGeneric: {
      Generic g;
      int n = static_cast<int>(r.Below(5));
      for (int i = 0; i < n; ++i)
        g.first.push_back(Bytes(r.Next(), r.Below(40)));
      n = static_cast<int>(r.Below(4));
      for (int i = 0; i < n; ++i) {
        auto& e = g.second[static_cast<uint32_t>(r.Below(100))];
        e.first = Bytes(r.Next(), r.Below(20));
        if (r.Chance(0.5))
          e.second = r.Next();
      }
      return Serialise(g);
    }
    case tPoly: {
      std::vector<std::unique_ptr<Data>> v;
      int n = static_cast<int>(r.Range(1, 4));
      for (int i = 0; i < n; ++i) {
        if (r.Chance(0.5))
          v.emplace_back(new ImmutableData(NonEmptyString(Bytes(k + i, r.Range(1, 50)))));
        else
          v.emplace_back(new MutableData(Id(k + i), NonEmptyString(Bytes(k + i, r.Range(1, 50)))));
      }
      return Serialise(v);
    }
    case tVersionName: {
      VN v(r.Next(), Id(k));
      if (r.Chance(0.5))
        v.forking_child_count = static_cast<uint32_t>(r.Next());
      return Serialise(v);
    }
    case tBounded:
      return Serialise(Id(k), NonEmptyString(Bytes(k, r.Range(1, 30))), detail::BoundedString<2, 9, std::string>(Bytes(k, r.Range(2, 9))));
#ifdef HAVE_FLY
    default: {
      std::vector<std::string> v;
      int n = static_cast<int>(r.Range(1, 6));
      for (int i = 0; i < n; ++i)
        v.push_back("text " + std::to_string(r.Below(3)));
      return SaveFly(v);
    }
#endif
  }
  return SerialisedData();
}

// Parses the bytes as the type, checks what was made of them, and returns it as bytes again.
SerialisedData Remake(int type, const SerialisedData& b, bool use, Rng& r) {
  switch (type) {
    case tSdv:
    case tSdvCrafted: {
      SDV s{SDV::serialised_type(NonEmptyString(b))};
      sim::AllocFaults(false);
      std::set<VN> all;
      auto check = [&](const char* when) {
        all.clear();
        auto tips = s.Get();
        if (tips.size() > s.max_branches())
          sim::Fail("bad-value", Str("%s: %zu branches, %u allowed", when, tips.size(), s.max_branches()));
        for (size_t i = 1; i < tips.size(); ++i)
          if (!(tips[i] < tips[i - 1]))
            sim::Fail("bad-value", Str("%s: the tips are not in order", when));
        for (auto& t : tips) {
          auto br = s.GetBranch(t);
          if (br.size() > 1000)
            sim::Fail("bad-value", Str("%s: a branch without end", when));
          all.insert(br.begin(), br.end());
        }
        if (all.size() > s.max_versions())
          sim::Fail("bad-value", Str("%s: %zu versions, %u allowed", when, all.size(), s.max_versions()));
      };
      if (s.max_versions() == 0 || s.max_branches() == 0)
        sim::Fail("bad-value", "a limit of zero was accepted");
      check("after parsing");
      auto again = s.Serialise()->string();
      if (use) {
        sim::Probe("damaged structure used");
        for (int i = 0; i < 8; ++i) {
          std::vector<VN> names(all.begin(), all.end());
          names.push_back(VN(3, Id(1)));
          names.push_back(VN(2, Id(2)));
          names.push_back(VN());
          try {
            if (r.Chance(0.6)) {
              VN o = names[r.Below(names.size())], n = names[r.Below(names.size())];
              // A root is added without a predecessor.
              if (!(n.index == 0 && o.id.IsInitialised()))
                s.Put(o, n);
            } else {
              auto tips = s.Get();
              if (!tips.empty())
                s.DeleteBranchUntilFork(tips[r.Below(tips.size())]);
            }
          } catch (const maidsafe_error&) {
          }
          check("after use");
        }
      }
      return again;
    }
    case tNameType: {
      auto v = Parse<Data::NameAndTypeId>(b);
      sim::AllocFaults(false);
      if (!v.name.IsInitialised() || v.name.string().size() != 64)
        sim::Fail("bad-value", "a name of the wrong size was accepted");
      return Serialise(v);
    }
    case tImmutable: {
      auto v = Parse<ImmutableData>(b);
      sim::AllocFaults(false);
      if (!v.IsInitialised() || v.Name() != crypto::Hash<crypto::SHA512>(v.Value()))
        sim::Fail("bad-value", "immutable data whose name is not its hash was accepted");
      return Serialise(v);
    }
    case tMutable: {
      auto v = Parse<MutableData>(b);
      sim::AllocFaults(false);
      if (!v.IsInitialised() || v.Name().string().size() != 64 || v.Value().string().empty())
        sim::Fail("bad-value", "mutable data without name or value was accepted");
      return Serialise(v);
    }
    case tError: {
      auto v = Parse<maidsafe_error>(b);
      sim::AllocFaults(false);
      (void)v.code().message();
      (void)v.what();
      return Serialise(v);
    }
    case tAsio: {
      auto v = Parse<asio::ip::address>(b);
      sim::AllocFaults(false);
      (void)v.to_string();
      return Serialise(v);
    }
    case tBoostAsio: {
      auto v = Parse<boost::asio::ip::address>(b);
      sim::AllocFaults(false);
      (void)v.to_string();
      return Serialise(v);
    }
    case tPath: {
      auto v = Parse<boost::filesystem::path>(b);
      sim::AllocFaults(false);
      return Serialise(v);
    }
    case tGeneric: {
      auto v = Parse<Generic>(b);
      sim::AllocFaults(false);
      return Serialise(v);
    }
    case tPoly: {
      auto v = Parse<std::vector<std::unique_ptr<Data>>>(b);
      sim::AllocFaults(false);
      for (auto& d : v) {
        if (!d)
          continue;
        if (!d->IsInitialised())
          sim::Fail("bad-value", "uninitialised data was accepted");
        if (d->TypeId().data > 1)
          sim::Fail("bad-value", "data of an unknown type was made");
      }
      return Serialise(v);
    }
    case tVersionName: {
      auto v = Parse<VN>(b);
      sim::AllocFaults(false);
      if (!v.id.IsInitialised())
        sim::Fail("bad-value", "a version without ID was accepted");
      return Serialise(v);
    }
    case tBounded: {
      Identity i;
      NonEmptyString n;
      detail::BoundedString<2, 9, std::string> s;
      Parse(b, i, n, s);
      sim::AllocFaults(false);
      if (i.string().size() != 64 || n.string().empty() || s.string().size() < 2 || s.string().size() > 9)
        sim::Fail("bad-value", "a string outside its bounds was accepted");
      return Serialise(i, n, s);
    }
#ifdef HAVE_FLY
    default: {
      auto v = Parse<std::vector<boost::flyweight<std::string>>>(b);
      sim::AllocFaults(false);
      std::vector<std::string> t;
      for (auto& f : v)
        t.push_back(f.get());
      return SaveFly(t);
    }
#endif
  }
  return SerialisedData();
}

void Gen(Rng& r, Program& p, Config& c) {
#ifdef HAVE_FLY
  p.params["type"] = r.Below(tNum);
#else
  p.params["type"] = r.Below(tFly);
#endif
  p.params["key"] = static_cast<int64_t>(r.Next() & 0xffffff);
  p.params["use"] = r.Chance(0.7);
  p.params["faults"] = r.Chance(0.15);
  if (p.P("faults"))
    c.prob[sim::K_ALLOC] = Pick(r, {0.01, 0.05, 0.2});
  int n = static_cast<int>(r.Range(1, 8));
  for (int i = 0; i < n; ++i) {
    // one delivery: a number of damages to the same bytes
    int m = r.Chance(0.1) ? 0 : r.Chance(0.7) ? 1 : static_cast<int>(r.Range(2, 4));
    for (int j = 0; j < m; ++j) {
      int64_t pos = static_cast<int64_t>(r.Next() & 0xffff);
      double u = r.Unit();
      if (u < 0.3)
        p.ops.push_back(Line(0, "bit", {pos, static_cast<int64_t>(r.Below(8))}));
      else if (u < 0.45)
        p.ops.push_back(Line(0, "byte", {pos, r.Chance(0.5) ? Pick(r, {0, 1, 255, 128, 4, 16}) : static_cast<int64_t>(r.Below(256))}));
      else if (u < 0.6)
        p.ops.push_back(Line(0, "cut", {pos}));
      else if (u < 0.68)
        p.ops.push_back(Line(0, "extend", {static_cast<int64_t>(r.Below(40)), static_cast<int64_t>(r.Below(1000))}));
      else if (u < 0.74)
        p.ops.push_back(Line(0, "remove", {pos, r.Range(1, 80)}));
      else if (u < 0.8)
        p.ops.push_back(Line(0, "repeat", {pos, r.Range(1, 90)}));
      else if (u < 0.92)
        p.ops.push_back(Line(0, "word", {r.Chance(0.5) ? static_cast<int64_t>(r.Below(4) * 4) : pos, static_cast<int64_t>(r.Below(12))}));
      else
        p.ops.push_back(Line(0, "word4", {r.Chance(0.5) ? static_cast<int64_t>(r.Below(4) * 4) : pos, static_cast<int64_t>(r.Below(12))}));
    }
    p.ops.push_back(Line(0, "deliver"));
  }
}

void Run(const Program& p) {
  std::vector<Op> ops;
  {
    sim::NoSim ns;
    ops = Parse(p);
  }
  int type = static_cast<int>(p.P("type")) % tNum;
#ifndef HAVE_FLY
  if (type == tFly)
    type = 0;
#endif
  Rng r(p.P("key"));
  SerialisedData original = Make(type, p.P("key"));
  SerialisedData b;
  {
    sim::NoSim ns;
    b.assign(original.begin(), original.end());
    b.shrink_to_fit();
  }
  bool damaged = false;
  auto words = [&](int64_t k) -> uint64_t {
    uint64_t left = b.size();
    switch (k) {
      case 0: return 0;
      case 1: return 1;
      case 2: return left;
      case 3: return left - 1;
      case 4: return left + 1;
      case 5: return 1ull << 31;
      case 6: return (1ull << 32) - 1;
      case 7: return 1ull << 28;
      case 8: return 1ull << 60;
      case 9: return ~0ull;
      case 10: return 1ull << 35;
      default: return left / 2;
    }
  };
  // An undamaged round first; it also creates what is created once.
  if (type != tSdvCrafted) {
    auto again = Remake(type, b, false, r);
    if (again != original)
      sim::Fail("changed", Str("%s: undamaged bytes parsed and serialised again are not the same", kTypes[type]));
  }
  for (int round = 0; round < 2; ++round) {
    try {
      Remake(type, SerialisedData(2, 7), false, r);
    } catch (const std::exception&) {
    }
  }
  uint64_t live0 = sim::Heap().live_blocks;
  for (auto& o : ops) {
    if (o.verb == "deliver") {
      const char* out = "accepted";
      uint64_t max0 = sim::Heap().max_request;
      {
        SerialisedData again;
        SerialisedData in(b.begin(), b.end());  // exactly as many bytes as arrived
        sim::AllocFaults(p.P("faults"));
        try {
          again = Remake(type, in, p.P("use"), r);
          sim::AllocFaults(false);
          if (!damaged && type != tSdvCrafted && again != original)
            sim::Fail("changed", Str("%s: undamaged bytes parsed and serialised again are not the same", kTypes[type]));
          if (damaged)
            sim::Probe("damaged bytes accepted");
          // What was accepted is a value like any other.
          auto third = Remake(type, again, false, r);
          if (third != again)
            sim::Fail("changed", Str("%s: the value made of damaged bytes does not survive a round trip", kTypes[type]));
        } catch (const std::exception& e) {
          sim::AllocFaults(false);
          out = "refused";
          if (!damaged && type != tSdvCrafted && !(p.P("faults") && sim::AllocFaultsFired()))
            sim::Fail("refused", Str("%s: undamaged bytes were refused: %s", kTypes[type], e.what()));
          if (damaged)
            sim::Probe("damaged bytes refused");
        }
      }
      sim::NoSim ns;
      sim::Log("%s: %zu bytes%s %s", kTypes[type], b.size(), damaged ? ", damaged," : "", out);
      uint64_t max1 = sim::Heap().max_request;
      if (max1 > max0 && max1 > 65536 + 256 * b.size())
        sim::Fail("unbounded-memory", Str("%s: %zu bytes made it ask for %llu bytes of memory", kTypes[type], b.size(), static_cast<unsigned long long>(max1)));
      b = original;
      damaged = false;
      continue;
    }
    sim::NoSim ns;
    if (b.empty())
      continue;
    size_t pos = o.a[0] % b.size();
    damaged = true;
    if (o.verb == "bit")
      b[pos] ^= 1 << (o.a[1] & 7);
    else if (o.verb == "byte")
      b[pos] = static_cast<byte>(o.a[1]);
    else if (o.verb == "cut")
      b.resize(pos);
    else if (o.verb == "extend") {
      auto x = Bytes(o.a[1], o.a[0]);
      b.insert(b.end(), x.begin(), x.end());
    } else if (o.verb == "remove")
      b.erase(b.begin() + pos, b.begin() + std::min(b.size(), pos + static_cast<size_t>(o.a[1])));
    else if (o.verb == "repeat") {
      SerialisedData x(b.begin() + pos, b.begin() + std::min(b.size(), pos + static_cast<size_t>(o.a[1])));
      b.insert(b.begin() + pos, x.begin(), x.end());
    } else {
      uint64_t w = words(o.a[1]);
      for (size_t i = 0; i < (o.verb == "word" ? 8u : 4u) && pos + i < b.size(); ++i)
        b[pos + i] = static_cast<byte>(w >> (8 * i));
    }
    damaged = b != original;
  }
  if (sim::Heap().live_blocks != live0 && type != tFly)
    sim::Fail("leak", Str("%lld blocks are left: %s", static_cast<long long>(sim::Heap().live_blocks - live0), sim::DescribeLiveBlocks(0, 3).c_str()));
}

sim::Registrar r21({"C21", Gen, Run,
                    "one seeded sequence of deliveries of a serialised value whose bytes are flipped, overwritten, cut, extended, "
                    "removed or repeated on the way, parsed by the real code under heap checking, some with failing allocations; "
                    "non-trivial: at least two operations; distinct by hash of program, decisions and log",
                    {"maidsafe::Parse/Serialise, BinaryInputArchive", "StructuredDataVersions, ImmutableData, MutableData, NameAndTypeId, "
                     "maidsafe_error, BoundedString, addresses, paths, flyweights", "cereal"},
                    {"the way (generated damage)", "heap (bounds-checked, fails on demand)"}, 50000, 3000000, true});
}  // namespace
