// C25: shares lost, reordered and duplicated on the way.  C26: random data drawn by several threads.
// C31: encrypted and signed data damaged in storage or transit.
#include <cryptopp/hex.h>

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"

#include "../sim/io.h"
#include "rsa_keys.inc"
#include "util.h"

namespace {
using namespace h;  // NOLINT
namespace io = sim::io;
namespace cr = maidsafe::crypto;
using maidsafe::NonEmptyString;
typedef std::vector<unsigned char> V;

V Vec(const std::string& s) { return V(s.begin(), s.end()); }
std::string Raw(const NonEmptyString& s) { return std::string(s.string().begin(), s.string().end()); }

// ================================================================= C25
void GenShares(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  p.params["faults"] = 1;
  int n = static_cast<int>(r.Range(1, 5));
  for (int i = 0; i < n; ++i) {
    int64_t shares = r.Chance(0.1) ? r.Range(3, 40) : r.Range(3, 9);
    int64_t k = r.Range(2, shares);
    int64_t size = r.Chance(0.2) ? r.Range(1, 3) : r.Chance(0.1) ? r.Range(1000, 9000)
                   : r.Chance(0.2) ? 256 * r.Range(1, 8) + r.Range(-6, 6) : r.Range(1, 300);
    if (r.Chance(0.01))
      size = (int64_t{1} << r.Range(12, 16)) + r.Range(-3, 3);
    p.ops.push_back(Line(static_cast<int>(r.Range(1, threads)), r.Chance(0.5) ? "secret" : "disperse",
                         {shares, k, size, static_cast<int64_t>(r.Below(1000000))}));
  }
  c.prob[sim::K_WFAULT1] = Pick(r, {0.1, 0.3, 0.6});  // a share is lost
  c.prob[sim::K_WFAULT2] = Pick(r, {0.0, 0.5, 1.0});  // shares are reordered
  c.prob[sim::K_WFAULT3] = Pick(r, {0.0, 0.0, 0.3});  // delivery stops short of the threshold
}

void RunShares(const Program& p) {
  std::vector<Op> ops;
  {
    sim::NoSim ns;
    ops = Parse(p);
  }
  int threads = static_cast<int>(p.P("threads"));
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        int n = static_cast<int>(o.a[0]), k = static_cast<int>(o.a[1]);
        bool secret = o.verb == "secret";
        std::string text;
        {
          sim::NoSim ns;
          text = o.a[3] % 10 == 0 ? std::string(o.a[2], 0) : Bytes(o.a[3], o.a[2]);
          // An end like the padding.
          size_t zeros = o.a[3] / 10 % 7;
          if (o.a[3] % 10 < 4 && zeros < text.size()) {
            std::fill(text.end() - zeros, text.end(), 0);
            text[text.size() - 1 - zeros] = 1;
          }
        }
        NonEmptyString data(Vec(text));
        cr::DataParts parts = secret ? cr::SecretShareData(k, n, data) : cr::InfoDisperse(k, n, data);
        std::vector<int> arrived;
        {
          sim::NoSim ns;
          if (static_cast<int>(parts.size()) != n)
            sim::Fail("share-count", Str("%d shares requested, %d made", n, static_cast<int>(parts.size())));
          // Delivery: shares are lost, the others arrive in any order.
          for (int i = 0; i < n; ++i)
            arrived.push_back(i);
          for (size_t i = 0; i < arrived.size();) {
            if (static_cast<int>(arrived.size()) > k && sim::Choose(sim::K_WFAULT1, 2))
              arrived.erase(arrived.begin() + i);
            else
              ++i;
          }
          if (sim::Choose(sim::K_WFAULT3, 2))
            arrived.resize(1 + sim::Data(k - 1));
          for (size_t i = arrived.size(); i > 1; --i)
            if (sim::Choose(sim::K_WFAULT2, 2))
              std::swap(arrived[i - 1], arrived[sim::Data(i)]);
          // Information dispersal wants exactly as many shares as the threshold.
          if (!secret && static_cast<int>(arrived.size()) > k)
            arrived.resize(k);
        }
        bool enough = static_cast<int>(arrived.size()) >= k;
        cr::DataParts got;
        for (int i : arrived)
          got.push_back(parts[i]);
        std::string back;
        bool threw = false;
        try {
          NonEmptyString s(secret ? cr::SecretRecoverData(got) : cr::InfoRetrieve(got));
          back = s.IsInitialised() ? Raw(s) : std::string();
        } catch (const std::exception&) {
          threw = true;
        }
        sim::NoSim ns;
        std::string who;
        for (int i : arrived)
          who += " " + std::to_string(i);
        if (enough) {
          if (threw || back != text)
            sim::Fail("not-recovered", Str("%s of %zu bytes, %d shares, threshold %d, recovered from shares%s: %s",
                                           o.verb.c_str(), text.size(), n, k, who.c_str(),
                                           threw ? "error" : "other bytes"));
          sim::Probe("recovered");
          if (static_cast<int>(arrived.size()) > k)
            sim::Probe("recovered from more shares than the threshold");
        } else {
          // A guess is right by chance for tiny secrets; dispersed data is not meant to be secret.
          if (secret && !threw && back == text && text.size() > 8)
            sim::Fail("recovered-too-early", Str("%s of %zu bytes, %d shares, threshold %d, recovered from shares%s",
                                                 o.verb.c_str(), text.size(), n, k, who.c_str()));
          sim::Probe("too few shares");
        }
      }
    });
  for (auto& t : ts)
    t.join();
}

// ================================================================= C26
void GenRandom(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 4));
  p.params["threads"] = threads;
  p.params["seed"] = static_cast<int64_t>(r.Below(1ull << 32));
  bool ranged = r.Chance(0.25);
  p.params["ranged"] = ranged;
  p.params["full"] = ranged && r.Chance(0.1);
  int n = static_cast<int>(r.Range(2, 12));
  for (int i = 0; i < n; ++i) {
    int t = static_cast<int>(r.Range(1, threads));
    int64_t size = r.Chance(0.1) ? 0 : r.Chance(0.1) ? r.Range(500, 3000) : r.Range(1, 40);
    if (r.Chance(0.02))
      size = (int64_t{1} << r.Range(8, 17)) + r.Range(-2, 2);
    int what = static_cast<int>(r.Below(10));
    if (what < 4)
      p.ops.push_back(Line(t, r.Chance(0.5) ? "i32" : "u32"));
    else if (what < 8 && !ranged)
      p.ops.push_back(Line(t, Pick<const char*>(r, {"str", "bytes", "alnum", "alnumbytes"}), {size}));
    else if (what < 8)
      p.ops.push_back(Line(t, Pick<const char*>(r, {"rstr", "rbytes", "ralnum", "ralnumbytes"}),
                           {size, size + (r.Chance(0.2) ? 0 : r.Range(0, 60))}));
    else if (what == 8)
      p.ops.push_back(Line(t, "seed", {static_cast<int64_t>(r.Below(5))}));
    else
      p.ops.push_back(Line(t, "getseed"));
  }
}

std::string Draw(const Op& o) {
  if (o.verb == "i32")
    return std::to_string(maidsafe::RandomInt32());
  if (o.verb == "u32")
    return std::to_string(maidsafe::RandomUint32());
  if (o.verb == "str")
    return maidsafe::RandomString(o.a[0]);
  if (o.verb == "bytes") {
    V v = maidsafe::RandomBytes(o.a[0]);
    return std::string(v.begin(), v.end());
  }
  if (o.verb == "alnum")
    return maidsafe::RandomAlphaNumericString(o.a[0]);
  if (o.verb == "alnumbytes") {
    V v = maidsafe::RandomAlphaNumericBytes(o.a[0]);
    return std::string(v.begin(), v.end());
  }
  uint32_t lo = static_cast<uint32_t>(o.a[0]), hi = static_cast<uint32_t>(o.a[1]);
  if (o.verb == "rstr")
    return maidsafe::RandomString(lo, hi);
  if (o.verb == "rbytes") {
    V v = maidsafe::RandomBytes(lo, hi);
    return std::string(v.begin(), v.end());
  }
  if (o.verb == "ralnum")
    return maidsafe::RandomAlphaNumericString(lo, hi);
  if (o.verb == "ralnumbytes") {
    V v = maidsafe::RandomAlphaNumericBytes(lo, hi);
    return std::string(v.begin(), v.end());
  }
  if (o.verb == "seed") {
    maidsafe::detail::set_random_number_generator_seed(static_cast<uint32_t>(o.a[0]));
    return "";
  }
  if (o.verb == "getseed")
    return std::to_string(maidsafe::detail::random_number_generator_seed());
  return "";
}

struct Done {
  const Op* op;
  std::string result;
  uint64_t from, to;
};
// Is there an order of the operations, consistent with which ended before which began, in which one
// caller alone draws exactly the values returned?
struct Linear {
  std::vector<Done> d;
  uint32_t seed;
  std::vector<int> order;
  std::vector<bool> used;
  int tries = 0;
  bool Fits(int i) {
    for (size_t j = 0; j < d.size(); ++j)
      if (!used[j] && static_cast<int>(j) != i && d[j].to < d[i].from)
        return false;
    return true;
  }
  // Replays the prefix, then operation i.
  bool Matches(int i) {
    ++tries;
    maidsafe::detail::set_random_number_generator_seed(seed);
    for (int j : order)
      Draw(*d[j].op);
    return Draw(*d[i].op) == d[i].result;
  }
  bool Go() {
    if (order.size() == d.size())
      return true;
    if (tries > 3000)
      return true;  // undecided
    for (size_t i = 0; i < d.size(); ++i) {
      if (used[i] || !Fits(static_cast<int>(i)) || !Matches(static_cast<int>(i)))
        continue;
      used[i] = true;
      order.push_back(static_cast<int>(i));
      if (Go())
        return true;
      used[i] = false;
      order.pop_back();
    }
    return false;
  }
};

void RunRandom(const Program& p) {
  std::vector<Op> ops;
  Linear* lin;
  bool ranged = p.P("ranged") != 0;
  int threads = static_cast<int>(p.P("threads"));
  {
    sim::NoSim ns;
    ops = Parse(p);
    lin = new Linear;
    lin->seed = static_cast<uint32_t>(p.P("seed"));
  }
  maidsafe::detail::set_random_number_generator_seed(lin->seed);
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        uint64_t from = sim::Seq();
        std::string got = Draw(o);
        uint64_t to = sim::Seq();
        sim::NoSim ns;
        bool is_ranged = o.verb[0] == 'r';
        bool sized = is_ranged || o.verb == "str" || o.verb == "bytes" || o.verb.compare(0, 5, "alnum") == 0;
        uint64_t lo = o.a[0], hi = is_ranged ? o.a[1] : o.a[0];
        if (sized && (got.size() < lo || got.size() > hi))
          sim::Fail("wrong-size", Str("%s of %lu..%lu bytes gave %zu bytes", o.verb.c_str(), lo, hi, got.size()));
        if (o.verb.find("alnum") != std::string::npos)
          for (char c : got)
            if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')))
              sim::Fail("wrong-alphabet", Str("%s gave byte %d", o.verb.c_str(), static_cast<unsigned char>(c)));
        lin->d.push_back({&o, got, from, to});
      }
    });
  for (auto& t : ts)
    t.join();
  if (!ranged) {
    sim::NoSim ns;
    lin->used.resize(lin->d.size());
    if (!lin->Go()) {
      std::string s;
      for (auto& e : lin->d)
        s += Str(" t%d:%s", e.op->thread, e.op->verb.c_str());
      sim::Fail("not-one-sequence", "no order of the draws gives one caller the values returned:" + s);
    }
    sim::Probe("values explained by one sequence");
    if (lin->tries > 3000)
      sim::Probe("undecided");
  } else if (p.P("full")) {
    // The whole range of sizes may be asked for.
    uint32_t seed = 1;
    for (;; ++seed) {
      maidsafe::detail::set_random_number_generator_seed(seed);
      if (maidsafe::RandomUint32() > 0xd0000000u)
        break;
    }
    maidsafe::detail::set_random_number_generator_seed(seed);
    try {
      maidsafe::RandomBytes(0, 0xffffffffu);
    } catch (const std::bad_alloc&) {
      sim::Probe("the whole range of sizes: no memory");
    }
  }
}

// ================================================================= C31
struct Keys {
  maidsafe::rsa::PrivateKey priv[3];
  maidsafe::rsa::PublicKey pub[3];
  Keys() {
    for (int i = 0; i < 3; ++i) {
      std::string der;
      CryptoPP::StringSource(kRsaKeys[i], true, new CryptoPP::HexDecoder(new CryptoPP::StringSink(der)));
      CryptoPP::ByteQueue q;
      q.Put(reinterpret_cast<const CryptoPP::byte*>(der.data()), der.size());
      priv[i].BERDecodePrivateKey(q, false, der.size());
      pub[i] = maidsafe::rsa::PublicKey(priv[i]);
    }
  }
};
const Keys& RsaKeys() {
  static const Keys k;
  return k;
}

enum { kSame, kFlip, kCut, kExtend, kSwap, kForeignKey, kAlterations };

void GenTamper(Rng& r, Program& p, Config& c) {
  int threads = static_cast<int>(r.Range(1, 3));
  p.params["threads"] = threads;
  bool faults = r.Chance(0.7);
  p.params["faults"] = faults;
  int n = static_cast<int>(r.Range(1, 5));
  for (int i = 0; i < n; ++i) {
    double u = r.Unit();
    const char* what = u < 0.3 ? "symm" : u < 0.5 ? "zip" : u < 0.65 ? "rsa" : u < 0.7 ? "key" : u < 0.85 ? "sign" : "signfile";
    int64_t size = r.Chance(0.2) ? r.Range(1, 17) : r.Chance(0.1) ? r.Range(4000, 20000) : r.Range(1, 500);
    if (r.Chance(0.02))
      size = (int64_t{1} << r.Range(10, 18)) + r.Range(-17, 17);
    int64_t key = u < 0.3 ? static_cast<int64_t>(r.Below(3)) : u < 0.5 ? static_cast<int64_t>(r.Below(10)) : static_cast<int64_t>(r.Below(2));
    p.ops.push_back(Line(static_cast<int>(r.Range(1, threads)), what, {key, size, i}));
  }
  c.prob[sim::K_WFAULT1] = faults ? Pick(r, {0.3, 0.8}) : 0;  // what was stored or sent is altered
  if (faults && r.Chance(0.5)) {
    double q = Pick(r, {0.02, 0.1});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_READ] = r.Chance(0.8) ? q : 0;
  }
}

// Alters bytes; false if there is nothing to alter.
bool Alter(int how, std::string* s, const std::string& other) {
  switch (how) {
    case kFlip: {
      if (s->empty())
        return false;
      size_t n = 1 + sim::Data(3);
      std::string was = *s;
      for (size_t i = 0; i < n; ++i)
        (*s)[sim::Data(4) ? sim::Data(s->size()) : sim::Data(2) ? s->size() - 1 : 0] ^=
            static_cast<char>(1 << sim::Data(8));
      return *s != was;
    }
    case kCut: {
      if (s->empty())
        return false;
      s->resize(sim::Data(s->size()));
      return true;
    }
    case kExtend:
      *s += Bytes(sim::Data(1000), 1 + sim::Data(40));
      return true;
    case kSwap:
      if (*s == other)
        return false;
      *s = other;
      return true;
  }
  return false;
}

void RunTamper(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  const Keys* keys;
  {
    sim::NoSim ns;
    ops = Parse(p);
    keys = &RsaKeys();
  }
  std::vector<std::thread> ts;
  for (int t = 1; t <= threads; ++t)
    ts.emplace_back([&, t] {
      for (auto& o : ops) {
        if (o.thread != t)
          continue;
        std::string text, other, what;
        int how;
        {
          sim::NoSim ns;
          text = Bytes(o.a[2] * 1000 + o.a[0], o.a[1]);
          other = Bytes(o.a[2] * 1000 + 500, 1 + o.a[1] / 2);
          how = static_cast<int>(sim::Choose(sim::K_WFAULT1, kAlterations));
          static const char* const names[] = {"unchanged", "flipped bits", "truncated", "extended",
                                              "swapped with another", "of another key"};
          what = Str("%s data of %zu bytes, %s", o.verb.c_str(), text.size(), names[how]);
          sim::Probe(names[how]);
        }
        int key = static_cast<int>(o.a[0]), foreign = (key + 1) % 2;
        if (o.verb == "symm") {
          cr::AES256KeyAndIV k(Vec(Bytes(77 + key, 48)));
          cr::CipherText c1(cr::SymmEncrypt(cr::PlainText(Vec(text)), k));
          cr::CipherText c2(cr::SymmEncrypt(cr::PlainText(Vec(other)), cr::AES256KeyAndIV(Vec(Bytes(90, 48)))));
          std::string kb, cb, ob;
          {
            sim::NoSim ns;
            kb = Bytes(77 + key, 48);
            cb = Raw(c1.data);
            ob = Raw(c2.data);
            if (cb.find(text) != std::string::npos && text.size() > 3)
              sim::Fail("clear-text", what + ": the encrypted data contains the clear text");
            if (how == kForeignKey) {
              // Differs anywhere in the key or the initialisation vector.
              kb[sim::Data(48)] ^= static_cast<char>(1 << sim::Data(8));
            } else if (how != kSame && !Alter(how, &cb, ob)) {
              how = kSame;
            }
          }
          std::string back;
          bool threw = false;
          try {
            back = Raw(cr::SymmDecrypt(cr::CipherText(NonEmptyString(Vec(cb))), cr::AES256KeyAndIV(Vec(kb))));
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          if (how == kSame && (threw || back != text))
            sim::Fail("not-decrypted", what + (threw ? ": error" : ": other bytes"));
          if (how != kSame && !threw)
            sim::Fail("tampering-unnoticed", what + (back == text ? ": decrypted" : ": decrypted to other bytes"));
        } else if (o.verb == "zip") {
          if (o.a[0] % 2) {
            sim::NoSim ns;
            for (size_t i = 0; i < text.size(); ++i)
              text[i] = static_cast<char>('a' + i % (1 + o.a[2]));  // compressible
          }
          cr::CompressedText z(cr::Compress(cr::UncompressedText(Vec(text)), static_cast<uint16_t>(o.a[0])));
          std::string cb;
          {
            sim::NoSim ns;
            cb = Raw(z.data);
            if (how == kSwap || how == kForeignKey)
              how = kFlip;
            if (how != kSame && !Alter(how, &cb, ""))
              how = kSame;
            if (cb.empty())
              continue;
          }
          std::string back;
          bool threw = false;
          try {
            back = Raw(cr::Uncompress(cr::CompressedText(NonEmptyString(Vec(cb)))));
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          if (how == kSame && (threw || back != text))
            sim::Fail("not-uncompressed", what + (threw ? ": error" : ": other bytes"));
          if (!threw && back != text)
            sim::Fail("tampering-unnoticed", what + Str(": uncompressed to %zu other bytes", back.size()));
        } else if (o.verb == "key") {
          bool secret = o.a[1] % 2;
          std::string kb;
          if (secret) {
            auto e(maidsafe::rsa::EncodeKey(keys->priv[key]));
            sim::NoSim ns;
            kb = std::string(e.string().begin(), e.string().end());
          } else {
            auto e(maidsafe::rsa::EncodeKey(keys->pub[key]));
            sim::NoSim ns;
            kb = std::string(e.string().begin(), e.string().end());
          }
          {
            sim::NoSim ns;
            if (how == kSwap || how == kForeignKey)
              how = kFlip;
            if (how != kSame && !Alter(how, &kb, ""))
              how = kSame;
            if (kb.size() < 3)
              continue;
          }
          bool same = false, threw = false;
          try {
            if (secret)
              same = maidsafe::rsa::MatchingKeys(
                  maidsafe::rsa::DecodeKey(maidsafe::rsa::EncodedPrivateKey(Vec(kb))), keys->priv[key]);
            else
              same = maidsafe::rsa::MatchingKeys(
                  maidsafe::rsa::DecodeKey(maidsafe::rsa::EncodedPublicKey(Vec(kb))), keys->pub[key]);
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          if (how == kSame && (threw || !same))
            sim::Fail("key-lost", what + ": an encoded key does not decode to itself");
        } else if (o.verb == "rsa") {
          maidsafe::rsa::CipherText c1(maidsafe::rsa::Encrypt(cr::PlainText(Vec(text)), keys->pub[key]));
          std::string cb;
          {
            sim::NoSim ns;
            cb = Raw(c1);
            if (how == kSwap)
              how = kFlip;
            if (how != kSame && how != kForeignKey && !Alter(how, &cb, ""))
              how = kSame;
          }
          std::string back;
          bool threw = false;
          try {
            back = Raw(maidsafe::rsa::Decrypt(maidsafe::rsa::CipherText(Vec(cb)),
                                              keys->priv[how == kForeignKey ? foreign : key]));
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          if (how == kSame && (threw || back != text))
            sim::Fail("not-decrypted", what + (threw ? ": error" : ": other bytes"));
          if (how != kSame && !threw && (back != text || how == kForeignKey))
            sim::Fail("tampering-unnoticed", what + ": decrypted");
        } else if (o.verb == "sign") {
          maidsafe::rsa::Signature sig(maidsafe::rsa::Sign(cr::PlainText(Vec(text)), keys->priv[key]));
          std::string db, sb;
          bool whole_sig = true;
          {
            sim::NoSim ns;
            db = text;
            sb = std::string(sig.string().begin(), sig.string().end());
            if (how != kSame && how != kForeignKey) {
              if (sim::Data(2)) {
                if (!Alter(how, &db, other))
                  how = kSame;
              } else {
                how = kFlip;  // a signature has a fixed size
                if (!Alter(how, &sb, ""))
                  how = kSame;
              }
            }
            if (db.empty())
              db = "x";
            (void)whole_sig;
          }
          bool ok = false, threw = false;
          try {
            ok = maidsafe::rsa::CheckSignature(cr::PlainText(Vec(db)), maidsafe::rsa::Signature(Vec(sb)),
                                               keys->pub[how == kForeignKey ? foreign : key]);
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          if (how == kSame && (threw || !ok))
            sim::Fail("signature-refused", what + ": the signature is refused");
          if (how != kSame && ok && !(db == text && how != kForeignKey &&
                                      sb == std::string(sig.string().begin(), sig.string().end())))
            sim::Fail("tampering-unnoticed", what + ": the signature is accepted");
        } else {
          std::string path, now;
          {
            sim::NoSim ns;
            path = Str("file%d", static_cast<int>(o.a[2]));
            io::Spit(path, text);
            now = text;
          }
          uint64_t f0 = io::Faults();
          maidsafe::rsa::Signature sig;
          bool signed_ok = false;
          try {
            sig = maidsafe::rsa::SignFile(path, keys->priv[key]);
            signed_ok = true;
          } catch (const std::exception&) {
          }
          {
            sim::NoSim ns;
            if (!signed_ok && io::Faults() == f0)
              sim::Fail("signature-refused", what + ": signing failed");
            if (signed_ok && io::Faults() != f0)
              sim::Probe("signed in spite of read faults");
          }
          if (!signed_ok)
            continue;
          // Whatever happened while it was read: a signature is one of the whole file.
          bool valid = maidsafe::rsa::CheckSignature(cr::PlainText(Vec(text)), sig, keys->pub[key]);
          {
            sim::NoSim ns;
            if (!valid)
              sim::Fail("signed-something-else", what + ": the signature made is not one of the file's content");
            if (how != kSame && how != kForeignKey && Alter(how, &now, other))
              io::Spit(path, now);
          }
          f0 = io::Faults();
          bool ok = false, threw = false;
          bool larger = how == kForeignKey && sim::Data(2);
          try {
            ok = maidsafe::rsa::CheckFileSignature(path, sig, keys->pub[larger ? 2 : how == kForeignKey ? foreign : key]);
          } catch (const std::exception&) {
            threw = true;
          }
          sim::NoSim ns;
          bool same = now == text && how != kForeignKey;
          if (same && io::Faults() == f0 && (threw || !ok))
            sim::Fail("signature-refused", what + ": the signature of the file is refused");
          if (!same && ok)
            sim::Fail("tampering-unnoticed", what + ": the signature of the file is accepted");
        }
      }
    });
  for (auto& t : ts)
    t.join();
}

sim::Registrar r25({"C25", GenShares, RunShares,
                    "one evaluation is one run of 1-3 threads splitting data into shares and recovering it from those "
                    "delivered, with drawn losses and order; non-trivial if a share was lost or reordered or threads "
                    "were interleaved",
                    {"crypto.cc", "bounded_string.h", "Crypto++"},
                    {"thread scheduler", "share delivery", "/dev/urandom"},
                    20000, 150000});
sim::Registrar r26({"C26", GenRandom, RunRandom,
                    "one evaluation is one run of 1-4 threads drawing random data and reseeding; the values returned "
                    "are compared with those one caller draws in a consistent order; non-trivial if threads were "
                    "interleaved",
                    {"utils.cc", "utils.h"},
                    {"thread scheduler"},
                    40000, 300000});
sim::Registrar r31({"C31", GenTamper, RunTamper,
                    "one evaluation is one run of 1-3 threads encrypting, signing, and decrypting or verifying what "
                    "was stored or sent, altered in a drawn way; non-trivial if something was altered or threads were "
                    "interleaved",
                    {"crypto.cc", "rsa.cc", "Crypto++"},
                    {"thread scheduler", "storage and transit of encrypted data", "file read errors", "/dev/urandom"},
                    12000, 150000});
}  // namespace
