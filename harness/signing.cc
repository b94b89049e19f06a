// C46: the signing tool, its main() run on simulated input, terminal and files.
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <termios.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"
#include "boost/tokenizer.hpp"
#include "cryptopp/aes.h"
#include "cryptopp/filters.h"
#include "cryptopp/gcm.h"
#include "cryptopp/hex.h"
#include "cryptopp/pssr.h"
#include "cryptopp/queue.h"
#include "cryptopp/rsa.h"
#include "cryptopp/sha.h"

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"

#include "../sim/io.h"
#include "../sim/sys.h"
#include "util.h"

#include "signing_keys.h"

// ---- what stands in for the end of the process, the terminal and the slow generation of keys
struct ToolExited {
  int code;
};
[[noreturn]] void ToolExit(int code) { throw ToolExited{code}; }
namespace std {
using ::ToolExit;
}
static std::vector<int> g_generated;
namespace maidsafe {
namespace rsa {
Keys SimGenerateKeyPair() {
  sim::NoSim ns;
  int k = static_cast<int>(g_generated.size() % 3);
  std::string der;
  CryptoPP::StringSource(kSigningKeys[k], true, new CryptoPP::HexDecoder(new CryptoPP::StringSink(der)));
  CryptoPP::StringSource s(der, true);
  Keys keys;
  keys.private_key.BERDecodePrivateKey(s, false, der.size());
  keys.public_key = PublicKey(keys.private_key);
  g_generated.push_back(k);
  return keys;
}
}  // namespace rsa
}  // namespace maidsafe

#define main ToolMain
#define exit ToolExit
#define GenerateKeyPair SimGenerateKeyPair
#include "maidsafe/common/tools/signing_tool.cc"
#undef main
#undef exit
#undef GenerateKeyPair

namespace signing {
using h::Line;
using h::Op;
using h::Pick;
using h::Str;
using sim::Config;
using sim::Program;
using sim::Rng;
namespace io = sim::io;
using std::string;

const char* const kFiles[] = {"a.txt", "my file.bin", "sub/c", "private", "public", "other key", "missing", "no/such", "sub", "empty",
                              "garbage", "cut", "a.txt.sig", "g1one.keyfile", "sub/two.keyfile", "keys 2"};
enum { kPlain = 3 };
const char* const kPasswords[] = {"secret", "secret word", "secret wort", "x", " lead", "pass\tword", "  ", ""};
const char* const kNames[] = {"one", "two", "three", "four w", "no/where", "", "one"};
const char* const kLocations[] = {"g1", "sub/", "./", "no/"};
const char* const kJunk[] = {"", "abc", "12", "-1", "99999999999", "7x", " "};

void Gen(Rng& r, Program& p, Config& c) {
  bool faults = r.Chance(0.5);
  p.params["faults"] = faults;
  p.params["nl"] = r.Chance(0.7);
  p.params["seed"] = static_cast<int64_t>(r.Below(1000000));
  auto put = [&](const char* verb, int64_t a) { p.ops.push_back(Line(0, verb, {a})); };
  auto junk = [&](double q) {
    while (r.Chance(q))
      put("junk", static_cast<int64_t>(r.Below(7)));
  };
  auto file = [&](std::initializer_list<int64_t> likely) {
    junk(0.03);
    put("file", r.Chance(0.75) ? Pick<int64_t>(r, likely) : static_cast<int64_t>(r.Below(sizeof kFiles / sizeof *kFiles)));
  };
  auto password = [&](int64_t pw) {
    junk(0.02);
    if (r.Chance(0.1)) {
      put("pw", static_cast<int64_t>(r.Below(8)));
      put("pw", static_cast<int64_t>(r.Below(8)));
    }
    put("pw", pw);
    put("pw", pw);
  };
  auto pick_password = [&] { return r.Chance(0.5) ? 0 : static_cast<int64_t>(r.Below(6)); };
  std::vector<std::pair<int64_t, int64_t>> group;  // name and password
  int64_t threshold = 2, location = 0;
  int n = static_cast<int>(r.Range(2, 12));
  for (int i = 0; i < n; ++i) {
    int64_t k = Pick<int64_t>(r, {1, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 10, 11, 11, 11, 12});
    if (i == 0 && r.Chance(0.7))
      k = Pick<int64_t>(r, {1, 4, 6});
    if (k == 7 && group.empty())
      k = 6;
    if (k == 6 && !group.empty() && r.Chance(0.6))
      k = 7;
    junk(0.03);
    put("num", k);
    switch (k) {
      case 2:
        file({3, 5, 15});
        break;
      case 3:
        file({4, 15});
        break;
      case 4:
        file({3, 3, 5, 4, 11});
        break;
      case 5:
        file({4, 4, 3, 11});
        break;
      case 8:
        file({0, 1, 2});
        break;
      case 9:
        file({0, 1, 2});
        break;
      case 10:
      case 11:
        file({0, 1, 2});
        password(pick_password());
        break;
      case 6: {
        int64_t max = r.Range(2, 4), min = r.Chance(0.8) ? r.Range(2, max) : r.Range(-1, 5);
        junk(0.05);
        put("num", max);
        put("num", min);
        if (max < min || min < 2)
          break;
        put("loc", location = r.Chance(0.9) ? static_cast<int64_t>(r.Below(3)) : 3);
        group.clear();
        threshold = min;
        for (int64_t j = 0; j < max; ++j) {
          if (r.Chance(0.1)) {
            put("name", static_cast<int64_t>(r.Below(7)));
            password(pick_password());
          }
          group.push_back({j, pick_password()});
          put("name", j);
          password(group.back().second);
        }
        file({4, 15});
        break;
      }
      case 7: {
        put("num", r.Chance(0.9) ? threshold : r.Range(-1, 4));
        put("loc", r.Chance(0.95) ? location : static_cast<int64_t>(r.Below(4)));
        auto g = group;
        for (size_t j = g.size(); j > 1; --j)
          std::swap(g[j - 1], g[r.Below(j)]);
        for (int64_t j = 0; j < threshold && j < static_cast<int64_t>(g.size()); ++j) {
          put("name", r.Chance(0.97) ? g[j].first : static_cast<int64_t>(r.Below(7)));
          password(r.Chance(0.97) ? g[j].second : pick_password());
        }
        break;
      }
    }
  }
  if (r.Chance(0.6))
    put("num", 0);
  if (faults) {
    double q = Pick(r, {0.02, 0.1, 0.3});
    c.prob[sim::K_IO_OPEN] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_READ] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_IO_WRITE] = r.Chance(0.6) ? q : 0;
    c.prob[sim::K_IO_CLOSE] = r.Chance(0.3) ? q : 0;
    c.prob[sim::K_IO_META] = r.Chance(0.5) ? q : 0;
    c.prob[sim::K_WFAULT2] = r.Chance(0.1) ? 0.05 : 0;  // input fails
  }
  c.max_steps = 4000000;
}

string Text(const Op& o) {
  size_t a = static_cast<size_t>(o.a[0]);
  return o.verb == "num" ? std::to_string(o.a[0]) : o.verb == "file" ? kFiles[a] : o.verb == "pw" ? kPasswords[a] : o.verb == "name" ? kNames[a]
         : o.verb == "loc" ? kLocations[a] : kJunk[a];
}

// ---------------------------------------------------------------------------- reference
struct FileState {
  string bytes;
  mode_t mode = 0;
  bool operator==(const FileState& o) const { return bytes == o.bytes && mode == o.mode; }
};
using Files = std::map<string, FileState>;
Files Snapshot() {
  Files f;
  for (auto& e : boost::filesystem::recursive_directory_iterator(".")) {
    struct stat st;
    string path = e.path().string().substr(2);
    if (stat(path.c_str(), &st) == 0 && S_ISREG(st.st_mode)) {
      f[path].bytes = io::Slurp(path);
      f[path].mode = st.st_mode;
    }
  }
  return f;
}
string Unhex(const char* s) {
  string o;
  CryptoPP::StringSource(s, true, new CryptoPP::HexDecoder(new CryptoPP::StringSink(o)));
  return o;
}
CryptoPP::RSA::PrivateKey Key(int k) {
  string der = Unhex(kSigningKeys[k]);
  CryptoPP::StringSource s(der, true);
  CryptoPP::RSA::PrivateKey key;
  key.BERDecodePrivateKey(s, false, der.size());
  return key;
}
string PrivateBytes(int k) {
  CryptoPP::ByteQueue q;
  Key(k).DEREncodePrivateKey(q);
  string o;
  CryptoPP::StringSink s(o);
  q.CopyTo(s);
  return o;
}
string PublicBytes(int k) {
  CryptoPP::ByteQueue q;
  CryptoPP::RSA::PublicKey(Key(k)).DEREncodePublicKey(q);
  string o;
  CryptoPP::StringSink s(o);
  q.CopyTo(s);
  return o;
}
bool Signed(const string& data, const string& signature, int key) {
  if (key < 0)
    return false;
  CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier v{CryptoPP::RSA::PublicKey(Key(key))};
  return v.VerifyMessage(reinterpret_cast<const CryptoPP::byte*>(data.data()), data.size(),
                         reinterpret_cast<const CryptoPP::byte*>(signature.data()), signature.size());
}
bool Decrypted(const string& data, const string& password, string* out) {
  CryptoPP::byte d[64];
  CryptoPP::SHA512().CalculateDigest(d, reinterpret_cast<const CryptoPP::byte*>(password.data()), password.size());
  out->clear();
  try {
    CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
    dec.SetKeyWithIV(d, maidsafe::crypto::AES256_KeySize, d + maidsafe::crypto::AES256_KeySize, maidsafe::crypto::AES256_IVSize);
    CryptoPP::StringSource(data, true, new CryptoPP::AuthenticatedDecryptionFilter(dec, new CryptoPP::StringSink(*out)));
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
string Recovered(const std::vector<string>& shares) {
  maidsafe::crypto::DataParts parts;
  for (auto& s : shares)
    if (s.size() < 5 || s.size() != shares[0].size())
      return "";
    else
      parts.emplace_back(std::vector<unsigned char>(s.begin(), s.end()));
  if (parts.empty())
    return "";
  try {
    auto v = maidsafe::crypto::SecretRecoverData(parts).string();
    return string(v.begin(), v.end());
  } catch (const std::exception&) {
    return "";
  }
}
bool Has(const string& s, const string& what) { return s.find(what) != string::npos; }

enum Ask { kMenu, kSavePrivate, kSavePublic, kLoadPrivate, kLoadPublic, kSign, kCheck, kEncrypt, kDecrypt, kPassword, kAgain, kMax, kMin,
           kLocation, kNewName, kName, kNone };
const char* const kAsked[] = {"0:  Exit the system", "save the private key", "save the public key", "load private key", "load public key",
                              "filename to sign", "filename to validate", "filename to encrypt", "filename to decrypt", "Enter passwd",
                              "Re-Enter same passwd", "total number of people", "number of people required", "location of files", "unique name",
                              "Enter name"};

struct Answer {
  Ask ask;
  string line, out;  // what is printed after it
};

struct Judge {
  std::ostringstream out;
  Ask now = kNone;
  int action = -1;
  bool over = false;
  std::vector<Answer> answers;  // since the menu
  string after_menu;
  Files before, mid;
  std::set<Ask> asked;  // since the menu
  uint64_t faults_before = 0;
  size_t generated_before = 0;
  int priv = -1, pub = -1;
  bool group = false;
  std::vector<string> private_bytes, public_bytes;
  // the file being encrypted or decrypted
  string in_place, password;
  bool in_place_known = false;

  [[noreturn]] void Bad(const char* cls, const string& msg) {
    string m = msg;
    for (auto& c : m)
      if (c == '\n')
        c = ' ';
    sim::Fail(cls, m);
    abort();
  }
  static bool Number(const string& s, int* n) { return !!(std::stringstream(s) >> *n); }

  // Before each line is read.
  void Prompted() {
    string text = out.str();
    out.str("");
    size_t best = string::npos;
    Ask ask = kNone;
    for (int k = 0; k < kNone; ++k) {
      size_t at = text.rfind(kAsked[k]);
      if (at != string::npos && (best == string::npos || at > best)) {
        best = at;
        ask = static_cast<Ask>(k);
      }
    }
    if (answers.empty())
      after_menu += text;
    else
      answers.back().out += text;
    if (ask != kNone)
      now = ask;
    if (now == kNone)
      Bad("no-question", "input is read without a question");
    asked.insert(now);
    bool secret = now == kPassword || now == kAgain;
    bool echo = (sim::sys::g_tty_state.c_lflag & ECHO) != 0;
    if (secret && echo)
      Bad("password-shown", "the terminal shows the password being entered");
    if (!secret && !echo)
      Bad("echo-off", "the terminal doesn't show what is entered although it isn't a password");
    if (now == kSavePublic && action == 6 && mid.empty())
      mid = Snapshot();  // whatever is overwritten with the public key is what was asked for
    if (now == kMenu && ask == kMenu) {
      Finish(true);
      Begin();
    }
  }
  void Begin() {
    before = Snapshot();
    mid.clear();
    asked.clear();
    faults_before = sim::FaultsFired();
    generated_before = g_generated.size();
    action = -1;
    answers.clear();
    after_menu.clear();
    in_place_known = false;
    in_place.clear();
  }
  void Line(const string& line) {
    if (over)
      Bad("exit-ignored", "input is read after the exit was chosen");
    sim::Log("asked %d: \"%s\"", now, line.c_str());
    if (now == kMenu) {
      int n;
      if (Number(line, &n))
        action = n;
      if (action == 0 && Number(line, &n))
        over = true;
      return;
    }
    if (line.empty() && now != kNewName && now != kMin)
      return;  // asked again
    answers.push_back({now, line, ""});
    if (now == kEncrypt || now == kDecrypt)
      in_place = line;
    if (now == kAgain && answers.size() >= 2 && answers[answers.size() - 2].line == line && !line.empty() && (action == 10 || action == 11)) {
      password = line;
      in_place_known = true;
    }
  }
  // After every file operation: what a crash would leave.
  void Crash(const string& op) {
    if (!in_place_known || !before.count(in_place))
      return;
    bool ok;
    string bytes = io::Slurp(in_place, &ok), plain;
    const string& old = before[in_place].bytes;
    if (!ok)
      Bad("file-lost", Str("after %s, \"%s\" doesn't exist", op.c_str(), in_place.c_str()));
    if (bytes == old)
      return;
    bool good = action == 10 ? Decrypted(bytes, password, &plain) && plain == old : Decrypted(old, password, &plain) && plain == bytes;
    if (!good)
      Bad("file-lost", Str("after %s, \"%s\" holds neither its old nor its new content (%zu bytes)", op.c_str(), in_place.c_str(), bytes.size()));
  }
  const Answer* Find(Ask a) const {
    for (auto& x : answers)
      if (x.ask == a && !x.line.empty())
        return &x;
    return nullptr;
  }
  static bool Writable(const string& path) {
    struct stat st;
    if (stat(path.c_str(), &st) == 0)
      return S_ISREG(st.st_mode);
    size_t slash = path.rfind('/');
    string parent = slash == string::npos ? "." : path.substr(0, slash);
    return slash + 1 != path.size() && stat(parent.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
  }
  static string Normal(const string& path) {
    string p = path;
    while (p.compare(0, 2, "./") == 0)
      p = p.substr(2);
    return p;
  }
  // The action is over (or the input has ended in the middle of it).
  void Finish(bool complete) {
    if (action < 0) {
      Unchanged({}, Snapshot());
      return;
    }
    Files after = Snapshot();
    bool failed = sim::FaultsFired() != faults_before;
    string all = after_menu;
    for (auto& a : answers)
      all += a.out;
    std::set<string> may_change;
    static const Ask first[] = {kNone, kNone, kSavePrivate, kSavePublic, kLoadPrivate, kLoadPublic, kMax, kMin, kSign, kCheck, kEncrypt, kDecrypt};
    if (complete && action >= 2 && action <= 11 && !(action == 2 && group) && !asked.count(first[action]))
      Bad("not-asked", "action " + std::to_string(action) + " did nothing");
    auto said = [&](const char* w) { return Has(all, w); };
    auto need = [&](bool ok, const char* cls, const string& msg) {
      if (!ok)
        Bad(cls, msg);
    };
    auto file = [&](Ask a) { return Find(a) ? Find(a)->line : string(); };
    auto has = [&](const string& f) { return before.count(f) != 0; };
    auto save = [&](Ask a, const std::vector<string>& bytes, int key, const char* stored) {
      string f = file(a);
      if (f.empty()) {
        need(!said(stored), "saved-nothing", "a key is said to be stored though no file was named");
        return;
      }
      bool ok = said(stored);
      if (ok) {
        need(key >= 0, "saved-nothing", "a key is said to be stored though there is none");
        need(after.count(f) && after[f].bytes == bytes[key], "wrong-key-saved", "\"" + f + "\" doesn't hold the key which is said to be stored in it");
        sim::Probe("key saved");
      } else {
        need(failed || !complete || key < 0 || !Writable(f), "not-saved", "the key isn't stored in \"" + f + "\" though nothing failed");
      }
      if (ok || (failed && key >= 0))
        may_change.insert(f);
    };
    auto load = [&](Ask a, const std::vector<string>& bytes, int* key, const char* loaded) {
      string f = file(a);
      int found = -1;
      if (!f.empty() && has(f))
        for (int k = 0; k < 3; ++k)
          if (before[f].bytes == bytes[k])
            found = k;
      if (said(loaded)) {
        need(found >= 0, "loaded-nothing", "a key is said to be loaded from \"" + f + "\", which isn't one");
        *key = found;
        sim::Probe("key loaded");
      } else {
        need(failed || !complete || found < 0, "not-loaded", "the key in \"" + f + "\" isn't loaded though nothing failed");
      }
    };
    switch (action) {
      case 1:
        if (said("Creating keys sucessful")) {
          need(g_generated.size() == generated_before + 1, "no-keys", "keys are said to be created though none are");
          priv = pub = g_generated.back();
        } else {
          need(failed || !complete, "no-keys", "keys aren't created");
        }
        break;
      case 2:
        if (group) {
          need(!said("Stored private"), "group-key-saved", "the group's private key was saved");
        } else {
          need(!complete || !file(kSavePrivate).empty(), "not-asked", "no file is asked for");
          save(kSavePrivate, private_bytes, priv, "Stored private key in ");
        }
        break;
      case 3:
        save(kSavePublic, public_bytes, pub, "Stored public key in ");
        break;
      case 4:
        load(kLoadPrivate, private_bytes, &priv, "private key loaded and valid");
        break;
      case 5:
        load(kLoadPublic, public_bytes, &pub, "public key loaded and valid");
        break;
      case 6: {
        int max = 0, min = 0;
        for (auto& a : answers) {
          int n;
          if (a.ask == kMax && Number(a.line, &n))
            max = n;
          if (a.ask == kMin && Number(a.line, &n))
            min = n;
        }
        if (g_generated.size() != generated_before) {
          need(priv < 0, "key-replaced", "the private key was replaced by a new one when the group was created");
          need(g_generated.size() == generated_before + 1, "no-keys", "more than one pair of keys was created");
          priv = pub = g_generated.back();
        }
        std::map<string, string> saved, tried;  // name -> password
        string name, loc = Find(kLocation) ? Find(kLocation)->line : "";
        bool named = false;
        for (size_t i = 0; i < answers.size(); ++i) {
          Answer& a = answers[i];
          if (a.ask == kNewName) {
            name = a.line;
            named = true;
          }
          if (a.ask != kAgain || !named || i == 0 || answers[i - 1].line != a.line || a.line.empty())
            continue;
          bool ok = Has(a.out, "File is now encrypted and saved as");
          string path = Normal(loc + name + ".keyfile");
          if (ok) {
            need(!tried.count(name), "name-twice", "the name \"" + name + "\" was accepted twice");
            saved[name] = a.line;
          } else {
            need(failed || !complete || tried.count(name) || !Writable(path), "no-keyfile", "no key file was written for \"" + name + "\" though nothing failed");
          }
          if (ok || failed)
            may_change.insert(path);
          tried[name] = a.line;
          named = false;
        }
        if (Find(kNewName) && complete && !said("failed: ") && max >= 2) {
          need(static_cast<int>(saved.size()) == max, "group-size", Str("%zu key files were written for %d people", saved.size(), max));
          std::vector<string> shares;
          for (auto& s : saved) {
            string share, path = Normal(loc + s.first + ".keyfile");
            need(mid.count(path) && Decrypted(mid[path].bytes, s.second, &share), "bad-keyfile", "the key file of \"" + s.first + "\" can't be decrypted");
            shares.push_back(share);
          }
          for (int i = 0; i < 3; ++i) {
            std::vector<string> some = shares;
            for (size_t j = some.size(); j > 1; --j)
              std::swap(some[j - 1], some[sim::Mix(i, j + sim::Seq()) % j]);
            some.resize(min);
            need(priv >= 0 && Recovered(some) == private_bytes[priv], "group-key-lost", Str("%d of %d key files don't give the private key back", min, max));
            some.resize(min - 1);
            need(Recovered(some) != private_bytes[priv], "group-key-open", Str("%d key files give the private key although %d should be required", min - 1, min));
          }
          sim::Probe("group created");
        }
        save(kSavePublic, public_bytes, pub, "Stored public key in ");
        break;
      }
      case 7: {
        int quorum = Find(kMin) ? atoi(Find(kMin)->line.c_str()) : 0;
        string name, loc = Find(kLocation) ? Find(kLocation)->line : "";
        std::vector<string> shares;
        bool good = quorum >= 2;
        for (size_t i = 0; i < answers.size(); ++i) {
          Answer& a = answers[i];
          if (a.ask == kName && !a.line.empty())
            name = a.line;
          if (a.ask != kAgain || name.empty() || i == 0 || answers[i - 1].line != a.line || a.line.empty())
            continue;
          string path = Normal(loc + name + ".keyfile"), share;
          name.clear();
          if (!has(path))
            continue;
          if (Has(a.out, "error reading file")) {
            need(failed, "unread", "\"" + path + "\" isn't read though nothing failed");
            continue;
          }
          good &= Decrypted(before[path].bytes, a.line, &share);
          shares.push_back(share);
        }
        string key = good && static_cast<int>(shares.size()) == quorum ? Recovered(shares) : "";
        int found = -1;
        for (int k = 0; k < 3; ++k)
          if (key == private_bytes[k])
            found = k;
        if (said("private key loaded and valid")) {
          need(found >= 0, "signed-in", "the group is signed in though the key files don't give a key");
          priv = found;
          group = true;
          sim::Probe("group signed in");
        } else {
          need(failed || !complete || found < 0, "not-signed-in", "the group isn't signed in though enough of them gave their passwords");
        }
        break;
      }
      case 8: {
        string f = file(kSign), sig = f + ".sig";
        bool ok = said("Stored signature in ");
        if (ok) {
          need(priv >= 0, "signed-without-key", "a signature is said to be stored though there is no private key");
          need(has(f) && after.count(sig) && Signed(before[f].bytes, after[sig].bytes, priv), "wrong-signature",
               "\"" + sig + "\" isn't a signature of \"" + f + "\"");
          sim::Probe("signed");
        } else {
          need(failed || !complete || f.empty() || priv < 0 || !has(f) || !Writable(sig), "not-signed", "\"" + f + "\" isn't signed though nothing failed");
        }
        if (ok || (failed && priv >= 0))
          may_change.insert(sig);
        break;
      }
      case 9: {
        string f = file(kCheck), sig = f + ".sig";
        bool possible = !f.empty() && has(f) && has(sig) && pub >= 0;
        bool good = possible && Signed(before[f].bytes, before[sig].bytes, pub);
        if (said("Signature valid"))
          need(good, "accepted", "the signature of \"" + f + "\" is said to be valid though it isn't");
        else
          need(failed || !complete || !good, "refused", "the signature of \"" + f + "\" isn't said to be valid though it is");
        need(!said("Invalid signature") || failed || (possible && !good), "refused", "the signature of \"" + f + "\" is said to be invalid though it isn't");
        need(failed || !complete || !possible || good || said("failed: ") || said("Invalid signature"), "no-verdict",
             "nothing is said about the signature of \"" + f + "\"");
        if (good)
          sim::Probe("signature checked");
        break;
      }
      case 10:
      case 11: {
        string f = file(action == 10 ? kEncrypt : kDecrypt), plain;
        bool ok = said(action == 10 ? "File is now encrypted" : "File is now decrypted");
        bool able = in_place_known && has(f) && !before[f].bytes.empty() && (action == 10 || Decrypted(before[f].bytes, password, &plain));
        if (ok) {
          need(able && after.count(f), "said-done", "\"" + f + "\" is said to be done though it can't be");
          if (action == 10)
            need(Decrypted(after[f].bytes, password, &plain) && plain == before[f].bytes, "wrong-content", "\"" + f + "\" isn't encrypted with the password");
          else
            need(after[f].bytes == plain, "wrong-content", "\"" + f + "\" isn't decrypted");
          need(after[f].mode == before[f].mode, "mode-changed", "the permissions of \"" + f + "\" were changed");
          may_change.insert(f);
          sim::Probe(action == 10 ? "encrypted" : "decrypted");
        } else {
          need(failed || !complete || !able, "not-done", "\"" + f + "\" is left as it was though nothing failed");
        }
        break;
      }
      case 0:
        break;
      default:
        need(!complete || said("unknown option"), "unknown-option", "an unknown option isn't reported");
    }
    for (auto& f : after)
      if (failed && !before.count(f.first) && !in_place.empty() && f.first.compare(0, in_place.size(), in_place) == 0)
        may_change.insert(f.first);  // what couldn't be removed
    Unchanged(may_change, after);
  }
  void Unchanged(const std::set<string>& except, Files after) {
    for (auto& e : except) {
      string n = Normal(e);
      before.erase(n);
      after.erase(n);
    }
    for (auto& f : before)
      if (!after.count(f.first) || !(after[f.first] == f.second))
        Bad("file-changed", "\"" + f.first + "\" was changed or removed by action " + std::to_string(action));
    for (auto& f : after)
      if (!before.count(f.first))
        Bad("file-added", "\"" + f.first + "\" was added by action " + std::to_string(action));
  }
};

struct In : std::streambuf {
  std::vector<string> lines;
  string now;
  size_t next = 0;
  int after_end = 0;
  bool nl = true, with_faults = false;
  Judge* judge = nullptr;
  int_type underflow() override {
    sim::NoSim ns;
    if (next < lines.size() && sim::Choose(sim::K_WFAULT2, 2)) {
      lines.resize(next);
      ++after_end;
      throw std::ios_base::failure("simulated read error");
    }
    if (next + 1 == lines.size() && !nl && lines.back().empty())
      lines.pop_back();
    if (next >= lines.size()) {
      if (++after_end > 300)
        judge->Bad("endless-loop", "input is read again and again although it has ended");
      return traits_type::eof();
    }
    if (next == 0)
      sim::SetFaultsEnabled(with_faults);
    judge->Prompted();
    now = lines[next++];
    judge->Line(now);
    if (nl || next < lines.size())
      now += '\n';
    setg(&now[0], &now[0], &now[0] + now.size());
    return traits_type::to_int_type(*gptr());
  }
  int_type uflow() override {
    int_type c = underflow();
    if (!traits_type::eq_int_type(c, traits_type::eof()))
      gbump(1);
    return c;
  }
};

void Run(const Program& p) {
  In in;
  Judge judge;
  std::streambuf* real_cin;
  std::streambuf* real_cout;
  {
    sim::NoSim ns;
    for (auto& o : h::Parse(p))
      in.lines.push_back(Text(o));
    in.nl = p.P("nl");
    in.judge = &judge;
    g_generated.clear();
    sim::sys::g_tty_simulated = sim::sys::g_tty = true;
    memset(&sim::sys::g_tty_state, 0, sizeof sim::sys::g_tty_state);
    sim::sys::g_tty_state.c_lflag = ECHO;
    for (int k = 0; k < 3; ++k) {
      judge.private_bytes.push_back(PrivateBytes(k));
      judge.public_bytes.push_back(PublicBytes(k));
    }
    mkdir("sub", 0700);
    int64_t seed = p.P("seed");
    io::Spit("a.txt", h::Bytes(seed, 1 + seed % 50));
    io::Spit("my file.bin", h::Bytes(seed + 1, seed % 7 == 0 ? 9000 + seed % 100 : 3));
    io::Spit("my", "another file");
    io::Spit("sub/c", h::Bytes(seed + 2, 64));
    chmod("sub/c", 0600);
    io::Spit("private", judge.private_bytes[seed % 3]);
    io::Spit("public", judge.public_bytes[seed / 3 % 3]);
    io::Spit("other key", judge.private_bytes[(seed + 1) % 3]);
    io::Spit("empty", "");
    io::Spit("garbage", h::Bytes(seed + 3, 40));
    io::Spit("cut", judge.private_bytes[0].substr(0, 1000));
    io::g_after = [&](const char* op, const string&) { judge.Crash(op); };
    judge.Begin();
    real_cin = std::cin.rdbuf(&in);
    real_cout = std::cout.rdbuf(judge.out.rdbuf());
    std::cin.clear();
  }
  in.with_faults = p.P("faults") != 0;
  sim::SetFaultsEnabled(false);
  try {
    ToolMain();
  } catch (const ToolExited& e) {
    sim::NoSim ns;
    if (e.code != 0)
      judge.Bad("exit-code", "the tool failed");
  } catch (const std::exception& e) {
    sim::NoSim ns;
    judge.Bad("threw", string("the tool ends with an exception: ") + e.what());
  }
  sim::NoSim ns;
  std::cin.rdbuf(real_cin);
  std::cout.rdbuf(real_cout);
  io::g_after = nullptr;
  if (!judge.over && !(in.next >= in.lines.size() && in.after_end > 0))
    judge.Bad("exited", "the tool ends although that wasn't chosen");
  if (!(sim::sys::g_tty_state.c_lflag & ECHO))
    judge.Bad("echo-off", "the terminal is left without echo");
  string rest = judge.out.str();
  (judge.answers.empty() ? judge.after_menu : judge.answers.back().out) += rest;
  judge.Finish(false);
  if (io::OpenFds())
    judge.Bad("descriptor-leak", "files are left open");
}

sim::Registrar r46({"C46", Gen, Run,
                    "one simulated run of the tool on up to 80 lines of input, which may end or fail anywhere, with failing file "
                    "operations; every file is compared with its old and new content after every file operation (as a crash would "
                    "leave it); non-trivial: at least two context switches or a fault",
                    {"tools/signing_tool.cc", "rsa.cc", "crypto.cc", "utils.cc", "Crypto++"},
                    {"standard input, output and terminal", "generation of keys (three fixed pairs)", "errors of files"},
                    4000, 100000});
}  // namespace signing
