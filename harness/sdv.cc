// C18, C19, C20: version trees against a reference model.
#include <algorithm>
#include <memory>
#include <new>
#include <vector>

#include "maidsafe/common/error.h"
#include "maidsafe/common/data_types/structured_data_versions.h"

#include "util.h"

namespace {
using namespace h;  // NOLINT
using SDV = maidsafe::StructuredDataVersions;
using VN = SDV::VersionName;

// A name in the model: index and tag; tag -1 is "no ID".
struct N {
  int64_t idx;
  int tag;
  bool operator<(const N& o) const { return idx != o.idx ? idx < o.idx : tag < o.tag; }
  bool operator==(const N& o) const { return idx == o.idx && tag == o.tag; }
  bool operator!=(const N& o) const { return !(*this == o); }
};
const N kNone{-1, -1};

std::string S(const N& n) {
  return n.tag < 0 ? std::string("none") : Str("%d-%d", static_cast<int>(n.idx), n.tag);
}
std::string S(const std::vector<N>& v) {
  std::string s;
  for (auto& n : v)
    s += (s.empty() ? "" : " ") + S(n);
  return "[" + s + "]";
}
VN Real(const N& n) {
  if (n.tag < 0)
    return VN();
  std::string b = Bytes(n.tag + 5000, 64);
  b[0] = static_cast<char>(n.tag >> 8);
  b[1] = static_cast<char>(n.tag);
  return VN(static_cast<uint64_t>(n.idx), maidsafe::Identity(b));
}
N Back(const VN& v) {
  if (!v.id.IsInitialised())
    return kNone;
  auto& b = v.id.string();
  N n{static_cast<int64_t>(v.index), (static_cast<int>(b[0]) << 8) | static_cast<int>(b[1])};
  if (Real(n).id != v.id)
    sim::Fail("wrong-data", "a version's ID was altered");
  return n;
}

enum Err { kOk, kInvalid, kLimit, kNoSuch, kMemory, kOther };
const char* const kErrNames[] = {"ok", "invalid argument", "cannot exceed limit", "no such element", "out of memory", "other error"};
Err Code(const maidsafe::maidsafe_error& e) {
  if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::invalid_argument))
    return kInvalid;
  if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::cannot_exceed_limit))
    return kLimit;
  if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element))
    return kNoSuch;
  return kOther;
}

struct Outcome {
  unsigned errs = 0;  // set of acceptable errors (bit per Err); 0: success
  N removed = kNone;
};

struct Model {
  size_t maxv = 1, maxb = 1;
  std::map<N, N> decl;  // version -> the predecessor it was added under
  N root = kNone;

  bool Has(const N& n) const { return decl.count(n) != 0; }
  bool Attached(const N& n) const { return Has(decl.at(n)); }
  std::vector<N> Children(const N& n) const {
    std::vector<N> v;
    for (auto& d : decl)
      if (d.second == n)
        v.push_back(d.first);
    return v;
  }
  std::vector<N> Tips() const {  // highest first
    std::vector<N> v;
    for (auto it = decl.rbegin(); it != decl.rend(); ++it)
      if (Children(it->first).empty())
        v.push_back(it->first);
    return v;
  }
  std::vector<N> Branch(N n) const {
    std::vector<N> v{n};
    while (Attached(n))
      v.push_back(n = decl.at(n));
    return v;
  }
  bool RealRoot() const { return root != kNone && decl.at(root) == kNone; }

  Outcome Put(const N& o, const N& n) {
    Outcome out;
    if (n == kNone) {
      out.errs = 1u << kInvalid;
      return out;
    }
    if (Has(n)) {
      if (decl[n] != o)
        out.errs = 1u << kInvalid;
      else
        sim::Probe("added a known version again");
      return out;
    }
    bool is_root = o == kNone || decl.empty() || n.idx == 0;
    bool is_orphan = !is_root && !Has(o);
    auto waiting = Children(n);  // orphans (or the provisional root) waiting for this version
    bool invalid = false;
    if (is_root && RealRoot())
      invalid = true;
    if (o == n)
      invalid = true;
    if (Has(o)) {
      auto b = Branch(o);
      if (std::find(waiting.begin(), waiting.end(), b.back()) != waiting.end()) {
        invalid = true;
        sim::Probe("would have closed a circle");
      }
    }
    if (is_orphan && root.idx == 0 && o.idx == 0 && root.tag != o.tag)
      invalid = true;
    bool unorphans_root = root != kNone && std::find(waiting.begin(), waiting.end(), root) != waiting.end();
    size_t tips = Tips().size();
    bool parent_tip = !is_root && !is_orphan && Children(o).empty();
    bool exceeds = tips + (waiting.empty() ? 1 : 0) - (parent_tip ? 1 : 0) > maxb;
    bool root_tip = root != kNone && Children(root).empty();
    if (invalid) {
      out.errs = 1u << kInvalid;
      if (exceeds && !root_tip)
        out.errs |= 1u << kLimit;
      return out;
    }
    bool full = decl.size() == maxv;
    if ((full && (is_root || unorphans_root)) || (exceeds && is_root)) {
      out.removed = n;
      sim::Probe("a new root was dropped at once");
      return out;
    }
    if (exceeds && !root_tip) {
      out.errs = 1u << kLimit;
      sim::Probe("branch limit refused");
      return out;
    }
    bool erase = full || exceeds;
    decl[n] = o;
    if (is_root) {
      root = n;
    } else if (unorphans_root) {
      root = Branch(n).back();
      if (!is_orphan)
        sim::Probe("the provisional root joined another branch");
    } else if (erase) {
      out.removed = root;
      sim::Probe(full ? "version limit dropped the root" : "branch limit dropped the root");
      EraseRoot();
    }
    if (!waiting.empty())
      sim::Probe("orphans attached");
    return out;
  }
  void EraseRoot() {
    auto kids = Children(root);
    decl.erase(root);
    if (!kids.empty()) {
      if (kids.size() > 1)
        sim::Probe("root with several children dropped");
      root = kids.front();
    } else {
      PickRoot();
    }
  }
  void PickRoot() {
    root = kNone;
    for (auto& d : decl)
      if (!Has(d.second)) {
        root = d.first;
        return;
      }
  }
  Err Delete(N n) {
    if (!Has(n))
      return kNoSuch;
    if (!Children(n).empty())
      return kInvalid;
    for (;;) {
      N parent = decl[n];
      bool att = Has(parent);
      decl.erase(n);
      if (!att) {
        if (n == root)
          PickRoot();
        return kOk;
      }
      if (!Children(parent).empty())
        return kOk;
      n = parent;
    }
  }
};

std::vector<N> BackAll(const std::vector<VN>& v) {
  sim::NoSim ns;
  std::vector<N> out;
  for (auto& x : v)
    out.push_back(Back(x));
  return out;
}

// What a caller can see of a structure.
void Compare(const SDV& s, const Model& m, const char* when) {
  auto real = s.Get();
  std::vector<N> tips, want;
  {
    sim::NoSim ns;
    tips = BackAll(real);
    want = m.Tips();
    if (tips != want)
      sim::Fail("wrong-tips", Str("%s: tips are %s, expected %s", when, S(tips).c_str(), S(want).c_str()));
    if (s.max_versions() != m.maxv || s.max_branches() != m.maxb)
      sim::Fail("wrong-limits", Str("%s: limits are %u, %u, expected %zu, %zu", when, s.max_versions(), s.max_branches(), m.maxv, m.maxb));
  }
  for (auto& t : real) {
    auto b = s.GetBranch(t);
    sim::NoSim ns;
    auto got = BackAll(b);
    auto w = m.Branch(Back(t));
    if (got != w)
      sim::Fail("wrong-branch", Str("%s: branch of %s is %s, expected %s", when, S(Back(t)).c_str(), S(got).c_str(), S(w).c_str()));
  }
  sim::NoSim ns;
  std::vector<N>().swap(tips);
  std::vector<N>().swap(want);
}

struct PutResult {
  Err err = kOk;
  N removed = kNone;
};
PutResult DoPut(SDV& s, const N& o, const N& n, bool faults = false) {
  PutResult r;
  VN ro = Real(o), rn = Real(n);
  sim::AllocFaults(faults);
  try {
    auto x = s.Put(ro, rn);
    sim::AllocFaults(false);
    if (x)
      r.removed = Back(*x);
  } catch (const maidsafe::maidsafe_error& e) {
    sim::AllocFaults(false);
    r.err = Code(e);
  } catch (const std::bad_alloc&) {
    sim::AllocFaults(false);
    r.err = kMemory;
  }
  sim::AllocFaults(false);
  return r;
}
void CheckPut(const PutResult& r, const Outcome& w, const N& o, const N& n) {
  sim::NoSim ns;
  sim::Log("put %s under %s -> %s removed %s", S(n).c_str(), S(o).c_str(), kErrNames[r.err], S(r.removed).c_str());
  if (w.errs == 0 && r.err != kOk)
    sim::Fail("refused", Str("adding %s under %s failed with %s", S(n).c_str(), S(o).c_str(), kErrNames[r.err]));
  if (w.errs != 0 && !(w.errs & (1u << r.err)))
    sim::Fail("not-refused", Str("adding %s under %s gave %s, expected %s", S(n).c_str(), S(o).c_str(), kErrNames[r.err],
                                 w.errs & (1u << kInvalid) ? "invalid argument" : "cannot exceed limit"));
  if (r.err == kOk && r.removed != w.removed)
    sim::Fail("wrong-removed", Str("adding %s under %s reported %s removed, expected %s", S(n).c_str(), S(o).c_str(),
                                   S(r.removed).c_str(), S(w.removed).c_str()));
}

// ------------------------------------------------------------------ C18
// params: n versions; version 0 is the root.  ops: "0 ver <i> <parent> <index>" (parent -1: no ID,
// -2: a predecessor nobody has), "0 put <replica> <i>", "0 snap <replica>", "0 merge <to> <from>"
void Gen18(Rng& r, Program& p, Config& c) {
  int n = r.Chance(0.3) ? static_cast<int>(r.Range(1, 5)) : static_cast<int>(r.Range(4, 16));
  if (r.Chance(0.02))
    n = static_cast<int>(r.Range(20, 40));
  int reps = static_cast<int>(r.Range(2, 3));
  p.params["replicas"] = reps;
  p.params["exact"] = r.Chance(0.4);
  // Strange numbering: an index need not be larger than the predecessor's.
  bool odd = r.Chance(0.2);
  bool have_root = r.Chance(0.8);
  std::vector<int64_t> index(n);
  int shape = static_cast<int>(r.Below(4));
  for (int i = 0; i < n; ++i) {
    int64_t parent;
    if (i == 0)
      parent = have_root ? -1 : -2;
    else if (shape == 0)
      parent = i - 1;
    else if (shape == 1)
      parent = static_cast<int64_t>(r.Below(i));
    else if (shape == 2)
      parent = std::max<int64_t>(0, i - r.Range(1, 3));
    else
      parent = r.Chance(0.15) ? -2 : static_cast<int64_t>(r.Below(i));
    index[i] = i == 0 ? (have_root ? (r.Chance(0.7) ? 0 : r.Range(1, 4)) : r.Range(1, 4)) : odd ? r.Range(1, 6) : (parent >= 0 ? index[parent] + 1 : r.Range(1, 6));
    p.ops.push_back(Line(0, "ver", {i, parent, index[i]}));
  }
  // Some versions never arrive anywhere, so that orphans stay.
  std::vector<int> live;
  double lost = r.Chance(0.3) ? 0.2 : 0;
  for (int i = 0; i < n; ++i)
    if (!r.Chance(lost))
      live.push_back(i);
  std::vector<std::string> del;
  std::vector<std::vector<std::string>> seq(reps);
  for (int k = 0; k < reps; ++k) {
    std::vector<int> order = live;
    if (r.Chance(0.15))
      std::reverse(order.begin(), order.end());
    else if (!r.Chance(0.1))
      for (size_t i = order.size(); i > 1; --i)
        std::swap(order[i - 1], order[r.Below(i)]);
    for (int i : order) {
      seq[k].push_back(Line(0, "put", {k, i}));
      if (r.Chance(0.15) && !live.empty())
        seq[k].push_back(Line(0, "put", {k, order[r.Below(order.size())]}));
      if (r.Chance(0.08))
        seq[k].push_back(Line(0, "snap", {k}));
      if (r.Chance(0.1))
        seq[k].push_back(Line(0, "merge", {k, static_cast<int64_t>(r.Below(reps))}));
    }
  }
  // interleave
  std::vector<size_t> pos(reps, 0);
  for (;;) {
    std::vector<int> can;
    for (int k = 0; k < reps; ++k)
      if (pos[k] < seq[k].size())
        can.push_back(k);
    if (can.empty())
      break;
    int k = can[r.Below(can.size())];
    p.ops.push_back(seq[k][pos[k]++]);
  }
  c.prob[sim::K_SYS] = r.Chance(0.2) ? 0.3 : 0;
}

void Run18(const Program& p) {
  std::vector<Op> ops;
  std::map<int, std::pair<N, N>> ver;  // number -> predecessor, name
  size_t nver = 0;
  int reps = static_cast<int>(p.P("replicas"));
  std::vector<Model> have(reps);  // what each replica has been given
  Model all;
  {
    sim::NoSim ns;
    ops = Parse(p);
    for (auto& o : ops)
      if (o.verb == "ver")
        ++nver;
    for (auto& o : ops) {
      if (o.verb != "ver")
        continue;
      int i = static_cast<int>(o.a[0]);
      N name{o.a[2], i};
      N par = o.a[1] == -1 ? kNone : (o.a[1] >= 0 && ver.count(static_cast<int>(o.a[1]))) ? ver[static_cast<int>(o.a[1])].second : N{name.idx ? name.idx : 1, 1000 + i};
      ver[i] = {par, name};
    }
    size_t lim = p.P("exact") ? std::max<size_t>(nver, 1) : 100;
    for (auto& h : have)
      h.maxv = h.maxb = lim;
    all.maxv = all.maxb = lim;
  }
  std::vector<std::unique_ptr<SDV>> s;
  for (int k = 0; k < reps; ++k)
    s.emplace_back(new SDV(static_cast<uint32_t>(have[k].maxv), static_cast<uint32_t>(have[k].maxb)));
  auto put = [&](int k, int i) {
    auto v = ver[i];
    bool known;
    {
      sim::NoSim ns;
      known = have[k].Has(v.second);
    }
    auto r = DoPut(*s[k], v.first, v.second);
    sim::NoSim ns;
    sim::Log("replica %d: %s under %s -> %s", k, S(v.second).c_str(), S(v.first).c_str(), kErrNames[r.err]);
    if (r.err != kOk || r.removed != kNone)
      sim::Fail("refused", Str("replica %d: adding %s under %s failed (%s) or dropped %s", k, S(v.second).c_str(), S(v.first).c_str(), kErrNames[r.err], S(r.removed).c_str()));
    if (known)
      sim::Probe("delivered twice");
    have[k].decl[v.second] = v.first;
    all.decl[v.second] = v.first;
  };
  for (auto& o : ops) {
    if (o.verb == "ver")
      continue;
    int k = static_cast<int>(o.a[0]) % reps;
    if (o.verb == "put") {
      if (!ver.count(static_cast<int>(o.a[1])))
        continue;
      put(k, static_cast<int>(o.a[1]));
    } else if (o.verb == "snap") {
      auto b = s[k]->Serialise();
      s[k].reset(new SDV(b));
      sim::Log("replica %d: went through a snapshot", k);
      sim::Probe("snapshot taken over");
    } else if (o.verb == "merge") {
      int from = static_cast<int>(o.a[1]) % reps;
      auto b = s[from]->Serialise();
      try {
        s[k]->ApplySerialised(b);
      } catch (const maidsafe::maidsafe_error& e) {
        sim::Fail("merge-refused", Str("replica %d: merging replica %d's snapshot failed: %s", k, from, kErrNames[Code(e)]));
      }
      sim::NoSim ns;
      sim::Log("replica %d: merged a snapshot of replica %d", k, from);
      for (auto& d : have[from].decl)
        have[k].decl.insert(d);
      sim::Probe("snapshot merged");
    }
    Compare(*s[k], have[k], "after a delivery");
  }
  // Everything known anywhere is delivered everywhere.
  for (int k = 0; k < reps; ++k) {
    for (auto& v : ver) {
      bool need;
      {
        sim::NoSim ns;
        need = all.Has(v.second.second) && !have[k].Has(v.second.second);
      }
      if (need)
        put(k, v.first);
    }
  }
  for (int k = 0; k < reps; ++k)
    Compare(*s[k], all, "when all was delivered");
  bool root;
  {
    sim::NoSim ns;
    root = false;
    for (auto& d : all.decl)
      if (d.second == kNone)
        root = true;
  }
  if (root) {
    auto first = s[0]->Serialise();
    for (int k = 1; k < reps; ++k)
      if (s[k]->Serialise() != first)
        sim::Fail("snapshots-differ", Str("replicas 0 and %d hold the same versions but serialise differently", k));
  }
  // They stay equal when a version is removed again.
  auto tips = s[0]->Get();
  if (root && !tips.empty()) {
    for (int k = 0; k < reps; ++k)
      s[k]->DeleteBranchUntilFork(tips.front());
    {
      sim::NoSim ns;
      all.PickRoot();
      for (auto& d : all.decl)
        if (d.second == kNone)
          all.root = d.first;
      all.Delete(Back(tips.front()));
    }
    for (int k = 0; k < reps; ++k)
      Compare(*s[k], all, "after deleting the highest branch");
  }
}

// ------------------------------------------------------------------ C19, C20
// Names are drawn from a small pool, so that any kind of addition occurs.
void GenHistory(Rng& r, Program& p, Config& c) {
  bool big = r.Chance(0.02);
  int pool = static_cast<int>(big ? r.Range(20, 40) : r.Range(3, 18));
  p.params["pool"] = pool;
  p.params["maxv"] = r.Chance(0.15) ? 1 : r.Chance(0.3) ? 100 : r.Range(1, pool);
  p.params["maxb"] = r.Chance(0.15) ? 1 : r.Chance(0.3) ? 100 : r.Range(1, 6);
  p.params["maxv1"] = r.Chance(0.5) ? 100 : r.Range(1, pool);
  p.params["maxb1"] = r.Chance(0.5) ? 100 : r.Range(1, 6);
  double p_bad = r.Chance(0.5) ? 0.05 : 0.25;  // additions that contradict the tree
  int n = static_cast<int>(big ? r.Range(60, 160) : r.Range(4, 40));
  // a tree over the pool: name 0 is the root
  std::vector<int64_t> par(pool), idx(pool);
  for (int i = 0; i < pool; ++i) {
    par[i] = i == 0 ? -1 : r.Chance(0.1) ? -2 : r.Chance(0.4) ? i - 1 : static_cast<int64_t>(r.Below(i));
    idx[i] = i == 0 ? (r.Chance(0.7) ? 0 : r.Range(1, 3)) : r.Chance(0.1) ? r.Range(1, 6) : (par[i] >= 0 ? idx[par[i]] + 1 : r.Range(1, 6));
    p.ops.push_back(Line(0, "ver", {i, idx[i]}));
  }
  double in_order = r.Unit();
  int next = 0;
  for (int k = 0; k < n; ++k) {
    int who = r.Chance(0.75) ? 0 : 1;
    double u = r.Unit();
    if (u < 0.62) {
      int i = r.Chance(in_order) ? (next++ % pool) : static_cast<int>(r.Below(pool));
      int64_t o = par[i];
      if (r.Chance(p_bad))
        o = r.Chance(0.2) ? -1 : r.Chance(0.2) ? -3 : static_cast<int64_t>(r.Below(pool));
      p.ops.push_back(Line(0, "put", {who, o, i}));
    } else if (u < 0.74) {
      p.ops.push_back(Line(0, "del", {who, static_cast<int64_t>(r.Below(pool)), r.Chance(0.7)}));
    } else if (u < 0.8) {
      p.ops.push_back(Line(0, "branch", {who, static_cast<int64_t>(r.Below(pool + 1))}));
    } else if (u < 0.88) {
      p.ops.push_back(Line(0, "snap", {who}));
    } else if (u < 0.92) {
      p.ops.push_back(Line(0, "swap", {}));
    } else if (u < 0.98) {
      p.ops.push_back(Line(0, "merge", {who}));
    } else if (u < 0.99) {
      p.ops.push_back(Line(0, "clear", {who}));
    } else {
      p.ops.push_back(Line(0, "putnone", {who, static_cast<int64_t>(r.Below(pool))}));
    }
  }
  c.prob[sim::K_SYS] = r.Chance(0.1) ? 0.3 : 0;
}
void Gen19(Rng& r, Program& p, Config& c) { GenHistory(r, p, c); }
void Gen20(Rng& r, Program& p, Config& c) {
  GenHistory(r, p, c);
  c.prob[sim::K_ALLOC] = Pick(r, {0.01, 0.03, 0.1, 0.3});
}

void RunHistory(const Program& p, bool faults) {
  std::vector<Op> ops;
  std::map<int, N> name;
  Model m[2];
  {
    sim::NoSim ns;
    ops = Parse(p);
    for (auto& o : ops)
      if (o.verb == "ver")
        name[static_cast<int>(o.a[0])] = N{o.a[1], static_cast<int>(o.a[0])};
    m[0].maxv = p.P("maxv");
    m[0].maxb = p.P("maxb");
    m[1].maxv = p.P("maxv1");
    m[1].maxb = p.P("maxb1");
  }
  auto get = [&](int64_t i) -> N {
    if (i == -1)
      return kNone;
    if (i == -3)
      return N{0, 2000};  // a root nobody added
    if (i >= 0 && name.count(static_cast<int>(i)))
      return name[static_cast<int>(i)];
    return N{2, 1000};    // a version nobody has
  };
  {  // error categories are created on first use
    try {
      SDV bad(0, 1);
    } catch (const std::exception&) {
    }
  }
  uint64_t live0 = sim::Heap().live_blocks;
  {
    std::unique_ptr<SDV> s[2];
    s[0].reset(new SDV(static_cast<uint32_t>(m[0].maxv), static_cast<uint32_t>(m[0].maxb)));
    s[1].reset(new SDV(static_cast<uint32_t>(m[1].maxv), static_cast<uint32_t>(m[1].maxb)));
    auto out_of_memory = [&](const char* what) {
      sim::Log("%s ran out of memory", what);
      sim::Probe("ran out of memory");
      Compare(*s[0], m[0], "after running out of memory");
      Compare(*s[1], m[1], "after running out of memory");
    };
    for (auto& o : ops) {
      if (o.verb == "ver")
        continue;
      int w = static_cast<int>(o.a[0]) & 1;
      if (o.verb == "put" || o.verb == "putnone") {
        N old, nw;
        Outcome want;
        Model before;
        bool skip = false;
        {
          sim::NoSim ns;
          old = get(o.a[1]);
          nw = o.verb == "putnone" ? kNone : get(o.a[2]);
          // Only a root has index 0, and a root is added without predecessor.
          if (nw != kNone && ((nw.idx == 0 && old != kNone && !m[w].RealRoot())))
            skip = true;
        }
        if (skip)
          continue;
        {
          sim::NoSim ns;
          before = m[w];
          want = m[w].Put(old, nw);
        }
        auto r = DoPut(*s[w], old, nw, faults);
        if (r.err == kMemory) {
          {
            sim::NoSim ns;
            m[w] = before;
          }
          out_of_memory("put");
        } else {
          CheckPut(r, want, old, nw);
        }
      } else if (o.verb == "del") {
        N n;
        {
          sim::NoSim ns;
          auto tips = m[w].Tips();
          n = o.a[2] && !tips.empty() ? tips[o.a[1] % tips.size()] : get(o.a[1]);
        }
        Err e = kOk;
        VN rn = Real(n);
        sim::AllocFaults(faults);
        try {
          s[w]->DeleteBranchUntilFork(rn);
        } catch (const maidsafe::maidsafe_error& x) {
          sim::AllocFaults(false);
          e = Code(x);
        } catch (const std::bad_alloc&) {
          e = kMemory;
        }
        sim::AllocFaults(false);
        if (e == kMemory) {
          out_of_memory("delete");
        } else {
          sim::NoSim ns;
          Err want = m[w].Delete(n);
          sim::Log("delete branch %s -> %s", S(n).c_str(), kErrNames[e]);
          if (e != want)
            sim::Fail("wrong-result", Str("deleting the branch of %s gave %s, expected %s", S(n).c_str(), kErrNames[e], kErrNames[want]));
        }
      } else if (o.verb == "branch") {
        N n = get(o.a[1]);
        VN rn = Real(n);
        Err e = kOk;
        sim::AllocFaults(faults);
        try {
          auto b = s[w]->GetBranch(rn);
          auto t = s[w]->Get();
        } catch (const maidsafe::maidsafe_error& x) {
          sim::AllocFaults(false);
          e = Code(x);
        } catch (const std::bad_alloc&) {
          e = kMemory;
        }
        sim::AllocFaults(false);
        sim::NoSim ns;
        Err want = !m[w].Has(n) ? kNoSuch : !m[w].Children(n).empty() ? kInvalid : kOk;
        if (e != kMemory && e != want)
          sim::Fail("wrong-result", Str("the branch of %s gave %s, expected %s", S(n).c_str(), kErrNames[e], kErrNames[want]));
      } else if (o.verb == "snap") {
        try {
          sim::AllocFaults(faults);
          auto b = s[w]->Serialise();
          std::unique_ptr<SDV> copy(new SDV(b));
          sim::AllocFaults(false);
          if (copy->Serialise() != b)
            sim::Fail("snapshot-differs", "a copy made from a snapshot serialises differently from the original");
          sim::Log("%d: continues as a copy made from a snapshot", w);
          Compare(*s[w], m[w], "original after taking a snapshot");
          s[w].swap(copy);
        } catch (const std::bad_alloc&) {
          sim::AllocFaults(false);
          out_of_memory("snapshot");
        } catch (const maidsafe::maidsafe_error& x) {
          sim::AllocFaults(false);
          // Parsing reports any failure as a parsing error.
          if (faults && sim::AllocFaultsFired())
            out_of_memory("parsing");
          else
            sim::Fail("snapshot-refused", Str("taking over a snapshot failed: %s", x.what()));
        }
      } else if (o.verb == "swap") {
        swap(*s[0], *s[1]);
        sim::NoSim ns;
        std::swap(m[0], m[1]);
        sim::Log("swapped");
      } else if (o.verb == "clear") {
        s[w]->clear();
        sim::NoSim ns;
        m[w].decl.clear();
        m[w].root = kNone;
        sim::Log("cleared");
      } else if (o.verb == "merge") {
        // Merges the other's snapshot; tried on a copy first, because limits may forbid it.
        Model res;
        bool determined, conflict = false;
        {
          sim::NoSim ns;
          res = m[1 - w];
          std::map<N, N> uni = res.decl;
          size_t real = 0, zero = 0;
          for (auto& d : m[w].decl) {
            auto it = uni.insert(d).first;
            if (it->second != d.second)
              conflict = true;
          }
          for (auto& d : uni) {
            if (d.second == kNone)
              ++real;
            if (d.first.idx == 0)
              ++zero;
            if (d.second.idx == 0 && !uni.count(d.second))
              zero += 2;
            // a circle across the two
            N x = d.first;
            for (size_t i = 0; i <= uni.size() && uni.count(x); ++i) {
              x = uni[x];
              if (i == uni.size())
                conflict = true;
            }
          }
          if (real > 1)
            conflict = true;
          // Near the limits the order of the merge matters, and what contradicts may have been dropped.
          determined = (uni.size() <= res.maxv && uni.size() <= res.maxb) && zero <= 1;
          conflict = conflict && determined;
          determined = determined && !conflict;
        }
        auto bytes = s[1 - w]->Serialise();
        auto mine = s[w]->Serialise();
        std::unique_ptr<SDV> copy(new SDV(mine));
        Err e = kOk;
        sim::AllocFaults(faults);
        try {
          copy->ApplySerialised(bytes);
        } catch (const maidsafe::maidsafe_error& x) {
          sim::AllocFaults(false);
          e = Code(x);
        } catch (const std::bad_alloc&) {
          e = kMemory;
        }
        sim::AllocFaults(false);
        if (faults && e == kOther && sim::AllocFaultsFired())
          e = kMemory;
        sim::Log("merged into %d -> %s", w, kErrNames[e]);
        if (conflict && e == kOk)
          sim::Fail("not-refused", "merging a snapshot that contradicts the structure was accepted");
        if (determined && e != kOk && e != kMemory)
          sim::Fail("merge-refused", Str("merging a snapshot failed: %s", kErrNames[e]));
        if (e != kOk) {
          Compare(*copy, m[w], "after a failed merge");
          if (copy->Serialise() != mine)
            sim::Fail("changed-by-failure", "a failed merge changed the structure");
          sim::Probe("failed merge");
        } else if (determined) {
          {
            sim::NoSim ns;
            Model b = m[w];
            if (b.root != kNone) {
              // in any order, as no limit is near
              N real = kNone;
              for (auto& d : b.decl) {
                res.decl.insert(d);
                if (d.second == kNone)
                  real = d.first;
              }
              for (auto& d : res.decl)
                if (d.second == kNone)
                  real = d.first;
              if (real != kNone)
                res.root = real;
              else
                res.root = res.Branch(m[1 - w].root != kNone ? m[1 - w].root : b.root).back();
            }
            m[w] = res;
          }
          s[w].swap(copy);
          sim::Probe("merged");
        } else {
          sim::NoSim ns;
          if (copy->Get().size() > copy->max_branches())
            sim::Fail("limit-exceeded", "merging exceeded the branch limit");
        }
      }
      Compare(*s[0], m[0], o.verb.c_str());
      Compare(*s[1], m[1], o.verb.c_str());
      sim::NoSim ns;
      for (auto& x : m)
        if (x.decl.size() > x.maxv || x.Tips().size() > x.maxb)
          sim::Fail("limit-exceeded", "the limits are exceeded");
    }
    // the root shows in the serialised form
    for (auto& x : s) {
      auto b = x->Serialise();
      SDV copy(b);
      if (copy.Serialise() != b)
        sim::Fail("snapshot-differs", "a copy made from a snapshot serialises differently from the original");
    }
  }
  if (faults && sim::Heap().live_blocks != live0)
    sim::Fail("leak", Str("%lld blocks are left: %s", static_cast<long long>(sim::Heap().live_blocks - live0), sim::DescribeLiveBlocks(0, 3).c_str()));
}
void Run19(const Program& p) { RunHistory(p, false); }
void Run20(const Program& p) { RunHistory(p, true); }

#ifndef NDEBUG
sim::Registrar r18({"C18", Gen18, Run18,
                    "one seeded delivery history to two or three real structures (reordered, duplicated, delayed and lost additions, "
                    "snapshots taken over and merged), compared with the tree given by the set of additions after every delivery and at "
                    "the end; non-trivial: at least two deliveries; distinct by hash of program, decisions and log",
                    {"maidsafe::StructuredDataVersions", "serialisation (cereal, maidsafe::BinaryInputArchive)", "std::async helpers"},
                    {"delivery (generated)", "threads and their creation (simulated, may fail)"}, 10000, 1000000, true});
sim::Registrar r19({"C19", Gen19, Run19,
                    "one seeded history of additions, deletions, snapshots, merges and swaps on two real structures with random limits, "
                    "compared step by step with a reference tree; non-trivial: at least two operations; distinct by hash of program, "
                    "decisions and log",
                    {"maidsafe::StructuredDataVersions", "serialisation (cereal, maidsafe::BinaryInputArchive)", "std::async helpers"},
                    {"threads and their creation (simulated, may fail)"}, 10000, 1000000, true});
#else
sim::Registrar r20({"C20", Gen20, Run20,
                    "one seeded history as in C19 during whose operations allocations fail; after each failure both structures are "
                    "compared with the reference tree as it was before; non-trivial: at least two operations; distinct by hash of "
                    "program, decisions and log",
                    {"maidsafe::StructuredDataVersions", "serialisation (cereal, maidsafe::BinaryInputArchive)", "std::async helpers"},
                    {"heap (fails on demand)", "threads and their creation (simulated, may fail)"}, 35000, 1500000, true});
#endif
}  // namespace
