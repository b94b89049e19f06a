// C16, C17: database transactions under concurrency, crashes and I/O errors.
#include "maidsafe/common/sqlite3_wrapper.h"

extern "C" {
#include <sqlite3.h>
}

#include <memory>

#include "maidsafe/common/error.h"

#include "../sim/db.h"
#include "util.h"

using namespace h;  // NOLINT
namespace db = sim::db;
namespace ms = maidsafe::sqlite;

namespace {

typedef std::map<std::string, std::string> Map;
const char* const kPath = "store.db";

// ---------------------------------------------------------------- the record of what happened
enum Status { kRunning, kDead, kCommitting, kUnknown, kAcked };
const char* const kStatus[] = {"running", "abandoned", "committing", "of unknown outcome", "committed"};
struct Tx {
  int id, pred = -1;
  Status st = kRunning;
  Map result;
  uint64_t acked = UINT64_MAX;
  uint64_t lock_from = UINT64_MAX, lock_to = UINT64_MAX;  // simulated time the write lock may be held
};
struct W {
  std::vector<Tx*> tx;                 // by id; 0 is the initial state
  std::map<int, Tx*> open;             // program thread -> its transaction
  std::map<int, int> next;             // program thread -> next operation
  std::map<int, int> tid;              // program thread -> simulated thread
  std::map<int, bool> done;
  int active = 0;                      // operations in progress
  uint64_t op_seq = 0;
  bool faulty = false;
  std::map<int, Status> entries;       // single insertions: number -> what became of it
  std::map<int, int> inserting;        // program thread -> the one in progress
};

uint64_t FaultCount() { return db::Faults() + sim::AllocFaultsFired(); }
bool AnyFault() { return sim::FaultsFired() != 0 || db::Faults() != 0; }

std::string Describe(W* w, int id) {
  return id < 0 || id >= static_cast<int>(w->tx.size()) ? "no transaction"
                                                       : Str("transaction %d (%s)", id, kStatus[w->tx[id]->st]);
}

// What was read: rows, with the row "meta" naming the transaction that wrote the state.
// since: everything acknowledged before must be included.
int CheckState(W* w, const Map& rows, uint64_t since, const char* who) {
  Map m(rows);
  auto it = m.find("meta");
  if (it == m.end())
    sim::Fail("state-garbage", std::string(who) + " found no record of the last transaction");
  int id = atoi(it->second.c_str());
  m.erase(it);
  if (id < 0 || id >= static_cast<int>(w->tx.size()))
    sim::Fail("state-garbage", std::string(who) + " found the state of a transaction which doesn't exist");
  Tx* t = w->tx[id];
  if (t->st == kDead || t->st == kRunning)
    sim::Fail("uncommitted-visible", std::string(who) + " sees the effects of " + Describe(w, id));
  if (m != t->result)
    sim::Fail("not-atomic", std::string(who) + " sees neither the state before nor after " + Describe(w, id) +
                                Str(": %d rows instead of %d", static_cast<int>(m.size()),
                                    static_cast<int>(t->result.size())));
  std::set<int> chain;
  for (int i = id; i >= 0; i = w->tx[i]->pred) {
    if (w->tx[i]->st == kDead)
      sim::Fail("uncommitted-visible", std::string(who) + " sees a state based on " + Describe(w, i));
    chain.insert(i);
  }
  for (auto x : w->tx)
    if (x->st == kAcked && x->acked < since && !chain.count(x->id))
      sim::Fail("lost-commit", std::string(who) + " sees the state of " + Describe(w, id) + ", in which " +
                                   Describe(w, x->id) + " is missing");
  return id;
}

Map ReadAll(ms::Database& d) {
  Map m;
  ms::Statement s(d, "SELECT key, value FROM kv ORDER BY key");
  while (s.Step() == ms::StepResult::kSqliteRow) {
    std::string k(s.ColumnText(0));
    auto v = s.ColumnBlob(1);
    sim::NoSim ns;
    m[std::string(k.data(), k.size())] = std::string(v.begin(), v.end());
  }
  return m;
}
void PutRow(ms::Statement& s, const std::string& k, const std::string& v) {
  s.BindText(1, k);
  s.BindBlob(2, maidsafe::SerialisedData(v.begin(), v.end()));
  if (s.Step() != ms::StepResult::kSqliteDone)
    sim::Fail("wrong-step", "an insertion returned a row");
  s.Reset();
}

struct Faulting {  // library calls may run out of memory
  bool on;
  explicit Faulting(bool b) : on(b) { sim::AllocFaults(on); }
  ~Faulting() { sim::AllocFaults(false); }
};

enum Code { kNone, kBusy, kNotPresent, kError, kUnable, kOther };
Code CodeOf(const std::exception& e) {
  auto m = dynamic_cast<const maidsafe::maidsafe_error*>(&e);
  if (!m)
    return kOther;
  using maidsafe::CommonErrors;
  if (m->code() == make_error_code(CommonErrors::db_busy)) return kBusy;
  if (m->code() == make_error_code(CommonErrors::db_not_present)) return kNotPresent;
  if (m->code() == make_error_code(CommonErrors::db_error)) return kError;
  if (m->code() == make_error_code(CommonErrors::unable_to_handle_request)) return kUnable;
  return kOther;
}
const char* const kCode[] = {"no error", "busy", "not present", "error", "unable to handle request", "another error"};

std::unique_ptr<ms::Database> OpenDb(W* w, bool faults, Code* code) {
  *code = kNone;
  std::unique_ptr<ms::Database> d;
  Faulting f(faults);
  try {
    d.reset(new ms::Database(kPath, ms::Mode::kReadWriteCreate));
  } catch (const std::exception& e) {
    sim::AllocFaults(false);
    sim::NoSim ns;
    *code = CodeOf(e);
    if (!AnyFault())
      sim::Fail("open-failed", std::string("the database can't be opened: ") + e.what());
  }
  return d;
}

// ---------------------------------------------------------------- transactions
const uint64_t kSec = 1000000000ull;

void GaveUp(W* w, uint64_t from, uint64_t to, int self_id) {
  // Only if the write lock was held by others for so long that every attempt could fail.
  if (to - from < 60 * kSec)
    sim::Fail("gave-up-early", Str("starting a transaction gave up after %.1f s", (to - from) / 1e9));
  std::vector<std::pair<uint64_t, uint64_t>> held;
  for (auto t : w->tx)
    if (t->id != self_id && t->lock_from != UINT64_MAX && t->lock_to > from && t->lock_from < to)
      held.push_back({t->lock_from, t->lock_to});
  std::sort(held.begin(), held.end());
  uint64_t at = from;
  for (auto& p : held) {
    if (p.first > at + 10 * kSec)
      break;
    at = std::min(to, std::max(at, p.second));
  }
  if (at + 10 * kSec < to)
    sim::Fail("gave-up-while-free", Str("starting a transaction gave up although nobody held the lock for %.1f s",
                                        (to - at) / 1e9));
  sim::Probe("starting a transaction gave up");
}

void RunTx(W* w, ms::Database& d, int thread, const Op& o, bool faults) {
  Tx* t;
  uint64_t since;
  {
    sim::NoSim ns;
    t = new Tx;
    t->id = w->tx.size();
    w->tx.push_back(t);
    w->open[thread] = t;
    since = sim::Seq();
  }
  uint64_t begin = sim::Now(), f0 = FaultCount();
  std::string error, where = "begin";
  Code code = kNone;
  bool committed = false;
  {
    std::unique_ptr<ms::Transaction> tr;
    try {
      if (o.a[5] == 1)
        db::Outage(1);
      {
        Faulting f(faults);
        tr.reset(new ms::Transaction(d));
      }
      t->lock_from = sim::Now();
      where = "read";
      Map before;
      {
        Faulting f(faults);
        before = ReadAll(d);
      }
      {
        sim::NoSim ns;
        t->pred = CheckState(w, before, since, "a transaction");
        t->result = before;
        t->result.erase("meta");
      }
      where = "write";
      Rng r(o.a[0] + 1000 * t->id);
      std::unique_ptr<ms::Statement> put;
      for (int i = 0; i < o.a[1]; ++i) {
        std::string k, v;
        bool del;
        {
          sim::NoSim ns;
          k = Str("key%d", static_cast<int>(r.Below(8)));
          if (r.Chance(0.2))
            k += std::string("\0x", r.Below(2) + 1);
          del = r.Chance(0.2);
          v = Bytes(r.Next(), r.Chance(0.1) ? r.Below(9000) : r.Below(60));
          if (del)
            t->result.erase(k);
          else
            t->result[k] = v;
        }
        Faulting f(faults);
        if (del) {
          ms::Statement s(d, "DELETE FROM kv WHERE key = ?");
          s.BindText(1, k);
          s.Step();
        } else {
          if (!put)
            put.reset(new ms::Statement(d, "INSERT OR REPLACE INTO kv VALUES (?, ?)"));
          PutRow(*put, k, v);
          if (o.a[0] % 2)
            put.reset();
        }
      }
      put.reset();
      if (o.a[3]) {
        where = "wait";
        sim::SleepNs(o.a[3] * 1000000);
      }
      if (o.a[4] == 1) {
        where = "duplicate";
        bool refused = false;
        try {
          ms::Statement s(d, "INSERT INTO kv VALUES ('meta', ?)");
          s.BindText(1, "x");
          s.Step();
        } catch (const std::exception& e) {
          refused = true;
          sim::NoSim ns;
          if (FaultCount() == f0 && CodeOf(e) != kError)
            sim::Fail("wrong-error", std::string("a duplicate row: ") + kCode[CodeOf(e)]);
        }
        if (!refused)
          sim::Fail("error-hidden", "inserting a duplicate row reported success");
        if (FaultCount() != f0)
          throw std::runtime_error("abandoned");  // the failure may have ended the transaction
      } else if (o.a[4] == 2) {
        where = "nested";
        bool refused = false;
        uint64_t t0 = sim::Now();
        try {
          ms::Transaction inner(d);
        } catch (const std::exception& e) {
          refused = true;
        }
        if (!refused)
          sim::Fail("error-hidden", "a second transaction was started on a connection");
        sim::Probe("nested transaction refused");
        if (FaultCount() != f0)
          throw std::runtime_error("abandoned");
      }
      where = "record";
      {
        Faulting f(faults);
        ms::Statement s(d, "INSERT OR REPLACE INTO kv VALUES (?, ?)");
        PutRow(s, "meta", std::to_string(t->id));
      }
      where = "reread";
      Map own;
      {
        Faulting f(faults);
        own = ReadAll(d);
      }
      {
        sim::NoSim ns;
        own.erase("meta");
        if (own != t->result)
          sim::Fail("own-writes-missing", "a transaction doesn't see its own writes");
      }
      if (o.a[2]) {
        where = "commit";
        t->st = kCommitting;
        if (o.a[5] > 1)
          db::Outage(o.a[5] - 1);
        Faulting f(faults);
        tr->Commit();
        committed = true;
        t->acked = sim::Seq();
        t->st = kAcked;
      } else {
        where = "abandon";
        t->st = kDead;
      }
    } catch (const std::exception& e) {
      sim::AllocFaults(false);
      sim::NoSim ns;
      error = e.what();
      code = CodeOf(e);
    }
    db::Outage(0);
    if (!committed)
      t->st = t->st == kCommitting ? kUnknown : kDead;
    {
      Faulting f(faults);
      tr.reset();
    }
    t->lock_to = sim::Now();
  }
  sim::NoSim ns;
  w->open.erase(thread);
  sim::Log("transaction %d on %d: %s%s%s", t->id, t->pred, kStatus[t->st], error.empty() ? "" : ", failed to ",
           error.empty() ? "" : (where + ": " + error).c_str());
  if (!error.empty() && error != "abandoned") {
    if (where == "begin") {
      if (code == kBusy || (code != kUnable && !AnyFault()))
        sim::Fail("wrong-error", std::string("starting a transaction failed with ") + kCode[code]);
      if (!AnyFault())
        GaveUp(w, begin, sim::Now(), t->id);
    } else if (!AnyFault()) {
      sim::Fail("transaction-failed", "a transaction failed to " + where + " although nothing failed: " + error);
    }
    sim::Probe(("transaction failed to " + where).c_str());
  }
}

// An insertion outside any transaction takes effect at once, or not at all and says so.
void Insert(W* w, ms::Database& d, int thread, bool faults) {
  int n;
  {
    sim::NoSim ns;
    n = w->entries.size();
    w->entries[n] = kCommitting;
    w->inserting[thread] = n;
  }
  Status st = kAcked;
  std::string error;
  try {
    Faulting f(faults);
    ms::Statement s(d, "INSERT INTO log VALUES (?)");
    s.BindText(1, std::to_string(n));
    ms::StepResult r = s.Step();
    if (r != ms::StepResult::kSqliteDone)
      sim::Fail("wrong-step", "an insertion returned a row");
  } catch (const std::exception& e) {
    sim::AllocFaults(false);
    sim::NoSim ns;
    error = e.what();
    st = AnyFault() ? kUnknown : kDead;
  }
  sim::NoSim ns;
  w->entries[n] = st;
  w->inserting.erase(thread);
  sim::Log("insertion %d: %s", n, error.empty() ? "done" : error.c_str());
  if (!error.empty())
    sim::Probe("insertion failed");
}

void Snapshot(W* w, ms::Database& d, bool faults) {
  uint64_t since = sim::Seq(), ops = w->op_seq;
  bool alone = w->active == 1;
  try {
    Map m;
    {
      Faulting f(faults);
      m = ReadAll(d);
    }
    sim::NoSim ns;
    int id = CheckState(w, m, since, "a reader");
    sim::Log("read the state of %d", id);
  } catch (const std::exception& e) {
    sim::AllocFaults(false);
    sim::NoSim ns;
    sim::Log("read failed: %s", e.what());
    if (!AnyFault() && alone && ops == w->op_seq)
      sim::Fail("read-failed", std::string("reading failed although nothing failed: ") + e.what());
    sim::Probe("read failed");
  }
}

void Misuse(W* w, ms::Database& d, int kind, bool faults) {
  Code want = kError, got = kNone;
  const char* what = "";
  std::string error;
  uint64_t t0 = sim::Now();
  bool alone = w->active == 1;
  uint64_t ops = w->op_seq;
  {
    Faulting f(faults);
    try {
      switch (kind) {
        case 0: {
          what = "malformed query";
          ms::Statement s(d, "SELEKT * FROM kv");
          break;
        }
        case 1: {
          what = "opening a missing file";
          want = kNotPresent;
          ms::Database x("missing.db", ms::Mode::kReadOnly);
          break;
        }
        case 2: {
          what = "transaction in a file which is no database";
          want = kNotPresent;
          ms::Database x("junk.db", ms::Mode::kReadWrite);
          ms::Transaction tr(x);
          break;
        }
        case 3: {
          what = "query of a file which is no database";
          want = kNotPresent;
          ms::Database x("junk.db", ms::Mode::kReadOnly);
          ms::Statement s(x, "SELECT key FROM kv");
          s.Step();
          break;
        }
        case 4: {
          what = "query of a missing table";
          ms::Statement s(d, "SELECT key FROM nothing");
          s.Step();
          break;
        }
        case 5: {
          what = "value bound to a missing parameter";
          ms::Statement s(d, "SELECT key FROM kv WHERE key = ?");
          s.BindText(2, "x");
          break;
        }
        case 6: {
          what = "blob bound to a missing parameter";
          ms::Statement s(d, "SELECT key FROM kv WHERE key = ?");
          s.BindBlob(0, maidsafe::SerialisedData(5, 1));
          break;
        }
        default: {
          what = "write through a read-only connection";
          ms::Database x(kPath, ms::Mode::kReadOnly);
          ms::Statement s(x, "DELETE FROM kv WHERE key = 'meta'");
          s.Step();
          break;
        }
      }
    } catch (const std::exception& e) {
      sim::AllocFaults(false);
      sim::NoSim ns;
      got = CodeOf(e);
      error = e.what();
    }
  }
  sim::NoSim ns;
  sim::Log("%s: %s", what, error.c_str());
  if (got == kNone)
    sim::Fail("error-hidden", std::string(what) + " reported success");
  if (got != want && !AnyFault() && alone && ops == w->op_seq)
    sim::Fail("wrong-error", std::string(what) + ": " + kCode[got] + " instead of " + kCode[want]);
  if (!AnyFault() && alone && ops == w->op_seq && sim::Now() - t0 > kSec)
    sim::Fail("late-error", std::string(what) + Str(" was reported after %.1f s", (sim::Now() - t0) / 1e9));
}

void Worker(W* w, const std::vector<Op>& ops, int t, bool faults) {
  db::SetProcess(t);
  std::unique_ptr<ms::Database> d;
  int tries = 0;
  for (;;) {
    const Op* o = nullptr;
    {
      sim::NoSim ns;
      int& i = w->next[t];
      while (i < static_cast<int>(ops.size()) && ops[i].thread != t)
        ++i;
      if (i < static_cast<int>(ops.size()))
        o = &ops[i];
      ++w->active;
      ++w->op_seq;
    }
    if (!o) {
      --w->active;
      break;
    }
    if (!d) {
      Code c;
      d = OpenDb(w, faults, &c);
      if (!d) {
        --w->active;
        if (++tries > 20)
          ++w->next[t];
        sim::SleepNs(1000000);
        continue;
      }
    }
    ++w->next[t];
    if (o->verb == "tx") {
      RunTx(w, *d, t, *o, faults);
    } else if (o->verb == "put") {
      Insert(w, *d, t, faults);
    } else if (o->verb == "read") {
      Snapshot(w, *d, faults);
    } else if (o->verb == "ckpt") {
      d->CheckPoint();
    } else if (o->verb == "reopen") {
      d.reset();
    } else if (o->verb == "err") {
      Misuse(w, *d, static_cast<int>(o->a[0]), faults);
    } else if (o->verb == "pause") {
      sim::SleepNs(o->a[0] * 1000000);
    }
    sim::NoSim ns;
    --w->active;
    ++w->op_seq;
  }
  d.reset();
  sim::NoSim ns;
  w->done[t] = true;
}

// What the crash of t's process means for what it was doing.
void AfterCrash(W* w, int t) {
  --w->active;
  ++w->op_seq;
  if (w->inserting.count(t)) {
    w->entries[w->inserting[t]] = kUnknown;
    w->inserting.erase(t);
  }
  auto it = w->open.find(t);
  if (it == w->open.end())
    return;
  Tx* x = it->second;
  w->open.erase(it);
  sim::Probe(x->st == kCommitting ? "crash while committing" : x->st == kAcked ? "crash after commit"
                                                                               : "crash in a transaction");
  if (x->st == kRunning)
    x->st = kDead;
  else if (x->st == kCommitting)
    x->st = kUnknown;
  x->lock_to = sim::Now();
}

void Run(const Program& p) {
  std::vector<Op> ops;
  int threads = static_cast<int>(p.P("threads"));
  W* w;
  bool faults = p.P("alloc") != 0;
  {
    sim::NoSim ns;
    ops = Parse(p);
    w = new W;
    w->faulty = Faulty(p);
    Tx* t = new Tx;
    t->id = 0;
    t->st = kAcked;
    t->acked = 0;
    w->tx.push_back(t);
    db::Put("junk.db", Bytes(1, 3000));
  }
  sim::SetFaultsEnabled(false);
  db::Install();
  {
    ms::Database d(kPath, ms::Mode::kReadWriteCreate);
    ms::Transaction tr(d);
    {
      ms::Statement s(d, "CREATE TABLE kv (key TEXT PRIMARY KEY, value BLOB)");
      s.Step();
    }
    {
      ms::Statement s(d, "CREATE TABLE log (n TEXT)");
      s.Step();
    }
    {
      ms::Statement s(d, "INSERT INTO kv VALUES (?, ?)");
      PutRow(s, "meta", "0");
    }
    tr.Commit();
  }
  std::vector<std::thread> ts(threads + 1);
  auto start = [&](int t) {
    sim::SetFaultsEnabled(false);
    ts[t] = std::thread([&, t] {
      {
        sim::NoSim ns;
        w->tid[t] = sim::Tid();
      }
      Worker(w, ops, t, faults);
    });
    sim::SetFaultsEnabled(true);
  };
  db::g_crash_ok = true;
  for (int t = 1; t <= threads; ++t)
    start(t);
  int restarts = 0;
  for (int t = 1; t <= threads; ++t) {
    for (;;) {
      ts[t].join();
      bool crashed;
      {
        sim::NoSim ns;
        crashed = !w->done[t];
        if (crashed)
          AfterCrash(w, t);
      }
      if (!crashed)
        break;
      if (++restarts > 30)
        db::g_crash_ok = false;
      start(t);
    }
  }
  db::g_crash_ok = false;
  bool faulted = AnyFault();
  sim::SetFaultsEnabled(false);
  if (db::Locked() || db::OpenFiles()) {
    sim::NoSim ns;
    sim::Fail("lock-left", "after all connections were closed: " + db::State());
  }
  if (!db::Crashes() && sqlite3_memory_used() != 0)
    sim::Fail("leak", Str("%lld bytes of the database library are left", static_cast<long long>(sqlite3_memory_used())));
  // Faults have ceased: the database opens, holds what was acknowledged, and works.
  {
    Code c;
    std::unique_ptr<ms::Database> d;
    try {
      d.reset(new ms::Database(kPath, ms::Mode::kReadWrite));
      {
        ms::Statement s(*d, "PRAGMA integrity_check");
        s.Step();
        std::string r(s.ColumnText(0));
        if (r != "ok")
          sim::Fail("corrupt", "the database is corrupt: " + r);
      }
      Map m(ReadAll(*d));
      {
        sim::NoSim ns;
        CheckState(w, m, sim::Seq(), "the last reader");
      }
      {
        ms::Statement s(*d, "SELECT n FROM log");
        std::map<int, int> got;
        while (s.Step() == ms::StepResult::kSqliteRow) {
          std::string n(s.ColumnText(0));
          sim::NoSim ns;
          ++got[atoi(n.c_str())];
        }
        sim::NoSim ns;
        for (auto& e : w->entries) {
          int n = got[e.first];
          if (n > 1 || (n == 0 && e.second == kAcked) || (n == 1 && e.second == kDead))
            sim::Fail(n ? "uncommitted-visible" : "lost-commit",
                      Str("an insertion which was %s is there %d times", kStatus[e.second], n));
        }
        if (got.size() != w->entries.size())
          sim::Fail("state-garbage", "the log has entries nobody inserted");
      }
      Op o;
      o.a = {7, 3, 1, 0, 0, 0};
      uint64_t t0 = sim::Now();
      RunTx(w, *d, 0, o, false);
      sim::NoSim ns;
      if (w->tx.back()->st != kAcked)
        sim::Fail("unusable", "no transaction succeeds after the faults have ceased");
    } catch (const std::exception& e) {
      sim::NoSim ns;
      sim::Fail("unusable", std::string("the database doesn't work after the faults have ceased: ") + e.what());
    }
  }
  if (faulted)
    sim::Probe("database checked after faults");
}

void Ops(Rng& r, Program& p, int threads, int n, bool stall, bool outages) {
  for (int i = 0; i < n; ++i) {
    int t = 1 + r.Below(threads);
    double u = r.Unit();
    if (u < 0.6) {
      int64_t hold = r.Chance(0.3) ? r.Below(3000) : 0;
      if (stall && r.Chance(0.3))
        hold = 100000 + r.Below(400000);
      p.ops.push_back(Line(t, "tx", {static_cast<int64_t>(r.Below(1000)), static_cast<int64_t>(r.Below(6)),
                                     r.Chance(0.75), hold, r.Chance(0.15) ? (stall && r.Chance(0.3) ? 2 : 1) : 0,
                                     outages && r.Chance(0.3) ? 1 + static_cast<int64_t>(r.Below(3)) : 0}));
    } else if (u < 0.65) {
      p.ops.push_back(Line(t, "put"));
    } else if (u < 0.75) {
      p.ops.push_back(Line(t, "read"));
    } else if (u < 0.82) {
      p.ops.push_back(Line(t, "ckpt"));
    } else if (u < 0.9) {
      p.ops.push_back(Line(t, "reopen"));
    } else if (u < 0.95) {
      p.ops.push_back(Line(t, "err", {static_cast<int64_t>(r.Below(8))}));
    } else {
      p.ops.push_back(Line(t, "pause", {static_cast<int64_t>(r.Below(2000))}));
    }
  }
}

void Gen16(Rng& r, Program& p, Config& c) {
  int threads = 1 + r.Below(3);
  p.params["threads"] = threads;
  Ops(r, p, threads, 3 + r.Below(12), false, r.Chance(0.15));
  p.params["faults"] = 1;
  if (r.Chance(0.7))
    c.prob[sim::K_CRASH] = Pick<double>(r, {0.001, 0.005, 0.02});
  if (r.Chance(0.5))
    c.prob[sim::K_DB_IO] = Pick<double>(r, {0.0005, 0.002, 0.01});
  if (r.Chance(0.2))
    c.prob[sim::K_DB_BUSY] = 0.01;
  if (r.Chance(0.3)) {
    p.params["alloc"] = 1;
    c.prob[sim::K_ALLOC] = Pick<double>(r, {0.0005, 0.005});
  }
  c.races = false;
  c.max_steps = 1500000;
}
void Gen17(Rng& r, Program& p, Config& c) {
  int threads = 2 + r.Below(4);
  p.params["threads"] = threads;
  bool stall = r.Chance(0.08), faulty = r.Chance(0.3);
  Ops(r, p, threads, 4 + r.Below(stall ? 6 : 16), stall, faulty && r.Chance(0.1));
  p.params["faults"] = faulty;
  if (Faulty(p)) {
    c.prob[sim::K_DB_IO] = r.Chance(0.5) ? 0.001 : 0;
    c.prob[sim::K_DB_BUSY] = Pick<double>(r, {0.005, 0.05});
    if (r.Chance(0.3)) {
      p.params["alloc"] = 1;
      c.prob[sim::K_ALLOC] = 0.001;
    }
  }
  c.races = false;
  c.max_steps = 1500000;
}

const std::vector<std::string> kReal = {"sqlite3_wrapper.cc", "SQLite 3.45 (pager, WAL, locking protocol, SQL)"};
const std::vector<std::string> kStub = {"SQLite's VFS: files, file locks and shared memory in memory",
                                        "processes: threads; a crash ends one at a VFS call and drops its locks",
                                        "clock and sleeping: simulated time"};
sim::Registrar r16({"C16", Gen16, Run,
                    "a run of transactions, readers, checkpoints and reopening with crashes and I/O errors; "
                    "non-trivial: threads alternate or a fault fired",
                    kReal, kStub, 25000, 400000});
sim::Registrar r17({"C17", Gen17, Run,
                    "a run of concurrent transactions on separate connections; non-trivial: threads alternate",
                    kReal, kStub, 22000, 400000});

}  // namespace
