// Driver: runs simulations in forked children, in parallel; minimises and replays violations.
#include <dirent.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "internal.h"

namespace sim {

// Not counted as steps of the run: the tree's shape depends on how the program was made.
int64_t Program::P(const std::string& n, int64_t def) const {
  NoSim ns;
  auto it = params.find(n);
  return it == params.end() ? def : it->second;
}

static std::vector<Property>& Props() {
  static std::vector<Property> p;
  return p;
}
void Register(Property p) { Props().push_back(std::move(p)); }

static double Wall() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec / 1e9;
}
static uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}

static void DefaultConfig(Rng& r, Config& c) {
  double u = r.Unit();
  c.strategy = u < 0.4 ? 0 : u < 0.75 ? 1 : u < 0.92 ? 2 : 3;
  static const double ps[] = {0.01, 0.05, 0.15, 0.3, 0.6};
  c.p_sync = ps[r.Below(5)];
  static const double mm[] = {0, 0, 12, 40, 200, 1500};
  c.mem_mean = mm[r.Below(6)];
  c.pct_depth = 1 + r.Below(6);
  static const uint64_t pl[] = {60, 200, 800, 3000};
  c.pct_len = pl[r.Below(4)];
  if (c.strategy == 1 && c.mem_mean > 0)
    c.mem_mean *= 20;
  if (c.strategy == 2)
    c.mem_mean = c.mem_mean > 0 ? c.mem_mean * 10 : 0;
  c.p_block = r.Chance(0.5) ? 1.0 : 0.4;
  c.prob[K_SIGNAL] = r.Chance(0.5) ? 0.5 : 0;
  static const double sp[] = {0, 0, 0.05, 0.3};
  c.prob[K_SPURIOUS] = sp[r.Below(4)];
  static const double tj[] = {0, 0, 0, 0.005, 0.05};
  c.prob[K_TIMEJUMP] = tj[r.Below(5)];
  c.seed = r.Next();
  c.garbage = r.Next();
}

static void Generate(const Property& p, uint64_t seed, uint64_t index, Program& prog, Config& cfg) {
  Rng r(Mix(Mix(seed, HashStr(p.id)), index));
  DefaultConfig(r, cfg);
  p.generate(r, prog, cfg);
}

static Result* NewResult() {
  void* m = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return static_cast<Result*>(m);
}

static std::string g_scratch_root;

// Removes everything below the directory (which is one of ours, made by mkdtemp).
static void CleanFd(int dfd) {
  DIR* d = fdopendir(dfd);
  if (!d) {
    close(dfd);
    return;
  }
  while (dirent* e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, ".."))
      continue;
    if (unlinkat(dfd, e->d_name, 0) == 0)
      continue;
    int sub = openat(dfd, e->d_name, O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
    if (sub >= 0)
      CleanFd(sub);
    unlinkat(dfd, e->d_name, AT_REMOVEDIR);
  }
  closedir(d);
}
static void CleanDir(const std::string& d) {
  if (d.find("/simrun.") == std::string::npos)
    return;
  int fd = open(d.c_str(), O_RDONLY | O_DIRECTORY | O_NOFOLLOW);
  if (fd >= 0)
    CleanFd(fd);
}

// Runs one simulation in a child.  False if the child ended in a way that is no verdict.
static bool RunOne(const Property& p, const Program& prog, const Config& cfg, bool replay,
                   const std::vector<Deviation>* dev, Result* res, bool keep_log,
                   const std::string& scratch) {
  res->status = S_NONE;
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(scratch.c_str()) != 0)
      _exit(79);
    g_scrub = scratch;
    RunChild(p, prog, cfg, replay, dev ? dev->data() : nullptr, dev ? dev->size() : 0, res, keep_log,
             ".");
    _exit(78);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  // Remove what the run left in its directory (rmdir succeeds if there is nothing).
  if (!scratch.empty()) {
    if (rmdir(scratch.c_str()) != 0)
      CleanDir(scratch);
    mkdir(scratch.c_str(), 0700);
  }
  if (res->status != S_NONE && WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return true;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) {
    res->status = S_FAIL;
    snprintf(res->cls, sizeof res->cls, "hang");
    snprintf(res->msg, sizeof res->msg,
             "the run neither ended nor reached a scheduling point (signal %d)", WTERMSIG(st));
    res->hash = 0;
    return true;
  }
  fprintf(stderr, "sim: child ended without verdict (status %x, %s)\n", st,
          WIFEXITED(st) ? "exit" : "signal");
  res->status = S_NONE;
  return false;
}

static bool NonTrivial(const Result& r) {
  if (r.switches > 1)
    return true;
  for (int k = K_SPURIOUS; k < K_NUM; ++k)
    if (r.fired[k])
      return true;
  return false;
}

// ---------------------------------------------------------------- replay files
struct Replay {
  std::string prop, cls, msg;
  uint64_t hash = 0, seed = 0, index = 0;
  Program prog;
  Config cfg;
  std::vector<Deviation> dev;
};
static void WriteReplay(const std::string& path, const Replay& r) {
  std::ofstream f(path);
  f.precision(17);
  f << "property " << r.prop << "\nclass " << r.cls << "\n";
  std::string m = r.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  f << "message " << m << "\n";
  f << "found-by-seed " << r.seed << " index " << r.index << "\n";
  f << "hash " << r.hash << "\n";
  f << "cfg " << r.cfg.seed << " " << r.cfg.garbage << " " << r.cfg.tick_ns << " " << r.cfg.max_steps
    << " " << r.cfg.max_mem << " " << r.cfg.races << "\n";
  for (auto& p : r.prog.params)
    f << "param " << p.first << " " << p.second << "\n";
  for (auto& o : r.prog.ops)
    f << "op " << o << "\n";
  for (auto& d : r.dev)
    f << "dev " << kKindNames[d.kind] << " t" << int(d.tid) << " " << d.counter << " " << d.value << "\n";
}
static bool ReadReplay(const std::string& path, Replay& r) {
  std::ifstream f(path);
  if (!f)
    return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    auto rest = [&] {
      std::string s;
      std::getline(is, s);
      return s.empty() ? s : s.substr(1);
    };
    if (k == "property")
      is >> r.prop;
    else if (k == "class")
      r.cls = rest();
    else if (k == "message")
      r.msg = rest();
    else if (k == "hash")
      is >> r.hash;
    else if (k == "cfg")
      is >> r.cfg.seed >> r.cfg.garbage >> r.cfg.tick_ns >> r.cfg.max_steps >> r.cfg.max_mem >>
          r.cfg.races;
    else if (k == "param") {
      std::string n;
      int64_t v;
      is >> n >> v;
      r.prog.params[n] = v;
    } else if (k == "op")
      r.prog.ops.push_back(rest());
    else if (k == "dev") {
      std::string n, t;
      Deviation d;
      uint64_t c, v;
      is >> n >> t >> c >> v;
      for (int i = 0; i < K_NUM; ++i)
        if (n == kKindNames[i])
          d.kind = i;
      d.tid = atoi(t.c_str() + 1);
      d.counter = c;
      d.value = v;
      r.dev.push_back(d);
    }
  }
  r.cfg.strategy = 3;
  return !r.prop.empty();
}

// ---------------------------------------------------------------- known findings
struct Known {
  std::string prop, cls, match, text;
};
static std::vector<Known> LoadKnown(const std::string& path) {
  std::vector<Known> out;
  std::ifstream f(path);
  std::string line;
  // finding: property=<id> class=<class> match="<text in the message>" <what fails>
  while (std::getline(f, line)) {
    if (line.rfind("finding:", 0) != 0)
      continue;
    Known k;
    auto get = [&](const std::string& n) {
      size_t p = line.find(" " + n + "=");
      if (p == std::string::npos)
        return std::string();
      p += n.size() + 2;
      if (line[p] == '"') {
        size_t e = line.find('"', p + 1);
        return line.substr(p + 1, e - p - 1);
      }
      return line.substr(p, line.find(' ', p) - p);
    };
    k.prop = get("property");
    k.cls = get("class");
    k.match = get("match");
    size_t p = line.find("what=");
    k.text = p == std::string::npos ? line : line.substr(p + 5);
    out.push_back(k);
  }
  return out;
}

// ---------------------------------------------------------------- JSON
static std::string J(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else if (c < 127) {
      o += c;
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
  }
  return o + "\"";
}

// ---------------------------------------------------------------- workers
struct Totals {
  uint64_t runs, nontrivial, steps, mem, switches, sim_ns, fired[K_NUM], fired_runs[K_NUM];
  uint64_t audits, audit_mismatch, no_verdict, threads_max, fault_runs, faultfree_runs;
  uint64_t strat[4];
  uint64_t peak_steps, peak_mem;  // Per mille of the bounds, over the runs.
  uint64_t known_hits;
  int nprobes;
  struct {
    char name[48];
    uint64_t n, runs;
  } probes[kMaxProbes];
  int violation;           // 1 if found
  uint64_t violation_index;
  volatile int stop;
};

struct Options {
  std::string prop, tier = "quick", replay, result, replay_dir = ".", known;
  uint64_t seed = 1;
  int jobs = 8;
  int64_t runs = 0;
  double wall = 600;
  int64_t one = -1;
  bool trace = false, keep_going = false;
  int audit = 64;
};

static void AddProbe(Totals* t, const char* n, uint64_t v) {
  for (int i = 0; i < t->nprobes; ++i)
    if (!strcmp(t->probes[i].name, n)) {
      t->probes[i].n += v;
      t->probes[i].runs++;
      return;
    }
  if (t->nprobes < kMaxProbes) {
    snprintf(t->probes[t->nprobes].name, 48, "%s", n);
    t->probes[t->nprobes].n = v;
    t->probes[t->nprobes++].runs = 1;
  }
}

static bool IsKnown(const std::vector<Known>& ks, const std::string& prop, const Result& r) {
  for (auto& k : ks)
    if (k.prop == prop && k.cls == r.cls &&
        (k.match.empty() || strstr(r.msg, k.match.c_str()) != nullptr))
      return true;
  return false;
}

static void Worker(int w, const Options& o, const Property& p, const std::vector<Known>& known,
                   Totals* t, volatile int* stop, int fd, double deadline) {
  cpu_set_t cs;
  CPU_ZERO(&cs);
  cpu_set_t all;
  if (sched_getaffinity(0, sizeof all, &all) == 0) {
    int n = CPU_COUNT(&all), k = w % std::max(n, 1), c = 0;
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &all) && c++ == k)
        CPU_SET(i, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  std::string scratch = g_scratch_root + "/w" + std::to_string(100 + w);
  mkdir(scratch.c_str(), 0700);
  Result* res = NewResult();
  std::vector<uint64_t> hashes;
  for (int64_t i = w; i < o.runs; i += o.jobs) {
    if (*stop || Wall() > deadline)
      break;
    Program prog;
    Config cfg;
    Generate(p, o.seed, i, prog, cfg);
    if (!RunOne(p, prog, cfg, false, nullptr, res, false, scratch)) {
      ++t->no_verdict;
      if (t->no_verdict > 3)
        *stop = 1;
      continue;
    }
    ++t->runs;
    ++t->strat[cfg.strategy];
    t->steps += res->steps;
    t->peak_steps = std::max<uint64_t>(t->peak_steps, res->steps * 1000 / cfg.max_steps);
    t->peak_mem = std::max<uint64_t>(t->peak_mem, res->mem * 1000 / cfg.max_mem);
    t->mem += res->mem;
    t->switches += res->switches;
    t->sim_ns += res->sim_ns;
    t->threads_max = std::max(t->threads_max, res->threads);
    bool faulty = false;
    for (int k = 0; k < K_NUM; ++k) {
      t->fired[k] += res->fired[k];
      t->fired_runs[k] += res->fired[k] != 0;
      if (k >= K_SPURIOUS && res->fired[k])
        faulty = true;
    }
    ++(faulty ? t->fault_runs : t->faultfree_runs);
    for (int k = 0; k < res->nprobes; ++k)
      AddProbe(t, res->probes[k].name, res->probes[k].n);
    if (NonTrivial(*res) || (p.serial && prog.ops.size() >= 2)) {
      ++t->nontrivial;
      uint64_t ph = 0;
      for (auto& op : prog.ops)
        ph = Mix(ph, HashStr(op));
      for (auto& kv : prog.params)
        ph = Mix(ph, HashStr(kv.first) + kv.second);
      hashes.push_back(Mix(res->hash, ph));
    }
    if (res->status == S_FAIL) {
      if (IsKnown(known, p.id, *res)) {
        ++t->known_hits;
      } else {
        t->violation = 1;
        t->violation_index = i;
        if (getenv("SIM_DEBUG"))
          fprintf(stderr, "sim: run %ld: %s: %s\n", (long)i, res->cls, res->msg);
        *stop = 1;
        break;
      }
    } else if (o.audit && (i / o.jobs) % o.audit == 0) {
      uint64_t h = res->hash, oh = res->order_hash, st = res->steps;
      std::vector<Deviation> dev(res->dev, res->dev + res->ndev);
      bool over = res->dev_overflow;
      ++t->audits;
      // Alternate: the same seed again, or a replay of its recorded deviations.
      if (((i / o.jobs) / o.audit) % 2 == 0 || over)
        RunOne(p, prog, cfg, false, nullptr, res, false, scratch);
      else
        RunOne(p, prog, cfg, true, &dev, res, false, scratch);
      if (h != res->hash || oh != res->order_hash || st != res->steps) {
        ++t->audit_mismatch;
        fprintf(stderr, "sim: run %ld of %s is not deterministic\n", (long)i, p.id.c_str());
      }
    }
  }
  rmdir(scratch.c_str());
  size_t n = hashes.size() * 8, off = 0;
  while (off < n) {
    ssize_t k = write(fd, reinterpret_cast<char*>(hashes.data()) + off, n - off);
    if (k <= 0)
      break;
    off += k;
  }
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
  const Property& p;
  Result* res;
  std::string scratch, cls;
  double deadline;
  int runs = 0;
  bool Try(const Replay& r) {
    ++runs;
    if (!RunOne(p, r.prog, r.cfg, true, &r.dev, res, false, scratch))
      return false;
    return res->status == S_FAIL && cls == res->cls;
  }
  // Also tries other schedules for the same operations.
  bool TrySearch(Replay& r, const Config& orig, int fresh) {
    if (Try(r)) {
      Adopt(r);
      return true;
    }
    for (int i = 0; i < fresh && Wall() < deadline; ++i) {
      Config c = orig;
      c.seed = Mix(orig.seed, 1000 + i);
      ++runs;
      if (!RunOne(p, r.prog, c, false, nullptr, res, false, scratch))
        continue;
      if (res->status == S_FAIL && cls == res->cls && !res->dev_overflow) {
        r.cfg.seed = c.seed;
        r.dev.assign(res->dev, res->dev + res->ndev);
        Replay again = r;
        if (Try(again)) {
          Adopt(r);
          return true;
        }
      }
    }
    return false;
  }
  void Adopt(Replay& r) {
    r.dev.assign(res->dev, res->dev + res->ndev);
    r.hash = res->hash;
    r.msg = res->msg;
  }
  void Ops(Replay& best, const Config& orig) {
    size_t chunk = std::max<size_t>(1, best.prog.ops.size() / 2);
    while (chunk >= 1 && Wall() < deadline) {
      bool progress = false;
      for (size_t i = 0; i + 1 <= best.prog.ops.size() && Wall() < deadline;) {
        Replay r = best;
        size_t n = std::min(chunk, r.prog.ops.size() - i);
        r.prog.ops.erase(r.prog.ops.begin() + i, r.prog.ops.begin() + i + n);
        if (TrySearch(r, orig, chunk <= 2 ? 12 : 4)) {
          best = r;
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1 && !progress)
        break;
      chunk = chunk == 1 ? 1 : chunk / 2;
    }
  }
  void Devs(Replay& best) {
    size_t chunk = std::max<size_t>(1, best.dev.size() / 2);
    while (!best.dev.empty() && Wall() < deadline) {
      bool progress = false;
      for (size_t i = 0; i < best.dev.size() && Wall() < deadline;) {
        Replay r = best;
        size_t n = std::min(chunk, r.dev.size() - i);
        r.dev.erase(r.dev.begin() + i, r.dev.begin() + i + n);
        size_t before = best.dev.size();
        if (Try(r)) {
          Adopt(r);
          if (r.dev.size() < before) {
            best = r;
            progress = true;
            continue;
          }
        }
        i += chunk;
      }
      if (chunk == 1 && !progress)
        break;
      chunk = chunk == 1 ? 1 : chunk / 2;
    }
  }
};

static int DoReplay(const Options& o, bool quiet) {
  Replay r;
  if (!ReadReplay(o.replay, r)) {
    fprintf(stderr, "cannot read %s\n", o.replay.c_str());
    return 3;
  }
  const Property* p = nullptr;
  for (auto& q : Props())
    if (q.id == r.prop)
      p = &q;
  if (!p)
    return 3;
  Result* res = NewResult();
  std::string scratch = g_scratch_root + "/r000";
  mkdir(scratch.c_str(), 0700);
  bool ok = RunOne(*p, r.prog, r.cfg, true, &r.dev, res, true, scratch);
  if (!ok)
    return 3;
  if (!quiet)
    fwrite(res->log, 1, res->log_len, stdout);
  if (res->status != S_FAIL) {
    printf("replay: property %s held\n", r.prop.c_str());
    return 0;
  }
  bool same = r.cls == res->cls;
  printf("replay: property=%s class=%s hash=%lu %s\n  %s\n", r.prop.c_str(), res->cls,
         (unsigned long)res->hash,
         same ? (res->hash == r.hash ? "(reproduced exactly)" : "(same class, different trace)")
              : "(different violation)",
         res->msg);
  return same && res->hash == r.hash ? 1 : 4;
}

int Main(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      o.prop = next();
    else if (a == "--tier")
      o.tier = next();
    else if (a == "--seed")
      o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--runs")
      o.runs = atoll(next().c_str());
    else if (a == "--jobs")
      o.jobs = atoi(next().c_str());
    else if (a == "--wall")
      o.wall = atof(next().c_str());
    else if (a == "--one")
      o.one = atoll(next().c_str());
    else if (a == "--replay")
      o.replay = next();
    else if (a == "--replay-dir")
      o.replay_dir = next();
    else if (a == "--result")
      o.result = next();
    else if (a == "--known")
      o.known = next();
    else if (a == "--audit")
      o.audit = atoi(next().c_str());
    else if (a == "--list") {
      for (auto& p : Props())
        printf("%s\n", p.id.c_str());
      return 0;
    }
  }
  MapRegions();
  char tmpl[] = "/tmp/simrun.XXXXXX";
  const char* td = getenv("VERIF_SCRATCH");
  std::string base = td ? std::string(td) + "/simrun.XXXXXX" : tmpl;
  std::vector<char> b(base.begin(), base.end());
  b.push_back(0);
  if (!mkdtemp(b.data()))
    return 3;
  // The path must have the same length and content for every run, as programs may depend on it:
  // runs see a fixed-length name.
  g_scratch_root = b.data();
  struct Cleanup {
    pid_t pid = getpid();
    ~Cleanup() {
      if (getpid() != pid)
        return;
      CleanDir(g_scratch_root);
      rmdir(g_scratch_root.c_str());
    }
  } cleanup;

  if (!o.replay.empty())
    return DoReplay(o, false);
  const Property* p = nullptr;
  for (auto& q : Props())
    if (q.id == o.prop)
      p = &q;
  if (!p) {
    fprintf(stderr, "unknown property %s\n", o.prop.c_str());
    return 3;
  }
  if (o.runs == 0)
    o.runs = o.tier == "thorough" ? p->thorough_runs : p->quick_runs;
  if (o.one >= 0) {
    Program prog;
    Config cfg;
    Generate(*p, o.seed, o.one, prog, cfg);
    printf("strategy %d p_sync %g mem_mean %g\n", cfg.strategy, cfg.p_sync, cfg.mem_mean);
    for (auto& q : prog.params)
      printf("param %s %ld\n", q.first.c_str(), (long)q.second);
    for (auto& q : prog.ops)
      printf("op %s\n", q.c_str());
    Result* res = NewResult();
    std::string scratch = g_scratch_root + "/r000";
    mkdir(scratch.c_str(), 0700);
    RunOne(*p, prog, cfg, false, nullptr, res, true, scratch);
    fwrite(res->log, 1, res->log_len, stdout);
    printf("status %d cls %s msg %s hash %lu steps %lu mem %lu switches %lu sim %.6f\n", res->status,
           res->cls, res->msg, (unsigned long)res->hash, (unsigned long)res->steps,
           (unsigned long)res->mem, (unsigned long)res->switches, res->sim_ns / 1e9);
    for (int k = 0; k < res->nprobes; ++k)
      printf("probe %s %lu\n", res->probes[k].name, (unsigned long)res->probes[k].n);
    for (int k = 0; k < K_NUM; ++k)
      if (res->fired[k])
        printf("fired %s %lu\n", kKindNames[k], (unsigned long)res->fired[k]);
    return res->status == S_FAIL ? 1 : 0;
  }

  std::vector<Known> known = LoadKnown(o.known);
  double t0 = Wall();
  Totals* tot = static_cast<Totals*>(mmap(nullptr, sizeof(Totals) * o.jobs, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  volatile int* stop = static_cast<volatile int*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<int> fds;
  std::vector<pid_t> pids;
  for (int w = 0; w < o.jobs; ++w) {
    int pf[2];
    if (pipe(pf))
      return 3;
    pid_t pid = fork();
    if (pid == 0) {
      close(pf[0]);
      Worker(w, o, *p, known, &tot[w], stop, pf[1], t0 + o.wall);
      _exit(0);
    }
    close(pf[1]);
    fds.push_back(pf[0]);
    pids.push_back(pid);
  }
  std::unordered_set<uint64_t> distinct;
  for (int fd : fds) {
    uint64_t buf[512];
    size_t have = 0;
    for (;;) {
      ssize_t k = read(fd, reinterpret_cast<char*>(buf) + have, sizeof buf - have);
      if (k <= 0)
        break;
      have += k;
      size_t n = have / 8;
      for (size_t i = 0; i < n; ++i)
        distinct.insert(buf[i]);
      memmove(buf, buf + n, have - n * 8);
      have -= n * 8;
    }
    close(fd);
  }
  bool worker_died = false;
  for (pid_t pid : pids) {
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
      worker_died = true;
  }
  double wall = Wall() - t0;
  Totals T{};
  std::vector<int64_t> found;
  for (int w = 0; w < o.jobs; ++w) {
    Totals& x = tot[w];
    T.runs += x.runs;
    T.nontrivial += x.nontrivial;
    T.steps += x.steps;
    T.mem += x.mem;
    T.switches += x.switches;
    T.sim_ns += x.sim_ns;
    for (int k = 0; k < K_NUM; ++k) {
      T.fired[k] += x.fired[k];
      T.fired_runs[k] += x.fired_runs[k];
    }
    T.audits += x.audits;
    T.audit_mismatch += x.audit_mismatch;
    T.no_verdict += x.no_verdict;
    T.fault_runs += x.fault_runs;
    T.faultfree_runs += x.faultfree_runs;
    T.known_hits += x.known_hits;
    T.threads_max = std::max(T.threads_max, x.threads_max);
    T.peak_steps = std::max(T.peak_steps, x.peak_steps);
    T.peak_mem = std::max(T.peak_mem, x.peak_mem);
    for (int k = 0; k < 4; ++k)
      T.strat[k] += x.strat[k];
    for (int k = 0; k < x.nprobes; ++k) {
      AddProbe(&T, x.probes[k].name, x.probes[k].n);
      for (int q = 0; q < T.nprobes; ++q)
        if (!strcmp(T.probes[q].name, x.probes[k].name))
          T.probes[q].runs += x.probes[k].runs - 1;
    }
    if (x.violation)
      found.push_back(x.violation_index);
  }
  int rc = 0;
  std::string vjson = "null";
  if (T.no_verdict || worker_died) {
    fprintf(stderr, "sim: %lu runs ended without a verdict\n", (unsigned long)T.no_verdict);
    rc = 3;
  }
  if (T.audit_mismatch)
    rc = 3;
  std::sort(found.begin(), found.end());
  std::string unstable, ucls, umsg;  // repeats here, but not in a fresh process
  for (int64_t vindex : found) {
    if (rc == 1)
      break;
    // Gate: the same seed twice, then the recorded deviations, then (after minimising) a fresh process.
    Program prog;
    Config cfg;
    Generate(*p, o.seed, vindex, prog, cfg);
    Result* res = NewResult();
    std::string scratch = g_scratch_root + "/r000";
    mkdir(scratch.c_str(), 0700);
    RunOne(*p, prog, cfg, false, nullptr, res, false, scratch);
    Replay r;
    r.prop = p->id;
    r.cls = res->cls;
    r.msg = res->msg;
    r.hash = res->hash;
    r.seed = o.seed;
    r.index = vindex;
    r.prog = prog;
    r.cfg = cfg;
    r.dev.assign(res->dev, res->dev + res->ndev);
    bool over = res->dev_overflow;
    int st1 = res->status;
    RunOne(*p, prog, cfg, false, nullptr, res, false, scratch);
    if (st1 != S_FAIL || res->status != S_FAIL || r.hash != res->hash || r.cls != res->cls) {
      fprintf(stderr, "sim: violation at index %ld does not repeat with its seed (%s / %s)\n",
              (long)vindex, r.cls.c_str(), res->cls);
      rc = 3;
    } else {
      Minimiser m{*p, res, scratch, r.cls, Wall() + (o.tier == "thorough" ? 120 : 45), 0};
      size_t ops0 = r.prog.ops.size(), dev0 = r.dev.size();
      if (over || !m.Try(r)) {
        fprintf(stderr, "sim: violation at index %ld (%s: %s) does not replay from its trace (%s)\n",
                (long)vindex, r.cls.c_str(), r.msg.c_str(), res->cls);
        rc = 3;
      } else {
        m.Ops(r, cfg);
        m.Devs(r);
        m.Try(r);
        m.Adopt(r);
        std::string path = o.replay_dir + "/" + p->id + "-" + std::to_string(o.seed) + ".replay";
        WriteReplay(path, r);
        // Fresh process.
        std::string cmd = std::string("/proc/self/exe");
        char exe[4096];
        ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        exe[n > 0 ? n : 0] = 0;
        int back = 0;
        pid_t pid = fork();
        if (pid == 0) {
          int nul = open("/dev/null", O_WRONLY);
          dup2(nul, 1);
          execl(exe, exe, "--replay", path.c_str(), static_cast<char*>(nullptr));
          _exit(99);
        }
        waitpid(pid, &back, 0);
        if (!WIFEXITED(back) || WEXITSTATUS(back) != 1) {
          fprintf(stderr, "sim: replay file %s does not reproduce in a fresh process (%x)\n",
                  path.c_str(), back);
          rc = 3;
          if (unstable.empty()) {
            unstable = path + ".unstable";
            rename(path.c_str(), unstable.c_str());
            ucls = r.cls;
            umsg = r.msg;
          }
        } else {
          printf("class=%s\n  %s\n", r.cls.c_str(), r.msg.c_str());
          printf("  seed %lu run %ld; minimised from %zu operations, %zu decisions to %zu, %zu (%d runs)\n",
                 (unsigned long)o.seed, (long)vindex, ops0, dev0, r.prog.ops.size(), r.dev.size(),
                 m.runs);
          printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), path.c_str());
          rc = 1;
          vjson = "{\"class\":" + J(r.cls) + ",\"message\":" + J(r.msg) + ",\"replay\":" + J(path) +
                  ",\"index\":" + std::to_string(vindex) + "}";
        }
      }
    }
  }
  if (rc != 1 && !unstable.empty()) {
    // The code under test depends on memory which is none of its objects.
    printf("class=%s\n  %s\n  repeated three times by its seed and its trace in this process, but not in a fresh one: "
           "undefined behaviour\n", ucls.c_str(), umsg.c_str());
    printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), unstable.c_str());
    rc = 1;
  }
  if (!o.result.empty()) {
    std::ofstream f(o.result);
    auto strs = [](const std::vector<std::string>& v) {
      std::string s = "[";
      for (size_t i = 0; i < v.size(); ++i)
        s += (i ? "," : "") + J(v[i]);
      return s + "]";
    };
    f << "{\"property\":" << J(p->id) << ",\"runs\":" << T.runs << ",\"nontrivial\":" << T.nontrivial
      << ",\"distinct\":" << distinct.size() << ",\"steps\":" << T.steps << ",\"mem\":" << T.mem
      << ",\"switches\":" << T.switches << ",\"sim_seconds\":" << T.sim_ns / 1e9
      << ",\"wall\":" << wall << ",\"audits\":" << T.audits
      << ",\"audit_mismatch\":" << T.audit_mismatch << ",\"fault_runs\":" << T.fault_runs
      << ",\"faultfree_runs\":" << T.faultfree_runs << ",\"threads_max\":" << T.threads_max
      << ",\"known_hits\":" << T.known_hits << ",\"strategies\":[" << T.strat[0] << "," << T.strat[1]
      << "," << T.strat[2] << "," << T.strat[3] << "],\"rule\":" << J(p->rule)
      << ",\"real\":" << strs(p->real) << ",\"stub\":" << strs(p->stub) << ",\"fired\":{";
    bool first = true;
    for (int k = 0; k < K_NUM; ++k)
      if (T.fired[k]) {
        f << (first ? "" : ",") << J(kKindNames[k]) << ":{\"times\":" << T.fired[k]
          << ",\"runs\":" << T.fired_runs[k] << "}";
        first = false;
      }
    f << "},\"probes\":{";
    for (int k = 0; k < T.nprobes; ++k)
      f << (k ? "," : "") << J(T.probes[k].name) << ":{\"times\":" << T.probes[k].n
        << ",\"runs\":" << T.probes[k].runs << "}";
    f << "},\"samples\":[";
    for (int i = 0; i < 3 && i < o.runs; ++i) {
      Program prog;
      Config cfg;
      Generate(*p, o.seed, i, prog, cfg);
      std::string s = "strategy=" + std::to_string(cfg.strategy) + " p_sync=" +
                      std::to_string(cfg.p_sync) + " mem_mean=" + std::to_string(cfg.mem_mean);
      for (int k = K_SIGNAL; k < K_NUM; ++k)
        if (cfg.prob[k] > 0)
          s += std::string(" p(") + kKindNames[k] + ")=" + std::to_string(cfg.prob[k]);
      for (auto& q : prog.params)
        s += " " + q.first + "=" + std::to_string(q.second);
      s += " |";
      for (size_t k = 0; k < prog.ops.size() && k < 60; ++k)
        s += " " + prog.ops[k] + ";";
      f << (i ? "," : "") << J("run " + std::to_string(i) + ": " + s);
    }
    f << "],\"violation\":" << vjson << ",\"rc\":" << rc << "}\n";
  }
  printf("%s: %lu runs, %zu distinct non-trivial, %.1f s, %lu audits (%lu mismatches), %lu steps, "
         "longest run at %.1f%% of the step bound, %.1f%% of the access bound\n",
         p->id.c_str(), (unsigned long)T.runs, distinct.size(), wall, (unsigned long)T.audits,
         (unsigned long)T.audit_mismatch, (unsigned long)T.steps, T.peak_steps / 10.0, T.peak_mem / 10.0);
  return rc;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::Main(argc, argv); }
