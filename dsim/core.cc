// Run driver: forks simulated processes, searches seeds, minimises and replays.
extern "C" void __sanitizer_print_stack_trace(void);
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

namespace dsim {
Shm *shm = nullptr;
Ctx ctx;
bool verbose = false;
static std::string g_scratch, g_verif = "/verif", g_repo = "/repo", g_build;
const char *repo_build_dir() { return g_build.c_str(); }
std::vector<World> &worlds() { static std::vector<World> w; return w; }

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const u8 *b = (const u8 *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return mix(h, n);
}
void note_state(u64 h) {
  if (shm->nstates < MAXSTATES) shm->states[shm->nstates++] = h;
  shm->loghash = mix(shm->loghash, h);
}
void log_hash(u64 v) { shm->loghash = mix(shm->loghash, v); }
void say(const char *fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
  fputc('\n', stderr);
}
void violation(const std::string &key, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  va_end(ap);
  snprintf(shm->key, sizeof shm->key, "%s", key.c_str());
  shm->has_violation = 1;
  if (verbose) fprintf(stderr, "VIOLATION %s: %s\n", shm->key, shm->msg);
  _exit(70);
}

// ---------------------------------------------------------------- one run ----
struct Result {
  bool bad = false, inconclusive = false;
  std::string key, msg;
  u64 loghash = 0;
};
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void rm_rf(const std::string &d) {
  if (d.compare(0, g_scratch.size(), g_scratch) != 0 || g_scratch.size() < 8) return;   // only our own scratch
  nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}

// A stable name for a sanitizer report, assertion or signal.
static std::string crash_key(const std::string &log, int status) {
  std::string key;
  size_t p;
  if ((p = log.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    size_t q = log.find_first_of(" \n", p + 25);
    key = "memory:" + log.substr(p + 25, q - p - 25);
    // first frame in the code under test
    std::istringstream is(log.substr(p));
    std::string line; int n = 0;
    while (std::getline(is, line) && n < 400) {
      n++;
      size_t in = line.find(" in ");
      if (line.find("    #") == 0 && in != std::string::npos &&
          (line.find(g_repo + "/") != std::string::npos || line.find("libdlite") != std::string::npos)) {
        std::string fn = line.substr(in + 4);
        key += ":" + fn.substr(0, fn.find(' '));
        break;
      }
    }
  } else if ((p = log.find("runtime error: ")) != std::string::npos) {
    size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
    std::string loc = log.substr(b, log.find(':', b) - b);
    std::string what = log.substr(p + 15, log.find('\n', p) - p - 15);
    for (auto &c : what) if (isdigit((unsigned char)c)) c = '#';
    key = "undefined:" + loc.substr(loc.rfind('/') + 1) + ":" + what.substr(0, 60);
  } else if ((p = log.find(": Assertion `")) != std::string::npos) {
    size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
    std::string l = log.substr(b, log.find('\n', p) - b);
    size_t a = l.find("Assertion `");
    size_t fn = l.rfind(": ", a - 1);
    size_t f0 = fn == std::string::npos ? 0 : l.rfind(": ", fn - 1);
    (void)f0;
    key = "assert:" + l.substr(a + 10, 60);
  } else if (WIFSIGNALED(status)) {
    key = std::string("signal:") + strsignal(WTERMSIG(status));
  } else {
    key = "exit:" + std::to_string(WEXITSTATUS(status));
  }
  for (auto &c : key) if (c == ' ' || c == '\t' || c == '\n') c = '_';
  return key;
}

// an operation does not end: leave the stack in the log and die of the signal
static void on_hang(int sig) {
  signal(sig, SIG_DFL);
  __sanitizer_print_stack_trace();
  raise(sig);
}
static Result execute(const World &w, const Trace &ops, u64 seed, int slot) {
  Result r;
  memset((void *)shm, 0, sizeof(Shm));
  ctx.seed = seed; ctx.ops = &ops;
  ctx.dir = g_scratch + "/r" + std::to_string(slot);
  rm_rf(ctx.dir);
  mkdir(ctx.dir.c_str(), 0700);
  mkdir((ctx.dir + "/d").c_str(), 0700);
  std::string log = ctx.dir + "/log";
  u32 start = 0;
  for (u32 inc = 0; inc < 60; inc++) {
    shm->incarnation = inc; shm->done = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { r.inconclusive = true; return r; }
    if (pid == 0) {
      int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (!verbose) { dup2(fd, 1); dup2(fd, 2); }
      else dup2(2, 1);
      if (chdir((ctx.dir + "/d").c_str())) _exit(98);
      struct rlimit rl = {12, 15};
      setrlimit(RLIMIT_CPU, &rl);
      rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
      signal(SIGXCPU, on_hang); signal(SIGALRM, on_hang);
      alarm(150);
      seam_begin(ctx.dir + "/d/");
      w.run(ops, start, inc);
      shm->done = 1;
      exit(0);
    }
    int status = 0;
    double t0 = now();
    while (1) {
      pid_t k = waitpid(pid, &status, now() - t0 < 0.05 ? WNOHANG : 0);
      if (k == pid) break;
      if (k == 0) { struct timespec ts = {0, 100000}; nanosleep(&ts, nullptr); continue; }
      if (k < 0 && errno != EINTR) break;
    }
    r.loghash = shm->loghash;
    if (shm->has_violation) { r.bad = true; r.key = shm->key; r.msg = shm->msg; break; }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->done) break;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77) {     // simulated crash: restart
      start = shm->opidx + 1;
      continue;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 76) {     // planned restart
      start = shm->next_op;
      continue;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 98) { r.inconclusive = true; r.msg = "harness setup failure"; break; }
    if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { r.inconclusive = true; r.msg = "killed"; break; }
    std::string l = read_file(log);
    r.bad = true;
    if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGALRM)) {
      r.key = "hang"; r.msg = "no progress: an operation did not finish within its CPU budget\n" + l.substr(l.find("    #0") == std::string::npos ? l.size() : l.find("    #0"), 1500);
    } else {
      r.key = crash_key(l, status);
      size_t p = l.find("ERROR: AddressSanitizer");
      if (p == std::string::npos) p = l.find("runtime error");
      if (p == std::string::npos) p = l.find("Assertion `");
      if (p == std::string::npos) p = l.size() > 600 ? l.size() - 600 : 0;
      else p = p > 120 ? p - 120 : 0;
      r.msg = std::string(shm->done ? "process died while shutting down: " : "process died: ") + l.substr(p, 1500);
    }
    break;
  }
  rm_rf(ctx.dir);
  return r;
}

// ------------------------------------------------------------ trace files ----
static void write_trace(const std::string &path, const World &w, u64 seed, const Trace &t, const Result &r) {
  std::ofstream o(path);
  o << "dsim-trace 1\nproperty " << w.id << "\nseed " << seed << "\nkey " << r.key << "\n";
  std::istringstream is(r.msg); std::string line;
  while (std::getline(is, line)) o << "# " << line << "\n";
  for (auto &x : t) {
    o << "op " << x.client << " " << x.kind;
    for (u32 a : x.a) o << " " << a;
    o << " fault " << x.f.kind << " " << x.f.nth << " " << x.f.arg;
    o << "   # client " << x.client << " " << w.opname(x.kind) << (x.f.kind ? std::string(" with ") + fault_name[x.f.kind] : "") << "\n";
  }
}
static bool read_trace(const std::string &path, std::string &prop, u64 &seed, std::string &key, Trace &t) {
  std::ifstream in(path);
  std::string line;
  if (!std::getline(in, line) || line.compare(0, 10, "dsim-trace")) return false;
  while (std::getline(in, line)) {
    std::istringstream is(line); std::string w; is >> w;
    if (w == "property") is >> prop;
    else if (w == "seed") is >> seed;
    else if (w == "key") is >> key;
    else if (w == "op") {
      Op x; std::string f; is >> x.client >> x.kind;
      for (auto &a : x.a) is >> a;
      is >> f >> x.f.kind >> x.f.nth >> x.f.arg;
      t.push_back(x);
    }
  }
  return true;
}

// -------------------------------------------------------- known findings ----
struct Known { std::string prop, key, text; };
static std::vector<Known> load_known() {
  std::vector<Known> v;
  std::ifstream in(g_verif + "/known_findings.txt");
  std::string line;
  // finding: property=<id> key=<key> <text>
  while (std::getline(in, line)) {
    if (line.compare(0, 9, "finding: ")) continue;
    std::istringstream is(line.substr(9));
    std::string a, b; is >> a >> b;
    if (a.compare(0, 9, "property=") || b.compare(0, 4, "key=")) continue;
    std::string rest; std::getline(is, rest);
    v.push_back({a.substr(9), b.substr(4), rest});
  }
  return v;
}

// ------------------------------------------------------------- minimising ----
static Trace minimise(const World &w, Trace t, u64 seed, const std::string &key, double budget) {
  double t0 = now();
  auto still = [&](const Trace &c) { Result r = execute(w, c, seed, 90); return r.bad && r.key == key; };
  // drop faults that do not matter
  for (size_t i = 0; i < t.size() && now() - t0 < budget; i++)
    if (t[i].f.kind) { Trace c = t; c[i].f = Fault(); if (still(c)) t = c; }
  for (size_t chunk = std::max<size_t>(1, t.size() / 2); chunk >= 1 && now() - t0 < budget;) {
    bool any = false;
    for (size_t i = 0; i < t.size() && now() - t0 < budget;) {
      Trace c(t.begin(), t.begin() + i);
      c.insert(c.end(), t.begin() + std::min(t.size(), i + chunk), t.end());
      if (c.size() < t.size() && still(c)) { t = c; any = true; } else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk /= 2; else if (!any) break;
  }
  // simpler arguments
  for (size_t i = 0; i < t.size() && now() - t0 < budget; i++)
    for (int k = 0; k < 6 && now() - t0 < budget; k++)
      if (t[i].a[k]) { Trace c = t; c[i].a[k] = 0; if (still(c)) t = c; }
  return t;
}

// ------------------------------------------------------------------ check ----
struct WorkerOut {
  u64 runs, ops, evals, seamcalls, vticks, restarts, inconclusive, nstates, redone, nondet;
  u64 injected[F_NKINDS];
  u64 probe[64];
  u64 interleavings;
  volatile u32 stop;
};
struct Found { u64 seed; std::string key, msg; };

static int check(const World &w, const std::string &tier, u64 base_seed, int nruns, double cap) {
  int nw = std::max(1L, std::min(8L, sysconf(_SC_NPROCESSORS_ONLN)));
  double t0 = now();
  WorkerOut *out = (WorkerOut *)mmap(nullptr, sizeof(WorkerOut) * nw, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)out, 0, sizeof(WorkerOut) * nw);
  volatile u32 *next = (volatile u32 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto known = load_known();
  std::vector<pid_t> pids;
  for (int k = 0; k < nw; k++) {
    pid_t pid = fork();
    if (pid == 0) {
      shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::ofstream found(g_scratch + "/found" + std::to_string(k), std::ios::binary);
      std::unordered_set<u64> states, inter;
      WorkerOut &o = out[k];
      while (1) {
        u32 i = __sync_fetch_and_add(next, 1);
        if (i >= (u32)nruns || next[1] || now() - t0 > cap) break;
        u64 seed = base_seed * 1000003ull + i;
        Rng rng(seed);
        Trace t = w.generate(rng, seed);
        if (t.size() > MAXOPS) t.resize(MAXOPS);
        Result r = execute(w, t, seed, k);
        o.runs++;
        o.ops += shm->nops; o.evals += shm->evals; o.seamcalls += shm->seamcalls; o.vticks += shm->vticks;
        o.restarts += shm->incarnation;
        for (int f = 0; f < F_NKINDS; f++) o.injected[f] += shm->injected[f];
        for (int f = 0; f < 64; f++) o.probe[f] += shm->probe[f];
        for (u64 s = 0; s < shm->nstates; s++) states.insert(shm->states[s]);
        u64 ih = 1; for (auto &x : t) ih = mix(ih, x.client * 1000 + x.kind);
        inter.insert(ih);
        if (r.inconclusive) o.inconclusive++;
        if (r.bad) {
          std::string m = r.msg; for (auto &c : m) if (c == '\n') c = '\x01';
          found << seed << "\t" << r.key << "\t" << m << "\n";
          found.flush();
          bool kn = false;
          for (auto &x : known) if (x.prop == w.id && x.key == r.key) kn = true;
          if (!kn) { if (__sync_fetch_and_add(next + 2, 1) > 24) next[1] = 1; }
        } else if (i % 64 == 0 && !r.inconclusive) {          // determinism gate
          u64 h = r.loghash;
          Result r2 = execute(w, t, seed, k);
          o.redone++;
          if (r2.loghash != h || r2.bad) { o.nondet++; }
        }
      }
      o.nstates = states.size();
      std::ofstream so(g_scratch + "/states" + std::to_string(k), std::ios::binary);
      for (u64 s : states) so.write((const char *)&s, 8);
      so.close();
      std::ofstream io(g_scratch + "/inter" + std::to_string(k), std::ios::binary);
      for (u64 s : inter) io.write((const char *)&s, 8);
      io.close();
      found.close();
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  double search_s = now() - t0;

  std::vector<Found> all;
  std::unordered_set<u64> states, inter;
  WorkerOut sum; memset((void *)&sum, 0, sizeof sum);
  for (int k = 0; k < nw; k++) {
    std::ifstream f(g_scratch + "/found" + std::to_string(k));
    std::string line;
    while (std::getline(f, line)) {
      size_t a = line.find('\t'), b = line.find('\t', a + 1);
      if (a == std::string::npos || b == std::string::npos) continue;
      std::string m = line.substr(b + 1); for (auto &c : m) if (c == '\x01') c = '\n';
      all.push_back({std::stoull(line.substr(0, a)), line.substr(a + 1, b - a - 1), m});
    }
    for (auto nm : {"states", "inter"}) {
      std::string d = read_file(g_scratch + "/" + nm + std::to_string(k));
      for (size_t i = 0; i + 8 <= d.size(); i += 8) { u64 v; memcpy(&v, d.data() + i, 8); (nm[0] == 's' ? states : inter).insert(v); }
    }
    sum.runs += out[k].runs; sum.ops += out[k].ops; sum.evals += out[k].evals; sum.seamcalls += out[k].seamcalls;
    sum.vticks += out[k].vticks; sum.restarts += out[k].restarts; sum.inconclusive += out[k].inconclusive;
    sum.redone += out[k].redone; sum.nondet += out[k].nondet;
    for (int f = 0; f < F_NKINDS; f++) sum.injected[f] += out[k].injected[f];
    for (int f = 0; f < 64; f++) sum.probe[f] += out[k].probe[f];
  }
  std::sort(all.begin(), all.end(), [](const Found &a, const Found &b) { return a.seed < b.seed; });

  // report: one violation per distinct key, known findings separated
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::vector<Found>> by_key;
  for (auto &f : all) by_key[f.key].push_back(f);
  int rc = 0; u64 unreproduced = 0;
  std::vector<std::string> vlist;
  int reported = 0;
  std::vector<std::pair<u64, std::string>> order;
  for (auto &kv : by_key) order.push_back({kv.second[0].seed, kv.first});
  std::sort(order.begin(), order.end());
  for (auto &ok : order) {
    const std::string &key = ok.second; auto &fs = by_key[key];
    bool is_known = false;
    for (auto &x : known)
      if (x.prop == w.id && x.key == key) {
        printf("KNOWN-FINDING: property=%s %s (%zu runs)\n", w.id, x.text.c_str(), fs.size());
        is_known = true;
      }
    if (is_known) continue;
    if (reported >= (getenv("DSIM_MAXREPORT") ? atoi(getenv("DSIM_MAXREPORT")) : 5)) continue;
    // reproduce exactly (same key) before believing it
    Found *best = nullptr; Trace tr;
    for (size_t i = 0; i < fs.size() && i < 5 && !best; i++) {
      Rng rng(fs[i].seed);
      Trace t = w.generate(rng, fs[i].seed);
      if (t.size() > MAXOPS) t.resize(MAXOPS);
      Result a = execute(w, t, fs[i].seed, 90), b = execute(w, t, fs[i].seed, 91);
      if (a.bad && b.bad && a.key == key && b.key == key && a.loghash == b.loghash) { best = &fs[i]; tr = t; }
    }
    if (!best) {
      // a process that was starved or stuck once, but not when the same run is executed again, is no answer
      if (key == "hang" && fs.size() <= 3) sum.inconclusive += fs.size(); else unreproduced++;
      fprintf(stderr, "dsim: %s of seed %llu did not reproduce; not reported\n%s\n", key.c_str(), (unsigned long long)fs[0].seed, fs[0].msg.c_str());
      continue;
    }
    Trace small = minimise(w, tr, best->seed, key, reported ? 15 : 60);
    Result r = execute(w, small, best->seed, 90);
    mkdir((g_verif + "/replays").c_str(), 0755);
    std::string path = g_verif + "/replays/" + w.id + "-" + std::to_string(best->seed) + "-" + std::to_string(reported) + ".trace";
    write_trace(path, w, best->seed, small, r);
    printf("VIOLATION property=%s replay=%s\n", w.id, path.c_str());
    printf("  key=%s seed=%llu ops=%zu (from %zu)\n  %s\n", key.c_str(), (unsigned long long)best->seed, small.size(), tr.size(), r.msg.substr(0, 900).c_str());
    vlist.push_back(key + " seed=" + std::to_string(best->seed));
    reported++; rc = 1;
  }

  if (rc == 0 && unreproduced) { fprintf(stderr, "dsim: %llu alarms did not reproduce\n", (unsigned long long)unreproduced); rc = 2; }
  if (rc == 0 && (sum.runs == 0 || sum.inconclusive * 5 > sum.runs || sum.nondet)) {
    fprintf(stderr, "dsim: %llu of %llu runs gave no answer, %llu were not deterministic\n", (unsigned long long)sum.inconclusive,
            (unsigned long long)sum.runs, (unsigned long long)sum.nondet);
    rc = 2;
  }

  // evidence
  double wall = now() - t0;
  std::ostringstream e;
  auto q = [](const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((u8)c < 32) o += ' '; else o += c; } return o + "\""; };
  e << "{\"property\": " << q(w.id) << ", \"tier\": " << q(tier) << ", \"seed\": " << base_seed
    << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << sum.evals
    << ", \"distinct_nontrivial\": " << states.size()
    << ", \"rule\": " << q(w.rule)
    << ", \"samples\": [";
  for (int i = 0; i < 3; i++) {
    u64 seed = base_seed * 1000003ull + i; Rng rng(seed); Trace t = w.generate(rng, seed);
    std::ostringstream s; s << "seed " << seed << ":";
    for (size_t j = 0; j < t.size() && j < 12; j++) s << " c" << t[j].client << "." << w.opname(t[j].kind) << (t[j].f.kind ? std::string("!") + fault_name[t[j].f.kind] : "");
    e << (i ? ", " : "") << q(s.str());
  }
  e << "], \"runs\": " << sum.runs << ", \"seeds_per_hour\": " << (u64)(sum.runs / std::max(0.001, search_s) * 3600)
    << ", \"operations\": " << sum.ops << ", \"seam_calls\": " << sum.seamcalls
    << ", \"simulated_ticks\": " << sum.vticks
    << ", \"simulated_time\": " << q("virtual clock: one tick per intercepted I/O call; the code under test has no timers, so ticks are the only simulated time")
    << ", \"process_restarts\": " << sum.restarts
    << ", \"distinct_interleavings\": " << inter.size()
    << ", \"faults_injected\": {";
  bool first = true;
  for (int f = 1; f < F_NKINDS; f++) if (sum.injected[f]) { e << (first ? "" : ", ") << q(fault_name[f]) << ": " << sum.injected[f]; first = false; }
  e << "}, \"probes\": [";
  for (int f = 0; f < 32; f++) e << (f ? ", " : "") << sum.probe[f];
  e << "], \"determinism_rechecks\": " << sum.redone << ", \"nondeterministic\": " << sum.nondet
    << ", \"inconclusive\": " << sum.inconclusive << ", \"unreproduced\": " << unreproduced
    << ", \"real_components\": " << q(w.real) << ", \"stubbed_components\": " << q(w.stub)
    << "}, \"wall_s\": " << wall << ", \"assumptions\": ["
    << q("a crash keeps everything the kernel accepted: power loss is out of scope since DLite never syncs")
    << ", " << q("the code under test is built from the working tree with AddressSanitizer, Debug")
    << "], \"violations\": [";
  for (size_t i = 0; i < vlist.size(); i++) e << (i ? ", " : "") << q(vlist[i]);
  e << "]}\n";
  mkdir((g_verif + "/evidence").c_str(), 0755);
  std::ofstream ev(g_verif + "/evidence/" + std::string(w.id) + ".json");
  ev << e.str();
  ev.close();
  printf("%s %s: %llu runs, %llu ops, %llu oracle checks, %zu states, %.0f s, %llu restarts, nondet %llu/%llu, inconclusive %llu\n", w.id, rc ? "VIOLATED" : "ok",
         (unsigned long long)sum.runs, (unsigned long long)sum.ops, (unsigned long long)sum.evals, states.size(), wall,
         (unsigned long long)sum.restarts, (unsigned long long)sum.nondet, (unsigned long long)sum.redone, (unsigned long long)sum.inconclusive);
  printf("  faults:"); for (int f = 1; f < F_NKINDS; f++) if (sum.injected[f]) printf(" %s=%llu", fault_name[f], (unsigned long long)sum.injected[f]);
  printf("\n  probes:"); for (int f = 0; f < 32; f++) if (sum.probe[f]) printf(" [%d]=%llu", f, (unsigned long long)sum.probe[f]);
  printf("\n");
  return rc;
}
}  // namespace dsim

using namespace dsim;
extern "C" void dsim_process_init() __attribute__((weak));   // the Python worlds start their interpreter once
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:"
         "detect_odr_violation=0:quarantine_size_mb=32:malloc_context_size=12:max_allocation_size_mb=2048";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }

int main(int argc, char **argv) {
  if (!getenv("DSIM_NOASLR")) {
    setenv("DSIM_NOASLR", "1", 1);
    setenv("DLITE_USE_BUILD_ROOT", "YES", 1);
    int old = personality(0xffffffff);
    if (old != -1 && personality(old | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string prop, tier = "quick", replay;
  u64 seed = 1; int runs = 0; double cap = 0; long one = -1; bool gen = false;
  if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), 0, 10);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = nxt();
    else if (a == "--seed") seed = std::stoull(nxt());
    else if (a == "--runs") runs = std::stoi(nxt());
    else if (a == "--cap") cap = std::stod(nxt());
    else if (a == "--replay") replay = nxt();
    else if (a == "--verif") g_verif = nxt();
    else if (a == "--repo") g_repo = nxt();
    else if (a == "--build") g_build = nxt();
    else if (a == "--one") one = std::stol(nxt());
    else if (a == "--gen") gen = true;
    else if (a == "-v") verbose = true;
    else prop = a;
  }
  char tmpl[64] = "/dev/shm/dsim-XXXXXX";
  if (!mkdtemp(tmpl)) { strcpy(tmpl, "/tmp/dsim-XXXXXX"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } }
  g_scratch = tmpl;
  shm = nullptr;
  int rc = -1;
  Trace t; std::string key; u64 rseed = 0;
  if (!replay.empty()) {
    if (!read_trace(replay, prop, rseed, key, t)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
  }
  if (dsim_process_init) dsim_process_init();
  for (auto &w : worlds()) {
    if (prop != w.id) continue;
    if (!replay.empty() || one >= 0) {
      shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (one >= 0) { rseed = one; Rng rng(rseed); t = w.generate(rng, rseed); if (t.size() > MAXOPS) t.resize(MAXOPS); }
      if (gen) write_trace("/dev/stdout", w, rseed, t, Result());
      Result r = execute(w, t, rseed, 0);
      if (r.bad) { printf("VIOLATION property=%s replay=%s\n  key=%s\n  %s\n", w.id, replay.c_str(), r.key.c_str(), r.msg.c_str()); rc = 1; }
      else { printf("no violation (loghash %llx, %llu evals)%s %s\n", (unsigned long long)r.loghash, (unsigned long long)shm->evals, r.inconclusive ? " INCONCLUSIVE" : "", r.msg.c_str()); rc = 0; }
    } else {
      bool th = tier == "thorough";
      rc = check(w, tier, seed, runs ? runs : th ? w.thorough_runs : w.quick_runs, cap > 0 ? cap : th ? 700 : 200);
    }
  }
  if (rc == -1) { fprintf(stderr, "unknown property %s\n", prop.c_str()); rc = 2; }
  rm_rf(g_scratch);
  return rc;
}
