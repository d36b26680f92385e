// dsim core: seeded PRNG, operations and traces, fault seam, run driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace dsim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

// ---- seeded randomness (splitmix64) ---------------------------------------
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed * 0xD6E8FEB86659FD93ull + 0x1234567) { s = next() ^ seed; s = next(); }   // neighbouring seeds give unrelated streams
  u64 next() {
    u64 z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)below((u32)(b - a + 1)); }
  bool chance(u32 p, u32 q) { return below(q) < p; }
};
inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
u64 hash_bytes(const void *p, size_t n, u64 h = 14695981039346656037ull);
inline u64 hash_str(const std::string &s, u64 h = 14695981039346656037ull) {
  return hash_bytes(s.data(), s.size(), h);
}

// ---- faults ----------------------------------------------------------------
enum FaultKind {
  F_NONE, F_OPEN_FAIL, F_WRITE_ENOSPC, F_WRITE_EIO, F_SHORT_WRITE, F_READ_EIO,
  F_SHORT_READ, F_CLOSE_FAIL, F_CRASH, F_OPENDIR_FAIL, F_READDIR_SHUFFLE,
  F_MALLOC_FAIL, F_RANDOM_FAIL, F_RANDOM_SHORT, F_PLUGIN_FAIL, F_CLOCK_JUMP,
  F_FILE_TRUNC, F_FILE_FLIP, F_FILE_DELETE, F_RESTART, F_THREAD_SWITCH,
  F_OTHER_PROC, F_BAD_FILE, F_BAD_INPUT, F_PY_RAISE, F_MSG_DROP, F_MSG_DUP, F_MSG_REORDER,
  F_NKINDS
};
extern const char *fault_name[F_NKINDS];
struct Fault { u32 kind = 0, nth = 0, arg = 0; };

struct Op {
  u32 client = 0, kind = 0;
  u32 a[6] = {0, 0, 0, 0, 0, 0};
  Fault f;
};
typedef std::vector<Op> Trace;

// ---- per-run shared memory -------------------------------------------------
enum { MAXOPS = 400, MAXSTATES = 2048, MAXPUB = 64 };
struct Shm {
  volatile u32 opidx;        // operation being executed
  volatile u32 next_op;      // first op of the next incarnation
  volatile u32 incarnation;
  volatile u32 done;
  volatile u32 has_violation;
  char key[256];
  char msg[4096];
  u64 loghash;
  u64 nstates;
  u64 states[MAXSTATES];
  u64 injected[F_NKINDS];
  u64 evals;                 // oracle evaluations
  u64 seamcalls;
  u64 vticks;
  u64 nops;
  int outcome[MAXOPS];       // per-op: 0 not run, 1 ok, 2 failed, 3 crashed in
  char opres[MAXOPS][80];    // per-op result string that survives a crash
  u64 probe[64];             // world-specific coverage probes
};
extern Shm *shm;

// ---- context for a run -----------------------------------------------------
struct Ctx {
  std::string dir;           // scratch directory of this run
  u64 seed;
  const Trace *ops;
};
extern Ctx ctx;
// abort the run, reporting a violation (never returns)
[[noreturn]] void violation(const std::string &key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
void note_state(u64 h);      // a distinct-state sample
void log_hash(u64 v);        // folds observed behaviour into the determinism hash
inline void eval() { shm->evals++; }
void say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // only with -v
extern bool verbose;

// ---- seam ------------------------------------------------------------------
void seam_begin(const std::string &scratch);   // enable the seam for this process
void seam_arm(const Fault &f);
bool seam_disarm();          // returns true if an armed (non-benign) fault fired
void seam_register_fault(u32 kind);            // count an injected fault by hand
bool seam_fired();
void seam_random_mode(int mode, u64 seed);     // 0 deterministic stream, 1 open fails, 2 short
void seam_clock_set(u64 ticks);
void seam_extra_root(const std::string &dir);  // another path prefix subject to faults
bool seam_alloc_fail();
std::string read_file(const std::string &path);
bool file_exists(const std::string &path);
void write_file(const std::string &path, const std::string &data);  // bypasses the seam
void seam_pause(bool on);
u32 seam_reads();             // read calls seen since the last arm
u32 seam_io_calls();         // calls seen since the last arm

// ---- worlds ----------------------------------------------------------------
struct World {
  const char *id;            // property id
  int quick_runs, thorough_runs;
  int fork_every;            // unused
  Trace (*generate)(Rng &, u64 seed);
  void (*run)(const Trace &, u32 start, u32 incarnation);
  const char *(*opname)(u32 kind);
  const char *rule;          // what counts as a distinct state/non-trivial
  const char *real, *stub;   // components that ran real code / a stub
};
std::vector<World> &worlds();
struct Register { Register(const World &w) { worlds().push_back(w); } };
const char *repo_build_dir();
}  // namespace dsim
