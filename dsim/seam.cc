// Fault seam: every file, directory, clock and entropy call the code under test
// makes is routed here by symbol interposition (this executable comes first in
// the lookup scope), and allocations through alloc_seam.h.
#include "core.h"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

using namespace dsim;

namespace dsim {
const char *fault_name[F_NKINDS] = {
  "none", "open_fail", "write_enospc", "write_eio", "short_write", "read_eio",
  "short_read", "close_fail", "crash", "opendir_fail", "readdir_shuffle",
  "malloc_fail", "random_fail", "random_short", "plugin_fail", "clock_jump",
  "file_truncated", "file_bit_flip", "file_deleted", "process_restart", "thread_switch",
  "other_process", "bad_file", "bad_input", "plugin_raise", "message_drop", "message_dup", "message_reorder"
};

static struct {
  bool on = false, paused = false, armed = false, fired = false;
  std::string root;
  std::vector<std::string> extra;
  Fault f;
  u32 n_open = 0, n_write = 0, n_read = 0, n_close = 0, n_io = 0, n_alloc = 0, n_dir = 0, n_rand = 0;
  u64 ticks = 1000;
  int random_mode = -1;       // -1: real entropy
  Rng random{1};
} S;

static std::set<int> tracked;              // fds under the simulator's control
struct Dir { std::vector<std::string> names; size_t pos = 0; struct dirent ent; };
static std::set<Dir *> dirs;

template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(type, name) static auto r = real<type>(#name)

static bool ours(const char *path) {
  if (!S.on || !path) return false;
  if (strncmp(path, S.root.c_str(), S.root.size()) == 0) return true;
  for (auto &e : S.extra) if (strncmp(path, e.c_str(), e.size()) == 0) return true;
  return false;
}
void seam_extra_root(const std::string &dir) { S.extra.push_back(dir); }

static void inject(u32 kind) { if (shm) shm->injected[kind]++; }
void seam_register_fault(u32 kind) { inject(kind); }

static void crash_now() {
  inject(F_CRASH);
  if (shm) { shm->outcome[shm->opidx] = 3; }
  _exit(77);
}
// Called for every simulated I/O call; may kill the simulated process.
static void io_tick() {
  S.ticks++; S.n_io++;
  if (shm) { shm->seamcalls++; shm->vticks = S.ticks; }
  if (S.armed && S.f.kind == F_CRASH && S.n_io == S.f.nth && !(S.f.arg & 1)) crash_now();
}
static bool hit(u32 kind, u32 count) {
  if (!S.armed || S.f.kind != kind || count != S.f.nth) return false;
  if (!S.fired) inject(kind);
  S.fired = true;
  return true;
}
static bool hit_from(u32 kind, u32 count) {   // sticky
  if (!S.armed || S.f.kind != kind || count < S.f.nth) return false;
  if (!S.fired) inject(kind);
  S.fired = true;
  return true;
}
static int pick_errno(u32 arg, std::initializer_list<int> l) { return *(l.begin() + arg % l.size()); }

void seam_begin(const std::string &scratch) { S.on = true; S.root = scratch; }
void seam_arm(const Fault &f) {
  S.f = f; S.armed = f.kind != F_NONE; S.fired = false;
  S.n_open = S.n_write = S.n_read = S.n_close = S.n_io = S.n_alloc = S.n_dir = S.n_rand = 0;
  if (S.armed && S.f.nth == 0) S.f.nth = 1;

}
bool seam_disarm() { bool f = S.fired; S.armed = false; S.fired = false; return f; }
u32 seam_reads() { return S.n_read; }
bool seam_fired() { return S.fired; }
u32 seam_io_calls() { return S.n_io; }
void seam_pause(bool p) { S.paused = p; }
void seam_random_mode(int mode, u64 seed) { S.random_mode = mode; S.random = Rng(seed); }
void seam_clock_set(u64 t) { S.ticks = t; }

bool seam_alloc_fail() {
  if (!S.on || S.paused || !S.armed || S.f.kind != F_MALLOC_FAIL) return false;
  S.n_alloc++;
  if (S.f.arg & 1) return hit_from(F_MALLOC_FAIL, S.n_alloc);   // memory stays exhausted
  return hit(F_MALLOC_FAIL, S.n_alloc);
}

static int do_open(const char *path, int flags, mode_t mode) {
  typedef int (*open_t)(const char *, int, ...);
  static open_t r = real<open_t>("open64");
  if (!ours(path) || S.paused) return r(path, flags, mode);
  io_tick();
  if (hit(F_OPEN_FAIL, ++S.n_open)) {
    errno = pick_errno(S.f.arg, {EMFILE, EACCES, EIO, ENOSPC, ENFILE});
    return -1;
  }
  int fd = r(path, flags, mode);
  if (fd >= 0) tracked.insert(fd);
  return fd;
}
static ssize_t do_write(int fd, const void *buf, size_t n,
                        const std::function<ssize_t(const void *, size_t)> &w) {
  io_tick();
  S.n_write++;
  if (S.armed && S.f.kind == F_CRASH && (S.f.arg & 1) && S.n_io == S.f.nth) {
    size_t k = n ? (S.f.arg >> 1) % (n + 1) : 0;
    if (k) w(buf, k);
    crash_now();
  }
  if (hit_from(F_WRITE_ENOSPC, S.n_write)) {
    size_t k = (S.n_write == S.f.nth && n > 1) ? S.f.arg % n : 0;   // the last bytes that fit
    if (k) return w(buf, k);
    errno = pick_errno(S.f.arg >> 8, {ENOSPC, EDQUOT, EFBIG});
    return -1;
  }
  if (hit(F_WRITE_EIO, S.n_write)) { errno = EIO; return -1; }
  if (n > 1 && hit_from(F_SHORT_WRITE, S.n_write)) return w(buf, 1 + S.f.arg % (n - 1));
  return w(buf, n);
}
static ssize_t do_read(int fd, void *buf, size_t n,
                       const std::function<ssize_t(void *, size_t)> &rd) {
  io_tick();
  S.n_read++;
  if (hit(F_READ_EIO, S.n_read)) { errno = EIO; return -1; }
  if (n > 1 && hit_from(F_SHORT_READ, S.n_read)) {
    size_t k = 1 + S.f.arg % 97;
    if (k < n) return rd(buf, k);
  }
  return rd(buf, n);
}
static int do_close(int fd) {
  typedef int (*close_t)(int);
  static close_t r = real<close_t>("close");
  if (!tracked.count(fd) || S.paused) return r(fd);
  io_tick();
  tracked.erase(fd);
  int rc = r(fd);
  if (hit(F_CLOSE_FAIL, ++S.n_close)) { errno = EIO; return -1; }
  return rc;
}
typedef ssize_t (*read_t)(int, void *, size_t);
typedef ssize_t (*write_t)(int, const void *, size_t);
static ssize_t real_read(int fd, void *b, size_t n) { REAL(read_t, read); return r(fd, b, n); }
static ssize_t real_write(int fd, const void *b, size_t n) { REAL(write_t, write); return r(fd, b, n); }

// ---- stdio streams on simulated files ----
static ssize_t ck_read(void *c, char *buf, size_t n) {
  int fd = (int)(intptr_t)c;
  return do_read(fd, buf, n, [&](void *b, size_t k) { return real_read(fd, b, k); });
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
  int fd = (int)(intptr_t)c;
  // a stdio stream retries a short write: a cookie function must do it itself
  size_t done = 0;
  while (done < n) {
    ssize_t k = do_write(fd, buf + done, n - done, [&](const void *b, size_t m) { return real_write(fd, b, m); });
    if (k < 0) return done ? (ssize_t)done : 0;
    done += k;
  }
  return done;
}
static int ck_seek(void *c, off64_t *off, int whence) {
  off64_t r = lseek64((int)(intptr_t)c, *off, whence);
  if (r < 0) return -1;
  *off = r; return 0;
}
static int ck_close(void *c) { return do_close((int)(intptr_t)c); }

// ---- entropy ----
static ssize_t rnd_read(void *, char *buf, size_t n) {
  S.n_rand++;
  if (hit_from(F_RANDOM_SHORT, S.n_rand)) { n = S.f.arg % 4 < n ? S.f.arg % 4 : n; if (!n) return 0; }
  for (size_t i = 0; i < n; i++) buf[i] = (char)S.random.next();
  return n;
}

static FILE *do_fopen(const char *path, const char *mode) {
  typedef FILE *(*fopen_t)(const char *, const char *);
  static fopen_t r = real<fopen_t>("fopen");
  if (S.on && S.random_mode >= 0 && path && !strcmp(path, "/dev/urandom")) {
    S.ticks++;
    if (S.armed && S.f.kind == F_RANDOM_FAIL) { hit_from(F_RANDOM_FAIL, S.f.nth); errno = ENOENT; return nullptr; }
    cookie_io_functions_t io = {rnd_read, nullptr, nullptr, nullptr};
    FILE *fp = fopencookie(nullptr, "r", io);
    if (fp) setvbuf(fp, nullptr, _IONBF, 0);
    return fp;
  }
  if (!ours(path) || S.paused) return r(path, mode);
  int flags = strchr(mode, '+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY;
  if (*mode == 'w') flags |= O_CREAT | O_TRUNC;
  if (*mode == 'a') flags |= O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) flags |= O_EXCL;
  int fd = do_open(path, flags, 0666);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  char m[4] = {mode[0], strchr(mode, '+') ? '+' : '\0', 0, 0};
  FILE *fp = fopencookie((void *)(intptr_t)fd, m, io);
  if (!fp) { do_close(fd); return nullptr; }
  setvbuf(fp, nullptr, _IOFBF, 512);     // small buffer: many points where a write can fail
  return fp;
}

std::string read_file(const std::string &path) {
  typedef int (*open_t)(const char *, int, ...);
  static open_t ro = real<open_t>("open64");
  typedef int (*close_t)(int);
  static close_t rc = real<close_t>("close");
  std::string s; char buf[65536]; ssize_t n;
  int fd = ro(path.c_str(), O_RDONLY);
  if (fd < 0) return s;
  while ((n = real_read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  rc(fd);
  return s;
}
bool file_exists(const std::string &path) { struct stat st; return stat(path.c_str(), &st) == 0; }
void write_file(const std::string &path, const std::string &data) {
  typedef int (*open_t)(const char *, int, ...);
  static open_t ro = real<open_t>("open64");
  typedef int (*close_t)(int);
  static close_t rc = real<close_t>("close");
  int fd = ro(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) { fprintf(stderr, "dsim: cannot write %s\n", path.c_str()); _exit(98); }
  size_t o = 0;
  while (o < data.size()) { ssize_t k = real_write(fd, data.data() + o, data.size() - o); if (k <= 0) break; o += k; }
  rc(fd);
}
}  // namespace dsim

// ---- interposed symbols ------------------------------------------------------
extern "C" {
__attribute__((visibility("default"))) int dsim_alloc_fail_hook(void) { return seam_alloc_fail(); }

FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return do_open(p, flags, m);
}
int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
  return do_open(p, flags | O_LARGEFILE, m);
}
int close(int fd) { return do_close(fd); }
ssize_t read(int fd, void *b, size_t n) {
  if (tracked.empty() || !tracked.count(fd) || S.paused) return real_read(fd, b, n);
  return do_read(fd, b, n, [&](void *q, size_t k) { return real_read(fd, q, k); });
}
ssize_t write(int fd, const void *b, size_t n) {
  if (tracked.empty() || !tracked.count(fd) || S.paused) return real_write(fd, b, n);
  return do_write(fd, b, n, [&](const void *q, size_t k) { return real_write(fd, q, k); });
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  typedef ssize_t (*f)(int, void *, size_t, off64_t); REAL(f, pread64);
  if (tracked.empty() || !tracked.count(fd) || S.paused) return r(fd, b, n, o);
  return do_read(fd, b, n, [&](void *q, size_t k) { return r(fd, q, k, o); });
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  typedef ssize_t (*f)(int, const void *, size_t, off64_t); REAL(f, pwrite64);
  if (tracked.empty() || !tracked.count(fd) || S.paused) return r(fd, b, n, o);
  return do_write(fd, b, n, [&](const void *q, size_t k) { return r(fd, q, k, o); });
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
int ftruncate64(int fd, off64_t len) {
  typedef int (*f)(int, off64_t); REAL(f, ftruncate64);
  if (tracked.count(fd) && !S.paused) {
    io_tick();
    S.n_write++;
    if (hit_from(F_WRITE_ENOSPC, S.n_write)) { errno = ENOSPC; return -1; }
    if (hit(F_WRITE_EIO, S.n_write)) { errno = EIO; return -1; }
  }
  return r(fd, len);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int rename(const char *a, const char *b) {
  typedef int (*f)(const char *, const char *); REAL(f, rename);
  if (ours(b) && !S.paused) {
    io_tick();
    S.n_write++;
    if (hit_from(F_WRITE_ENOSPC, S.n_write)) { errno = ENOSPC; return -1; }
    if (hit(F_WRITE_EIO, S.n_write)) { errno = EIO; return -1; }
  }
  return r(a, b);
}
int unlink(const char *p) {
  typedef int (*f)(const char *); REAL(f, unlink);
  if (ours(p) && !S.paused) io_tick();
  return r(p);
}
int fsync(int fd) {
  typedef int (*f)(int); REAL(f, fsync);
  if (tracked.count(fd) && !S.paused) {
    io_tick(); S.n_write++;
    if (hit_from(F_WRITE_ENOSPC, S.n_write)) { errno = ENOSPC; return -1; }
    if (hit(F_WRITE_EIO, S.n_write)) { errno = EIO; return -1; }
    return 0;
  }
  return r(fd);
}

DIR *opendir(const char *p) {
  typedef DIR *(*f)(const char *); REAL(f, opendir);
  if (!ours(p) || S.paused) return r(p);
  io_tick();
  if (hit(F_OPENDIR_FAIL, ++S.n_dir)) { errno = pick_errno(S.f.arg, {EACCES, EMFILE, ENOENT, EIO}); return nullptr; }
  DIR *d = r(p);
  if (!d) return nullptr;
  typedef struct dirent *(*rd_t)(DIR *); static rd_t rd = real<rd_t>("readdir");
  typedef int (*cd_t)(DIR *); static cd_t cd = real<cd_t>("closedir");
  Dir *x = new Dir;
  while (struct dirent *e = rd(d)) x->names.push_back(e->d_name);
  cd(d);
  std::sort(x->names.begin(), x->names.end());     // the real order is not ours to trust
  if (S.armed && S.f.kind == F_READDIR_SHUFFLE) {
    S.fired = true; inject(F_READDIR_SHUFFLE);
    Rng g(S.f.arg + 77);
    for (size_t i = x->names.size(); i > 1; i--) std::swap(x->names[i - 1], x->names[g.below(i)]);
  }
  dirs.insert(x);
  return (DIR *)x;
}
struct dirent *readdir(DIR *d) {
  typedef struct dirent *(*f)(DIR *); REAL(f, readdir);
  if (!dirs.count((Dir *)d)) return r(d);
  Dir *x = (Dir *)d;
  if (x->pos >= x->names.size()) return nullptr;
  memset(&x->ent, 0, sizeof x->ent);
  x->ent.d_ino = x->pos + 1;
  snprintf(x->ent.d_name, sizeof x->ent.d_name, "%s", x->names[x->pos++].c_str());
  return &x->ent;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
  typedef int (*f)(DIR *); REAL(f, closedir);
  if (!dirs.count((Dir *)d)) return r(d);
  dirs.erase((Dir *)d);
  delete (Dir *)d;
  return 0;
}

// ---- virtual clocks ----
clock_t clock(void) {
  typedef clock_t (*f)(void); REAL(f, clock);
  return S.on ? (clock_t)S.ticks : r();
}
time_t time(time_t *t) {
  typedef time_t (*f)(time_t *); REAL(f, time);
  if (!S.on) return r(t);
  time_t v = 1700000000 + S.ticks / 1000;
  if (t) *t = v;
  return v;
}
}  // extern "C"
