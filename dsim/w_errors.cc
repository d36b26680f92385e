// Error world (S12): errors, warnings and exceptions raised in nested ErrTry blocks of
// several threads that the scheduler interleaves, and by the library itself, against a
// small reference machine.  Every thread interprets its part of one flat operation
// stream; an ErrTry block consumes operations until an "end" ends the current clause.
#include "simstore.h"
#include <pthread.h>
#include <sys/stat.h>
extern "C" {
#include "utils/fileutils.h"
#include "dlite-mapping-plugins.h"
}
using namespace dsim;

namespace {
enum { E_TRY, E_END, E_ERR, E_SYSERR, E_WARN, E_INFO, E_RAISE, E_RERAISE, E_CLEAR, E_UPDATE, E_MODE, E_WARNMODE, E_LEVEL, E_IGNORE, E_HIDE, E_PREFIX, E_LIB, E_BADLIB, E_NK };
const char *names12[] = {"try", "end", "error", "system_error", "warning", "info", "raise", "reraise", "clear", "update", "override_mode", "warning_mode", "level", "ignore_code", "hide_warnings", "prefix", "library_call", "failing_call"};
const char *opname12(u32 k) { return k < E_NK ? names12[k] : "?"; }
enum { NT = 3, MAXDEPTH = 6, FULL = ERR_MSGSIZE - 1 };
enum { S_BODY, S_CATCH0, S_CATCH1, S_OTHER, S_ELSE, S_FINALLY, S_DONE };
const char *snames[] = {"body", "first catch clause", "second catch clause", "other clause", "else clause", "finally clause", "end"};
// shapes: number of catch clauses, fall-through, other, else, finally
struct Shape { int ncatch; bool fall, other, els, fin; } shapes[] = {{2, false, true, true, true}, {1, false, false, false, false}, {0, false, true, false, false}, {0, false, false, false, true}, {2, true, false, true, true}};
enum { NSHAPE = 5 };
const int codes12[] = {-1, -2, -3, -9, -12, -25, -26, -31, -32, -33, -34, -35, -36, 1, 2, 3, 77};
int code_of(u32 v) { return codes12[v % (sizeof codes12 / sizeof *codes12)]; }

struct Frame {
  int shape = 0, code[2] = {0, 0}, state = 0, level = 0, eval = 0, reraise = 0; bool handled = false; size_t pos = 0; std::string msg;
};
struct Call { int thread, level, eval; std::string msg; size_t pos; bool operator==(const Call &o) const { return thread == o.thread && level == o.level && eval == o.eval && msg == o.msg && pos == o.pos; } };
struct Th { pthread_t id; bool started = false; std::vector<Frame> fr; int mode = 0, wmode = 0, level = 3, minlevel = 0; };

const Trace *tr; std::string D, prefix;
Th th[NT];
std::vector<Call> want, got;
bool printing, tofile, overflow, adopt, flushing; std::string wantout; char *outbuf; size_t outlen, outpos; FILE *outfp;
std::set<int> ignored; bool hide; std::string pattern; bool haspattern;
ErrHandler dlite_handler;
int last_thread = -1, switches;
thread_local int self = 0;
u32 cur;

// ---- the reference machine ---------------------------------------------------
std::string cut(std::string s) { if (s.size() > FULL) { s.resize(FULL); overflow = true; } return s; }
void call_handler(int t, const Frame &f) {
  want.push_back(Call{t, f.level, f.eval, f.msg, f.pos});
  if (!printing) return;
  std::string m = f.msg.substr(std::min(f.pos, f.msg.size()));
  if (f.level == errLevelWarn) {
    std::string text = m; if (f.pos) text.erase(0, std::min<size_t>(4, text.size()));
    if (haspattern) { bool match = text.find(pattern) != std::string::npos; if (match == hide) return; }
    else if (hide) return;
  } else if (f.level == errLevelError) {
    int c = f.eval > 0 ? -1 : f.eval < -36 ? -36 : f.eval;
    if (ignored.count(c) || (f.eval > 0 && ignored.count(0))) return;
  }
  if (f.pos) wantout += m.substr(m.empty() ? 0 : 1) + "\n"; else wantout += "** " + m + "\n";
}
const char *lname(int l) { return l == errLevelWarn ? "Warning" : l == errLevelError ? "Error" : l == errLevelException ? "Exception" : l == errLevelInfo ? "Info" : "?"; }
void m_report(int t, int level, int code, const std::string &text) {
  Th &x = th[t]; Frame &f = x.fr.back();
  if (level < x.level) return;
  if (level == errLevelWarn) { if (x.wmode == errWarnIgnore) return; if (x.wmode == errWarnError) { level = errLevelError; code = 1; } }
  std::string base; size_t pos = 0; bool ignore = false;
  if (f.eval) { if (x.mode == errOverrideAppend) { base = cut(f.msg + "\n - "); pos = f.msg.size(); } else if (x.mode == errOverrideIgnoreNew) ignore = true; }
  int oeval = f.eval, olevel = f.level; bool keep = level < errLevelError && oeval && x.mode != errOverrideOld;
  f.level = level; f.eval = code;
  if (!ignore) {
    std::string m = base;
    if (!prefix.empty()) m += prefix + ": ";
    m += code ? std::string(dlite_errname((DLiteErrCode)code)) + lname(level) + ": " : std::string(lname(level)) + ": ";
    f.msg = cut(m + text); f.pos = pos;
  }
  if (level >= errLevelError && f.state != S_BODY) f.reraise = code;
  if (x.fr.size() == 1 || level == errLevelWarn) call_handler(t, f);
  if (keep) { f.eval = oeval; f.level = olevel; }
}
// the next clause of the innermost block after the current one; pops finished blocks
void m_advance(int t) {
  Th &x = th[t];
  for (;;) {
    Frame &f = x.fr.back(); const Shape &s = shapes[f.shape];
    int prev = f.state, next = S_DONE;
    for (int c = prev + 1; c < S_DONE && next == S_DONE; c++) {
      if (c == S_CATCH0 && s.ncatch > 0 && prev == S_BODY && f.eval == f.code[0]) next = c;
      if (c == S_CATCH1 && s.ncatch > 1 && ((prev == S_BODY && f.eval == f.code[1]) || (prev == S_CATCH0 && s.fall))) next = c;
      if (c == S_OTHER && s.other && f.eval && !f.handled) next = c;
      if (c == S_ELSE && s.els && !f.eval) next = c;
      if (c == S_FINALLY && s.fin) next = c;
    }
    if (next != S_DONE) { f.state = next; if (next <= S_OTHER) f.handled = true; return; }
    Frame r = f; x.fr.pop_back(); Frame &p = x.fr.back();
    if (!r.reraise && (!r.eval || r.handled)) return;
    int code = r.reraise ? r.reraise : r.eval;
    std::string base; size_t pos = 0; bool ignore = false;
    if (p.eval) { if (x.mode == errOverrideAppend) { pos = p.msg.size(); base = cut(p.msg + "\n - "); } else if (x.mode == errOverrideIgnoreNew) ignore = true; }
    p.level = r.level; p.eval = code;
    if (!ignore) { p.msg = cut(base + r.msg); p.pos = pos; }
    if (p.state != S_BODY) p.reraise = code;
    if (r.level == errLevelException && x.fr.size() > 1) continue;       // unwinds the parent as well
    if (x.fr.size() == 1) call_handler(t, p);
    return;
  }
}
bool accepts(const Frame &f, int code) { const Shape &s = shapes[f.shape]; return s.other || (s.ncatch > 0 && f.code[0] == code) || (s.ncatch > 1 && f.code[1] == code); }
// an exception may only be raised where an enclosing block handles it (otherwise it ends the process)
bool can_raise(Th &x, int from, int code) { for (int k = from; k > 0; k--) { if (x.fr[k].state != S_BODY) return false; if (accepts(x.fr[k], code)) return true; } return false; }

// ---- comparing ---------------------------------------------------------------
void compare(int t, const char *when) {
  Th &x = th[t]; Frame &f = x.fr.back();
  dsim::eval();
  std::string m = err_getmsg();
  auto where = [&] { return "thread " + std::to_string(t) + ", " + (x.fr.size() == 1 ? std::string("outside any block") : "block depth " + std::to_string(x.fr.size() - 1) + ", " + snames[f.state]); };
  auto show = [](const std::string &s) { return s.size() > 700 ? s.substr(0, 340) + " [...] " + s.substr(s.size() - 340) : s; };
  if (err_geteval() != f.eval)
    violation(err_geteval() ? "wrong-error" : "error-lost", "op %u (%s; %s): the current error is %d, expected %d; message '%s', expected '%s'", cur, when, where().c_str(), err_geteval(), f.eval, show(m).c_str(), show(f.msg).c_str());
  if (m != f.msg) violation("message", "op %u (%s; %s): the message of error %d has %zu characters: '%s', expected %zu: '%s'", cur, when, where().c_str(), f.eval, m.size(), show(m).c_str(), f.msg.size(), show(f.msg).c_str());
  std::string short_ = m;                            // without leading error names
  for (;;) {
    size_t k = short_.find(':');
    if (k == std::string::npos || k < 5 || short_.compare(k - 5, 5, "Error") || !isalpha((u8)short_[0]) || !std::all_of(short_.begin(), short_.begin() + k, [](char c) { return isalnum((u8)c); })) break;
    short_.erase(0, k + 1);
    while (!short_.empty() && (short_[0] == ' ' || short_[0] == '\t')) short_.erase(0, 1);
  }
  if (short_ != dlite_errmsg()) violation("errmsg", "op %u (%s; %s): the message without error name is '%s', expected '%s'", cur, when, where().c_str(), show(dlite_errmsg()).c_str(), show(short_).c_str());
  if (f.eval && err_getlevel() != f.level) violation("level", "op %u (%s; %s): the level of error %d is %d, expected %d", cur, when, where().c_str(), f.eval, err_getlevel(), f.level);
  if (!printing && got != want) {
    size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    auto s = [&](const std::vector<Call> &v) { return k < v.size() ? "thread " + std::to_string(v[k].thread) + " error " + std::to_string(v[k].eval) + " level " + std::to_string(v[k].level) + " at " + std::to_string(v[k].pos) + " '" + show(v[k].msg) + "'" : std::string("no call"); };
    violation(got.size() > want.size() ? "handler-extra" : got.size() < want.size() ? "handler-missing" : "handler-wrong", "op %u (%s; %s): the error handler was called %zu times, expected %zu; first difference: %s, expected %s", cur, when, where().c_str(), got.size(), want.size(), s(got).c_str(), s(want).c_str());
  }
  if (printing) {
    fflush(tofile ? err_get_stream() : outfp);
    std::string o = tofile ? read_file(D + "/log.txt") : std::string(outbuf, outlen);
    if (o.size() < outpos) violation("printed", "op %u: the error file was truncated", cur);
    size_t at = outpos; outpos = o.size(); o.erase(0, at);
    if (!overflow && !adopt && o != wantout) violation("printed", "op %u (%s; %s): printed '%s', expected '%s'", cur, when, where().c_str(), show(o).c_str(), show(wantout).c_str());
    wantout.clear();
  }
  got.clear(); want.clear(); adopt = false;
  log_hash(hash_str(m)); log_hash(f.eval);
  note_state(mix(mix(mix(x.fr.size(), f.state * 8 + f.shape), (f.eval != 0) * 8 + f.handled * 4 + (f.reraise != 0) * 2 + (f.msg.size() == FULL)), mix(f.level * 8 + x.mode, (size_t)t * 4 + switches % 3)));
}

void handler12(const ErrRecord *r) { got.push_back(Call{self, (int)r->level, r->eval, r->msg, (size_t)r->pos}); }

// ---- the scheduler: one thread runs at a time ----------------------------------
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; int turn = -1;
const Op endop = [] { Op o; o.kind = E_END; return o; }();
void give(int t) { pthread_mutex_lock(&mu); turn = t; pthread_cond_broadcast(&cv); while (turn != -1) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
void yield12() { pthread_mutex_lock(&mu); turn = -1; pthread_cond_broadcast(&cv); while (turn != self) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
bool stop12[NT];
const Op *next_op() {
  compare(self, names12[(*tr)[cur].kind]);
  if (!stop12[self]) yield12();
  return stop12[self] ? &endop : &(*tr)[cur];
}

std::string text_of(u32 id, u32 len) {
  std::string s = id % 7 == 3 ? "InnerError: K" : id % 7 == 5 ? "xError:K" : "K"; s += std::to_string(id) + ";";
  while (s.size() < len) s += "lorem ipsum "[s.size() % 12];
  return s;
}
u32 length_of(u32 v) { static const u32 l[] = {0, 0, 0, 20, 80, 300, 1000, 1500, 3000, 4000, 4060, 4070, 4075, 4080, 4085, 4090, 4095, 4096, 4100, 5000, 9000}; u32 k = v % 40; if (printing) k %= 6; return l[k < 21 ? k : k % 6]; }

// ---- library calls ---------------------------------------------------------------
bool errmap;
const char *lib(u32 what, const Op &o) {            // calls that must succeed, or whose failure is not an error
  switch (what % 9) {
  case 0: if (dlite_instance_has("no-such-instance", true)) return "a missing instance is found"; return nullptr;
  case 1: { DLiteCollection *c = dlite_collection_create(nullptr); if (!c) return "cannot create a collection"; int r = dlite_collection_add_relation(c, "s", "p", "o", nullptr); const DLiteRelation *q = dlite_collection_find_first(c, "s", nullptr, nullptr, nullptr); bool ok = !r && q; dlite_collection_decref(c); return ok ? nullptr : "cannot add a relation"; }
  case 2: if (errmap) dlite_mapping_plugin_unload("errmap"); return (errmap = dlite_mapping_plugin_get("errmap") != nullptr) ? nullptr : "cannot load a plugin";
  case 3: { DLiteInstance *i = dlite_instance_load_loc("json", (D + "/x.json").c_str(), "mode=r", "c0ffee00-0000-5000-a000-000000000001"); if (!i) return "cannot load an instance"; dlite_instance_decref(i); return nullptr; }
  case 4: {
    FUPaths p; if (fu_paths_init(&p, nullptr) < 0) return "cannot initialise paths";
    fu_paths_append(&p, (D + "/missing").c_str()); fu_paths_append(&p, D.c_str());
    FUIter *it = fu_startmatch("x.json", &p); bool found = false;
    while (it && fu_nextmatch(it)) found = true;
    if (it) fu_endmatch(it);
    fu_paths_deinit(&p);
    return found ? nullptr : "a file after a missing directory is not found"; }
  case 5: { DLiteStorage *s = dlite_storage_open("json", (D + "/new.json").c_str(), nullptr); if (!s) return "cannot open a new file"; if (dlite_storage_close(s)) return "cannot close a new file"; unlink((D + "/new.json").c_str()); return nullptr; }
  case 6: { char b[37]; return dlite_get_uuid(b, "an-id") < 0 ? "cannot make an uuid" : nullptr; }
  case 7: { DLiteInstance *i = dlite_instance_get("c0ffee00-0000-5000-a000-000000000001"); if (!i) return "cannot find an instance on the storage path"; dlite_instance_decref(i); return nullptr; }
  case 8: { DLiteMeta *m = dlite_meta_get(DLITE_COLLECTION_ENTITY); if (!m) return "cannot get metadata"; dlite_meta_decref(m); return nullptr; }
  }
  return nullptr;
}
bool badlib(u32 what) {                             // calls that must fail; returns true if they do
  switch (what % 5) {
  case 0: return !dlite_storage_open("json", (D + "/missing/y.json").c_str(), "mode=r");
  case 1: return !dlite_storage_open("nodriver", "y", nullptr);
  case 2: return !dlite_instance_load_loc("json", (D + "/x.json").c_str(), "mode=r", "no-such-id");
  case 3: return !dlite_instance_load_loc("json", (D + "/broken.json").c_str(), "mode=r", "no-such-id");
  case 4: { char b[40] = "k=v"; DLiteOpt opts[] = {{'a', "x", "0", ""}, {0, nullptr, nullptr, nullptr}}; return dlite_option_parse(b, opts, dliteOptStrict) != 0; }
  }
  return true;
}

// ---- the interpreter -----------------------------------------------------------
int interp(int depth, int state);                   // returns 1 if the current error is to be reraised
void do_try(int depth, int shape, int c0, int c1) {
  // no objects with destructors may live in this frame or in interp(): exceptions jump over them
  switch (shape) {
  case 0:
    ErrTry: interp(depth, S_BODY); break;
    ErrCatch(c0): if (interp(depth, S_CATCH0)) err_reraise(); break;
    ErrCatch(c1): if (interp(depth, S_CATCH1)) err_reraise(); break;
    ErrOther: if (interp(depth, S_OTHER)) err_reraise(); break;
    ErrElse: interp(depth, S_ELSE); break;
    ErrFinally: if (interp(depth, S_FINALLY)) err_reraise(); break;
    ErrEnd; break;
  case 1:
    ErrTry: interp(depth, S_BODY); break;
    ErrCatch(c0): if (interp(depth, S_CATCH0)) err_reraise(); break;
    ErrEnd; break;
  case 2:
    ErrTry: interp(depth, S_BODY); break;
    ErrOther: if (interp(depth, S_OTHER)) err_reraise(); break;
    ErrEnd; break;
  case 3:
    ErrTry: interp(depth, S_BODY);
    ErrFinally: if (interp(depth, S_FINALLY)) err_reraise(); break;
    ErrEnd; break;
  case 4:
    ErrTry: interp(depth, S_BODY);
    ErrCatch(c0): if (interp(depth, S_CATCH0)) err_reraise();
    ErrCatch(c1): if (interp(depth, S_CATCH1)) err_reraise(); break;
    ErrElse: interp(depth, S_ELSE);
    ErrFinally: if (interp(depth, S_FINALLY)) err_reraise();
    ErrEnd; break;
  }
}
void simple(const Op *op);
// what interp() has to do itself: 0 done, 1 try, 2 end, 3 raise, 4 end and reraise
int prepare(const Op *op, int *a, char *buf, size_t size) {
  Th &x = th[self]; Frame &f = x.fr.back(); const Op &o = *op;
  switch (o.kind) {
  case E_TRY: {
    if (x.fr.size() > MAXDEPTH) return 0;
    Frame n; n.shape = o.a[1] % NSHAPE; n.code[0] = code_of(o.a[2]); n.code[1] = code_of(o.a[3]);
    if (n.code[0] == n.code[1]) n.code[1] = n.code[0] == -9 ? -2 : -9;
    a[0] = n.shape; a[1] = n.code[0]; a[2] = n.code[1];
    x.fr.push_back(n);
    return 1; }
  case E_END: if (x.fr.size() == 1) return stop12[self] ? 2 : 0; m_advance(self); return 2;
  case E_RAISE: {
    int code = code_of(o.a[2]);
    if (x.fr.size() > 1 && x.fr.size() % 2 && o.a[3] % 2) code = x.fr[x.fr.size() - 1].code[0];
    if (x.level > errLevelException || !can_raise(x, x.fr.size() - 1, code)) return 0;
    std::string text = text_of(cur, length_of(o.a[1]));
    if (text.size() >= size) text.resize(size - 1);
    snprintf(buf, size, "%s", text.c_str());
    m_report(self, errLevelException, code, text);
    m_advance(self);
    a[0] = code;
    return 3; }
  case E_RERAISE:
    if (x.fr.size() == 1 || f.state == S_BODY || f.state == S_ELSE || !f.eval) return 0;
    if (f.level == errLevelException && !can_raise(x, x.fr.size() - 2, f.eval)) return 0;
    f.reraise = f.eval;
    m_advance(self);
    return 4;
  }
  simple(op);
  return 0;
}
int interp(int depth, int state) {
  char buf[10000]; int a[3];
  for (;;) {
    const Op *op;
    if ((int)th[self].fr.size() - 1 != depth || th[self].fr.back().state != state)
      violation("wrong-clause", "op %u (%s): thread %d is at depth %d in the %s, expected depth %d in the %s", cur, names12[(*tr)[cur].kind], self, depth, snames[state], (int)th[self].fr.size() - 1, snames[th[self].fr.back().state]);
    op = next_op();
    switch (prepare(op, a, buf, sizeof buf)) {
    case 1: do_try(depth + 1, a[0], a[1], a[2]); break;
    case 2: return 0;
    case 3: errno = 0; err_raisex(a[0], "%s", buf); break;
    case 4: return 1;
    }
  }
}
void simple(const Op *op) {
  Th &x = th[self]; Frame &f = x.fr.back(); const Op &o = *op;
  std::string text = text_of(cur, length_of(o.a[1]));
  bool top = x.fr.size() == 1;
  errno = 0;
  switch (o.kind) {
  case E_ERR: {
    int code = code_of(o.a[2]);
    if (!top && o.a[3] % 3 == 0) code = f.code[o.a[3] % 2];
    m_report(self, errLevelError, code, text);
    if (dlite_errx(code, "%s", text.c_str()) != code) violation("return-value", "op %u: errx() does not return the error value %d", cur, code);
  } break;
  case E_SYSERR: {
    int code = code_of(o.a[2]); static const int en[] = {ENOENT, ENOSPC, ENOMEM, EINTR}; int e = en[o.a[3] % 4];
    m_report(self, errLevelError, code, text + ": " + strerror(e));
    errno = e; dlite_err(code, "%s", text.c_str());
  } break;
  case E_WARN: m_report(self, errLevelWarn, 0, text); if (dlite_warnx("%s", text.c_str())) violation("return-value", "op %u: warnx() does not return zero", cur); break;
  case E_INFO: m_report(self, errLevelInfo, 0, text); dlite_info("%s", text.c_str()); break;
  case E_CLEAR: if (!top && f.state != S_BODY) break; dlite_errclr(); f.level = f.eval = f.reraise = 0; f.pos = 0; f.handled = false; f.msg.clear(); break;
  case E_UPDATE: if (f.reraise || (!top && f.state != S_BODY)) break; { int code = code_of(o.a[2]); if (f.eval) f.eval = code; err_update_eval(code); } break;
  case E_MODE: { static const int m[] = {0, 0, 0, 0, errOverrideOld, errOverrideIgnoreNew}; x.mode = m[o.a[2] % 6]; dlite_err_set_override_mode(x.mode); } break;
  case E_WARNMODE: { static const int m[] = {0, 0, 0, errWarnIgnore, errWarnError}; x.wmode = m[o.a[2] % 5]; dlite_err_set_warn_mode(x.wmode); } break;
  case E_LEVEL: { static const int m[] = {errLevelWarn, errLevelWarn, errLevelError}; x.level = m[o.a[2] % 3]; dlite_err_set_level(x.level); } break;
  case E_IGNORE: {
    int c = -1 - (int)(o.a[2] % 36); bool on = o.a[3] % 3;
    dlite_err_ignored_set((DLiteErrCode)c, on);
    if (on) ignored.insert(c); else ignored.erase(c);
    for (int k = -36; k <= -1; k++) if ((dlite_err_ignored_get((DLiteErrCode)k) != 0) != (ignored.count(k) != 0))
      violation("ignored-codes", "op %u: after %s error %d, error %d is %s", cur, on ? "ignoring" : "no longer ignoring", c, k, ignored.count(k) ? "not ignored" : "ignored");
  } break;
  case E_HIDE: {
    hide = o.a[2] % 2; haspattern = o.a[3] % 3; pattern = "K" + std::to_string(o.a[4] % 30);
    std::string g = "*" + pattern + "*"; dlite_set_warnings_hide(hide, haspattern ? (char *)g.c_str() : nullptr);
  } break;
  case E_PREFIX: { static const char *p[] = {"", "", "prog", "a longer prefix"}; prefix = p[o.a[2] % 4]; err_set_prefix(p[o.a[2] % 4]); } break;
  case E_LIB: case E_BADLIB: {
    // its own messages are only known in outline: what was pending has to stay in front
    Frame before = f; bool fired = false; const char *e = nullptr; bool failed = false;
    u32 what = o.a[2];
    if (o.kind == E_LIB) {
      seam_arm(o.f); e = lib(what, o); fired = seam_disarm();
      if (e && !fired) violation("call-failed", "op %u (library_call %u): %s; error %d: %s", cur, what % 9, e, err_geteval(), err_getmsg());
      if (!fired) { log_hash(what); if (!f.eval) { f.msg = err_getmsg(); f.pos = _err_get_record()->pos; } break; }        // compare() checks that nothing changed
      failed = e != nullptr;
    } else { failed = badlib(what); if (!failed) violation("call-succeeded", "op %u (failing_call %u) did not fail", cur, what % 5); }
    dsim::eval();
    int ev = err_geteval(); std::string m = err_getmsg();
    if (before.eval && !ev) violation("error-lost", "op %u (%s %u): error %d is gone after a call of the library", cur, names12[o.kind], what % 9, before.eval);
    if (failed && !ev && !(fired && what % 9 == 7)) violation("silent-failure", "op %u (%s %u): the call failed (%s) without an error", cur, names12[o.kind], what % 9, e ? e : "as it should");
    if (before.eval && (x.mode == errOverrideAppend || x.mode == errOverrideIgnoreNew) && m.compare(0, before.msg.size(), before.msg) != 0)
      violation("message", "op %u (%s %u): the message of the pending error was replaced: '%.300s', was '%.300s'", cur, names12[o.kind], what % 9, m.c_str(), before.msg.c_str());
    if (!top && x.wmode != errWarnError) for (auto &c : got) if (c.level >= errLevelError) violation("handler-extra", "op %u (%s %u): error %d within a block was passed to the error handler", cur, names12[o.kind], what % 9, c.eval);
    ErrRecord *r = _err_get_record();
    f.level = r->level; f.eval = r->eval; f.msg = r->msg; f.pos = r->pos; f.reraise = r->reraise;
    if (f.msg.size() >= FULL) overflow = true;
    if (before.handled && f.eval && (!before.eval || failed) && !f.reraise && !top) violation("not-reraised", "op %u (%s %u): an error in a clause will be forgotten", cur, names12[o.kind], what % 9);
    got.clear(); want.clear(); adopt = true;
  } break;
  }
}
void *thread12(void *p) {
  self = (int)(intptr_t)p;
  pthread_mutex_lock(&mu); while (turn != self) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu);
  dlite_err_set_override_mode(0); dlite_err_set_warn_mode(0); dlite_err_set_debug_mode(0); dlite_err_set_level(errLevelWarn);
  interp(0, S_BODY);
  compare(self, "the end");
  pthread_mutex_lock(&mu); turn = -1; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu);
  return nullptr;
}

void run12(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  tr = &t; D = ctx.dir + "/d";
  printing = !t.empty() && t[0].client == 1;
  dlite_init();
  for (const char *v : {"DLITE_DEBUG", "DLITE_PYDEBUG", "ERR_COLOR", "ERR_LEVEL", "ERR_WARN", "ERR_DEBUG", "ERR_OVERRIDE", "ERR_ABORT", "ERR_STREAM"}) unsetenv(v);
  err_set_stream(nullptr);
  // the fixture
  write_file(D + "/broken.json", "{\"x\": [1, 2"); write_file(D + "/notes.txt", "?");
  DLiteCollection *c = dlite_collection_create("c0ffee00-0000-5000-a000-000000000001");
  if (!c || dlite_instance_save_loc("json", (D + "/x.json").c_str(), "mode=w", (DLiteInstance *)c)) violation("setup", "%s", err_getmsg());
  dlite_collection_decref(c);
  for (auto p : {D + "/missing", D + "/broken.json", "nodriver://" + D, D + "/notes.txt", D + "/x.json"}) dlite_storage_paths_append(p.c_str());
  mkdir((D + "/mp").c_str(), 0777);
  if (symlink((std::string(repo_build_dir()) + "/../mplugins/errmap.so").c_str(), (D + "/mp/errmap.so").c_str())) violation("setup", "symlink");
  while (dlite_mapping_plugin_paths() && dlite_mapping_plugin_paths()[0]) dlite_mapping_plugin_path_remove_index(0);
  dlite_mapping_plugin_path_append((D + "/mp").c_str());
  for (u32 k = 0; k < 9; k++) if (const char *e = lib(k, Op())) violation("setup", "%s: %s", e, err_getmsg());
  for (u32 k = 0; k < 5; k++) badlib(k);
  err_clear();
  dlite_handler = err_get_handler();
  tofile = printing && t[0].a[4] % 2;
  if (tofile) { dlite_err_set_file((D + "/log.txt").c_str()); if (err_geteval()) violation("setup", "%s", err_getmsg()); }
  else if (printing) { outfp = open_memstream(&outbuf, &outlen); fflush(outfp); outpos = outlen; err_set_stream(outfp); }
  else err_set_handler(handler12);
  int nt = 1 + (t.empty() ? 0 : t[0].a[5] % NT);
  for (int k = 0; k < nt; k++) { th[k].fr.push_back(Frame()); pthread_create(&th[k].id, nullptr, thread12, (void *)(intptr_t)k); th[k].started = true; }
  bool first = true;
  for (int k = 0; k < nt; k++) give(k);              // run up to the first operation
  for (u32 i = start; i < t.size(); i++) {
    cur = i; shm->opidx = i; shm->nops++;
    int k = t[i].a[0] % nt;
    if (k != last_thread && !first) { switches++; if (nt > 1) seam_register_fault(F_THREAD_SWITCH); }
    first = false; last_thread = k;
    say("op %u: thread %d %s %u %u %u %u %u fault %u/%u/%u", i, k, names12[t[i].kind], t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].a[5], t[i].f.kind, t[i].f.nth, t[i].f.arg);
    give(k);
  }
  for (int k = 0; k < nt; k++) { stop12[k] = true; give(k); pthread_join(th[k].id, nullptr); }
  err_set_handler(dlite_handler); err_set_stream(nullptr);
}
Trace gen12(Rng &r, u64) {
  Trace t; int n = r.range(10, 120);
  static const u32 w[] = {E_TRY, E_TRY, E_TRY, E_TRY, E_TRY, E_END, E_END, E_END, E_END, E_END, E_ERR, E_ERR, E_ERR, E_ERR, E_SYSERR, E_WARN, E_WARN, E_INFO, E_RAISE, E_RAISE, E_RERAISE, E_CLEAR, E_UPDATE, E_MODE, E_WARNMODE, E_LEVEL, E_IGNORE, E_HIDE, E_PREFIX, E_LIB, E_LIB, E_LIB, E_BADLIB};
  bool print = r.chance(1, 3), libs = r.chance(2, 3), modes = r.chance(1, 2); u32 nt = r.below(3), quiet = r.chance(1, 3), burst = r.range(1, 4);
  u32 k = 0;
  for (int i = 0; i < n; i++) {
    Op o; o.kind = w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 12);
    if ((!libs && (o.kind == E_LIB || o.kind == E_BADLIB)) || (!modes && (o.kind == E_MODE || o.kind == E_LEVEL || o.kind == E_WARNMODE)) || (quiet && o.kind == E_CLEAR)) o.kind = r.chance(1, 2) ? E_ERR : E_TRY;
    if (!print && (o.kind == E_HIDE || o.kind == E_IGNORE) && r.chance(2, 3)) o.kind = E_ERR;
    if (r.chance(1, burst)) k = r.below(3);
    o.client = print; o.a[0] = k; o.a[5] = nt;
    if (o.kind == E_LIB && r.chance(1, 3)) { o.f.kind = r.chance(2, 3) ? F_MALLOC_FAIL : r.chance(1, 2) ? F_OPEN_FAIL : F_READ_EIO; o.f.nth = r.range(1, 12); o.f.arg = 0; }
    t.push_back(o);
  }
  return t;
}
Register r12({"S12", 6000, 200000, 0, gen12, run12, opname12,
  "distinct (block depth, clause, block shape, pending/handled/reraised/full message, level, override mode, thread) combinations reached",
  "utils/err.c and err.h (error records, ErrTry blocks, handlers), the error wrappers of dlite-misc.c, and the storage, lookup, plugin and path code that reports or suppresses errors", "thread scheduling (a baton decided by the seed), kernel file calls, allocation failures, entropy"});
}  // namespace
