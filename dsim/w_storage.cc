// Storage worlds: acknowledged saves (S01), faults while writing (S02) and
// faults while reading (S03), against a model of which versions of which
// instances each file may hold.
#include "model.h"
#include <algorithm>
#include <memory>
#include <unistd.h>
using namespace dsim;

namespace {
enum { K_CREATE, K_MUTATE, K_DROP, K_SAVE, K_SESSION, K_HOPEN, K_HSAVE, K_HCLOSE, K_LOAD, K_LIST, K_RESTART,
       K_DAMAGE, K_NK };
const char *names[] = {"create", "mutate", "drop", "save", "save_session", "open", "save_to_open", "close", "load", "list",
                       "restart", "damage_file"};
const char *opname(u32 k) { return k < K_NK ? names[k] : "?"; }
enum { NINST = 6, NMETA = 3 };

struct Entry { std::set<int> allowed; bool must = false; };
struct FileM {
  std::string driver, path;
  std::map<int, Entry> e;
  bool single = false;         // single-entity JSON
  bool tainted = false;        // HDF5 file whose writer died: nothing is promised
  bool exists = false, maybe = false;
  bool damaged = false;        // bytes were changed behind the library's back
  void uncertain(const std::map<int, int> &attempt) {
    for (auto &x : e) x.second.must = false;
    for (auto &a : attempt) { e[a.first].allowed.insert(a.second); e[a.first].must = false; }
    maybe = true;
    if (driver != "json") tainted = true;
  }
};
struct Handle { DLiteStorage *s = nullptr; bool open = false, write = false, append = false, failed = false, single = false; std::map<int, int> pending; };

struct World_ {
  u64 seed; std::vector<MMeta> metas; Caps caps;
  std::vector<FileM> files; std::vector<Handle> h;
  struct Live { DLiteInstance *p = nullptr; int ver = 0; bool on = false; } live[NINST];
  bool real = false;
  int cur = 0;

  explicit World_(u64 s) : seed(s) {
    for (int i = 0; i < NMETA; i++) metas.push_back(gen_meta(seed, i));
    
    Rng r(mix(seed, 0xf11e));
    int nf = r.range(2, 4);
    for (int i = 0; i < nf; i++) {
      FileM f; f.driver = r.chance(2, 3) ? "json" : "hdf5";
      f.path = ctx.dir + "/d/f" + std::to_string(i) + (f.driver == "json" ? ".json" : ".hdf5");
      files.push_back(f);
    }
    h.resize(nf);
  }
  MInst model(int k, int ver) { return gen_inst(seed, metas, k, ver, caps); }

  // ---- model effects shared by execution and recomputation ----
  void commit(FileM &f, const std::map<int, int> &p, bool append, bool single) {
    if (!append) { f.e.clear(); f.single = single; f.tainted = f.damaged = false; }
    for (auto &x : p) { Entry e; e.allowed.insert(x.second); e.must = true; f.e[x.first] = e; }
    f.exists = true; if (!append) f.maybe = false;
  }
};

std::string optstr(const FileM &f, u32 a, bool &append, bool &single, bool &dflt) {
  append = single = dflt = false;
  if (f.driver == "hdf5") {
    if (a % 3 == 0 || !f.exists) return "mode=w";
    append = true;
    if (a % 3 == 1) return "mode=append";
    dflt = true; return "";
  }
  static const char *o[] = {"mode=w", "mode=a", "", "mode=w;single=yes", "mode=w;uri-key=yes", "mode=w;with-uuid=yes",
                            "mode=a;uri-key=no", "mode=w;single=no;with-meta=yes", "mode=a", "mode=w;arrays=yes"};
  u32 k = a % 10;
  append = k == 1 || k == 2 || k == 6 || k == 8;
  single = k == 3;
  dflt = k == 2;
  return o[k];
}

// is success required when no fault is active?
bool must_succeed(const FileM &f, bool append) {
  if (!append) return true;
  if (f.maybe || f.tainted || f.damaged) return false;
  if (!f.exists) return true;
  return !f.single;
}

struct Exec {
  World_ &w; const Trace &t;
  bool read_world, hdf_hit = false;
  Exec(World_ &w_, const Trace &t_) : w(w_), t(t_), read_world(false) {}

  int inst_of(const Op &o) { return o.a[1] % NINST; }
  int file_of(const Op &o) { return o.a[0] % w.files.size(); }

  bool ensure_live(int k, int i) {
    if (w.live[k].on) return true;
    w.live[k].on = true; w.live[k].ver = i + 1;
    if (!w.real) return true;
    MInst m = w.model(k, i + 1);
    std::string e;
    w.live[k].p = make_inst(m, w.metas, &e);
    if (!w.live[k].p) violation("create-failed", "cannot create instance %s: %s", m.id.c_str(), e.c_str());
    return true;
  }
  void drop(int k) {
    if (!w.live[k].on) return;
    w.live[k].on = false;
    if (w.real) { dlite_instance_decref(w.live[k].p); w.live[k].p = nullptr; }
  }
  void check_live(const char *after) {
    for (int k = 0; k < NINST; k++)
      if (w.live[k].on) {
        std::string d = diff_inst(w.live[k].p, w.model(k, w.live[k].ver), w.metas, false);
        eval();
        if (!d.empty()) violation("live-instance-changed", "after %s the instance in memory differs: %s", after, d.c_str());
      }
  }

  // Load instance k from file f into a process where it is not alive, compare.
  void verify_one(int fi, int k, int how, bool fault, DLiteInstance **keep, int *kept_ver) {
    FileM &f = w.files[fi];
    MInst any = w.model(k, 1);
    DLiteInstance *inst = nullptr;
    std::string id = (how & 4) ? uuid_of(any.id) : any.id;
    const char *idp = id.c_str();
    if ((how & 8) && f.e.size() == 1 && f.e.begin()->second.must && f.e.begin()->first == k && f.driver == "json") idp = nullptr;   // the only instance
    switch (how & 3) {
    case 0: inst = dlite_instance_load_loc(f.driver.c_str(), f.path.c_str(), "mode=r", idp); break;
    case 1: {
      std::string u = f.driver + "://" + f.path + "?mode=r" + (idp ? "#" + id : "");
      inst = dlite_instance_load_url(u.c_str()); break;
    }
    default: {
      DLiteStorage *s = dlite_storage_open((how & 16) ? nullptr : f.driver.c_str(), f.path.c_str(), "mode=r");
      if (s) {
        inst = dlite_instance_load(s, idp);
        if (inst && (how & 32)) {               // loading twice gives the same object
          DLiteInstance *j = dlite_instance_load(s, idp);
          eval();
          if (j != inst) violation("second-load-differs", "loading %s twice from %s gave another object", id.c_str(), f.path.c_str());
          dlite_instance_decref(j);
        }
        if (dlite_storage_close(s) && !fault) violation("close-failed", "closing %s after reading failed: %s", f.path.c_str(), last_err().c_str());
      }
    }
    }
    std::string e = last_err();
    auto it = f.e.find(k);
    eval();
    if (!inst) {
      log_hash(hash_str("load-null"));
      if (fault || f.tainted || f.damaged) return;
      if (it != f.e.end() && it->second.must)
        violation("acknowledged-save-lost", "%s: instance %s was saved but cannot be loaded (how=%d): %s",
                  f.path.c_str(), id.c_str(), how, e.c_str());
      return;
    }
    if (it == f.e.end() && !f.tainted && !f.damaged)
      violation("unexpected-instance", "%s: instance %s was never saved there but was loaded", f.path.c_str(), id.c_str());
    if (!f.tainted && !f.damaged) {
      std::string first; int ver = 0;
      for (int v : it->second.allowed) {
        std::string d = diff_inst(inst, w.model(k, v), w.metas, f.driver == "json");   // HDF5 stores no name
        if (d.empty()) { ver = v; break; }
        if (first.empty()) first = d;
      }
      if (!ver)
        violation("wrong-value-loaded", "%s (how=%d): instance %s: %s", f.path.c_str(), how, id.c_str(), first.c_str());
      note_state(mix(mix(fi, k), hash_inst(w.model(k, ver))));
      log_hash(ver);
      say("  loaded inst %d ver %d from file %d (%s)", k, ver, fi, inst->uri);
      if (keep) { *keep = inst; *kept_ver = ver; return; }
    } else if (!read_world) {
      // nothing is promised about its content
    } else {
      // a damaged file: whatever was loaded must at least be internally consistent
      for (size_t i = 0; i < inst->meta->_nproperties; i++) {
        char *s = nullptr; size_t n = 0;
        if (dlite_instance_aprint_property_by_index(&s, &n, 0, inst, i, 0, -2, (DLiteTypeFlag)0) < 0) err_clear();
        free(s);
      }
    }
    if (dlite_instance_decref(inst) != 0)
      violation("leaked-reference", "instance %s loaded from %s is still referenced after its only reference was released", id.c_str(), f.path.c_str());
  }

  void verify_all(int salt) {
    for (size_t fi = 0; fi < w.files.size(); fi++) {
      FileM &f = w.files[fi];
      if (w.h[fi].open) continue;
      if (f.tainted) continue;
      if (!f.exists && !f.maybe) continue;
      for (auto &x : f.e) {
        if (w.live[x.first].on) continue;
        verify_one(fi, x.first, (salt + x.first * 7) & 63, false, nullptr, nullptr);
      }
    }
  }

  void list(int fi, bool fault) {
    FileM &f = w.files[fi];
    DLiteStorage *s = dlite_storage_open(f.driver.c_str(), f.path.c_str(), "mode=r");
    if (!s) {
      std::string e = last_err();
      eval();
      if (!fault && f.exists && !f.maybe && !f.tainted && !f.damaged)
        violation("cannot-open", "%s: cannot be opened: %s", f.path.c_str(), e.c_str());
      return;
    }
    char **u = dlite_storage_uuids(s, nullptr);
    std::set<std::string> got;
    std::multiset<std::string> all;
    for (char **p = u; p && *p; p++) { got.insert(*p); all.insert(*p); }
    dlite_storage_uuids_free(u);
    dlite_storage_close(s);
    std::string e = last_err();
    if (fault || f.tainted || f.damaged || f.maybe) return;
    eval();
    if (got.size() != all.size()) violation("listed-twice", "%s: an instance is listed more than once", f.path.c_str());
    std::set<std::string> want, may;
    for (auto &x : f.e) { std::string id = uuid_of(w.model(x.first, 1).id); may.insert(id); if (x.second.must) want.insert(id); }
    for (auto &x : want) if (!got.count(x)) violation("saved-instance-not-listed", "%s: %s was saved but is not listed", f.path.c_str(), x.c_str());
    if (f.driver == "hdf5" || !f.single)
      for (auto &x : got) if (!may.count(x)) violation("unsaved-instance-listed", "%s: %s is listed but was never saved", f.path.c_str(), x.c_str());
  }

  void op(int i) {
    const Op &o = t[i];
    w.cur = i;
    int out = w.real ? 0 : shm->outcome[i];   // 0 not run, 1 ok, 2 failed, 3 crashed
    int k = inst_of(o), fi = file_of(o);
    if (o.kind == K_LOAD && o.a[5] % 4) {          // mostly load something that is there
      std::vector<std::pair<int, int>> c;
      for (size_t j = 0; j < w.files.size(); j++)
        if (!w.files[j].tainted && !(w.h[j].open && w.h[j].write)) for (auto &x : w.files[j].e) if (!w.live[x.first].on) c.push_back({j, x.first});
      if (c.size()) { auto &x = c[(o.a[0] * 31 + o.a[1]) % c.size()]; fi = x.first; k = x.second; }
    }
    say("  [%s] %d: file %d inst %d", w.real ? "real" : "model", i, fi, k);
    FileM &f = w.files[fi]; Handle &h = w.h[fi];
    bool fired = false;
    auto done = [&](bool ok) { if (w.real) { shm->outcome[i] = ok ? 1 : 2; out = shm->outcome[i]; } };
    auto arm = [&]() { if (w.real) seam_arm(o.f); };
    // place a read fault anywhere within the reads a load really does: count them in a fault-free load first
    auto arm_read = [&](const std::function<DLiteInstance *()> &dry) {
      if (!w.real) return;
      Fault ft = o.f;
      if (ft.kind == F_READ_EIO && (o.a[2] & 1)) {
        seam_arm(Fault());
        DLiteInstance *j = dry();
        u32 n = seam_reads();
        if (j) dlite_instance_decref(j);
        last_err();
        ft.nth = 1 + (ft.nth * 7 + ft.arg) % (n ? n : 1);
      }
      seam_arm(ft);
    };
    auto disarm = [&]() {
      if (w.real) { fired = seam_disarm(); if (fired && f.driver == "hdf5") hdf_hit = true; snprintf(shm->opres[i], 80, "%d", fired); }
      else fired = atoi(shm->opres[i]) || shm->outcome[i] == 3;
    };
    switch (o.kind) {
    case K_CREATE: ensure_live(k, i); done(true); break;
    case K_MUTATE:
      if (w.live[k].on) {
        w.live[k].ver = i + 1;
        if (w.real) {
          MInst m = w.model(k, i + 1);
          if (apply_inst(w.live[k].p, m, w.metas[m.meta])) violation("set-failed", "cannot assign %s: %s", m.id.c_str(), last_err().c_str());
        }
      }
      done(true); break;
    case K_DROP: drop(k); done(true); break;

    case K_SAVE: case K_SESSION: {
      if (h.open) { done(false); break; }
      bool append, single, dflt;
      std::string opt = optstr(f, o.a[2], append, single, dflt);
      if (o.kind == K_SESSION && single) { opt = "mode=w"; single = false; }
      if (f.driver == "hdf5" && (f.tainted || f.damaged) && append) { opt = "mode=w"; append = false; }
      int n = o.kind == K_SAVE ? 1 : 1 + o.a[3] % 4;
      std::map<int, int> p; std::vector<int> ks;
      for (int j = 0; j < n; j++) { int kk = (k + j) % NINST; ensure_live(kk, i); p[kk] = w.live[kk].ver; ks.push_back(kk); }
      if (!f.exists && !f.maybe && dflt) append = false;
      bool ok = false; std::string e;
      bool expect = must_succeed(f, append);
      if (w.real) {
        arm();
        const char *os = opt.empty() ? nullptr : opt.c_str();
        if (o.kind == K_SAVE && o.a[4] % 3 == 0) ok = dlite_instance_save_loc(f.driver.c_str(), f.path.c_str(), os, w.live[k].p) == 0;
        else if (o.kind == K_SAVE && o.a[4] % 3 == 1) {
          std::string u = f.driver + "://" + f.path + (opt.empty() ? "" : "?" + opt);
          ok = dlite_instance_save_url(u.c_str(), w.live[k].p) == 0;
        } else {
          DLiteStorage *s = dlite_storage_open(f.driver.c_str(), f.path.c_str(), os);
          if (s) {
            ok = true;
            for (int kk : ks) if (dlite_instance_save(s, w.live[kk].p)) { ok = false; break; }
            if (dlite_storage_close(s)) ok = false;
          }
        }
        e = last_err();
        done(ok);
      } else ok = out == 1;
      disarm();
      log_hash(ok);
      if (ok) w.commit(f, p, append, single);
      else if (fired || !expect) {
        if (fired) f.uncertain(p);
        else if (f.maybe) f.uncertain(p);
      } else if (w.real)
        violation("save-failed", "saving %s to %s with options '%s' failed without any fault: %s", w.model(k, 1).id.c_str(), f.path.c_str(), opt.c_str(), e.c_str());
      if (w.real) {
        if (!ok && f.driver == "hdf5" && fired) restart(i, true);      // the HDF5 library keeps state about a file it failed to close
        check_live("a save");
      }
      break;
    }
    case K_HOPEN: {
      if (h.open) { done(false); break; }
      bool append, single, dflt, ro = o.a[3] % 3 == 0 && f.exists;
      std::string opt = optstr(f, o.a[2], append, single, dflt);
      if (ro) { opt = "mode=r"; }
      else if (f.driver == "hdf5" && (f.tainted || f.damaged) && append) { opt = "mode=w"; append = false; }
      if (!f.exists && !f.maybe && dflt) append = false;
      bool ok = false; std::string e;
      bool expect = ro ? !(f.maybe || f.tainted || f.damaged) : must_succeed(f, append);
      if (w.real) {
        arm();
        h.s = dlite_storage_open(f.driver.c_str(), f.path.c_str(), opt.empty() ? nullptr : opt.c_str());
        ok = h.s != nullptr; e = last_err(); done(ok);
      } else ok = out == 1;
      disarm();
      if (ok) {
        h.open = true; h.write = !ro; h.append = append; h.single = single; h.failed = false; h.pending.clear();
        if (!ro && f.driver == "hdf5") f.uncertain({});        // open for writing: not closed yet
        if (dflt && f.single) h.write = false;
        if (w.real && h.write && !dlite_storage_is_writable(h.s)) h.write = false;
      } else if (fired && !ro && f.driver == "hdf5") f.uncertain({});
      else if (!fired && expect && w.real && !(dflt && f.single))
        violation("open-failed", "opening %s with '%s' failed without any fault: %s", f.path.c_str(), opt.c_str(), e.c_str());
      if (w.real && !ok && f.driver == "hdf5" && fired) restart(i, true);
      break;
    }
    case K_HSAVE: {
      if (!h.open || !h.write || (h.single && h.pending.size())) { done(false); break; }
      ensure_live(k, i);
      bool ok = false; std::string e;
      if (w.real) { arm(); ok = dlite_instance_save(h.s, w.live[k].p) == 0; e = last_err(); done(ok); }
      else ok = out == 1;
      disarm();
      if (ok) h.pending[k] = w.live[k].ver;
      else {
        h.failed = true;
        h.pending[k] = w.live[k].ver;
        if (!fired && w.real && !h.single) violation("save-failed", "saving to the open storage %s failed without any fault: %s", f.path.c_str(), e.c_str());
      }
      if (h.single) f.uncertain(h.pending);          // written at once, acknowledged at close
      if (w.real && !ok && f.driver == "hdf5" && fired) restart(i, true);
      break;
    }
    case K_HCLOSE: {
      if (!h.open) { done(false); break; }
      bool ok = false; std::string e;
      if (w.real) { arm(); ok = dlite_storage_close(h.s) == 0; e = last_err(); h.s = nullptr; done(ok); }
      else ok = out == 1;
      disarm();
      h.open = false;
      if (h.write) {
        if (ok && !h.failed && h.pending.size()) w.commit(f, h.pending, h.append, h.single);
        else if (h.pending.size() || f.driver == "hdf5" || !h.append) f.uncertain(h.pending);
        if (!ok && !fired && !h.failed && w.real) violation("close-failed", "closing %s failed without any fault: %s", f.path.c_str(), e.c_str());
        if (ok && f.driver == "hdf5" && !h.failed && !h.pending.size() && !h.append) f.exists = f.maybe = true;
      }
      h.pending.clear();
      if (w.real && !ok && f.driver == "hdf5" && fired) restart(i, true);
      break;
    }
    case K_LOAD: {
      if (w.real && f.tainted) { done(false); break; }
      if (w.real) {
        if (w.live[k].on) {              // already in memory: the same object, whatever the file says
          if (!h.open && f.e.count(k) && f.e[k].must) {
            DLiteInstance *j = dlite_instance_load_loc(f.driver.c_str(), f.path.c_str(), "mode=r", w.model(k, 1).id.c_str());
            eval();
            if (j != w.live[k].p) violation("identity", "loading %s which is in memory gave another object", w.model(k, 1).id.c_str());
            dlite_instance_decref(j);
            last_err();
          }
          done(true);
        } else if (h.open && !h.write && f.e.count(k) && f.e[k].must && !f.damaged) {
          arm_read([&]() { return dlite_instance_load(h.s, w.model(k, 1).id.c_str()); });
          DLiteInstance *j = dlite_instance_load(h.s, w.model(k, 1).id.c_str());
          std::string e = last_err();
          fired = seam_disarm();
          eval();
          if (!j && !fired) violation("acknowledged-save-lost", "%s: %s cannot be loaded from the open storage: %s", f.path.c_str(), w.model(k, 1).id.c_str(), e.c_str());
          if (j) {
            std::string d = diff_inst(j, w.model(k, *f.e[k].allowed.begin()), w.metas, f.driver == "json");
            if (!d.empty()) violation("wrong-value-loaded", "%s: %s: %s", f.path.c_str(), w.model(k, 1).id.c_str(), d.c_str());
            dlite_instance_decref(j);
          }
          done(true);
        } else if (!h.open && (f.exists || f.maybe)) {
          DLiteInstance *keep = nullptr; int ver = 0;
          bool want = (o.a[4] & 1) && (f.driver == "json" || dlite_isuuid(w.model(k, 1).id.c_str()));   // HDF5 stores no name
          arm_read([&]() { return dlite_instance_load_loc(f.driver.c_str(), f.path.c_str(), "mode=r", w.model(k, 1).id.c_str()); });
          bool arming = o.f.kind != F_NONE && o.f.kind != F_SHORT_READ;
          verify_one(fi, k, o.a[3] & 63, arming, want ? &keep : nullptr, &ver);
          bool fd = seam_disarm();
          if (keep) { w.live[k].on = true; w.live[k].p = keep; w.live[k].ver = ver; }
          snprintf(shm->opres[i], 80, "%d", ver * (keep != nullptr));
          if (fd && !keep && !f.damaged && f.driver == "json") {
            // the fault is over: the same load must now give the saved value
            verify_one(fi, k, o.a[3] & 63, false, nullptr, nullptr);
          }
          done(true);
          if (fd && f.driver == "hdf5") restart(i, true);
        } else done(false);
        check_live("a load");
      } else {
        int ver = atoi(shm->opres[i]);
        if (ver && out == 1 && !w.live[k].on) { w.live[k].on = true; w.live[k].ver = ver; }
      }
      break;
    }
    case K_LIST:
      if (w.real && !h.open && !f.tainted && (f.exists || f.maybe)) {
        arm();
        list(fi, o.f.kind != F_NONE && o.f.kind != F_SHORT_READ && o.f.kind != F_READDIR_SHUFFLE);
        bool fd = seam_disarm();
        done(true);
        if (fd && f.driver == "hdf5") restart(i, true);
      } else done(true);
      break;
    case K_DAMAGE:
      if (h.open || !f.exists) { done(false); break; }
      if (w.real) {
        std::string d = read_file(f.path);
        if (d.size()) {
          size_t at = o.a[2] % d.size();
          if (o.a[3] % 3 == 0) { d.resize(at); seam_register_fault(F_FILE_TRUNC); }
          else if (o.a[3] % 3 == 1 && f.driver == "json") {   d[at] = (char)(d[at] ^ (1 + o.a[4] % 255)); seam_register_fault(F_FILE_FLIP); }
          else { d = ""; seam_register_fault(F_FILE_TRUNC); }
          write_file(f.path, d);
        }
      }
      f.damaged = true; for (auto &x : f.e) x.second.must = false;
      done(true);
      break;
    case K_RESTART:
      done(true);
      if (w.real) restart(i);
      break;
    }
    // what a dead process leaves behind
    if (!w.real && (shm->outcome[i] == 3 || (shm->probe[40 + i / 64] >> (i % 64)) & 1)) {
      for (int j = 0; j < NINST; j++) w.live[j].on = false;
      for (size_t j = 0; j < w.h.size(); j++) {
        Handle &x = w.h[j];
        if (x.open && x.write && (x.pending.size() || w.files[j].driver == "hdf5")) {
          if (w.files[j].driver == "hdf5" || x.single) w.files[j].uncertain(x.pending);
          // a JSON storage that was not closed has not touched its file
        }
        x.open = false; x.pending.clear();
      }
    }
  }
  // kill: after a fault inside libhdf5 its own exit handler is not trustworthy
  [[noreturn]] void restart(int i, bool kill = false) {
    seam_register_fault(F_RESTART);
    shm->probe[40 + i / 64] |= 1ull << (i % 64);
    shm->next_op = i + 1;
    if (kill || hdf_hit || (t[i].a[5] & 1)) _exit(76);                 // killed
    for (int k = 0; k < NINST; k++) drop(k);
    exit(76);                                     // orderly exit
  }
};

void run_common(const Trace &t, u32 start, u32 inc, bool read_world) {
  World_ w(ctx.seed);
  seam_random_mode(0, mix(ctx.seed, inc));
  Exec x(w, t);
  x.read_world = read_world;
  w.real = false;
  for (u32 i = 0; i < start && i < t.size(); i++) x.op(i);
  w.real = true;
  // the process starts
  err_set_stream(nullptr);
  for (auto &m : w.metas) if (!make_meta(m)) violation("meta-create-failed", "cannot create metadata %s: %s", m.uri.c_str(), last_err().c_str());
  last_err();
  if (inc > 0) x.verify_all(inc * 5 + start);
  for (u32 i = start; i < t.size(); i++) {
    shm->opidx = i; shm->nops++;
    say("op %u: %s file %d inst %d fault %u/%u/%u", i, opname(t[i].kind), x.file_of(t[i]), x.inst_of(t[i]), t[i].f.kind, t[i].f.nth, t[i].f.arg);
    x.op(i);
    seam_disarm();
  }
  if (start < t.size()) {
    shm->opidx = t.size(); shm->next_op = t.size();
    shm->probe[40 + (t.size() - 1) / 64] |= 1ull << ((t.size() - 1) % 64);
    if (x.hdf_hit) _exit(76);
    for (int k = 0; k < NINST; k++) x.drop(k);
    exit(76);
  }
}
void run_write(const Trace &t, u32 s, u32 i) { run_common(t, s, i, false); }
void run_read(const Trace &t, u32 s, u32 i) { run_common(t, s, i, true); }

Op mk(Rng &r, u32 kind) {
  Op o; o.kind = kind; o.client = r.below(3);
  for (auto &a : o.a) a = r.below(1 << 16);
  return o;
}
u32 pick_kind(Rng &r, const std::vector<std::pair<int, int>> &w) {
  int tot = 0; for (auto &x : w) tot += x.second;
  int v = r.below(tot);
  for (auto &x : w) { v -= x.second; if (v < 0) return x.first; }
  return 0;
}
const std::vector<std::pair<int, int>> base = {{K_CREATE, 2}, {K_MUTATE, 5}, {K_DROP, 4}, {K_SAVE, 9}, {K_SESSION, 5}, {K_HOPEN, 5},
  {K_HSAVE, 6}, {K_HCLOSE, 5}, {K_LOAD, 8}, {K_LIST, 2}, {K_RESTART, 1}};

Trace gen01(Rng &r, u64) {
  Trace t; int n = r.range(8, 45);
  for (int i = 0; i < n; i++) {
    Op o = mk(r, pick_kind(r, base));
    // faults that must be invisible: short reads and writes, and death between operations
    if (r.chance(1, 6)) { o.f.kind = r.chance(1, 2) ? F_SHORT_WRITE : F_SHORT_READ; o.f.nth = 1; o.f.arg = r.below(4096); }
    t.push_back(o);
  }
  return t;
}
Trace gen02(Rng &r, u64) {
  Trace t; int n = r.range(6, 35);
  for (int i = 0; i < n; i++) {
    Op o = mk(r, pick_kind(r, base));
    bool wr = o.kind == K_SAVE || o.kind == K_SESSION || o.kind == K_HSAVE || o.kind == K_HCLOSE || o.kind == K_HOPEN;
    if (wr && r.chance(1, 3)) {
      static const int fk[] = {F_WRITE_ENOSPC, F_WRITE_ENOSPC, F_WRITE_EIO, F_CLOSE_FAIL, F_CRASH, F_CRASH, F_CRASH, F_OPEN_FAIL, F_SHORT_WRITE, F_READ_EIO};
      o.f.kind = fk[r.below(10)];
      o.f.nth = o.f.kind == F_OPEN_FAIL || o.f.kind == F_CLOSE_FAIL ? r.range(1, 3) : r.chance(1, 2) ? r.range(1, 4) : r.range(1, r.chance(2, 3) ? 30 : 75);
      o.f.arg = r.below(1 << 20);
    }
    t.push_back(o);
  }
  return t;
}
Trace gen03(Rng &r, u64) {
  Trace t; int n = r.range(8, 35);
  for (int i = 0; i < n; i++) {
    u32 k = pick_kind(r, base);
    if (i > 4 && r.chance(1, 12)) k = K_DAMAGE;
    if (r.chance(1, 4)) k = K_LOAD;
    Op o = mk(r, k);
    if ((k == K_LOAD || k == K_LIST || (k == K_HOPEN && (o.a[3] -= o.a[3] % 3, true))) && r.chance(1, 2)) {
      static const int fk[] = {F_READ_EIO, F_READ_EIO, F_SHORT_READ, F_OPEN_FAIL, F_CLOSE_FAIL};
      o.f.kind = fk[r.below(5)];
      o.f.nth = o.f.kind == F_READ_EIO ? (r.chance(1, 3) ? r.range(1, 3) : r.range(1, r.chance(1, 3) ? 20 : 75)) : r.range(1, 2);
      o.f.arg = r.below(1 << 16);
    }
    t.push_back(o);
  }
  return t;
}
const char *real = "libdlite, libdlite-utils, json and hdf5 storage plugins, libhdf5, C stdio";
const char *stub = "kernel file calls (seam), entropy, clocks; process crash is _exit without cleanup";
Register r1({"S01", 2600, 60000, 0, gen01, run_write, opname,
  "distinct (file, instance, loaded value) triples that compared equal to the model", real, stub});
Register r2({"S02", 2600, 60000, 0, gen02, run_write, opname,
  "distinct (file, instance, loaded value) triples that compared equal to the model", real, stub});
Register r3({"S03", 2600, 60000, 0, gen03, run_read, opname,
  "distinct (file, instance, loaded value) triples that compared equal to the model", real, stub});
}  // namespace
