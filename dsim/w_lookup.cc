// Lookup world (S09): finding instances and metadata by id in memory, in open
// storages and on the storage path, and listing what a storage holds, while
// drivers, files and directories on the path fail, disappear or hold junk.
#include "simstore.h"
#include <unistd.h>
#include <sys/stat.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { L_STORE, L_STOREMETA, L_GET, L_HAS, L_MISSING, L_META, L_URL, L_DROP, L_DROPMETA, L_PADD, L_PINS, L_PDEL, L_HOPEN, L_HCLOSE, L_HSAVE,
       L_IOPEN, L_INEXT, L_IFREE, L_UUIDS, L_DAMAGE, L_REPAIR, L_PITER, L_RESTART, L_FORGET, L_NK };
const char *names9[] = {"store", "store_meta", "get", "has", "get_missing", "get_meta", "load_url", "drop", "drop_meta", "path_append", "path_insert", "path_remove", "open", "close", "save_to_open",
  "iter_open", "iter_next", "iter_free", "uuids", "damage", "repair", "list_path", "restart", "delete"};
const char *opname9(u32 k) { return k < L_NK ? names9[k] : "?"; }
enum { NI = 6, NM = 3, M0 = 100, NH = 3, NIT = 3 };

struct Loc { std::string driver, path, url; std::map<int, int> c; bool exists = false, damaged = false; };
// 0,1 simulated; 2,3 JSON in directory a; 4 JSON in directory b; 5 HDF5; 6.. metadata files (single-entity JSON)
enum { LJ = 2, LH = 5, LM = 6, NL = LM + NM };
struct Handle { DLiteStorage *s = nullptr; int loc = 0; bool write = false, dirty = false, hot = false; std::map<int, int> c; int iters = 0; bool closed = false; };
struct Iter { void *it = nullptr; int h = 0; std::string pattern; std::set<std::string> want, seen; bool done = false, failed = false; };
struct Entry { std::string url; std::vector<int> locs; };

struct W9 {
  const Trace &t; u64 seed; std::string D; bool real_faults = false;
  std::vector<MMeta> metas; Caps caps; Loc loc[NL];
  Handle h[NH]; Iter it[NIT];
  DLiteInstance *live[NI] = {0}; int refs[NI] = {0}, ver[NI] = {0};
  DLiteMeta *meta[NM] = {0}; bool known[NM] = {0}, urlmeta[NM] = {0};     // the store keeps metadata until the process ends
  std::vector<Entry> cat; std::vector<std::string> path;   // catalogue and current path
  std::map<std::string, std::vector<int>> where;

  W9(const Trace &t_, u64 s, u32 inc) : t(t_), seed(s) {
    D = ctx.dir + "/d";
    for (int i = 0; i < NM; i++) metas.push_back(gen_meta(seed, i));
    loc[0] = {"sim", "L0"}; loc[1] = {"sim", "L1"};
    loc[2] = {"json", D + "/a/x0.json"}; loc[3] = {"json", D + "/a/x1.json"}; loc[4] = {"json", D + "/b/y0.json"}; loc[5] = {"hdf5", D + "/h/z0.h5"};
    for (int i = 0; i < NM; i++) loc[LM + i] = {"json", D + "/m/M" + std::to_string(i) + ".json"};
    auto add = [&](const std::string &u, std::vector<int> l) { cat.push_back({u, l}); where[u] = l; };
    std::vector<int> ml; for (int i = 0; i < NM; i++) ml.push_back(LM + i);
    add(D + "/m", ml);
    add("sim://L0?mode=r", {0}); add("sim://L1?mode=r", {1});
    add(D + "/a/x0.json", {2}); add("json://" + D + "/a/x1.json?mode=r", {3}); add("json://" + D + "/b/y0.json", {4});
    add(D + "/a", {2, 3}); add(D + "/a/*.json", {2, 3}); add(D + "/b/y?.json", {4}); add(D + "/m/*.json", ml);
    add("json://" + D + "/a/x*.json", {2, 3}); add("json://" + D + "/m/M*.json?mode=r", ml);
    add("hdf5://" + D + "/h/z0.h5?mode=r", {5});
    add(D + "/nope.json", {}); add(D + "/missing/*.json", {}); add("nodriver://x", {}); add(D + "/a/notes.txt", {}); add(D + "/a/sub.json", {}); add(D + "/a/broken.json", {});
    add(D + "/a/noext", {}); add("sim://empty?mode=r", {}); add("json://" + D + "/a/list.json?mode=r", {});
    if (inc == 0) {
      for (const char *d : {"", "/a", "/b", "/h", "/m", "/a/sub.json", "/a/sub"}) mkdir((D + d).c_str(), 0777);
      write_file(D + "/a/notes.txt", "not a storage\n"); write_file(D + "/a/broken.json", "{\"x\": [1, 2"); write_file(D + "/a/noext", "{}");
      write_file(D + "/a/list.json", "[1, 2, 3]"); write_file(D + "/a/empty.json", ""); write_file(D + "/a/string.json", "\"text\"");
      write_file(D + "/a/y.json", "{}"); write_file(D + "/a/z.nodriver", "?"); write_file(D + "/a/sub.json/inner.json", "{}");
      save_model();
    } else load_model();
  }
  void save_model() {
    std::string s;
    for (auto &l : loc) { s += std::to_string(l.exists) + " " + std::to_string(l.damaged) + " " + std::to_string(l.c.size()); for (auto &x : l.c) s += " " + std::to_string(x.first) + " " + std::to_string(x.second); s += "\n"; }
    write_file(ctx.dir + "/model", s);
  }
  void load_model() {
    std::istringstream in(read_file(ctx.dir + "/model"));
    for (auto &l : loc) { int n; in >> l.exists >> l.damaged >> n; while (n--) { int k, v; in >> k >> v; l.c[k] = v; } }
  }
  MInst model(int k, int v) { return gen_inst(seed, metas, k, v, caps); }
  int metaof(int k) { return model(k, 1).meta; }
  std::string id(int k) { return k >= M0 ? metas[k - M0].uri : model(k, 1).id; }
  std::string uuid(int k) { return uuid_of(id(k)); }
  int alive_k(int k) { return live[k] != nullptr; }

  // ---- the model of a lookup: which versions the ordered places hold ----
  std::vector<std::set<int>> places(int k) {
    std::vector<std::set<int>> r;
    std::set<int> g;
    for (auto &x : h) if (x.s && x.hot && x.c.count(k)) g.insert(x.c[k]);
    r.push_back(g);
    for (auto &p : path) {
      g.clear();
      auto w = where.find(p);
      if (w != where.end()) for (int l : w->second) if (!loc[l].damaged && loc[l].exists && loc[l].c.count(k)) g.insert(loc[l].c[k]);
      r.push_back(g);
    }
    return r;
  }
  int nsources(int k, bool dirs = false) {       // number of different storages (directories) that hold it
    std::set<int> s;
    for (auto &x : h) if (x.s && x.hot && x.c.count(k)) s.insert(100 + (&x - h));
    for (auto &p : path) { auto w = where.find(p); if (w != where.end()) for (int l : w->second) if (!loc[l].damaged && loc[l].exists && loc[l].c.count(k)) s.insert(!dirs ? l : l >= LM ? LM : l == 3 ? 2 : l); }
    return s.size();
  }
  bool meta_alive(int m) { return known[m]; }
  bool resolvable(int m) { return meta_alive(m) || nsources(M0 + m); }
  std::set<int> expect(int k) {          // allowed versions; empty: not to be found
    if (k < M0 && !resolvable(metaof(k))) return {};
    for (auto &g : places(k)) if (g.size()) return g;
    return {};
  }
  u64 mem_state() { u64 r = 0; for (int m = 0; m < NM; m++) r = r * 2 + known[m]; for (int j = 0; j < NI; j++) r = r * 2 + (live[j] != nullptr); return r; }
  std::set<int> any(int k) { std::set<int> r; for (auto &g : places(k)) r.insert(g.begin(), g.end()); return r; }

  void check_path(int i) {
    const char **p = dlite_storage_paths_get();
    size_t n = 0;
    eval();
    for (; p && p[n]; n++)
      if (n >= path.size() || path[n] != p[n]) violation("search-path", "op %d: entry %zu of the storage path is %s, expected %s", i, n, p[n], n < path.size() ? path[n].c_str() : "(none)");
    if (n != path.size()) violation("search-path", "op %d: the storage path has %zu entries, expected %zu", i, n, path.size());
  }
  void check_alive(int i, const char *what) {
    eval();
    for (int k = 0; k < NI; k++) {
      DLiteInstance *p = dlite_instance_has(uuid(k).c_str(), false);
      if (p != live[k]) violation(live[k] ? "live-instance-lost" : "instance-not-released", "op %d (%s): %s is %s", i, what, id(k).c_str(), p ? "still in memory although nobody holds it" : "not found in memory");
      if (p && p->_refcount != refs[k]) violation("refcount", "op %d (%s): %s has %d references, expected %d", i, what, id(k).c_str(), p->_refcount, refs[k]);
    }
    for (int m = 0; m < NM; m++) {
      bool p = dlite_instance_has(metas[m].uri.c_str(), false);
      if (known[m] && !p) violation("metadata-lost", "op %d (%s): metadata %s is not in memory", i, what, metas[m].uri.c_str());
      if (p && !known[m]) { if (!nsources(M0 + m) && !urlmeta[m]) violation("metadata-from-nowhere", "op %d (%s): metadata %s is in memory although no readable storage on the path holds it", i, what, metas[m].uri.c_str()); known[m] = true; }
      urlmeta[m] = false;
    }
    last_err();
  }
  void drop(int k, int i) {
    if (!live[k]) return;
    int r = dlite_instance_decref(live[k]);
    refs[k]--;
    if (r != refs[k]) violation("refcount", "op %d: releasing %s returned %d, expected %d", i, id(k).c_str(), r, refs[k]);
    if (!refs[k]) live[k] = nullptr;
  }
  void need_meta(int m) { if (!known[m]) { known[m] = true; meta[m] = make_meta(metas[m]); if (!meta[m]) violation("create-failed", "%s", last_err().c_str()); } }

  // the outcome of looking up k; inst is owned by the caller unless it was alive
  void judge(int i, const char *what, int k, DLiteInstance *p, const std::set<int> &want, const std::set<int> &may, bool fired, bool must, int ev, const std::string &e) {
    eval();
    log_hash(p ? 1 : 0);
    if (!p) {
      if (want.size() && (!fired || must)) violation("not-found", "op %d (%s): %s is stored on the path%s but is not found: %s", i, what, id(k).c_str(), fired ? " in two places, of which one fails," : "", e.c_str());
      return;
    }
    if (may.empty()) violation("found-nonexistent", "op %d (%s): %s is found although no readable storage on the path holds it", i, what, id(k).c_str());
    if (ev && !fired) violation("success-with-error", "op %d (%s): %s was found, but an error is reported: %s", i, what, id(k).c_str(), e.c_str());
    const std::set<int> &ok = fired ? may : want;
    std::string first; int v = -1;
    for (int x : ok) {
      std::string d = k >= M0 ? diff_meta((DLiteMeta *)p, metas[k - M0]) : diff_inst(p, model(k, x), metas, false);
      if (d.empty()) { v = x; break; }
      if (first.empty()) first = d;
    }
    if (v < 0) {
      for (int x : may) if (!ok.count(x) && k < M0 && diff_inst(p, model(k, x), metas, false).empty()) violation("wrong-storage", "op %d (%s): %s was taken from a storage that comes later on the path", i, what, id(k).c_str());
      violation("wrong-content", "op %d (%s): %s: %s", i, what, id(k).c_str(), first.c_str());
    }
    { u64 hsh = mix(k, mem_state()); int n = 0; for (auto &g : places(k)) { hsh = mix(hsh, g.size() + 8 * n++); if (g.size() && n > 1) break; } note_state(mix(hsh, what[0])); }
    log_hash(v);
    if (k < M0 && !live[k]) { live[k] = p; refs[k] = 1; ver[k] = v; }
  }

  std::string pat(u32 a) { switch (a % 5) { case 0: case 1: return ""; case 2: return metas[a / 5 % NM].uri; case 3: return "http://*"; default: { std::string u = metas[a / 5 % NM].uri; return u.substr(0, u.size() - 1) + "?"; } } }
  std::set<std::string> listing(const Handle &x, const std::string &pattern) {
    std::set<std::string> r;
    for (auto &c : x.c) {
      std::string mu = c.first >= M0 ? DLITE_ENTITY_SCHEMA : metas[metaof(c.first)].uri;
      if (pattern.empty() || globmatch(pattern.c_str(), mu.c_str()) == 0) r.insert(uuid(c.first));
    }
    return r;
  }
  void really_close(Handle &x, int i) {      // all references gone: a written file is up to date now
    if (x.dirty && loc[x.loc].driver == "json") { loc[x.loc].c = x.c; loc[x.loc].exists = true; loc[x.loc].damaged = false; save_model(); }
    x = Handle();
  }
  void iter_free(Iter &q, int i) {
    if (!q.it) return;
    Handle &x = h[q.h];
    dlite_storage_iter_free(x.s, q.it);
    q = Iter();
    if (!--x.iters && x.closed) really_close(x, i);
  }

  void op(int i) {
    const Op &o = t[i];
    int k = o.a[0] % NI, m = o.a[0] % NM, l = o.a[1] % (LH + 1);
    bool fired = false, mem = false;
    const char *what = names9[o.kind];
    auto arm = [&]() { seam_arm(o.f); sim_arm(o.f); };
    auto disarm = [&]() { bool a = seam_disarm(), b = sim_disarm(); fired = a || b; if (o.f.kind == F_SHORT_READ || o.f.kind == F_READDIR_SHUFFLE) fired = false; mem = o.f.kind == F_MALLOC_FAIL; };
    switch (o.kind) {
    case L_STORE: case L_STOREMETA: {
      bool im = o.kind == L_STOREMETA;
      int key = im ? M0 + m : k;
      if (im && (o.a[2] % 3)) l = LM + m;
      else if (im) l = LJ + o.a[1] % 3;
      Loc &q = loc[l];
      for (auto &x : h) if (x.s && x.loc == l && x.write) return;       // one writer at a time
      if (q.driver == "hdf5") for (auto &x : h) if (x.s && x.loc == l) return;
      bool wasalive = im ? meta_alive(m) : live[k] != nullptr;
      DLiteInstance *p; int v = 1;
      bool needm = !meta_alive(im ? m : metaof(k));
      need_meta(im ? m : metaof(k));
      if (im) p = dlite_instance_has(metas[m].uri.c_str(), false);
      else if (live[k]) { p = live[k]; v = ver[k]; }
      else { std::string e; v = i + 1; p = make_inst(model(k, v), metas, &e); if (!p) violation("create-failed", "%s", e.c_str()); }
      std::string u = q.driver + "://" + q.path + (q.driver == "sim" ? "" : l >= LM ? "?mode=w" : q.driver == "hdf5" ? (q.exists && !q.damaged ? "?mode=append" : "?mode=w") : q.exists && q.damaged ? "?mode=w;single=no" : "?mode=a");
      if (dlite_instance_save_url(u.c_str(), p)) violation("save-failed", "op %d: cannot save %s to %s: %s", i, id(key).c_str(), u.c_str(), last_err().c_str());
      if (q.damaged || l >= LM) q.c.clear();
      q.c[key] = v; q.exists = true; q.damaged = false;
      if (q.driver == "sim") for (auto &x : h) if (x.s && x.loc == l) x.c[key] = v;
      if (!im && !wasalive) dlite_instance_decref(p);
      if (needm && (o.a[3] & 3)) { int mm = im ? m : metaof(k); dlite_meta_decref(meta[mm]); meta[mm] = nullptr; }
      save_model();
    } break;
    case L_FORGET: {                                    // another process deletes an instance from a simulated storage
      Loc &q = loc[o.a[1] & 1];
      if (!q.c.count(k)) return;
      for (auto &x : it) if (x.it && h[x.h].loc == (int)(o.a[1] & 1)) return;
      DLiteStorage *s = dlite_storage_open("sim", q.path.c_str(), "mode=w");
      if (!s || dlite_storage_delete(s, id(k).c_str())) violation("delete-failed", "op %d: %s", i, last_err().c_str());
      dlite_storage_close(s);
      q.c.erase(k);
      for (auto &x : h) if (x.s && x.loc == (int)(o.a[1] & 1)) x.c.erase(k);
      save_model();
    } break;
    case L_GET: case L_META: case L_HAS: case L_URL: {
      int key = o.kind == L_META ? M0 + m : k;
      std::string s = (o.a[2] & 1) ? uuid(key) : id(key);
      bool alive = key >= M0 ? meta_alive(m) : live[k] != nullptr;
      if (o.kind == L_META && (o.a[2] & 1) == 0 && (o.a[2] & 6) == 0) s = uuid(key);
      DLiteInstance *p = nullptr;
      std::set<int> want, may = any(key);
      if (alive) { want = may = {key >= M0 ? 1 : ver[k]}; }
      else want = expect(key);
      if (!alive && key < M0 && !resolvable(metaof(k))) may.clear();
      bool od = o.f.kind == F_OPENDIR_FAIL;
      bool two = !alive && nsources(key, od) > 1 && (key >= M0 || meta_alive(metaof(k)) || nsources(M0 + metaof(k), od) > 1);
      if (o.kind == L_URL) {                                // from a given storage
        Loc &q = loc[l];
        if (!alive) {
          want.clear(); if (q.exists && !q.damaged && q.c.count(k)) want.insert(q.c[k]);
          // HDF5 and JSON storages also look for the metadata in the storage itself while it is open
          if (!resolvable(metaof(k)) && !(q.exists && !q.damaged && q.c.count(M0 + metaof(k)))) want.clear();
          may = want;
        }
        two = false; if (q.c.count(M0 + metaof(k))) urlmeta[metaof(k)] = true;
        std::string u = q.driver + "://" + q.path + "?mode=r" + (q.driver == "sim" && (o.a[3] & 1) ? ";generic" : "") + "#" + s;
        arm();
        p = dlite_instance_load_url(u.c_str());
        disarm();
      } else if (o.kind == L_HAS) {
        bool st = o.a[3] & 1;
        if (!st) { if (!alive) { want.clear(); may.clear(); } }
        arm();
        p = dlite_instance_has(s.c_str(), st);
        disarm();
      } else if (o.kind == L_META) {
        arm();
        p = (DLiteInstance *)dlite_meta_get(s.c_str());
        disarm();
      } else {
        size_t used[3] = {0};
        if (!o.f.kind && !alive && o.a[4] % 4 == 0 && want.size()) {      // repeated: must not take more memory each time
          for (int r = 0; r < 3; r++) {
            DLiteInstance *x = dlite_instance_get(s.c_str());
            if (x) dlite_instance_decref(x);
            last_err();
            used[r] = __sanitizer_get_current_allocated_bytes();
          }
          eval();
          if (used[2] > used[1] && used[1] > used[0]) violation("memory-leak", "op %d: getting %s and releasing it takes %zu more bytes each time", i, s.c_str(), used[2] - used[1]);
        }
        arm();
        p = dlite_instance_get(s.c_str());
        disarm();
      }
      int ev = err_geteval();
      std::string e = last_err();
      if (alive) {
        DLiteInstance *q = key >= M0 ? dlite_instance_has(metas[m].uri.c_str(), false) : live[k];
        eval();
        if (p != q && !(fired && mem && !p)) violation("not-the-live-object", "op %d (%s): %s is in memory but %s is returned: %s", i, what, s.c_str(), p ? "another object" : "nothing", e.c_str());
        if (p && ev && !fired) violation("success-with-error", "op %d (%s): %s was found, but an error is reported: %s", i, what, s.c_str(), e.c_str());
        if (p && key < M0 && o.kind != L_HAS) refs[k]++;
        if (p && key >= M0) { if (meta[m]) dlite_meta_decref((DLiteMeta *)p); else meta[m] = (DLiteMeta *)p; }
        break;
      }
      judge(i, what, key, p, want, may, fired, two && !mem && !(o.f.kind == F_PLUGIN_FAIL && (o.f.arg & 2)), ev, e);
      if (p && key >= M0) { meta[m] = (DLiteMeta *)p; known[m] = true; }
      if (fired && !(o.kind == L_URL)) {                 // the failure is over: the same lookup succeeds
        if (!p && key < M0) {
          p = dlite_instance_get(s.c_str());
          ev = err_geteval(); e = last_err();
          judge(i, "retry", key, p, expect_or(key, want), may, false, false, ev, e);
        }
      }
    } break;
    case L_MISSING: {
      static const char *ids[] = {"no-such-instance", "http://nowhere.org/0.1/Missing", "00000000-0000-4000-8000-00000000000a", "http://sim.org/data/inst99", "https://nowhere.org/0.1/x", ""};
      size_t used[3] = {0};
      const char *s = ids[o.a[0] % 6];
      for (int r = 0; r < 3; r++) {
        if (o.f.kind) { seam_arm(o.f); sim_arm(o.f); }
        DLiteInstance *p = (o.a[2] & 1) ? dlite_instance_has(s, true) : dlite_instance_get(s);
        disarm();
        bool err = err_geteval();
        last_err();
        eval();
        if (p) violation("found-nonexistent", "op %d: %s is found", i, s);
        if (err && *s && (o.a[2] & 1) && !fired) violation("failure-reported", "op %d: asking whether %s exists reports an error", i, s);
        used[r] = __sanitizer_get_current_allocated_bytes();
      }
      if (used[2] > used[1] && used[1] > used[0] && !o.f.kind) violation("memory-leak", "op %d: looking for %s takes %zu more bytes each time", i, s, used[2] - used[1]);
    } break;
    case L_DROP: drop(k, i); break;
    case L_DROPMETA: if (meta[m]) { dlite_meta_decref(meta[m]); meta[m] = nullptr; } break;
    case L_PADD: case L_PINS: {
      const Entry &e = cat[o.a[1] % cat.size()];
      int n = o.kind == L_PADD ? (int)path.size() : (int)(o.a[2] % (2 * path.size() + 3)) - (int)path.size() - 1;
      arm();
      int r = o.kind == L_PADD ? dlite_storage_paths_append(e.url.c_str()) : dlite_storage_paths_insert(n, e.url.c_str());
      disarm();
      last_err();
      eval();
      int N = path.size();
      if (n < -N || n > N) { if (r >= 0) violation("path-index", "op %d: inserting at %d of %d entries succeeded", i, n, N); break; }
      if (n < 0) n += N;
      if (r < 0) { if (!fired) violation("path-insert-failed", "op %d: cannot insert at %d of %d", i, n, N); break; }
      auto f = std::find(path.begin(), path.end(), e.url);
      if (f != path.end()) {
        int at = f - path.begin();
        if (at == n || (n == N && at == N - 1)) n = at;
        else { path.erase(f); if (n > at) n--; path.insert(path.begin() + n, e.url); }
      } else path.insert(path.begin() + n, e.url);
      if (r != n) violation("path-index", "op %d: inserting returned %d, expected %d", i, r, n);
    } break;
    case L_PDEL: {
      int N = path.size(), n = (int)(o.a[2] % (2 * N + 2)) - N - 1;
      int r = dlite_storage_paths_remove_index(n);
      last_err();
      eval();
      bool ok = n >= -N && n < N;
      if (ok != !r) violation("path-index", "op %d: removing entry %d of %d returned %d", i, n, N, r);
      if (ok) path.erase(path.begin() + (n < 0 ? n + N : n));
    } break;
    case L_HOPEN: {
      Handle &x = h[o.a[2] % NH];
      if (x.s) return;
      Loc &q = loc[l];
      if (q.driver == "hdf5") return;
      bool wr = q.driver == "json" && (o.a[3] & 1);
      if (wr) for (auto &y : h) if (y.s && y.loc == l && y.write) wr = false;
      std::string opt = q.driver == "sim" ? (o.a[3] & 3) ? "mode=r;generic" : "mode=r" : wr ? "mode=a" : "mode=r";
      arm();
      DLiteStorage *s = dlite_storage_open(q.driver.c_str(), q.path.c_str(), opt.c_str());
      disarm();
      std::string e = last_err();
      eval();
      bool good = q.driver == "sim" || (q.exists && !q.damaged) || (wr && !q.exists);
      if (!s && good && !fired) violation("open-failed", "op %d: cannot open %s: %s", i, q.path.c_str(), e.c_str());
      if (!s) break;
      if (!good && q.damaged) { dlite_storage_close(s); last_err(); break; }     // some damage cannot be told
      x.s = s; x.loc = l; x.write = wr; x.hot = q.driver == "json" || (o.a[3] & 3);
      x.c = q.c; if (wr && !q.exists) x.c.clear();
    } break;
    case L_HSAVE: {
      Handle &x = h[o.a[2] % NH];
      if (!x.s || !x.write || x.iters || x.closed || !live[k]) return;
      if (dlite_instance_save(x.s, live[k])) violation("save-failed", "op %d: %s", i, last_err().c_str());
      x.c[k] = ver[k]; x.dirty = true;
    } break;
    case L_HCLOSE: {
      Handle &x = h[o.a[2] % NH];
      if (!x.s || x.closed) return;
      if (dlite_storage_close(x.s)) violation("close-failed", "op %d: %s", i, last_err().c_str());
      if (x.iters) x.closed = true; else really_close(x, i);
    } break;
    case L_IOPEN: {
      Iter &q = it[o.a[1] % NIT]; Handle &x = h[o.a[2] % NH];
      if (q.it || !x.s || x.closed) return;
      std::string p = pat(o.a[3]);
      arm();
      void *r = dlite_storage_iter_create(x.s, p.empty() ? nullptr : p.c_str());
      disarm();
      std::string e = last_err();
      eval();
      if (!r) { if (!fired) violation("iter-failed", "op %d: cannot iterate over %s: %s", i, loc[x.loc].path.c_str(), e.c_str()); break; }
      q.it = r; q.h = o.a[2] % NH; q.pattern = p; q.want = listing(x, p); q.seen.clear(); q.done = q.failed = false;
      x.iters++;
    } break;
    case L_INEXT: {
      Iter &q = it[o.a[1] % NIT];
      if (!q.it) return;
      Handle &x = h[q.h];
      for (u32 n = 0; n <= o.a[3] % 8; n++) {
        if (loc[x.loc].driver == "sim") q.want = listing(x, q.pattern);
        char buf[DLITE_UUID_LENGTH + 1] = "";
        arm();
        int r = dlite_storage_iter_next(x.s, q.it, buf);
        disarm();
        std::string e = last_err();
        eval();
        log_hash(r);
        if (r < 0) { if (!fired && !q.failed) violation("iter-failed", "op %d: %s", i, e.c_str()); q.failed = true; break; }
        if (r == 0) {
          if (!q.want.count(buf)) violation("iter-unexpected", "op %d: iterating %s with pattern '%s' gives %s", i, loc[x.loc].path.c_str(), q.pattern.c_str(), buf);
          if (!q.seen.insert(buf).second) violation("iter-twice", "op %d: iterating %s gives %s twice", i, loc[x.loc].path.c_str(), buf);
          note_state(mix(q.seen.size(), mix(q.want.size(), hash_str(q.pattern))));
        } else {
          if (!fired) for (auto &w : q.want) if (!q.seen.count(w)) violation("iter-missed", "op %d: iterating %s with pattern '%s' does not give %s", i, loc[x.loc].path.c_str(), q.pattern.c_str(), w.c_str());
          break;
        }
      }
    } break;
    case L_IFREE: iter_free(it[o.a[1] % NIT], i); break;
    case L_UUIDS: {
      bool bulk = o.a[4] % 8 == 1;
      Handle tmp, &x = bulk || (o.a[4] % 4 == 0 && loc[LH].exists) ? tmp : h[o.a[2] % NH];
      std::string p = pat(o.a[3]);
      std::set<std::string> bw, got;
      if (bulk) {                                        // a large store, whose size hits the limits of growing lists
        static const int sz[] = {0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 96, 100};
        std::string js = "{";
        for (int n = sz[o.a[2] % 12], j = 0; j < n; j++) {
          const std::string &mu = metas[(j * 7 + o.a[1]) % NM].uri; std::string u = uuid_of("http://sim.org/bulk/" + std::to_string(j));
          js += (j ? ",\n" : "\n"); js += "\"" + u + "\": {\"meta\": \"" + mu + "\", \"dimensions\": {}, \"properties\": {}}";
          if (p.empty() || globmatch(p.c_str(), mu.c_str()) == 0) bw.insert(u);
        }
        std::string f = D + "/bulk" + std::to_string(i) + ".json"; write_file(f, js + "}\n");
        tmp.s = dlite_storage_open("json", f.c_str(), "mode=r");
        unlink(f.c_str());
        if (!tmp.s) violation("open-failed", "op %d: cannot open a json file with %d instances: %s", i, sz[o.a[2] % 12], last_err().c_str());
        tmp.loc = LJ;
      } else if (&x == &tmp) {
        tmp.loc = LH; tmp.c = loc[LH].c;
        if (!(tmp.s = dlite_storage_open("hdf5", loc[LH].path.c_str(), "mode=r"))) violation("open-failed", "op %d: cannot open %s: %s", i, loc[LH].path.c_str(), last_err().c_str());
      }
      if (!x.s || x.closed) return;
      std::set<std::string> want = bulk ? bw : listing(x, p);
      size_t used[3] = {0};
      for (int r = 0; r < (o.f.kind ? 1 : 3); r++) {
        got.clear();
        arm();
        char **u = dlite_storage_uuids(x.s, p.empty() ? nullptr : p.c_str());
        disarm();
        int ev = err_geteval(); std::string e = last_err();
        eval();
        size_t n = 0; for (; u && u[n]; n++) got.insert(u[n]);
        dlite_storage_uuids_free(u);
        if (u || !fired) {
          if (fired && got.size() < want.size()) violation("partial-listing", "op %d: listing %s failed half-way but was reported as complete (%zu of %zu)", i, loc[x.loc].path.c_str(), got.size(), want.size());
          if (n != got.size()) violation("listed-twice", "op %d: %s", i, loc[x.loc].path.c_str());
          if (got != want) violation("listing", "op %d: listing %s with pattern '%s' gives %zu instances, expected %zu %s", i, loc[x.loc].path.c_str(), p.c_str(), got.size(), want.size(), e.c_str());
          if (ev && !fired) violation("success-with-error", "op %d: listing %s reports: %s", i, loc[x.loc].path.c_str(), e.c_str());
        }
        used[r] = __sanitizer_get_current_allocated_bytes();
      }
      if (!o.f.kind && used[2] > used[1] && used[1] > used[0]) violation("memory-leak", "op %d: listing takes %zu more bytes each time", i, used[2] - used[1]);
      if (tmp.s) dlite_storage_close(tmp.s);
    } break;
    case L_DAMAGE: {
      int f = LJ + o.a[1] % 3; if (o.a[2] % 4 == 0) f = LM + o.a[1] % NM;
      Loc &q = loc[f];
      if (!q.exists) return;
      for (auto &x : h) if (x.s && x.loc == f && x.write) return;
      seam_register_fault(o.a[3] % 3 == 0 ? F_FILE_DELETE : o.a[3] % 3 == 1 ? F_FILE_TRUNC : F_BAD_FILE);
      if (o.a[3] % 3 == 0) { unlink(q.path.c_str()); q.exists = q.damaged = false; }
      else if (o.a[3] % 3 == 1) { std::string s = read_file(q.path); size_t e = s.find_last_of('}'); write_file(q.path, s.substr(0, e == std::string::npos ? 0 : e * (o.a[4] % 8) / 8)); q.damaged = true; }
      else { static const char *junk[] = {"", "[]", "null", "{\"a\"", "\x7f" "ELF", "{\"properties\": 3}", "}"}; write_file(q.path, junk[o.a[4] % 7]); q.damaged = true; }
      q.c.clear();
      save_model();
    } break;
    case L_PITER: {                                      // every file on the path
      std::vector<std::string> got; std::set<std::string> must;
      arm();
      DLiteStoragePathIter *q = dlite_storage_paths_iter_start();
      const char *s;
      if (q) while ((s = dlite_storage_paths_iter_next(q))) { got.push_back(s); if (got.size() > 500) break; }
      if (q) dlite_storage_paths_iter_stop(q);
      disarm();
      std::string e = last_err();
      eval();
      if (!q && !fired) violation("path-listing", "op %d: %s", i, e.c_str());
      if (fired) break;
      for (auto &p : path) for (int f : where[p]) if (loc[f].driver == "json" && loc[f].exists && p.compare(0, 7, "json://")) must.insert(loc[f].path);
      for (auto &p : path) if (!p.compare(0, 7, "json://") || !p.compare(0, 6, "sim://")) must.insert(p);
      for (auto &w : must) if (std::find(got.begin(), got.end(), w) == got.end()) violation("path-listing", "op %d: %s is on the storage path but is not listed", i, w.c_str());
    } break;
    case L_RESTART:
      for (auto &x : it) iter_free(x, i);
      for (auto &x : h) if (x.s) { Handle &y = x; if (!y.closed) dlite_storage_close(y.s); really_close(y, i); }
      save_model();
      seam_register_fault(F_RESTART);
      shm->next_op = i + 1; _exit(76);
    }
    check_path(i);
    check_alive(i, what);
  }
  std::set<int> expect_or(int k, const std::set<int> &w) { (void)w; return live[k] ? std::set<int>{ver[k]} : expect(k); }
  void finish() {
    for (auto &x : it) iter_free(x, t.size());
    for (auto &x : h) if (x.s && !x.closed) { if (dlite_storage_close(x.s)) violation("close-failed", "at the end: %s", last_err().c_str()); really_close(x, t.size()); }
    for (int k = 0; k < NI; k++) while (live[k]) drop(k, t.size());
    for (auto &m : meta) if (m) { dlite_meta_decref(m); m = nullptr; }
    check_alive(t.size(), "release");
    for (int j = 0; j < 2; j++) { SimStore &s = sim_store(loc[j].path); eval(); if (s.opens != s.closes) violation("storage-leaked", "%s was opened %d times and closed %d times", s.location.c_str(), s.opens, s.closes); }
    DLiteStorageHotlistIter hi; dlite_storage_hotlist_iter_init(&hi);
    if (dlite_storage_hotlist_iter_next(&hi)) violation("storage-leaked", "a closed storage is still in the hotlist");
  }
};

void run9(const Trace &t, u32 start, u32 inc) {
  seam_random_mode(0, mix(ctx.seed, inc));
  err_set_stream(nullptr);
  std::string D = ctx.dir + "/d";
  std::vector<std::string> env;
  Rng r(mix(ctx.seed, 0xe4f + inc));
  W9 x(t, ctx.seed, inc);
  std::string v;
  for (int n = r.below(4); n > 0; n--) { std::string u = x.cat[r.below(x.cat.size())].url; if (std::find(env.begin(), env.end(), u) == env.end()) { v += (v.empty() ? "" : "|") + u; env.push_back(u); } }
  setenv("DLITE_STORAGES", v.c_str(), 1);
  dlite_init();
  const char **p = dlite_storage_paths_get();
  for (int n = 0; p && p[n]; n++) x.path.push_back(p[n]);
  eval();
  for (size_t n = 0; n < env.size(); n++) if (n >= x.path.size() || x.path[n] != env[n]) violation("initial-path", "DLITE_STORAGES=%s, but entry %zu of the storage path is %s", v.c_str(), n, n < x.path.size() ? x.path[n].c_str() : "(none)");
  while (x.path.size() > env.size()) { dlite_storage_paths_remove_index(-1); x.path.pop_back(); }   // what is installed
  sim_plugin_setup();
  // first use of the drivers under failures is not the subject here
  for (const char *d : {"sim", "json", "hdf5"}) dlite_storage_plugin_get(d);
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  last_err();
  for (u32 i = start; i < t.size(); i++) {
    shm->opidx = i; shm->nops++;
    say("op %u: %s %u %u %u %u %u fault %u/%u/%u", i, opname9(t[i].kind), t[i].a[0], t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].f.kind, t[i].f.nth, t[i].f.arg);
    x.op(i);
    seam_disarm(); sim_disarm();
  }
  x.finish();
}

bool loc_is_hdf5(u32 a) { return a % (LH + 1) == LH; }
Trace gen9(Rng &r, u64) {
  Trace t; int n = r.range(12, 70);
  static const u32 w[] = {L_STORE, L_STORE, L_STORE, L_STORE, L_STOREMETA, L_STOREMETA, L_GET, L_GET, L_GET, L_GET, L_GET, L_GET, L_HAS, L_HAS, L_MISSING, L_META, L_META, L_URL, L_URL, L_DROP, L_DROP, L_DROP, L_DROP, L_DROP,
    L_DROPMETA, L_DROPMETA, L_DROPMETA, L_PADD, L_PADD, L_PINS, L_PINS, L_PDEL, L_HOPEN, L_HOPEN, L_HOPEN, L_HCLOSE, L_HCLOSE, L_HSAVE, L_IOPEN, L_IOPEN, L_INEXT, L_INEXT, L_INEXT, L_INEXT, L_IFREE, L_UUIDS, L_UUIDS, L_DAMAGE, L_PITER, L_FORGET};
  bool faults = r.chance(3, 5), restarts = r.chance(2, 3), junk = r.chance(2, 3); int pro = r.range(4, 14);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = i < 2 ? (u32)L_PADD : i < 4 ? (u32)L_STOREMETA : i < 8 ? (i & 1 ? L_STORE : L_PADD) : w[r.below(sizeof w / sizeof *w)];
    if (restarts && (i == pro || r.chance(1, 16))) o.kind = L_RESTART;
    if (restarts && i >= 2 && i < pro) o.kind = i & 1 ? L_STORE : L_STOREMETA;
    for (auto &a : o.a) a = r.below(1 << 12);
    if ((o.kind == L_PADD || o.kind == L_PINS) && (i == 0 || !junk || r.chance(1, 2))) o.a[1] = i == 0 ? 0 : r.below(11);
    if (faults && r.chance(1, 2)) switch (o.kind) {
    case L_GET: case L_META: case L_HAS: case L_URL: case L_MISSING: {
      static const u32 fk[] = {F_PLUGIN_FAIL, F_PLUGIN_FAIL, F_OPEN_FAIL, F_READ_EIO, F_SHORT_READ, F_OPENDIR_FAIL, F_READDIR_SHUFFLE, F_MALLOC_FAIL, F_MALLOC_FAIL};
      o.f.kind = fk[r.below(9)];
      if (o.kind == L_URL && loc_is_hdf5(o.a[1]) && o.f.kind != F_PLUGIN_FAIL) o.f.kind = F_NONE;
      o.f.nth = o.f.kind == F_MALLOC_FAIL ? r.range(1, r.chance(1, 2) ? 40 : 400) : r.chance(1, 2) ? 1 : r.range(1, 5); o.f.arg = r.below(1 << 10) & (o.f.kind == F_MALLOC_FAIL ? ~1u : o.f.kind == F_PLUGIN_FAIL ? r.chance(1, 3) ? ~1u : ~3u : ~0u);
    } break;
    case L_IOPEN: case L_INEXT: case L_UUIDS: o.f.kind = r.chance(1, 2) ? F_PLUGIN_FAIL : F_MALLOC_FAIL; o.f.nth = r.range(1, 5); o.f.arg = 0; break;
    case L_HOPEN: { static const u32 fk[] = {F_PLUGIN_FAIL, F_OPEN_FAIL, F_READ_EIO, F_SHORT_READ, F_MALLOC_FAIL}; o.f.kind = fk[r.below(5)]; o.f.nth = o.f.kind == F_MALLOC_FAIL ? r.range(1, 60) : 1; o.f.arg = r.below(512) & ~3u; } break;
    case L_PADD: case L_PINS: case L_PITER: o.f.kind = o.kind == L_PITER && r.chance(1, 2) ? F_READDIR_SHUFFLE : F_MALLOC_FAIL; o.f.nth = r.range(1, 8); break;
    }
    t.push_back(o);
  }
  return t;
}
Register r9({"S09", 4000, 100000, 0, gen9, run9, opname9,
  "distinct lookups and listings: (instance, number of places that hold it, length of the path, kind of request) and progress of iterations",
  "libdlite (instance lookup, storages, hotlist, storage path), fileutils, globmatch, json and hdf5 storage plugins", "one storage driver (simulated, durable), kernel file and directory calls, allocation failures, entropy"});
}  // namespace
