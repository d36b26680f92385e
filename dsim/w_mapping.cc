// Mapping world (S10): instances of different metadata, mappings between them that are
// loaded from plugins, and every way to ask for an instance of other metadata.
#include "model.h"
#include <sys/stat.h>
extern "C" {
#include "dlite-mapping.h"
#include "dlite-mapping-plugins.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { A_NEW, A_DROP, A_MAP, A_CAST, A_COLL, A_MEMLOAD, A_LOAD, A_TREE, A_APPLY, A_FREETREE, A_ENABLE, A_RELOAD, A_UNLOAD, A_GET, A_LIST, A_DUP, A_PATH, A_NK };
const char *names10[] = {"new", "drop", "map", "get_casted", "coll_get", "memload", "load", "create_tree", "apply_tree", "free_tree", "install", "reload", "unload", "plugin_get", "list", "duplicate_inputs", "path"};
const char *opname10(u32 k) { return k < A_NK ? names10[k] : "?"; }
enum { NM = 7, NMAP = 12, NFILE = 2, MAXOBJ = 10, NTREE = 3 };
enum Mode { GOOD, FAILS, FAILS_SILENT, WRONG, MISSING_OUT };

struct Map { std::string name; int file, out, cost; std::vector<int> in; int mode; bool enabled0; };
struct Obj { DLiteInstance *p; int meta; long v; };
struct Call { int k; std::vector<DLiteInstance *> in; std::vector<int> im; DLiteInstance *out; std::string uuid; int meta; };

struct Mapping;
Mapping *W;
std::string uri_of(int m) { return "http://sim.org/0." + std::to_string(m) + "/T" + std::to_string(m); }
const char *uris[NM];

struct Mapping {
  const Trace &t; u64 seed;
  Map M[NMAP];
  DLiteMeta *meta[NM] = {nullptr};
  bool enabled[NMAP], reg[NMAP], changed = true;
  bool dup = false; std::vector<int> path;
  std::vector<Obj> objs;
  DLiteCollection *coll = nullptr;
  struct Tree { DLiteMapping *m = nullptr; std::set<int> in; int out; } trees[NTREE];
  // what the mappers did in the current operation
  std::vector<Call> calls; bool bad = false; int nth = 0, ncalls = 0;
  std::vector<DLiteMappingPlugin *> apis;
  int touched = 0;

  Mapping(u64 s, const Trace &t_) : t(t_), seed(s) {
    Rng r(mix(seed, 0x10));
    int style = r.below(4), nm = style == 0 ? 3 : r.range(4, NM);
    for (int k = 0; k < NMAP; k++) {
      Map &m = M[k];
      m.name = "map" + std::to_string(k); m.file = r.below(NFILE);
      m.out = r.below(nm);
      int n = style == 1 ? 1 : r.below(8); n = n == 0 ? 0 : n < 4 ? 1 : n < 7 ? 2 : 3;
      if (n == 0 && r.chance(2, 3)) n = 1;
      for (int j = 0; j < n; j++) m.in.push_back(r.below(nm));
      if (style == 2) { m.out = k % nm; for (auto &x : m.in) x = r.below(m.out + 1); }       // mostly acyclic
      m.cost = r.chance(1, 4) ? r.below(3) : r.range(1, 30);
      m.mode = r.chance(1, 12) ? r.range(1, 3) : GOOD;
      m.enabled0 = r.chance(3, 4);
    }
  }
  std::string dir(int f) { return ctx.dir + "/d/mp" + std::to_string(f); }
  int index(const char *name) { for (int k = 0; k < NMAP; k++) if (M[k].name == name) return k; return -1; }
  int metaof(const DLiteInstance *p) { for (int m = 0; m < NM; m++) if (p->meta == meta[m]) return m; return -1; }
  static long value(const DLiteInstance *p) { return *(long *)dlite_instance_get_property_by_index(p, 0); }

  // ---- the reference model ---------------------------------------------------
  // cheapest cost of every metadata, given what is available; -1 if there is none
  std::vector<long> best(const std::set<int> &in) {
    std::vector<long> c(NM, -1);
    for (int m : in) c[m] = 0;
    for (int round = 0; round < NM + 2; round++)
      for (int k = 0; k < NMAP; k++) if (reg[k] && !in.count(M[k].out)) {
        long s = M[k].cost; bool ok = true;
        for (int j : M[k].in) { if (c[j] < 0) ok = false; else s += c[j]; }
        if (ok && (c[M[k].out] < 0 || s < c[M[k].out])) c[M[k].out] = s;
      }
    return c;
  }
  long derived(long k, const std::vector<long> &v) { u64 h = mix(seed, k); for (long x : v) h = mix(h, (u64)x); return (long)(h >> 1); }

  // what happened inside the mappers must be the cheapest way from the given instances to `out`
  void check_calls(int i, const char *what, const std::vector<DLiteInstance *> &given, int out, DLiteInstance *res, long want) {
    std::map<DLiteInstance *, long> cost; std::map<DLiteInstance *, int> used;
    std::set<int> made;
    for (auto *g : given) { cost[g] = 0; made.insert(metaof(g)); }
    for (auto &c : calls) {
      const Map &m = M[c.k];
      eval();
      if (c.in.size() != m.in.size()) violation("mapper-inputs", "op %d (%s): %s was called with %zu instances instead of %zu", i, what, m.name.c_str(), c.in.size(), m.in.size());
      long s = m.cost;
      for (size_t j = 0; j < c.in.size(); j++) {
        if (!cost.count(c.in[j])) violation("mapper-inputs", "op %d (%s): input %zu of %s is neither given nor created by a mapping", i, what, j, m.name.c_str());
        if (c.im[j] != m.in[j]) violation("mapper-inputs", "op %d (%s): input %zu of %s has metadata T%d instead of T%d", i, what, j, m.name.c_str(), c.im[j], m.in[j]);
        s += cost[c.in[j]]; used[c.in[j]]++;
      }
      if (!c.out) continue;
      if (!made.insert(m.out).second) violation("mapped-twice", "op %d (%s): an instance of T%d was created although there was one already", i, what, m.out);
      cost[c.out] = s;
    }
    if (res) {
      if (!cost.count(res)) violation("wrong-result", "op %d (%s): the result was not created by any mapping", i, what);
      if (want >= 0 && cost[res] != want) violation("not-cheapest", "op %d (%s): T%d was created at a cost of %ld, but %ld is possible", i, what, out, cost[res], want);
      for (auto &c : calls) if (c.out && c.out != res && !used[c.out]) violation("needless-mapping", "op %d (%s): %s was called for nothing", i, what, M[c.k].name.c_str());
    }
  }
  // only the result may be alive
  void check_alive(int i, const char *what, DLiteInstance *res) {
    for (auto &c : calls) if (!c.uuid.empty()) {
      eval();
      DLiteInstance *p = dlite_instance_has(c.uuid.c_str(), false);
      if (p && p != res) violation("instance-not-released", "op %d (%s): an intermediate instance created by %s is still alive with %d references", i, what, M[c.k].name.c_str(), p->_refcount);
    }
    last_err();
  }
  void check(int i, const char *what) {
    int use[NM] = {0};
    for (auto &o : objs) {
      eval();
      int refs = 1;
      if (o.p->_refcount != refs) violation("refcount", "op %d (%s): an instance of T%d has %d references, expected %d", i, what, o.meta, o.p->_refcount, refs);
      if (value(o.p) != o.v) violation("value-changed", "op %d (%s): the value of an instance of T%d changed", i, what, o.meta);
      use[o.meta]++;
    }
    for (int m = 0; m < NM; m++) if (meta[m]->_refcount != 2 + use[m]) violation("meta-refcount", "op %d (%s): T%d has %d references, expected %d", i, what, m, meta[m]->_refcount, 2 + use[m]);
  }
  // the outcome of mapping `given` to `out`; takes over the result
  void judge(int i, const char *what, const std::vector<DLiteInstance *> &given, int out, DLiteInstance *res, bool fired, bool keep = true) {
    std::string e = last_err();
    std::set<int> in; for (auto *g : given) in.insert(metaof(g));
    long want = best(in)[out];
    eval();
    log_hash(res != nullptr); log_hash(calls.size());
    check_alive(i, what, res);
    if (!res) {
      check_calls(i, what, given, out, nullptr, -1);
      if (want >= 0 && !fired && !bad) violation("not-mapped", "op %d (%s): T%d can be created at a cost of %ld, but: %s", i, what, out, want, e.c_str());
      if (e.empty()) violation("silent-failure", "op %d (%s): mapping failed without an error", i, what);
      return;
    }
    if (want < 0) violation("mapped-from-nothing", "op %d (%s): an instance of T%d was created although no mapping leads to it", i, what, out);
    if (bad) violation("failed-mapper-ignored", "op %d (%s): the mapping succeeded although a mapper failed", i, what);
    if (metaof(res) != out) violation("wrong-result", "op %d (%s): the result has metadata T%d instead of T%d", i, what, metaof(res), out);
    check_calls(i, what, given, out, res, want);
    if (in.count(out)) {
      for (auto *g : given) if (metaof(g) == out && g != res) violation("wrong-result", "op %d (%s): the given instance of T%d was not returned", i, what, out);
      if (keep) { int r = dlite_instance_decref(res); if (r != 1) violation("refcount", "op %d (%s): a given instance has %d references after releasing the result, expected 1", i, what, r); }
      return;
    }
    if (res->_refcount != 1) violation("refcount", "op %d (%s): the result has %d references, expected 1", i, what, res->_refcount);
    note_state(mix(mix(calls.size(), want), in.size() * 64 + out));
    if (objs.size() < MAXOBJ && t[i].a[5] % 3 == 0) { objs.push_back(Obj{res, out, value(res)}); return; }
    if (dlite_instance_decref(res)) violation("refcount", "op %d (%s): the result is alive after releasing it", i, what);
  }
  // some of the instances, of different metadata
  std::vector<DLiteInstance *> choose(u32 a, int max) {
    std::vector<DLiteInstance *> g; std::set<int> in;
    Rng r(a);
    int n = r.range(0, max);
    if (n == 0 && r.chance(3, 4)) n = 1;
    for (int k = 0; k < n * 3 && (int)g.size() < n && !objs.empty(); k++) { Obj &o = objs[r.below(objs.size())]; if (in.insert(o.meta).second) g.push_back(o.p); }
    return g;
  }
  void touch() {
    auto f = [&](int d, int n) { return dir(d) + "/touch" + std::to_string(n % 1000) + ".txt"; };
    seam_pause(true); for (int d = 0; d < NFILE; d++) { unlink(f(d, touched + 999).c_str()); write_file(f(d, touched), "x"); } seam_pause(false);
    touched++; changed = true;
  }
  // is mapping k provided by a plugin file in a directory on the search path?
  bool avail(int k) {
    if (!enabled[k]) return false;
    for (int d : path) if (d == M[k].file || (dup && d == 0)) return true;
    return false;
  }
  void loaded() { if (changed) { for (int k = 0; k < NMAP; k++) if (avail(k)) reg[k] = true; changed = false; } }
  void set_path(std::vector<int> v) {
    while (dlite_mapping_plugin_paths() && dlite_mapping_plugin_paths()[0]) dlite_mapping_plugin_path_remove_index(0);
    for (int d : v) dlite_mapping_plugin_path_append(dir(d).c_str());
    path = v;
  }
  void check_path(int i) {
    const char **p = dlite_mapping_plugin_paths();
    std::string have, want;
    for (; p && *p; p++) have += std::string(*p) + " ";
    for (int d : path) want += dir(d) + " ";
    eval();
    if (have != want) violation("path", "op %d: the search path is %s instead of %s", i, have.c_str(), want.c_str());
  }
  std::set<std::string> listed() {
    std::set<std::string> s; DLiteMappingPluginIter it; const DLiteMappingPlugin *api;
    if (dlite_mapping_plugin_init_iter(&it)) violation("list-failed", "%s", last_err().c_str());
    while ((api = dlite_mapping_plugin_next(&it))) if (!s.insert(api->name).second) violation("listed-twice", "mapping %s is listed twice", api->name);
    last_err();
    return s;
  }
  void check_list(int i, const char *what) {
    loaded();
    auto s = listed();
    eval();
    for (int k = 0; k < NMAP; k++) if (reg[k] != !!s.count(M[k].name)) violation(reg[k] ? "plugin-not-loaded" : "plugin-unexpected", "op %d (%s): mapping %s is %s", i, what, M[k].name.c_str(), reg[k] ? "installed but not found" : "found although it was unloaded or is not installed");
  }
  // ---- trees -----------------------------------------------------------------
  long tree_cost(int i, const DLiteMapping *m, const std::set<int> &in, std::string &s, int depth) {
    eval();
    auto line = [&](const char *u, int d) { for (int j = 0; j < d - 1; j++) s += "|   "; if (d) s += "+-- "; s += u; s += "\n"; };
    line(m->output_uri, depth);
    if (!m->name) return 0;
    int k = index(m->name);
    if (k < 0 || !reg[k] || m->api->mapper == nullptr || std::string(m->api->name) != m->name) violation("tree-wrong", "op %d: the mapping contains unknown plugin %s", i, m->name);
    if (uri_of(M[k].out) != m->output_uri || m->ninput != (int)M[k].in.size()) violation("tree-wrong", "op %d: %s has output %s and %d inputs", i, m->name, m->output_uri, m->ninput);
    long c = M[k].cost;
    for (int j = 0; j < m->ninput; j++) {
      if (!!m->input_maps[j] == !!m->input_uris[j]) violation("tree-wrong", "op %d: input %d of %s is not well defined", i, j, m->name);
      std::string u = m->input_maps[j] ? m->input_maps[j]->output_uri : m->input_uris[j];
      if (u != uri_of(M[k].in[j])) violation("tree-wrong", "op %d: input %d of %s is %s", i, j, m->name, u.c_str());
      if (!!m->input_uris[j] != !!in.count(M[k].in[j])) violation("tree-wrong", "op %d: input %d of %s should %sbe a given instance", i, j, m->name, m->input_uris[j] ? "not " : "");
      if (m->input_maps[j]) c += tree_cost(i, m->input_maps[j], in, s, depth + 1); else line(m->input_uris[j], depth + 1);
    }
    if (c != m->cost) violation("tree-wrong", "op %d: the cost of %s is given as %d, but is %ld", i, m->name, m->cost, c);
    return c;
  }
  bool available(const DLiteMapping *m, const std::set<int> &have) {
    for (int k : have) if (uri_of(k) == m->output_uri) return true;
    if (!m->name) return false;
    for (int j = 0; j < m->ninput; j++) {
      if (m->input_maps[j]) { if (!available(m->input_maps[j], have)) return false; }
      else { bool ok = false; for (int k : have) if (uri_of(k) == m->input_uris[j]) ok = true; if (!ok) return false; }
    }
    return true;
  }
  void free_tree(Tree &x) { if (x.m) dlite_mapping_free(x.m); x.m = nullptr; }
  static bool uses(const DLiteMapping *m, const char *name) {
    if (m->name && !strcmp(m->name, name)) return true;
    for (int j = 0; j < m->ninput; j++) if (m->input_maps[j] && uses(m->input_maps[j], name)) return true;
    return false;
  }
  // text of an instance of metadata m that is not in memory
  std::string text(int m, long v, std::string &uuid) {
    DLiteInstance *p = make(m, v);
    uuid = p->uuid;
    char *s = dlite_json_aprint(p, 0, (DLiteJsonFlag)dliteJsonWithUuid);
    std::string r = s ? s : ""; free(s);
    dlite_instance_decref(p);
    return r;
  }
  DLiteInstance *make(int m, long v) {
    DLiteInstance *p = dlite_instance_create(meta[m], nullptr, nullptr);
    if (!p) violation("setup", "%s", last_err().c_str());
    *(long *)dlite_instance_get_property_by_index(p, 0) = v;
    return p;
  }

  void op(int i) {
    const Op &o = t[i];
    const char *what = names10[o.kind];
    calls.clear(); bad = false; nth = o.f.kind == F_PLUGIN_FAIL ? o.f.nth : 0; ncalls = 0;
    bool fired = false;
    Fault f = o.f; if (f.kind == F_PLUGIN_FAIL) f = Fault();
    int out = o.a[0] % NM;
    // a fault may make DLite read the directories again: let that make no difference
    if (f.kind && o.kind != A_RELOAD) { touch(); loaded(); listed(); }
    switch (o.kind) {
    case A_NEW: if (objs.size() < MAXOBJ) { long v = o.a[1] * 77 + i; objs.push_back(Obj{make(out, v), out, v}); } break;
    case A_DROP: if (!objs.empty()) { int k = o.a[1] % objs.size(); if (dlite_instance_decref(objs[k].p)) violation("refcount", "op %d: an instance is alive after releasing it", i); objs.erase(objs.begin() + k); } break;
    case A_MAP: {
      auto g = choose(o.a[1], 4);
      loaded(); listed();
      seam_arm(f);
      DLiteInstance *res = dlite_mapping(uris[out], (const DLiteInstance **)g.data(), g.size());
      fired = seam_disarm();
      judge(i, what, g, out, res, fired);
    } break;
    case A_CAST: {
      auto g = choose(o.a[1] * 2 + 1, 1);
      if (g.empty()) break;
      g.resize(1);
      loaded(); listed();
      std::string id = g[0]->uuid;
      seam_arm(f);
      DLiteInstance *res = dlite_instance_get_casted(id.c_str(), uris[out]);
      fired = seam_disarm();
      judge(i, what, g, out, res, fired);
    } break;
    case A_COLL: {
      auto g = choose(o.a[1] * 2 + 1, 1);
      if (g.empty()) break;
      g.resize(1);
      loaded(); listed();
      dlite_collection_add(coll, "x", g[0]);
      seam_arm(f);
      DLiteInstance *res = dlite_collection_get_new(coll, "x", uris[out]);
      fired = seam_disarm();
      int rc = g[0]->_refcount, expect = 2 + (res == g[0]);
      if (rc != expect) violation("refcount", "op %d (%s): the instance in the collection has %d references, expected %d", i, what, rc, expect);
      if (dlite_collection_remove(coll, "x")) violation("setup", "op %d: %s", i, last_err().c_str());
      judge(i, what, g, out, res, fired);
    } break;
    case A_MEMLOAD: case A_LOAD: {
      int m = o.a[1] % NM; long v = o.a[2] + 5; std::string uuid, s = text(m, v, uuid);
      std::string file = ctx.dir + "/d/in.json"; DLiteStorage *st = nullptr;
      loaded(); listed();
      if (o.kind == A_LOAD) {
        write_file(file, s);
        if (!(st = dlite_storage_open("json", file.c_str(), "mode=r"))) violation("setup", "%s", last_err().c_str());
      }
      seam_arm(f);
      DLiteInstance *res = st ? dlite_instance_load_casted(st, uuid.c_str(), uris[out]) : dlite_instance_memload("json", (const unsigned char *)s.data(), s.size(), uuid.c_str(), nullptr, uris[out]);
      fired = seam_disarm();
      std::string e = last_err();
      if (st) dlite_storage_close(st);
      eval();
      // the loaded instance itself lives only as long as it is the result
      DLiteInstance *src = dlite_instance_has(uuid.c_str(), false);
      last_err();
      bool same = m == out;
      if (src && !(same && src == res)) violation("instance-not-released", "op %d (%s): the loaded instance of T%d is still alive with %d references after it was mapped to T%d", i, what, m, src->_refcount, out);
      std::set<int> in = {m};
      long want = best(in)[out];
      check_alive(i, what, res);
      if (!res) {
        if (want >= 0 && !fired && !bad) violation("not-mapped", "op %d (%s): T%d can be created from T%d, but: %s", i, what, out, m, e.c_str());
        if (e.empty()) violation("silent-failure", "op %d (%s): mapping failed without an error", i, what);
        break;
      }
      if (want < 0) violation("mapped-from-nothing", "op %d (%s): an instance of T%d was created although no mapping leads to it", i, what, out);
      if (metaof(res) != out) violation("wrong-result", "op %d (%s): the result has metadata T%d instead of T%d", i, what, metaof(res), out);
      if (same && value(res) != v) violation("wrong-result", "op %d (%s): the loaded value differs", i, what);
      if (res->_refcount != 1) violation("refcount", "op %d (%s): the result has %d references, expected 1", i, what, res->_refcount);
      long c = 0; std::set<int> made; (void)c; (void)made;
      if (dlite_instance_decref(res)) violation("refcount", "op %d (%s): the result is alive after releasing it", i, what);
    } break;
    case A_DUP: {
      if (objs.empty()) break;
      Obj &a = objs[o.a[1] % objs.size()]; std::vector<DLiteInstance *> g = {a.p};
      for (auto &b : objs) if (b.meta != a.meta && g.size() < 3) g.push_back(b.p);
      DLiteInstance *other = nullptr;
      for (auto &b : objs) if (b.meta == a.meta && b.p != a.p) other = b.p;
      g.push_back(other ? other : a.p);
      loaded(); listed();
      DLiteInstance *res = dlite_mapping(uris[out], (const DLiteInstance **)g.data(), g.size());
      std::string e = last_err();
      eval();
      if (res) violation("duplicate-accepted", "op %d: two inputs of the same metadata were accepted", i);
      if (e.empty()) violation("silent-failure", "op %d (%s): mapping failed without an error", i, what);
      if (!calls.empty()) violation("needless-mapping", "op %d (%s): a mapper was called", i, what);
      const char *u[2] = {uris[a.meta], uris[a.meta]};
      DLiteMapping *m = dlite_mapping_create(uris[out], u, 2);
      e = last_err();
      if (m || e.empty()) violation("duplicate-accepted", "op %d: two inputs of the same metadata were accepted", i);
    } break;
    case A_TREE: {
      Tree &x = trees[o.a[4] % NTREE];
      free_tree(x);
      x.out = out; x.in.clear();
      Rng r(o.a[1]); int n = r.range(0, 3); if (n == 0 && r.chance(3, 4)) n = 1;
      for (int k = 0; k < n; k++) x.in.insert(r.below(NM));
      std::vector<const char *> u; for (int k : x.in) u.push_back(uris[k]);
      loaded(); listed();
      seam_arm(f);
      x.m = dlite_mapping_create(uris[out], u.data(), u.size());
      fired = seam_disarm();
      std::string e = last_err();
      long want = best(x.in)[out];
      eval();
      if (!x.m) {
        if (want >= 0 && !fired) violation("not-mapped", "op %d (%s): T%d can be created at a cost of %ld, but: %s", i, what, out, want, e.c_str());
        if (e.empty()) violation("silent-failure", "op %d (%s): failed without an error", i, what);
        break;
      }
      if (want < 0) violation("mapped-from-nothing", "op %d (%s): a mapping to T%d was created although no mapping leads to it", i, what, out);
      if (!x.m->name != !!x.in.count(out) || uri_of(out) != x.m->output_uri) violation("tree-wrong", "op %d: wrong mapping to T%d", i, out);
      std::string s;
      long c = tree_cost(i, x.m, x.in, s, 0);
      if (c != want) violation("not-cheapest", "op %d (%s): the mapping to T%d has cost %ld, but %ld is possible", i, what, out, c, want);
      char *str = dlite_mapping_string(x.m);
      if (!str || s != str) violation("tree-string", "op %d: the mapping is shown as\n%s instead of\n%s", i, str ? str : "(null)", s.c_str());
      free(str);
    } break;
    case A_APPLY: {
      Tree &x = trees[o.a[4] % NTREE];
      if (!x.m) break;
      std::vector<DLiteInstance *> g; std::set<int> have;
      for (auto &b : objs) if ((x.in.count(b.meta) ? o.a[2] % 5 || b.meta % 2 : o.a[1] >> b.meta & 1) && have.insert(b.meta).second) g.push_back(b.p);
      bool can = available(x.m, have);
      seam_arm(f);
      DLiteInstance *res = dlite_mapping_map(x.m, (const DLiteInstance **)g.data(), g.size());
      fired = seam_disarm();
      std::string e = last_err();
      eval();
      check_alive(i, what, res);
      check_calls(i, what, g, x.out, res, -1);
      if (!res) {
        if (can && !fired && !bad) violation("not-mapped", "op %d (%s): applying the mapping to T%d failed: %s", i, what, x.out, e.c_str());
        if (e.empty()) violation("silent-failure", "op %d (%s): mapping failed without an error", i, what);
        break;
      }
      if (!can) violation("mapped-from-nothing", "op %d (%s): an instance of T%d was created although an input is missing", i, what, x.out);
      if (metaof(res) != x.out) violation("wrong-result", "op %d (%s): the result has metadata T%d instead of T%d", i, what, metaof(res), x.out);
      int rc = have.count(x.out) ? 2 : 1;
      if (res->_refcount != rc) violation("refcount", "op %d (%s): the result has %d references, expected %d", i, what, res->_refcount, rc);
      dlite_instance_decref(res);
    } break;
    case A_FREETREE: free_tree(trees[o.a[4] % NTREE]); break;
    case A_ENABLE: { int k = o.a[1] % NMAP; enabled[k] = !enabled[k]; if (o.a[2] & 1) touch(); } break;
    case A_RELOAD:
      touch(); seam_arm(f); { DLiteMappingPluginIter it; dlite_mapping_plugin_init_iter(&it); } fired = seam_disarm(); last_err();
      if (fired) {                               // whatever was loaded is fine; a later change of the directories loads the rest
        loaded(); auto s = listed();
        for (int k = 0; k < NMAP; k++) { if (s.count(M[k].name) && !reg[k]) violation("plugin-unexpected", "op %d: mapping %s is found although it is not installed", i, M[k].name.c_str()); reg[k] = s.count(M[k].name); }
        touch();
      }
      check_list(i, what);
      break;
    case A_UNLOAD: {
      int k = o.a[1] % NMAP;
      loaded(); listed();
      for (auto &x : trees) if (x.m && uses(x.m, M[k].name.c_str())) free_tree(x);
      int st = dlite_mapping_plugin_unload(M[k].name.c_str());
      std::string e = last_err();
      eval();
      if (!st != reg[k]) violation("unload", "op %d: unloading %s, which is %sloaded, %s %s", i, M[k].name.c_str(), reg[k] ? "" : "not ", st ? "failed" : "succeeded", e.c_str());
      reg[k] = false;
      check_list(i, what);
    } break;
    case A_GET: {
      int k = o.a[1] % NMAP;
      bool was = reg[k];
      const DLiteMappingPlugin *api = dlite_mapping_plugin_get(M[k].name.c_str());
      last_err(); eval();
      if (!api && (was || avail(k))) violation("plugin-not-loaded", "op %d: mapping plugin %s is not found", i, M[k].name.c_str());
      if (api && !was && !avail(k)) violation("plugin-unexpected", "op %d: mapping plugin %s is found", i, M[k].name.c_str());
      if (api && (M[k].name != api->name || uri_of(M[k].out) != api->output_uri || api->cost != M[k].cost)) violation("wrong-plugin", "op %d: asking for %s gives %s", i, M[k].name.c_str(), api->name);
      if (api) reg[k] = true;
      check_list(i, what);
    } break;
    case A_LIST: check_list(i, what); break;
    case A_PATH: {
      int d = o.a[1] % NFILE, pos = o.a[3] % 2; auto p = std::find(path.begin(), path.end(), d); int st;
      loaded(); listed();
      if (p != path.end() && path.size() > 1 && o.a[2] % 4 == 0) {      // listed already: inserting it again moves it or leaves it where it is
        d = path.back(); path.pop_back(); path.insert(path.begin(), d);
        st = fu_paths_remove(dlite_mapping_plugin_paths_get(), dir(d).c_str()) || dlite_mapping_plugin_path_insert(0, dir(d).c_str());
      } else if (p != path.end()) {
        int n = p - path.begin(), size = path.size(); path.erase(p);
        st = o.a[2] & 1 ? fu_paths_remove(dlite_mapping_plugin_paths_get(), dir(d).c_str()) : dlite_mapping_plugin_path_remove_index(o.a[2] & 2 ? n : n - size);
      } else if (o.a[2] & 1) {
        pos = std::min(pos, (int)path.size()); path.insert(path.begin() + pos, d);
        st = dlite_mapping_plugin_path_insert(pos, dir(d).c_str());
      } else {
        path.push_back(d);
        std::string s = dir(d);
        st = o.a[2] & 2 ? dlite_mapping_plugin_path_append(s.c_str()) : dlite_mapping_plugin_path_appendn((s + "xyz").c_str(), s.size());
      }
      if (st < 0) violation("path", "op %d: changing the search path failed: %s", i, last_err().c_str());
      changed = true;
      check_path(i); check_list(i, what);
    } break;
    }
    calls.clear();
    if (f.kind && o.kind != A_RELOAD) touch();
    if (f.kind) check_list(i, what);
    check(i, what);
    last_err();
  }
  void setup() {
    set_path({0, 1});
    for (int m = 0; m < NM; m++) if (!meta[m]) {
      static DLiteProperty p; memset(&p, 0, sizeof p); p.name = (char *)"v"; p.type = dliteInt; p.size = 8;
      if (!(meta[m] = dlite_meta_create(uris[m], nullptr, 0, nullptr, 1, &p))) violation("setup", "%s", last_err().c_str());
    }
    for (int k = 0; k < NMAP; k++) { enabled[k] = M[k].enabled0; reg[k] = false; }
    touch();
    coll = dlite_collection_create(nullptr);
    check_list(-1, "start");
  }
  void release() {
    for (auto &x : trees) free_tree(x);
    for (auto &b : objs) if (dlite_instance_decref(b.p)) violation("refcount", "an instance is alive after releasing it");
    std::vector<Obj>().swap(objs); std::vector<Call>().swap(calls);
    dlite_collection_decref(coll);
    bool any = false; for (bool b : reg) any |= b;
    int st = dlite_mapping_plugin_unload(nullptr);
    std::string e = last_err();
    eval();
    if (st) violation("unload", "unloading all mappings failed: %s", e.c_str());
    for (int k = 0; k < NMAP; k++) enabled[k] = reg[k] = false;
    touch();
    check_list(-1, "end"); check_path(-1);
    check(-1, "end");
    if (!apis.empty()) violation("plugin-not-released", "%zu plugins are not released after unloading all, e.g. %s", apis.size(), apis[0]->name);
    std::vector<DLiteMappingPlugin *>().swap(apis);
  }
};

void run10(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  err_set_stream(nullptr);
  static std::string us[NM];
  for (int m = 0; m < NM; m++) { us[m] = uri_of(m); uris[m] = us[m].c_str(); }
  Mapping s(ctx.seed, t); W = &s;
  seam_pause(true);
  mkdir((ctx.dir + "/d").c_str(), 0755);
  for (int f = 0; f < NFILE; f++) {
    mkdir(s.dir(f).c_str(), 0755);
    if (symlink((std::string(repo_build_dir()) + "/../mplugins/map" + std::to_string(f) + ".so").c_str(), (s.dir(f) + "/map" + std::to_string(f) + ".so").c_str())) violation("setup", "symlink");
  }
  // files that are no usable plugins must make no difference, neither must a second name of the same plugin
  { Rng r(mix(ctx.seed, 0x99));
    for (int f = 0; f < NFILE; f++) for (const char *pre : {"a", "z"}) {
      std::string b = s.dir(f) + "/" + pre; int q = r.below(9);
      if (q == 0) write_file(b + "junk.so", "this is no shared library");
      if (q == 1) write_file(b + "empty.so", "");
      if (q == 2) { if (symlink((std::string(repo_build_dir()) + "/../mplugins/nosym.so").c_str(), (b + "nosym.so").c_str())) violation("setup", "symlink"); }
      if (q == 3) { if (symlink("/nonexisting", (b + "gone.so").c_str())) violation("setup", "symlink"); }
      if (q == 4) mkdir((b + "dir.so").c_str(), 0755);
    }
    s.dup = r.chance(1, 4);
    if (s.dup && symlink((std::string(repo_build_dir()) + "/../mplugins/map1.so").c_str(), (s.dir(0) + (r.chance(1, 2) ? "/again.so" : "/zagain.so")).c_str())) violation("setup", "symlink");
  }
  seam_pause(false);
  { DLiteMappingPluginIter it; dlite_mapping_plugin_init_iter(&it); }
  dlite_storage_plugin_get("json");
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  last_err();
  bool faults = false;
  for (auto &o : t) if (o.f.kind) faults = true;
  int passes = !faults ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    s.setup();
    for (u32 i = start; i < t.size(); i++) {
      shm->opidx = i; shm->nops++;
      say("op %u: %s %u %u %u %u %u %u fault %u/%u/%u", i, names10[t[i].kind], t[i].a[0], t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].a[5], t[i].f.kind, t[i].f.nth, t[i].f.arg);
      s.op(i);
      seam_disarm();
    }
    s.release();
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}
Trace gen10(Rng &r, u64) {
  Trace t; int n = r.range(10, 50);
  static const u32 w[] = {A_NEW, A_NEW, A_NEW, A_DROP, A_DROP, A_MAP, A_MAP, A_MAP, A_MAP, A_MAP, A_MAP, A_CAST, A_CAST, A_COLL, A_COLL, A_MEMLOAD, A_LOAD, A_TREE, A_TREE, A_TREE, A_APPLY, A_APPLY, A_FREETREE,
                          A_ENABLE, A_ENABLE, A_RELOAD, A_UNLOAD, A_GET, A_LIST, A_DUP, A_PATH, A_PATH};
  bool faults = r.chance(4, 6);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = i < 3 ? A_NEW : w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 12);
    bool maps = o.kind == A_MAP || o.kind == A_CAST || o.kind == A_COLL || o.kind == A_MEMLOAD || o.kind == A_LOAD || o.kind == A_TREE || o.kind == A_APPLY;
    if (faults && (maps || o.kind == A_RELOAD) && r.chance(1, 3)) {
      u32 q = r.below(4);
      if (q == 0 && maps && o.kind != A_TREE) { o.f.kind = F_PLUGIN_FAIL; o.f.nth = r.range(1, 3); }
      else if (q == 1 && o.kind != A_MEMLOAD && o.kind != A_LOAD) { o.f.kind = r.chance(1, 3) ? F_READDIR_SHUFFLE : F_OPENDIR_FAIL; o.f.nth = r.range(1, 3); o.f.arg = r.below(1000); }
      else if (q == 2 && o.kind == A_LOAD) { o.f.kind = r.chance(1, 2) ? F_READ_EIO : F_OPEN_FAIL; o.f.nth = r.range(1, 2); }
      else { o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(1, 2) ? r.range(1, 12) : r.range(1, 120); o.f.arg = r.chance(1, 6); }
    }
    t.push_back(o);
  }
  return t;
}
Register r10({"S10", 6000, 100000, 0, gen10, run10, opname10,
  "distinct (number of mapper calls, cost, number of inputs, output) combinations reached by successful mappings",
  "dlite-mapping.c, dlite-mapping-plugins.c, plugin.c, dlopen()ed plugin files, dlite-entity.c, dlite-collection.c, json driver",
  "the functions inside the mapping plugins, memory allocation failures in DLite code (seam), directory reads (seam)"});
}  // namespace

extern "C" void sim_api_free(PluginAPI *p) {
  DLiteMappingPlugin *a = (DLiteMappingPlugin *)p;
  auto &v = W->apis; auto q = std::find(v.begin(), v.end(), a);
  if (q == v.end()) violation("plugin-released-twice", "a mapping plugin is released twice");
  v.erase(q);
  free(a->name); free((char *)a->output_uri);
  for (int j = 0; j < a->ninput; j++) free((char *)a->input_uris[j]);
  free(a->input_uris); free(a);
}
extern "C" DLiteMappingPlugin *sim_mapping_api(int file, int *iter, Mapper mapper) {
  std::vector<int> L;
  for (int k = 0; k < NMAP; k++) if (W->enabled[k] && W->M[k].file == file) L.push_back(k);
  if (*iter < 0 || *iter >= (int)L.size()) return nullptr;
  const Map &m = W->M[L[*iter]];
  if (*iter + 1 < (int)L.size()) ++*iter;
  DLiteMappingPlugin *a = (DLiteMappingPlugin *)calloc(1, sizeof *a);
  a->name = strdup(m.name.c_str()); a->freeapi = sim_api_free; a->output_uri = strdup(uris[m.out]); a->ninput = m.in.size();
  a->input_uris = (const char **)calloc(m.in.size() + 1, sizeof(char *));
  for (size_t j = 0; j < m.in.size(); j++) a->input_uris[j] = strdup(uris[m.in[j]]);
  a->mapper = mapper; a->cost = m.cost;
  W->apis.push_back(a);
  return a;
}
extern "C" DLiteInstance *sim_mapper(int file, const DLiteMappingPlugin *api, const DLiteInstance **instances, int n) {
  int k = W->index(api->name);
  if (k < 0 || W->M[k].file != file) violation("wrong-mapper", "the mapper of %s was called in another plugin", api->name);
  const Map &m = W->M[k];
  Call c; c.k = k; c.out = nullptr; std::vector<long> v;
  for (int j = 0; j < n; j++) { if (!instances[j]) violation("mapper-inputs", "%s is called without input %d", api->name, j); c.in.push_back((DLiteInstance *)instances[j]); c.im.push_back(W->metaof(instances[j])); v.push_back(Mapping::value(instances[j])); }
  int mode = m.mode;
  if (++W->ncalls == W->nth) { seam_register_fault(F_PLUGIN_FAIL); mode = W->nth % 2 ? FAILS : WRONG; }
  if (mode == FAILS) { W->bad = true; W->calls.push_back(c); return err(dliteMappingError, "mapper failed"), nullptr; }
  if (mode == FAILS_SILENT) { W->bad = true; W->calls.push_back(c); return nullptr; }
  if (mode == WRONG) W->bad = true;
  int out = mode == WRONG ? (m.out + 1) % NM : m.out;
  DLiteInstance *p = dlite_instance_create_from_id(uris[out], nullptr, nullptr);
  if (!p) { W->calls.push_back(c); return nullptr; }
  *(long *)dlite_instance_get_property_by_index(p, 0) = W->derived(k, v);
  c.uuid = p->uuid; if (mode != WRONG) c.out = p;
  W->calls.push_back(c);
  return p;
}
