// Collection world (S06): collections that own instances and other collections,
// saved to and loaded from files, against a model of memberships and references.
#include "simstore.h"
extern "C" {
#include "dlite-collection.h"
#include "dlite-storage.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { C_NEWITEM, C_DROPITEM, C_NEWCOLL, C_DROPCOLL, C_ADD, C_ADDNEW, C_REMOVE, C_GET, C_HAS, C_ITER, C_RADD, C_RDEL, C_FIND, C_COPY,
       C_HASH, C_SAVE, C_SAVE1, C_LOAD, C_PATH, C_RESTART, C_CAST, C_ORDER, C_SIM, C_NK };
const char *names6[] = {"new_item", "drop_item", "new_collection", "drop_collection", "add", "add_new", "remove", "get", "has", "iterate",
  "add_relation", "remove_relations", "find", "copy", "hash", "save", "save_only", "load", "storage_path", "restart", "cast", "hash_order", "save_to_driver"};
const char *opname6(u32 k) { return k < C_NK ? names6[k] : "?"; }
enum { NI = 6, NC = 3, NW = NI + NC, NF = 3 };
const char *LBL[] = {"a", "b", "label", "two words", "http://x.org/l#1", "a/b"};
const char *RS[] = {"a", "dog", "http://x.org/s#1", "b", "\xc3\xa6"};
const char *RP[] = {"rdf:type", "is", "http://x.org/p", "ab"};
const char *RO[] = {"animal", "a", "1", "http://x.org/o", "two words"};
const char *RD[] = {nullptr, nullptr, "xsd:string", "xsd:int", "@en"};

struct Rel { std::string s, p, o, d; bool lit;
  bool operator<(const Rel &b) const { return std::tie(s, p, o, d, lit) < std::tie(b.s, b.p, b.o, b.d, b.lit); }
  std::string str() const { return "(" + s + ", " + p + ", " + o + (lit ? ", " + d : "") + ")"; } };
struct Mem { int who; bool held; };
struct Snap { std::set<Rel> user; std::map<std::string, int> mem; };
struct Coll { bool on = false; int own = 0; DLiteCollection *p = nullptr; std::set<Rel> user; std::map<std::string, Mem> mem; };
struct Item { bool on = false; int own = 0; DLiteInstance *p = nullptr; };
struct FileC { std::string driver, path; bool exists = false, unknown = false; std::map<int, Snap> e; };

struct World6 {
  const Trace &t; std::vector<MMeta> metas; MInst mi[NI]; std::string cid[NC];
  Item it[NI]; Coll c[NC]; FileC f[NF]; int path = -1; bool real = false;
  bool restarts = false; int simno = 0;
  std::map<std::string, std::string> hashes, keys;

  explicit World6(const Trace &t_) : t(t_) {
    Caps caps;
    for (int i = 0; i < 3; i++) metas.push_back(gen_meta(ctx.seed, i));
    for (int i = 0; i < NI; i++) mi[i] = gen_inst(ctx.seed, metas, i, 1, caps);
    Rng r(mix(ctx.seed, 0xc011));
    for (int j = 0; j < NC; j++) cid[j] = r.chance(1, 2) ? gen_uuid(r) : r.chance(1, 2) ? "http://sim.org/coll/" + std::to_string(j) : "coll-" + std::to_string(j);
    for (int k = 0; k < NF; k++) { f[k].driver = "json"; f[k].path = ctx.dir + "/d/c" + std::to_string(k) + (f[k].driver == "json" ? ".json" : ".h5"); }
    for (auto &o : t) if (o.kind == C_RESTART || o.f.kind == F_CRASH) restarts = true;
  }
  const std::string &id(int who) { return who < NI ? mi[who].id : cid[who - NI]; }
  std::string uuid(int who) { return uuid_of(id(who)); }
  bool on(int who) { return who < NI ? it[who].on : c[who - NI].on; }
  DLiteInstance *ptr(int who) { return who < NI ? it[who].p : (DLiteInstance *)c[who - NI].p; }
  int &own(int who) { return who < NI ? it[who].own : c[who - NI].own; }
  const char *muri(int who) { return who < NI ? metas[mi[who].meta].uri.c_str() : DLITE_COLLECTION_ENTITY; }
  int refs(int who) {
    int n = own(who);
    for (auto &x : c) if (x.on) for (auto &m : x.mem) if (m.second.who == who && m.second.held) n++;
    return n;
  }
  void die(int who) { if (who < NI) it[who] = Item(); else c[who - NI] = Coll(); }
  void gc() { for (bool again = true; again;) { again = false; for (int w = 0; w < NW; w++) if (on(w) && !refs(w)) { die(w); again = true; } } }
  void all_dead() { for (int w = 0; w < NW; w++) die(w); path = -1; }

  // what a load of `who` would find, and in which file: -1 in memory, -2 nowhere
  int lookup(int who, int s) {
    if (on(who)) return -1;
    if (s >= 0 && f[s].exists && f[s].e.count(who)) return s;
    if (path >= 0 && f[path].exists && f[path].e.count(who)) return path;
    return -2;
  }
  bool unsure(int s) { return (s >= 0 && f[s].unknown) || (path >= 0 && f[path].unknown); }
  // brings `who` into memory from file `from`; its references are accounted for by the caller
  void bring(int who, int from, int s) {
    if (who < NI) { it[who].on = true; return; }
    Coll &x = c[who - NI];
    Snap sn = f[from].e[who];
    x.on = true; x.user = sn.user; x.mem.clear();
    for (auto &m : sn.mem) x.mem[m.first] = Mem{m.second, false};
    for (auto &m : x.mem) {
      int l = lookup(m.second.who, s);
      if (l == -2) continue;
      if (l >= 0) bring(m.second.who, l, s);
      m.second.held = true;
    }
  }
  void find_pointers() {                       // pointers of what has been loaded
    for (int w = 0; w < NW; w++)
      if (on(w) && !ptr(w)) {
        DLiteInstance *p = dlite_instance_has(uuid(w).c_str(), false);
        if (!p) violation("not-in-memory", "%s should have been loaded", id(w).c_str());
        if (w < NI) it[w].p = p; else c[w - NI].p = (DLiteCollection *)p;
      }
  }
  std::set<Rel> relations(const Coll &x) {
    std::set<Rel> r = x.user;
    for (auto &m : x.mem) {
      r.insert(Rel{m.first, "_is-a", "Instance", "", false});
      r.insert(Rel{m.first, "_has-uuid", uuid(m.second.who), "xsd:anyURI", true});
      r.insert(Rel{m.first, "_has-meta", muri(m.second.who), "", false});
    }
    return r;
  }
  std::string contents(int j, bool *missing) {
    std::string s = "{";
    for (auto &r : relations(c[j])) s += r.str();
    for (auto &m : c[j].mem) {
      if (!on(m.second.who)) { *missing = true; continue; }
      s += m.first + "=" + (m.second.who < NI ? "i" + std::to_string(m.second.who) : contents(m.second.who - NI, missing));
    }
    return s + "}";
  }
  bool resolvable(const Coll &x) { for (auto &m : x.mem) if (!m.second.held && lookup(m.second.who, -1) == -2) return false; return true; }
  bool deep_resolvable(int who) {
    if (who < NI) return true;
    for (auto &m : c[who - NI].mem) { if (!m.second.held) return false; if (!deep_resolvable(m.second.who)) return false; }
    return true;
  }
  bool would_find(int who) {                    // a member is not held, but can be found
    if (who < NI) return false;
    for (auto &m : c[who - NI].mem) if (m.second.held ? would_find(m.second.who) : lookup(m.second.who, -1) != -2) return true;
    return false;
  }
  void snap(int who, std::map<int, Snap> &out) {
    if (out.count(who)) return;
    Snap s; if (who >= NI) { s.user = c[who - NI].user; for (auto &m : c[who - NI].mem) s.mem[m.first] = m.second.who; }
    out[who] = s;
    if (who >= NI) for (auto &m : c[who - NI].mem) snap(m.second.who, out);
  }

  std::set<Rel> check_relations(int i, const char *what, int j) {
      std::set<Rel> want = relations(c[j]), got;
      DLiteCollectionState st; const DLiteRelation *r;
      dlite_collection_init_state(c[j].p, &st);
      while ((r = dlite_collection_find(c[j].p, &st, nullptr, nullptr, nullptr, nullptr))) {
        Rel q{r->s, r->p, r->o, r->d ? r->d : "", r->d != nullptr};
        if (!want.count(q)) violation("unexpected-relation", "op %d (%s): %s has the relation %s that was not added or has been removed", i, what, cid[j].c_str(), q.str().c_str());
        if (!got.insert(q).second) violation("relation-twice", "op %d (%s): %s lists the relation %s twice", i, what, cid[j].c_str(), q.str().c_str());
      }
      dlite_collection_deinit_state(&st);
      for (auto &q : want) if (!got.count(q)) violation("missing-relation", "op %d (%s): %s lacks the relation %s", i, what, cid[j].c_str(), q.str().c_str());
      return want;
  }
  void check(int i, const char *what) {
    find_pointers();
    for (int w = 0; w < NW; w++) {
      DLiteInstance *p = dlite_instance_has(uuid(w).c_str(), false);
      eval();
      if (!on(w)) {
        if (p) violation("still-in-memory", "op %d (%s): %s has no references left, but is still in memory with reference count %d", i, what, id(w).c_str(), p->_refcount);
        continue;
      }
      if (p != ptr(w)) violation("not-in-memory", "op %d (%s): %s is referenced, but no longer found in memory", i, what, id(w).c_str());
      if (p->_refcount != refs(w)) violation("refcount", "op %d (%s): the reference count of %s is %d, expected %d", i, what, id(w).c_str(), p->_refcount, refs(w));
    }
    last_err();
    for (int j = 0; j < NC; j++) if (c[j].on) {
      std::set<Rel> want = check_relations(i, what, j);
      int n = dlite_collection_count(c[j].p), d = dlite_instance_get_dimension_size_by_index((DLiteInstance *)c[j].p, 0);
      eval();
      if (n != (int)c[j].mem.size()) violation("count", "op %d (%s): %s counts %d instances, expected %zu", i, what, cid[j].c_str(), n, c[j].mem.size());
      if (d != (int)want.size()) violation("dimension", "op %d (%s): %s has %d relations according to its dimension, expected %zu", i, what, cid[j].c_str(), d, want.size());
      u64 sh = mix(mix(refs(NI + j), resolvable(c[j])), c[j].user.size());
      for (auto &m : c[j].mem) sh = mix(sh, (m.second.who < NI ? 0 : 2 + c[m.second.who - NI].mem.size()) * 8 + m.second.held * 4 + std::min(refs(m.second.who), 3));
      note_state(sh);
    }
    last_err();
  }
  void check_item(int i, int who) {
    if (who >= NI) return;
    std::string d = diff_inst(it[who].p, mi[who], metas, false);
    if (!d.empty()) violation("wrong-instance", "op %d: %s", i, d.c_str());
  }
  [[noreturn]] void restart(int i) {
    seam_register_fault(F_RESTART);
    shm->probe[40 + i / 64] |= 1ull << (i % 64);
    shm->next_op = i + 1;
    if (t[i].a[5] & 1) _exit(76);
    for (int w = 0; w < NW; w++) while (own(w) > 0) { own(w)--; dlite_instance_decref(ptr(w)); }
    exit(76);
  }
  bool pick_live(u32 r, int *who) { std::vector<int> v; for (int w = 0; w < NW; w++) if (on(w)) v.push_back(w); if (v.empty()) return false; *who = v[r % v.size()]; return true; }

  void op(int i) {
    const Op &o = t[i];
    const char *what = names6[o.kind];
    int j = o.a[0] % NC, k = o.a[1] % NI, out = shm->outcome[i];
    Coll &x = c[j];
    bool fired = false;
    std::string e, label = LBL[o.a[2] % 6];
    auto done = [&](bool ok) { if (real) shm->outcome[i] = ok ? 1 : 2; };
    auto arm = [&]() { if (real) seam_arm(o.f); };
    auto disarm = [&]() { if (real) { e = last_err(); fired = seam_disarm(); snprintf(shm->opres[i], 80, "%d", fired); } else fired = atoi(shm->opres[i]) || out == 3; };
    if (!real && out == 0 && o.kind != C_RESTART) return;
    switch (o.kind) {
    case C_NEWITEM:
      if (it[k].on) { if (real) dlite_instance_incref(it[k].p); it[k].own++; done(true); break; }
      if (real && !(it[k].p = make_inst(mi[k], metas, &e))) violation("create-failed", "op %d: cannot create %s: %s", i, mi[k].id.c_str(), e.c_str());
      it[k].on = true; it[k].own = 1; done(true);
      break;
    case C_DROPITEM:
      if (!it[k].on || !it[k].own) break;
      it[k].own--; if (real) dlite_instance_decref(it[k].p);
      gc(); done(true);
      break;
    case C_NEWCOLL: {
      if (x.on) { if (real) dlite_instance_incref((DLiteInstance *)x.p); x.own++; done(true); break; }
      bool ok = out == 1;
      if (real) { arm(); x.p = dlite_collection_create(cid[j].c_str()); ok = x.p != nullptr; }
      disarm(); done(ok);
      if (ok) { x.on = true; x.own = 1; }
      else if (!fired) violation("create-failed", "op %d: cannot create collection %s: %s", i, cid[j].c_str(), e.c_str());
    } break;
    case C_DROPCOLL:
      if (!x.on || !x.own) break;
      x.own--; if (real) dlite_collection_decref(x.p);
      gc(); done(true);
      break;
    case C_ADD: case C_ADDNEW: {
      int who;
      if (!x.on || !pick_live(o.a[3], &who)) break;
      if (who >= NI && who - NI <= j) break;                   // (no cycles)
      if (o.kind == C_ADDNEW && own(who) < 1) break;
      bool ok = out == 1;
      if (real) {
        if (!x.mem.count(label)) arm();
        ok = (o.kind == C_ADD ? dlite_collection_add(x.p, label.c_str(), ptr(who)) : dlite_collection_add_new(x.p, label.c_str(), ptr(who))) == 0;
      }
      disarm(); done(ok); eval();
      if (x.mem.count(label)) { if (ok) violation("label-reused", "op %d: a second instance was added as '%s' to %s", i, label.c_str(), cid[j].c_str()); }
      else if (ok) { x.mem[label] = Mem{who, true}; if (o.kind == C_ADDNEW) own(who)--; }
      else if (!fired) violation("add-failed", "op %d: adding %s as '%s' to %s: %s", i, id(who).c_str(), label.c_str(), cid[j].c_str(), e.c_str());
    } break;
    case C_REMOVE: {
      if (!x.on) break;
      bool ok = out == 1;
      if (o.a[3] % 4 && x.mem.size()) { auto m = x.mem.begin(); std::advance(m, o.a[2] % x.mem.size()); label = m->first; }
      if (real) { arm(); ok = dlite_collection_remove(x.p, label.c_str()) == 0; }
      disarm(); done(ok); eval();
      if (ok && !x.mem.count(label)) violation("removed-nothing", "op %d: removing the unknown '%s' from %s succeeds", i, label.c_str(), cid[j].c_str());
      if (ok) { x.mem.erase(label); gc(); }
      else if (!fired && x.mem.count(label)) violation("remove-failed", "op %d: removing '%s' from %s: %s", i, label.c_str(), cid[j].c_str(), e.c_str());
    } break;
    case C_GET: {
      if (!x.on) break;
      if (o.a[3] % 5 && x.mem.size()) { auto m = x.mem.begin(); std::advance(m, o.a[2] % x.mem.size()); label = m->first; }
      bool known = x.mem.count(label);
      int how = o.a[4] % 3, who = known ? x.mem[label].who : -1;
      if (how == 2) {                                          // by id
        if (who < 0) { who = o.a[1] % NW; for (auto &m : x.mem) if (m.second.who == who) known = true; }
        int held = 0, loose = 0;
        for (auto &m : x.mem) if (m.second.who == who) { (m.second.held ? held : loose)++; label = m.first; }
        if (loose && held + loose > 1) break;
      }
      int from = known ? x.mem[label].held ? -1 : lookup(who, -1) : -2;
      if (known && from != -1 && unsure(-1)) break;
      bool ok = out == 1; DLiteInstance *p = nullptr;
      if (real) {
        if (o.f.kind == F_MALLOC_FAIL && (from == -1 || (known && who < NI))) arm();
        if (how == 0) p = (DLiteInstance *)dlite_collection_get(x.p, label.c_str());
        else if (how == 1) p = dlite_collection_get_new(x.p, label.c_str(), nullptr);
        else p = (DLiteInstance *)dlite_collection_get_id(x.p, ((o.a[5] & 1) ? uuid(who) : id(who)).c_str());
        ok = p != nullptr;
      }
      disarm(); done(ok); eval();
      if (!ok) { if (from != -2 && !fired) violation("get-failed", "op %d: getting '%s' from %s: %s", i, label.c_str(), cid[j].c_str(), e.c_str()); break; }
      if (from == -2) violation("get-wrong", "op %d: getting '%s' from %s gives %s", i, label.c_str(), cid[j].c_str(), p ? p->uuid : "something");
      if (from >= 0) bring(who, from, -1);
      x.mem[label].held = true;
      if (how) own(who)++;
      if (real) {
        find_pointers();
        if (p != ptr(who)) violation("get-wrong", "op %d: getting '%s' from %s gives %s, expected %s", i, label.c_str(), cid[j].c_str(), p->uuid, id(who).c_str());
        check_item(i, who);
        if (how) { own(who)--; dlite_instance_decref(p); }
      } else if (how) own(who)--;
    } break;
    case C_HAS: {
      if (!x.on || !real) break;
      int h = dlite_collection_has(x.p, label.c_str()); eval();
      if (!!h != !!x.mem.count(label)) violation("has-wrong", "op %d: whether %s has '%s' is reported as %d", i, cid[j].c_str(), label.c_str(), h);
      int who = o.a[1] % NW, n = 0; for (auto &m : x.mem) if (m.second.who == who) n++;
      h = dlite_collection_has_id(x.p, ((o.a[5] & 1) ? uuid(who) : id(who)).c_str()); eval();
      if (!!h != !!n) violation("has-wrong", "op %d: whether %s has %s is reported as %d", i, cid[j].c_str(), id(who).c_str(), h);
      last_err();
    } break;
    case C_ITER: {
      if (!x.on || !resolvable(x)) break;
      for (auto &m : x.mem) if (!m.second.held && unsure(-1)) return;
      int own_new = o.a[4] & 1;
      std::multiset<int> want; for (auto &m : x.mem) want.insert(m.second.who);
      std::vector<DLiteInstance *> got;
      if (real) {
        DLiteCollectionState st; DLiteInstance *p;
        dlite_collection_init_state(x.p, &st);
        while ((p = own_new ? dlite_collection_next_new(x.p, &st) : dlite_collection_next(x.p, &st))) got.push_back(p);
        dlite_collection_deinit_state(&st);
        e = last_err();
      }
      for (auto &m : x.mem) if (!m.second.held) { int l = lookup(m.second.who, -1); if (l >= 0) bring(m.second.who, l, -1); m.second.held = true; }
      done(true);
      if (real) {
        find_pointers();
        std::multiset<DLiteInstance *> a, b(got.begin(), got.end()); for (int w : want) a.insert(ptr(w));
        eval();
        if (a != b) violation("iteration", "op %d: iterating over %s gives %zu instances, expected %zu (or other ones) %s", i, cid[j].c_str(), b.size(), a.size(), e.c_str());
        if (own_new) for (auto p : got) dlite_instance_decref(p);
      }
    } break;
    case C_RADD: {
      if (!x.on) break;
      const char *d = RD[o.a[4] % 5];
      Rel r{RS[o.a[1] % 5], RP[o.a[2] % 4], RO[o.a[3] % 5], d ? d : "", d != nullptr};
      if (o.a[5] % 9 == 0 && r.s != "a" && r.s != "b") r.p = "_is-a";       // a kind of its own, not a member
      bool ok = out == 1;
      if (real) { arm(); ok = dlite_collection_add_relation(x.p, r.s.c_str(), r.p.c_str(), r.o.c_str(), d) == 0; }
      disarm(); done(ok); eval();
      if (ok) x.user.insert(r);
      else if (!fired) violation("add-failed", "op %d: adding relation %s to %s: %s", i, r.str().c_str(), cid[j].c_str(), e.c_str());
    } break;
    case C_RDEL: {
      if (!x.on) break;
      const char *s = (o.a[5] & 1) ? RS[o.a[1] % 5] : nullptr, *p = RP[o.a[2] % 4], *ob = (o.a[5] & 2) ? RO[o.a[3] % 5] : nullptr;
      int n = -1, m = 0; bool ok = out == 1;
      if (real) { arm(); n = dlite_collection_remove_relations(x.p, s, p, ob, nullptr); ok = n >= 0; }
      disarm(); done(ok); eval();
      if (ok) for (auto q = x.user.begin(); q != x.user.end();) { if ((!s || q->s == s) && q->p == p && (!ob || q->o == ob)) { q = x.user.erase(q); m++; } else ++q; }
      if (real && ok && n != m) violation("remove-count", "op %d: removing relations from %s returned %d, expected %d", i, cid[j].c_str(), n, m);
      if (!ok && !fired) violation("remove-failed", "op %d: removing relations from %s: %s", i, cid[j].c_str(), e.c_str());
    } break;
    case C_FIND: {
      if (!x.on || !real) break;
      const char *s = (o.a[5] & 1) ? RS[o.a[1] % 5] : (o.a[5] & 8) ? label.c_str() : nullptr, *p = (o.a[5] & 2) ? RP[o.a[2] % 4] : (o.a[5] & 16) ? "_has-uuid" : nullptr, *ob = (o.a[5] & 4) ? RO[o.a[3] % 5] : nullptr;
      std::set<Rel> want, got; for (auto &q : relations(x)) if ((!s || q.s == s) && (!p || q.p == p) && (!ob || q.o == ob)) want.insert(q);
      DLiteCollectionState st; const DLiteRelation *r;
      dlite_collection_init_state(x.p, &st);
      while ((r = dlite_collection_find(x.p, &st, s, p, ob, nullptr))) got.insert(Rel{r->s, r->p, r->o, r->d ? r->d : "", r->d != nullptr});
      dlite_collection_deinit_state(&st);
      r = dlite_collection_find_first(x.p, s, p, ob, nullptr);
      eval();
      if (got.size() != want.size() || !std::equal(got.begin(), got.end(), want.begin(), [](const Rel &a, const Rel &b) { return !(a < b) && !(b < a); })) violation("find-wrong", "op %d: searching %s gives %zu relations, expected %zu", i, cid[j].c_str(), got.size(), want.size());
      if (!r != want.empty()) violation("find-wrong", "op %d: the first relation found in %s is wrong", i, cid[j].c_str());
      last_err();
    } break;
    case C_COPY: {
      int src = o.a[1] % NC;
      if (x.on || !c[src].on || j > src) break;
      for (auto &m : c[src].mem) if (!m.second.held) return;
      bool ok = out == 1;
      if (real) { arm(); x.p = (DLiteCollection *)dlite_instance_copy((DLiteInstance *)c[src].p, cid[j].c_str()); ok = x.p != nullptr; }
      disarm(); done(ok && !fired); eval();
      if (!ok && !fired) violation("copy-failed", "op %d: copying %s: %s", i, cid[src].c_str(), e.c_str());
      if (!ok) break;
      x.on = true; x.own = 1; x.user = c[src].user; x.mem = c[src].mem;
      if (fired) {   // complete content, but an instance may have been unavailable: look at it and drop it
        if (real) { check_relations(i, what, j); dlite_collection_decref(x.p); }
        x = Coll();
      }
    } break;
    case C_HASH: {
      if (!x.on || !real) break;
      if (!deep_resolvable(NI + j)) break;
      bool miss = false; std::string key = contents(j, &miss);
      u8 h[DLITE_HASH_SIZE];
      arm();
      bool ok = dlite_instance_get_hash((DLiteInstance *)x.p, h, DLITE_HASH_SIZE) == 0;
      disarm(); done(ok); eval();
      if (!ok) { if (!fired) violation("hash-failed", "op %d: hash of %s: %s", i, cid[j].c_str(), e.c_str()); break; }
      std::string hs((char *)h, sizeof h);
      auto a = hashes.find(key); auto b = keys.find(hs);
      if (a != hashes.end() && a->second != hs) violation("hash-differs", "op %d: the hash of %s differs from that of the same content before", i, cid[j].c_str());
      if (b != keys.end() && b->second != key) violation("hash-equal", "op %d: the hash of %s equals that of a collection with different content:\n%s\n%s", i, cid[j].c_str(), key.c_str(), b->second.c_str());
      hashes[key] = hs; keys[hs] = key;
    } break;
    case C_SAVE: case C_SAVE1: {
      int fi = o.a[3] % NF; FileC &fl = f[fi];
      if (!x.on || fi == path) break;
      if (would_find(NI + j)) return;                // (saving would take hold of a member)
      bool append = o.a[4] % 3 == 0 && fl.exists && !fl.unknown, ok = out == 1, all = deep_resolvable(NI + j) || o.kind == C_SAVE1;
      static const char *jopt[] = {"mode=w", "mode=w;uri-key=yes", "mode=w;with-uuid=yes", "mode=w;with-meta=yes", "mode=w;arrays=yes"};
      bool faulty = fl.driver == "json" || o.f.kind == F_NONE;
      std::string opt = fl.driver == "json" ? append ? "mode=a" : jopt[o.a[5] / 2 % 5] : append ? "mode=append" : "mode=w";
      if (real) {
        if (faulty) arm();
        if (o.kind == C_SAVE1) ok = dlite_instance_save_url((fl.driver + "://" + fl.path + "?" + opt).c_str(), (DLiteInstance *)x.p) == 0;
        else if (o.a[5] & 1) ok = dlite_collection_save_url(x.p, (fl.driver + "://" + fl.path + "?" + opt).c_str()) == 0;
        else {
          DLiteStorage *s = dlite_storage_open(fl.driver.c_str(), fl.path.c_str(), opt.c_str());
          if (s) { ok = dlite_collection_save(x.p, s) == 0; if (dlite_storage_close(s)) ok = false; } else ok = false;
        }
      }
      disarm(); done(ok); eval();
      std::map<int, Snap> sn;
      if (o.kind == C_SAVE1) { Snap s; s.user = x.user; for (auto &m : x.mem) s.mem[m.first] = m.second.who; sn[NI + j] = s; }
      if (ok && !all) violation("save-incomplete", "op %d: saving %s, which refers to an instance that is not available, succeeds", i, cid[j].c_str());
      if (ok) {
        if (o.kind == C_SAVE) snap(NI + j, sn);
        if (!append) fl.e.clear();
        for (auto &q : sn) fl.e[q.first] = q.second;
        fl.exists = true; fl.unknown = false;
      } else {
        if (!fired && all) violation("save-failed", "op %d: saving %s to %s with '%s': %s", i, cid[j].c_str(), fl.path.c_str(), opt.c_str(), e.c_str());
        fl.unknown = true; fl.exists = true;
      }
    } break;
    case C_LOAD: {
      int fi = o.a[3] % NF; FileC &fl = f[fi];
      if (!fl.exists || (unsure(fi) && !(x.on && (o.a[4] >> 1) % 3 == 1))) break;
      if (x.on && o.a[5] % 4) break;
      int lazy = o.a[4] & 1, how = (o.a[4] >> 1) % 3, who = NI + j, from = lookup(who, fi);
      // without going through dlite_collection_load() only generic storages are searched for members
      bool plain = how == 2 && !x.on; int hot = plain && fl.driver != "json" ? -1 : fi;
      if (plain) lazy = 1;
      if (from != -1 && from != fi && how != 1) break;         // not in this file
      if (from == path && from != fi) break;
      if (real && x.on == false && from == -2 && unsure(fi)) break;
      bool ok = out == 1, loading = from >= 0; DLiteCollection *p = nullptr;
      bool miss = false;
      if (loading) for (auto &m : f[from].e[who].mem) if (lookup(m.second, hot) == -2) miss = true;
      if (real) {
        if (fl.driver == "json" || o.f.kind == F_MALLOC_FAIL) arm();
        std::string cidj = (o.a[5] & 16) ? uuid(who) : cid[j];
        if (fl.driver == "hdf5" && !dlite_isuuid(cid[j].c_str()) && 0) cidj = uuid(who);
        if (how == 1) p = dlite_collection_load_url((fl.driver + "://" + fl.path + "?mode=r#" + cidj).c_str(), lazy);
        else {
          DLiteStorage *s = dlite_storage_open(fl.driver.c_str(), fl.path.c_str(), "mode=r");
          if (s) {
            p = plain ? (DLiteCollection *)dlite_instance_load(s, cidj.c_str()) : dlite_collection_load(s, cidj.c_str(), lazy);
            dlite_storage_close(s);
          }
        }
        ok = p != nullptr;
      }
      disarm(); eval();
      if (!real) { if (!ok || (loading && fired)) break; }
      else done(ok && !(loading && fired));
      if (!ok) {
        if (!fired && from != -2 && (lazy || !miss)) violation("load-failed", "op %d: loading %s from %s%s: %s", i, cid[j].c_str(), fl.path.c_str(), lazy ? " lazily" : "", e.c_str());
        break;
      }
      if (from == -2) violation("load-wrong", "op %d: %s was never saved to %s, but loading gives %s", i, cid[j].c_str(), fl.path.c_str(), p ? p->uuid : "something");
      if (!lazy && miss && !fired) violation("load-incomplete", "op %d: %s is loaded from %s although some of its instances are not available", i, cid[j].c_str(), fl.path.c_str());
      if (loading && fired) {
        // complete content, but instances may be missing: look at it and drop it
        Coll q; for (auto &m : f[from].e[who].mem) q.mem[m.first] = Mem{m.second, false};
        q.user = f[from].e[who].user;
        std::set<Rel> want = relations(q); size_t n = 0;
        DLiteCollectionState st; const DLiteRelation *r;
        dlite_collection_init_state(p, &st);
        while ((r = dlite_collection_find(p, &st, nullptr, nullptr, nullptr, nullptr))) {
          Rel g{r->s, r->p, r->o, r->d ? r->d : "", r->d != nullptr}; n++;
          if (!want.count(g)) violation("unexpected-relation", "op %d: %s loaded from %s has the relation %s that was not saved", i, cid[j].c_str(), fl.path.c_str(), g.str().c_str());
        }
        dlite_collection_deinit_state(&st);
        if (n != want.size()) violation("missing-relation", "op %d: %s loaded from %s has %zu relations, %zu were saved", i, cid[j].c_str(), fl.path.c_str(), n, want.size());
        dlite_collection_decref(p);
        last_err();
        break;
      }
      if (loading) bring(who, from, hot);
      x.own++;
      if (real) {
        find_pointers();
        if (p != x.p) violation("load-wrong", "op %d: loading %s gives another object", i, cid[j].c_str());
        for (auto &m : x.mem) if (m.second.held && m.second.who < NI) check_item(i, m.second.who);
      }
    } break;
    case C_PATH: {
      int fi = o.a[3] % NF;
      if (path >= 0 || !f[fi].exists || f[fi].unknown) break;
      path = fi;
      if (real && dlite_storage_paths_append((f[fi].driver + "://" + f[fi].path + "?mode=r").c_str()) < 0) violation("path-failed", "op %d: %s", i, last_err().c_str());
      done(true);
    } break;
    case C_RESTART: done(true); if (real) restart(i); break;
    case C_ORDER: {                             // the hash does not depend on the order of insertion, but on everything in a relation
      if (!real) break;
      Rng r(mix(o.a[1], o.a[2]));
      std::vector<Rel> rel; std::set<Rel> have;
      int n = r.range(2, 9);
      for (int k = 0; k < n; k++) {
        Rel q{RS[r.below(2)], RP[r.below(2)], RO[r.below(3)], "", false};
        if (const char *d = RD[r.below(5)]) { q.d = d; q.lit = true; }
        if (have.insert(q).second) rel.push_back(q);
      }
      std::vector<Rel> a = rel, b = rel, z = rel;
      for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[r.below(k)]);
      Rel &m = z[r.below(z.size())]; Rel was = m;
      switch (r.below(4)) { case 0: m.s += "x"; break; case 1: m.p += "x"; break; case 2: m.o += "x"; break; case 3: if (m.lit && r.chance(1, 2)) { m.lit = false; m.d = ""; } else { m.lit = true; m.d = m.d == "xsd:token" ? "xsd:int" : "xsd:token"; } break; }
      if (have.count(m)) m = Rel{was.s + "y", was.p, was.o, was.d, was.lit};
      // shifting the boundary between neighbouring relations (a, b, c) (d, e, f, g) <-> (a, b, c, d) (e, f, g)
      std::vector<Rel> s1 = {Rel{"a", "p1", "o", "", false}, Rel{"dd", "e", "f", "g", true}}, s2 = {Rel{"a", "p1", "o", "dd", true}, Rel{"e", "f", "g", "", false}};
      std::string h[5]; const std::vector<Rel> *w[5] = {&a, &b, &z, &s1, &s2};
      for (int k = 0; k < 5; k++) {
        DLiteCollection *q = dlite_collection_create(nullptr); u8 hb[DLITE_HASH_SIZE];
        for (auto &x2 : *w[k]) if (!q || dlite_collection_add_relation(q, x2.s.c_str(), x2.p.c_str(), x2.o.c_str(), x2.lit ? x2.d.c_str() : nullptr)) violation("add-failed", "op %d: %s", i, last_err().c_str());
        if (dlite_instance_get_hash((DLiteInstance *)q, hb, sizeof hb)) violation("hash-failed", "op %d: %s", i, last_err().c_str());
        h[k] = std::string((char *)hb, sizeof hb);
        dlite_collection_decref(q);
      }
      eval(); eval();
      if (h[0] != h[1]) violation("hash-differs", "op %d: the hash of a collection depends on the order its %zu relations were added in", i, a.size());
      if (h[0] == h[2]) violation("hash-equal", "op %d: replacing the relation %s by %s does not change the hash of a collection", i, was.str().c_str(), m.str().c_str());
      if (h[3] == h[4]) violation("hash-equal", "op %d: two collections with different relations have the same hash", i);
    } break;
    case C_SIM: {                               // saved through a driver whose nth call fails
      if (!x.on || !real || would_find(NI + j) || !deep_resolvable(NI + j)) break;
      std::string loc = "coll-" + std::to_string(i) + "-" + std::to_string(simno++);
      DLiteStorage *s = dlite_storage_open("sim", loc.c_str(), "mode=w");
      if (!s) violation("save-failed", "op %d: %s", i, last_err().c_str());
      Fault ft; if (o.a[5] % 4) { ft.kind = F_PLUGIN_FAIL; ft.nth = 1 + o.a[4] % 5; }
      sim_arm(ft);
      bool ok = dlite_collection_save(x.p, s) == 0;
      fired = sim_disarm(); e = last_err();
      dlite_storage_close(s);
      eval();
      if (ok && fired) violation("save-incomplete", "op %d: saving %s succeeds although the driver failed to store one of its instances", i, cid[j].c_str());
      if (!ok && !fired) violation("save-failed", "op %d: saving %s: %s", i, cid[j].c_str(), e.c_str());
      if (ok) {
        std::map<int, Snap> sn; snap(NI + j, sn);
        SimStore &st = sim_store(loc);
        for (auto &q : sn) {
          auto r = st.recs.find(uuid(q.first));
          if (r == st.recs.end()) violation("save-incomplete", "op %d: saving %s does not store its instance %s", i, cid[j].c_str(), id(q.first).c_str());
          if (r->second.d != capture(ptr(q.first))) violation("save-differs", "op %d: %s is not stored as it is", i, id(q.first).c_str());
        }
        if (st.recs.size() != sn.size()) violation("save-extra", "op %d: saving %s stores %zu instances, expected %zu", i, cid[j].c_str(), st.recs.size(), sn.size());
      }
      sim_forget(loc);
    } break;
    case C_CAST: {
      int who; if (!real || !pick_live(o.a[3], &who)) break;
      DLiteCollection *p = dlite_collection_from_instance(ptr(who)); eval(); e = last_err();
      if (who < NI ? p != nullptr || e.empty() : (DLiteInstance *)p != ptr(who)) violation("cast-wrong", "op %d: casting %s to a collection", i, id(who).c_str());
    } break;
    }
    if (real) { last_err(); check(i, what); }
    else if (out == 3 || (shm->probe[40 + i / 64] >> (i % 64)) & 1) all_dead();
  }
  void release(int i) {
    for (int w = 0; w < NW; w++) while (on(w) && own(w) > 0) { own(w)--; dlite_instance_decref(ptr(w)); gc(); }
    check(i, "release");
    if (path >= 0) { while (dlite_storage_paths_remove_index(0) == 0) {} err_clear(); }
    path = -1;
    for (auto &x : f) { if (x.exists) unlink(x.path.c_str()); x.exists = x.unknown = false; x.e.clear(); }
    hashes.clear(); keys.clear();
  }
};

void run6(const Trace &t, u32 start, u32 inc) {
  seam_random_mode(0, mix(ctx.seed, inc));
  World6 w(t);
  for (u32 i = 0; i < start && i < t.size(); i++) w.op(i);
  w.real = true;
  err_set_stream(nullptr);
  std::vector<DLiteMeta *> mm;
  for (auto &m : w.metas) { mm.push_back(make_meta(m)); if (!mm.back()) violation("meta-create-failed", "%s", last_err().c_str()); }
  // warm-up: plugins and the state of the library's modules are loaded on first use
  for (auto drv : {"json"}) {
    DLiteCollection *c = dlite_collection_create(nullptr);
    std::string u = std::string(drv) + "://" + ctx.dir + "/warmup";
    if (!c || dlite_collection_save_url(c, (u + "?mode=w").c_str())) violation("warm-up", "%s", last_err().c_str());
    std::string id = c->uuid;
    dlite_collection_decref(c);
    if (!(c = dlite_collection_load_url((u + "?mode=r#" + id).c_str(), 0))) violation("warm-up", "%s", last_err().c_str());
    dlite_collection_decref(c);
  }
  sim_plugin_setup();
  if (DLiteStorage *s = dlite_storage_open("sim", "warmup", "mode=w")) dlite_storage_close(s); else violation("warm-up", "%s", last_err().c_str());
  dlite_storage_paths();
  last_err();
  bool faults = false;
  for (auto &o : t) if (o.f.kind) faults = true;
  int passes = !faults && !w.restarts ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    for (u32 i = start; i < t.size(); i++) {
      shm->opidx = i; shm->nops++;
      say("op %u: %s %u %u %u %u %u %u fault %u/%u/%u", i, names6[t[i].kind], t[i].a[0] % NC, t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].a[5], t[i].f.kind, t[i].f.nth, t[i].f.arg);
      w.op(i);
      seam_disarm();
    }
    w.release(t.size());
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}
Trace gen6(Rng &r, u64) {
  Trace t; int n = r.range(8, 90);
  static const u32 w[] = {C_NEWITEM, C_NEWITEM, C_NEWITEM, C_DROPITEM, C_DROPITEM, C_NEWCOLL, C_NEWCOLL, C_DROPCOLL, C_DROPCOLL, C_DROPCOLL, C_ADD, C_ADD, C_ADD, C_ADD, C_ADDNEW, C_ADDNEW, C_ADDNEW,
    C_REMOVE, C_REMOVE, C_GET, C_GET, C_GET, C_HAS, C_ITER, C_ITER, C_RADD, C_RADD, C_RDEL, C_FIND, C_COPY, C_HASH, C_HASH, C_SAVE, C_SAVE, C_SAVE, C_SAVE, C_SAVE, C_SAVE1, C_LOAD, C_LOAD, C_NEWCOLL, C_LOAD, C_LOAD, C_LOAD, C_LOAD, C_PATH, C_CAST, C_ORDER, C_SIM, C_SIM};
  bool faults = r.chance(3, 5), restart = r.chance(1, 4);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = i < 6 ? (i % 3 == 2 ? C_NEWCOLL : C_NEWITEM) : restart && r.chance(1, 14) ? (u32)C_RESTART : w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 12);
    if (faults && r.chance(1, o.kind >= C_SAVE && o.kind <= C_LOAD ? 2 : 3)) {
      switch (o.kind) {
      case C_NEWCOLL: case C_ADD: case C_ADDNEW: case C_REMOVE: case C_GET: case C_RADD: case C_RDEL: case C_COPY: case C_HASH:
        o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(2, 3) ? r.range(1, 8) : r.range(1, 60); o.f.arg = o.kind != C_ADD && o.kind != C_ADDNEW && o.kind != C_REMOVE && r.chance(1, 6); break;
      case C_SAVE: case C_SAVE1: {
        static const int fk[] = {F_WRITE_ENOSPC, F_WRITE_EIO, F_CLOSE_FAIL, F_CRASH, F_OPEN_FAIL, F_SHORT_WRITE, F_MALLOC_FAIL, F_MALLOC_FAIL};
        o.f.kind = fk[r.below(restart ? 8 : 8)]; if (o.f.kind == F_CRASH && !restart) o.f.kind = F_MALLOC_FAIL;
        o.f.nth = o.f.kind == F_MALLOC_FAIL ? r.range(1, r.chance(1, 2) ? 30 : 400) : r.range(1, r.chance(1, 2) ? 3 : 30); o.f.arg = o.f.kind == F_MALLOC_FAIL ? r.chance(1, 6) : r.below(1 << 16);
      } break;
      case C_LOAD: {
        static const int fk[] = {F_READ_EIO, F_SHORT_READ, F_OPEN_FAIL, F_MALLOC_FAIL, F_MALLOC_FAIL, F_MALLOC_FAIL};
        o.f.kind = fk[r.below(6)];
        o.f.nth = o.f.kind == F_MALLOC_FAIL ? r.range(1, r.chance(1, 2) ? 30 : 600) : r.range(1, 3); o.f.arg = o.f.kind == F_MALLOC_FAIL ? r.chance(1, 6) : r.below(1 << 16);
      } break;
      }
    }
    t.push_back(o);
  }
  return t;
}
Register r6({"S06", 5000, 120000, 0, gen6, run6, opname6,
  "distinct states of a live collection: its references, its number of user relations and, per member, kind, whether it is held and how many references it has",
  "dlite-collection.c, dlite-entity.c, dlite-store.c, triplestore, json and hdf5 storage plugins, libhdf5", "kernel file calls and memory allocation failures in DLite code (seam), process death"});
}  // namespace
