// Transactions (S07): snapshots form a hash chain that survives pushing to, pulling from and crashing
// in a storage with transaction support, against a model of the chain.
#include "simstore.h"
using namespace dsim;

namespace {
enum { K_NEW, K_SET, K_RESIZE, K_REL, K_SNAP, K_GETSNAP, K_PUSH, K_PULL, K_VERIFY, K_TAMPER, K_TAMPER_STORE, K_FREEZE, K_SETPARENT, K_TAKE, K_DROP, K_ADOPT, K_HOT, K_RESTART, K_NOTRANS, K_PAIR, K_RELINK, K_SHAPE, K_NK };
const char *names7[] = {"new", "set", "resize", "relation", "snapshot", "get_snapshot", "push", "pull", "verify", "tamper", "tamper_stored", "freeze", "set_parent", "take_ref", "drop_ref", "adopt", "hotlist", "restart", "no_transactions", "ambiguous_strings", "relink", "shapes"};
const char *opname7(u32 k) { return k < K_NK ? names7[k] : "?"; }
enum { NMETA = 3 };
const char *LOC = "history";

struct Node {
  bool coll = false; std::string uuid, uri; VData cur, orig; bool frozen = false, tampered = false, keep = false, relinked = false;
  std::string parent; bool linked = false;       // uuid of the parent, and whether it is held in memory
  DLiteInstance *p = nullptr; int urefs = 0;
};

struct Tx {
  u64 seed; const Trace &t;
  std::vector<MMeta> metas; std::vector<DLiteMeta *> pm;
  std::map<std::string, Node> nodes;              // by uuid; every instance ever seen by this process or stored
  SimStore *st; DLiteStorage *s = nullptr, *hot = nullptr;
  int version = 0, made = 0; u32 inc;

  Tx(u64 sd, const Trace &t_, u32 inc_) : seed(sd), t(t_), inc(inc_) {
    for (int i = 0; i < NMETA; i++) {
      MMeta m = gen_meta(seed, i);
      if (m.uri[0] != 'h') m.uri = "http://" + m.uri;
      metas.push_back(m);
      pm.push_back(make_meta(m));
      if (!pm.back()) violation("meta-create-failed", "%s", last_err().c_str());
    }
    dlite_get_collection_entity();
    st = &sim_store(LOC);
    for (auto &x : st->recs) { Node n; restore(n, x.second); nodes[x.first] = n; }
    if (!(s = dlite_storage_open("sim", LOC, "mode=rw"))) violation("open-failed", "%s", last_err().c_str());
    sim_on_save = [this](SimStore &, const SimRec &r) {
      auto it = nodes.find(r.uuid);
      if (it == nodes.end()) violation("foreign-save", "an unknown instance %s was saved", r.uuid.c_str());
      Node &n = it->second;
      eval();
      if (r.d != n.cur) violation("wrong-values-pushed", "the values saved for %s differ from those of the snapshot", r.uuid.c_str());
      if (r.puuid != n.parent) violation("wrong-parent-pushed", "%s was saved with parent %s, expected %s", r.uuid.c_str(), r.puuid.c_str(), n.parent.c_str());
      if (!r.frozen) violation("mutable-pushed", "the mutable instance %s was saved as an ancestor", r.uuid.c_str());
    };
    check_store("start");
  }
  void restore(Node &n, const SimRec &r) {
    n.coll = r.meta == DLITE_COLLECTION_ENTITY; n.uuid = r.uuid; n.uri = r.uri; n.cur = n.orig = r.d;
    n.frozen = r.frozen; n.parent = r.puuid; n.linked = false; n.tampered = n.keep = marked(r.uuid, "taint-"); n.relinked = marked(r.uuid, "relink-");
  }
  // stored records changed behind the back, or that record the hash of a changed parent (durable through marker files)
  bool marked(const std::string &u, const char *what) { return file_exists(ctx.dir + "/" + what + u); }
  void mark(const std::string &u, const char *what, bool on) { if (on) write_file(ctx.dir + "/" + what + u, "x"); else unlink((ctx.dir + "/" + what + u).c_str()); }

  int want_refs(const Node &n) {
    int k = n.urefs;
    for (auto &x : nodes) if (x.second.p && x.second.linked && x.second.parent == n.uuid) k++;
    return k;
  }
  void sweep() {                                  // nobody holds it: it is gone
    for (bool again = true; again;) {
      again = false;
      for (auto &x : nodes) if (x.second.p && !want_refs(x.second)) { x.second.p = nullptr; x.second.linked = false; again = true; }
    }
  }
  // the history in the storage is consistent at all times: the parent of a stored snapshot is stored
  void check_store(const char *what) {
    for (auto &x : st->recs) {
      eval();
      if (!x.second.puuid.empty() && !st->recs.count(x.second.puuid))
        violation("inconsistent-history", "after %s: %s is stored, but its parent %s is not", what, x.first.c_str(), x.second.puuid.c_str());
    }
  }
  void check(int i, const char *what) {
    for (auto &x : nodes) {
      Node &n = x.second;
      if (!n.p) continue;
      eval();
      int want = want_refs(n);
      if (n.p->_refcount != want) violation("refcount", "after op %d (%s): %s has reference count %d, expected %d", i, what, n.uuid.c_str(), n.p->_refcount, want);
      if (n.uuid != n.p->uuid) violation("identity", "after op %d (%s): uuid of %s changed", i, what, n.uuid.c_str());
      if (!!dlite_instance_is_frozen(n.p) != n.frozen) violation("frozen-changed", "after op %d (%s): %s is %sfrozen", i, what, n.uuid.c_str(), n.frozen ? "not " : "");
      if (!!dlite_instance_has_parent(n.p) != !n.parent.empty()) violation("parent-changed", "after op %d (%s): %s has %s parent", i, what, n.uuid.c_str(), n.parent.empty() ? "a" : "no");
      if (!n.parent.empty() && n.parent != n.p->_parent->uuid) violation("parent-changed", "after op %d (%s): parent of %s is %s, expected %s", i, what, n.uuid.c_str(), n.p->_parent->uuid, n.parent.c_str());
      if (!n.parent.empty() && n.p->_parent->parent != (n.linked ? nodes[n.parent].p : nullptr)) violation("parent-changed", "after op %d (%s): %s holds the wrong parent in memory", i, what, n.uuid.c_str());
      VData now = capture(n.p);
      if (now != n.cur) violation(n.frozen ? "snapshot-changed" : "values-changed", "after op %d (%s): the values of %s changed", i, what, n.uuid.c_str());
    }
    check_store(what);
    last_err();
  }
  std::vector<Node *> mem() { std::vector<Node *> v; for (auto &x : nodes) if (x.second.p) v.push_back(&x.second); return v; }
  Node *pick(u32 a, int pref = 0) {               // pref: 1 mutable, 2 frozen, 3 has a parent
    auto v = mem(); std::vector<Node *> w;
    for (auto *n : v) if ((pref == 1 && !n->frozen) || (pref == 2 && n->frozen) || (pref == 3 && !n->parent.empty())) w.push_back(n);
    if (!w.empty() && (a >> 8) % 4) v = w;
    return v.empty() ? nullptr : v[a % v.size()];
  }
  MInst values(int mi, const std::vector<size_t> *dims) {
    Caps c;
    for (int k = 0;; k++) {
      MInst m = gen_inst(seed, metas, k, ++version, c);
      size_t n = 0; for (auto &v : m.vals) n += v.raw.size() + 8 * v.str.size();
      if (m.meta != mi || (!dims && n > 20000)) continue;
      if (dims) {
        Rng r(mix(seed, version)); m.dims = *dims; m.vals.clear();
        for (auto &p : metas[mi].props) { MVal v; gen_value(r, p, m.dims, v, c); m.vals.push_back(v); }
      }
      return m;
    }
  }
  int meta_of(const Node &n) { for (int i = 0; i < NMETA; i++) if (n.p->meta == pm[i]) return i; return -1; }
  bool available(const std::string &uuid) { return nodes.count(uuid) && (nodes[uuid].p || (hot && st->recs.count(uuid))); }
  bool taint_of(const std::string &u) { Node &n = nodes[u]; return n.p ? n.tampered : marked(u, "taint-"); }
  // 0 valid, 1 not, 2 an ancestor is out of reach
  int expect_verify(const std::string &uuid, bool rec) {
    Node &n = nodes[uuid];
    std::string par = n.p ? n.parent : st->recs[uuid].puuid;
    if (par.empty()) return 0;
    if (!available(par)) return 2;
    if (taint_of(par) != (n.p ? n.relinked : marked(uuid, "relink-"))) return 1;
    return rec ? expect_verify(par, true) : 0;
  }
  // an instance that was (re)loaded into memory with one reference more than the model knows of
  void loaded(int i, const DLiteInstance *q) {
    Node &n = nodes[q->uuid];
    if (n.p && n.p != q) violation("identity", "op %d: %s exists twice", i, q->uuid);
    if (!n.p) { if (!st->recs.count(q->uuid)) violation("resurrected", "op %d: %s came from nowhere", i, q->uuid); restore(n, st->recs[q->uuid]); n.p = (DLiteInstance *)q; }
  }
  std::vector<u8> hash(const DLiteInstance *p, bool *ok = nullptr) {
    std::vector<u8> h(DLITE_HASH_SIZE);
    int r = dlite_instance_get_hash(p, h.data(), DLITE_HASH_SIZE);
    if (ok) *ok = !r; else if (r) violation("hash-failed", "%s", last_err().c_str());
    return h;
  }
  std::string url(const Node &n) { return n.uri.empty() ? n.uuid : n.uri; }

  void op(int i) {
    const Op &o = t[i];
    bool fired = false;
    auto arm = [&] { if (o.f.kind == F_MALLOC_FAIL) seam_arm(o.f); else sim_arm(o.f); };
    auto disarm = [&] { bool a = seam_disarm(), b = sim_disarm(); fired = a || b; };
    switch (o.kind) {
    case K_NEW: {
      if (mem().size() > 12) break;
      Node n; DLiteInstance *p; std::string e;
      int mi = o.a[0] % (NMETA + 1);
      made++;
      static const char *forms[] = {"", "http://sim.org/tx/i%d-%u", "tx-%d-%u", "http://sim.org/tx#frag%d-%u"};
      char id[80]; snprintf(id, sizeof id, forms[o.a[1] % 4], made, inc);
      if (mi == NMETA) {
        n.coll = true;
        p = (DLiteInstance *)dlite_collection_create(*id ? id : nullptr);
        if (p) n.cur.dims = {0}, n.cur.v = {PVal()};
      } else {
        MInst m = values(mi, nullptr);
        Rng r(mix(seed, made * 77 + inc));
        m.id = *id ? id : gen_uuid(r);
        p = make_inst(m, metas, &e);
        n.cur = to_vdata(m, metas[mi]);
      }
      if (!p) violation("create-failed", "op %d: %s", i, e.c_str());
      n.uuid = p->uuid; n.uri = p->uri ? p->uri : ""; n.p = p; n.urefs = 1;
      nodes[n.uuid] = n;
      break;
    }
    case K_SET: case K_RESIZE: {
      Node *n = pick(o.a[0], 1);
      if (!n || n->tampered) break;
      if (n->coll) break;
      int mi = meta_of(*n);
      MInst m = values(mi, o.kind == K_SET ? &n->cur.dims : nullptr);
      auto &mm = metas[mi];
      bool failed = false; int which = -1;
      arm();
      if (o.kind == K_RESIZE && mm.dims.size()) {
        std::vector<int> d(m.dims.begin(), m.dims.end());
        if (dlite_instance_set_dimension_sizes(n->p, d.data())) failed = true;
      }
      if (n->frozen && !failed && o.kind == K_RESIZE && mm.dims.size()) violation("frozen-modified", "op %d: the dimensions of a frozen instance were set", i);
      for (size_t k = 0; k < mm.props.size() && !failed; k++) {
        int r;
        const MProp &p = mm.props[k];
        if (p.type == dliteStringPtr || (o.a[2] & 1) || m.vals[k].raw.empty() || o.f.kind) r = set_value(n->p, p, m.dims, m.vals[k]);
        else r = dlite_instance_assign_property(n->p, p.name.c_str(), 'C', m.vals[k].raw.data());
        if (r) { failed = true; which = k; } else if (n->frozen) violation("frozen-modified", "op %d: property %s of a frozen instance was set", i, p.name.c_str());
      }
      if (n->frozen && (o.a[2] & 2)) for (auto &p : mm.props) {
        static const char *src[] = {"1", "\"x\"", "true", "[]", "[1]", "[\"abc\"]"};
        if (dlite_instance_scan_property(src[o.a[3] % 6], n->p, p.name.c_str(), (DLiteTypeFlag)0) >= 0) violation("frozen-modified", "op %d: property %s of a frozen instance was scanned", i, p.name.c_str());
      }
      disarm();
      std::string e = last_err();
      log_hash(failed);
      if (failed && !fired && !n->frozen) violation("set-failed", "op %d: cannot set property %d of %s: %s", i, which, n->uuid.c_str(), e.c_str());
      if (!n->frozen) n->cur = failed ? capture(n->p) : to_vdata(m, mm);
      break;
    }
    case K_REL: {
      Node *n = nullptr;
      for (auto *x : mem()) if (x->coll && !x->tampered && (!n || (o.a[0] >> x->uuid[0] % 8) & 1)) n = x;
      if (!n) break;
      std::string s = "s" + std::to_string(o.a[1] % 4), ob = "o" + std::to_string(o.a[2] % 4);
      const char *d = o.a[3] % 3 ? nullptr : "xsd:string";
      DLiteCollection *c = (DLiteCollection *)n->p;
      bool del = o.a[3] & 8;
      arm();
      int r = del ? dlite_collection_remove_relations(c, s.c_str(), "p", nullptr, nullptr) : dlite_collection_add_relation(c, s.c_str(), "p", ob.c_str(), d);
      disarm();
      last_err();
      eval();
      if (n->frozen) { if (del ? r >= 0 : r == 0) violation("frozen-modified", "op %d: a frozen collection accepts to %s a relation", i, del ? "remove" : "add"); break; }
      n->cur = capture(n->p);
      break;
    }
    case K_SNAP: {
      Node *n = pick(o.a[0], 1);
      if (!n || (n->tampered && !n->frozen)) break;
      std::vector<u8> h0 = hash(n->p);
      std::set<std::string> before;
      arm();
      int r = dlite_instance_snapshot(n->p);
      disarm();
      std::string e = last_err();
      log_hash(r);
      eval();
      if (r) {
        if (!fired && !n->frozen) violation("snapshot-failed", "op %d: cannot take a snapshot of %s: %s", i, n->uuid.c_str(), e.c_str());
        if (hash(n->p) != h0) violation("failed-snapshot-changed", "op %d: a failing snapshot changed %s", i, n->uuid.c_str());
        break;
      }
      if (n->frozen) violation("frozen-modified", "op %d: a snapshot of a frozen instance was taken", i);
      const DLiteInstance *q = n->p->_parent ? n->p->_parent->parent : nullptr;
      if (!q) violation("snapshot-lost", "op %d: %s has no parent after a snapshot", i, n->uuid.c_str());
      if (nodes.count(q->uuid)) violation("snapshot-not-unique", "op %d: the snapshot got the uuid of another instance: %s", i, q->uuid);
      std::string base = url(*n), u = q->uri ? q->uri : "";
      base = base.substr(0, base.find('#'));
      bool good = u.size() == base.size() + 10 + 12 && u.compare(0, base.size() + 10, base + "#snapshot-") == 0;
      for (size_t k = base.size() + 10; good && k < u.size(); k++) good = isalnum((u8)u[k]);
      if (!good) violation("snapshot-uri", "op %d: snapshot of %s is named %s", i, url(*n).c_str(), u.c_str());
      Node sn; sn.coll = n->coll; sn.uuid = q->uuid; sn.uri = u; sn.cur = sn.orig = n->cur; sn.frozen = true; sn.p = (DLiteInstance *)q;
      sn.parent = n->parent; sn.linked = n->linked; sn.relinked = n->relinked;
      if (hash(q) != h0) violation("snapshot-differs", "op %d: the hash of the snapshot is not that of %s when it was taken", i, n->uuid.c_str());
      n->parent = sn.uuid; n->linked = true; n->relinked = false;
      nodes[sn.uuid] = sn;
      int depth = 0; for (std::string x = sn.uuid; !x.empty() && depth < 50; x = nodes[x].parent) depth++;
      note_state(mix(mix(hash_vdata(sn.cur), depth), 1));
      break;
    }
    case K_GETSNAP: case K_PULL: {
      Node *n = pick(o.a[0], 3);
      if (!n) break;
      int k = o.a[1] % 12 == 11 ? -1 : (int)(o.a[1] % 6);
      // what the model expects: which ancestors are held, have to be loaded and can be
      std::string cur = n->uuid; bool ok = k >= 0; int dist = 0;
      std::vector<std::pair<std::string, std::string>> link;   // child, parent to become held
      for (int j = 0; ok && j < k; j++) {
        Node &c = nodes[cur];
        std::string par = c.p ? c.parent : st->recs[cur].puuid;
        if (par.empty()) { ok = false; break; }
        bool held = c.p && c.linked;
        if (!held && !(o.kind == K_PULL ? (nodes.count(par) && nodes[par].p) || st->recs.count(par) : available(par))) { ok = false; break; }
        if (!held) link.push_back({cur, par});
        cur = par; dist++;
      }
      arm();
      const DLiteInstance *q = o.kind == K_PULL ? dlite_instance_pull_snapshot(n->p, s, k) : dlite_instance_get_snapshot(n->p, k);
      disarm();
      std::string e = last_err();
      log_hash(q != nullptr);
      eval();
      // take over what happened on the way, link by link
      for (auto &l : link) {
        Node &c = nodes[l.first];
        if (!c.p || !c.p->_parent || !c.p->_parent->parent) break;
        loaded(i, c.p->_parent->parent);
        c.linked = true;
        if (l.second != c.p->_parent->parent->uuid) violation("wrong-snapshot", "op %d: the parent of %s was loaded as %s", i, l.first.c_str(), c.p->_parent->parent->uuid);
      }
      if (q && !ok) violation("wrong-snapshot", "op %d: snapshot %d of %s should not exist or be reachable, but %s was returned", i, k, n->uuid.c_str(), q->uuid);
      if (!q && ok && !fired) violation("snapshot-lost", "op %d: snapshot %d of %s cannot be retrieved: %s", i, k, n->uuid.c_str(), e.c_str());
      if (q) {
        Node &w = nodes[cur];
        if (cur != q->uuid || w.p != q) violation("wrong-snapshot", "op %d: snapshot %d of %s is %s, expected %s", i, k, n->uuid.c_str(), q->uuid, cur.c_str());
        if (!link.empty()) note_state(mix(mix(hash_vdata(w.cur), dist), 2));
      }
      break;
    }
    case K_PUSH: {
      Node *n = pick(o.a[0], 3);
      if (!n) break;
      int k = o.a[1] % 4 ? 0 : o.a[1] / 4 % 4;
      // the chain of held ancestors
      std::vector<std::string> chain; chain.push_back(n->uuid);
      for (Node *c = n; c->p && c->linked; c = &nodes[c->parent]) chain.push_back(c->parent);
      std::string top = n->uuid;
      arm();
      int r = dlite_instance_push_snapshot(n->p, s, k);
      disarm();
      std::string e = last_err();
      log_hash(r);
      eval();
      if (r && !fired) violation("push-failed", "op %d: pushing failed: %s", i, e.c_str());
      // snapshot j (counted from inst) is pushed for all j > k, those closest to the root first
      int last = (int)chain.size() - 1, upto = k;
      if (r) {
        if (r < 1 || r > last) violation("push-index", "op %d: pushing %d ancestors failed with index %d", i, last, r);
        upto = r;                                  // snapshots r+1 ... last were pushed
        if (r <= k) violation("push-index", "op %d: pushing the ancestors of snapshot %d failed at snapshot %d", i, k, r);
      }
      for (int j = last; j > upto; j--) {
        auto it = st->recs.find(chain[j]);
        if (it == st->recs.end()) violation("push-lost", "op %d: snapshot %d was not pushed", i, j);
        if (it->second.d != nodes[chain[j]].cur) violation("wrong-values-pushed", "op %d: other values are stored for snapshot %d", i, j);
        mark(chain[j], "taint-", nodes[chain[j]].tampered); mark(chain[j], "relink-", nodes[chain[j]].relinked);
        nodes[chain[j - 1]].linked = false;
        note_state(mix(mix(hash_str(chain[j]), j), 3));
      }
      sweep();
      break;
    }
    case K_VERIFY: {
      Node *n = pick(o.a[0], 3);
      if (!n) break;
      bool rec = o.a[1] & 1;
      int mode = o.a[2] % 4;                       // 0,1 no hash, 2 its own hash, 3 a wrong one
      std::vector<u8> h;
      if (mode >= 2) h = hash(n->p);
      if (mode == 3) h[o.a[3] % h.size()] ^= 1 << (o.a[4] % 8);
      int want = mode == 3 ? 1 : mode == 2 && !rec ? 0 : expect_verify(n->uuid, rec);
      arm();
      int r = mode < 2 && rec && (o.a[3] & 1) ? dlite_instance_verify_transaction(n->p) : dlite_instance_verify_hash(n->p, mode >= 2 ? h.data() : nullptr, rec);
      disarm();
      std::string e = last_err();
      log_hash(r);
      eval();
      if (!r && want) violation(want == 1 ? "tampering-undetected" : "verified-unreachable", "op %d: %s is verified%s, though %s", i, n->uuid.c_str(), rec ? " with all its ancestors" : "",
                                mode == 3 ? "the hash is wrong" : want == 1 ? "an ancestor was changed" : "an ancestor is out of reach");
      if (r && !want && !fired) violation("verify-failed", "op %d: %s cannot be verified%s (returned %d): %s", i, n->uuid.c_str(), rec ? " with all its ancestors" : mode == 2 ? " against its hash" : "", r, e.c_str());
      note_state(mix(mix(hash_str(n->uuid), want), 4 + rec + 2 * mode));
      break;
    }
    case K_TAMPER: {                              // the memory of a snapshot is changed through a pointer
      Node *n = nullptr;
      for (auto *x : mem()) if (x->frozen && want_refs(*x) > x->urefs && (!n || (o.a[0] >> x->uuid[0] % 8) & 1)) n = x;
      if (!n) break;
      if ((n->tampered && (n->keep || !(o.a[4] & 3))) || marked(n->uuid, "kept-")) break;
      if (n->coll) {
        DLiteCollection *c = (DLiteCollection *)n->p;
        if (n->tampered) { triplestore_remove(c->rstore, "evil", "p", "o", nullptr); n->tampered = false; }
        else { triplestore_add(c->rstore, "evil", "p", "o", nullptr); n->tampered = true; }
        n->p->_flags &= ~dliteImmutable; n->cur = capture(n->p); n->p->_flags |= dliteImmutable;
        break;
      }
      const DLiteMeta *m = n->p->meta;
      if (n->tampered) {
        n->p->_flags &= ~dliteImmutable;
        if (put_vdata(n->p, n->orig)) violation("set-failed", "op %d: %s", i, last_err().c_str());
        n->p->_flags |= dliteImmutable;
        n->tampered = false; n->cur = n->orig;
        break;
      }
      n->orig = n->cur;
      for (size_t k = 0; k < m->_nproperties; k++) {
        size_t pi = (k + o.a[1]) % m->_nproperties;
        const DLiteProperty &p = m->_properties[pi];
        size_t cnt = 1; for (int j = 0; j < p.ndims; j++) cnt *= DLITE_PROP_DIM(n->p, pi, j);
        if (!cnt) continue;
        size_t at = o.a[2] % 3 == 0 ? 0 : o.a[2] % 3 == 1 ? cnt - 1 : o.a[2] % cnt;
        u8 *q = (u8 *)dlite_instance_get_property_by_index(n->p, pi);
        if (p.type == dliteStringPtr) {
          char *&sp = ((char **)q)[at];
          std::string x = sp ? sp : ""; x += '~'; free(sp); sp = strdup(x.c_str());
        } else if (p.size) q[at * p.size + (p.type == dliteFixString ? 0 : o.a[3] % p.size)] ^= p.type == dliteFixString ? 32 : p.type == dliteBool ? 1 : 1 << (o.a[5] % 8);
        else continue;
        n->tampered = true; n->cur = capture(n->p);
        break;
      }
      break;
    }
    case K_RELINK: {                              // ... and the child is made to record the hash of its changed parent
      Node *n = nullptr;
      for (auto *x : mem()) if (!x->parent.empty() && x->linked && nodes[x->parent].tampered && !x->relinked && x->frozen && !marked(x->uuid, "kept-") && want_refs(*x) > x->urefs) n = x;
      if (!n) break;
      auto h = hash(nodes[n->parent].p);
      memcpy(n->p->_parent->hash, h.data(), h.size());
      n->relinked = true;
      mark(n->parent, "kept-", true);             // (there is only one changed version of it)
      if (!n->tampered) n->orig = n->cur;
      n->tampered = n->keep = true;
      break;
    }
    case K_SHAPE: {                               // the same numbers in another shape or under another entity are something else
      DLiteDimension d[] = {{(char *)"n", (char *)"n"}, {(char *)"m", (char *)"m"}}; char *shape[] = {(char *)"n", (char *)"m"};
      DLiteProperty pr[] = {{(char *)"s", dliteInt, 4, NULL, 2, shape, NULL, (char *)"s"}};
      DLiteMeta *m = dlite_meta_create("http://sim.org/0.1/Shape", "p", 2, d, 1, pr), *m2 = dlite_meta_create("http://sim.org/0.2/Shape", "p", 2, d, 1, pr);
      size_t a = 1 + o.a[0] % 5, b = 1 + o.a[1] % 5, dims[2][2] = {{a, b}, {b, a}};
      std::vector<int> v; for (size_t k = 0; k < a * b; k++) v.push_back(o.a[2 + k % 4] + k);
      DLiteInstance *x[4];
      for (int k = 0; k < 4; k++) if (!(x[k] = dlite_instance_create(k == 3 ? m2 : m, dims[k == 1], nullptr)) || dlite_instance_set_property(x[k], "s", v.data())) violation("set-failed", "%s", last_err().c_str());
      eval();
      if (a != b && hash(x[0]) == hash(x[1])) violation("hash-equal", "op %d: arrays of %zu x %zu and %zu x %zu with the same numbers have the same hash", i, a, b, b, a);
      if (hash(x[0]) == hash(x[3])) violation("hash-equal", "op %d: equal values of different entities have the same hash", i);
      if (hash(x[0]) != hash(x[2])) violation("hash-differs", "op %d: equal instances have different hashes", i);
      for (auto *q : x) dlite_instance_decref(q);
      dlite_meta_decref(m); dlite_meta_decref(m2);
      break;
    }
    case K_TAMPER_STORE: {                        // a stored snapshot is changed
      if (st->recs.empty()) break;
      auto it = st->recs.begin(); std::advance(it, o.a[0] % st->recs.size());
      SimRec &r = it->second;
      if (nodes[r.uuid].p || taint_of(r.uuid) || marked(r.uuid, "kept-")) break;
      bool done = false;
      for (auto &v : r.d.v) {
        if (r.meta == DLITE_COLLECTION_ENTITY) { if (v.size() < 4) break; v[v.size() - 2] += "~"; done = true; break; }
        for (auto &x : v) if (!x.empty() && !done) { x[o.a[1] % x.size()] ^= 1; done = x[o.a[1] % x.size()] != 0; if (!done) x[o.a[1] % x.size()] ^= 1; }
        if (done) break;
      }
      if (!done) break;
      seam_register_fault(F_FILE_FLIP);
      st->persist();
      mark(r.uuid, "taint-", true);
      nodes[r.uuid].cur = r.d;
      break;
    }
    case K_FREEZE: {
      Node *n = pick(o.a[0]);
      if (!n || n->tampered) break;
      dlite_instance_freeze(n->p);
      if (!n->frozen) n->orig = n->cur;
      n->frozen = true;
      break;
    }
    case K_SETPARENT: {
      Node *n = pick(o.a[0], 1), *p = pick(o.a[1], 2);
      if (!n || !p || n == p || p->tampered || n->tampered) break;
      bool same = n->parent == p->uuid;
      std::vector<u8> h0 = hash(n->p);
      arm();
      int r = dlite_instance_set_parent(n->p, p->p);
      disarm();
      std::string e = last_err();
      log_hash(r);
      eval();
      bool ok = !n->frozen && p->frozen;
      if (r) {
        if (ok && !fired) violation("set-parent-failed", "op %d: %s", i, e.c_str());
        if (hash(n->p) != h0) violation("failed-set-parent-changed", "op %d: a failing set_parent changed %s", i, n->uuid.c_str());
        break;
      }
      if (!ok) violation(n->frozen ? "frozen-modified" : "mutable-parent", "op %d: parent of %s was set to %s", i, n->uuid.c_str(), p->uuid.c_str());
      n->parent = p->uuid; n->linked = true; n->relinked = false;
      sweep();
      note_state(mix(mix(hash_str(p->uuid), same), 9));
      break;
    }
    case K_TAKE: if (Node *n = pick(o.a[0])) { dlite_instance_incref(n->p); n->urefs++; } break;
    case K_DROP:
      if (Node *n = pick(o.a[0])) {
        if (!n->urefs) break;
        int want = want_refs(*n) - 1, r = dlite_instance_decref(n->p);
        n->urefs--;
        if (r != want) violation("refcount", "op %d: decref of %s returned %d, expected %d", i, n->uuid.c_str(), r, want);
        sweep();
      }
      break;
    case K_ADOPT: {                               // continue from a stored snapshot
      if (st->recs.empty() || mem().size() > 12) break;
      auto it = st->recs.begin(); std::advance(it, o.a[0] % st->recs.size());
      std::string u = it->first;
      arm();
      DLiteInstance *p = (o.a[1] & 1) && hot ? dlite_instance_get(u.c_str()) : dlite_instance_load(s, u.c_str());
      disarm();
      std::string e = last_err();
      log_hash(p != nullptr);
      eval();
      if (!p) { if (!fired) violation("snapshot-lost", "op %d: the stored snapshot %s cannot be loaded: %s", i, u.c_str(), e.c_str()); break; }
      if (u != p->uuid) violation("wrong-snapshot", "op %d: loading %s gave %s", i, u.c_str(), p->uuid);
      loaded(i, p);
      nodes[u].urefs++;
      break;
    }
    case K_HOT:
      if (hot) { dlite_storage_close(hot); hot = nullptr; }
      else if (!(hot = dlite_storage_open("sim", LOC, "mode=r;generic"))) violation("open-failed", "%s", last_err().c_str());
      break;
    case K_RESTART:
      seam_register_fault(F_RESTART);
      shm->next_op = i + 1;
      _exit(76);
    case K_NOTRANS: {
      Node *n = pick(o.a[0], 3);
      if (!n) break;
      DLiteStorage *q = dlite_storage_open("sim", "other", "mode=rw;notrans");
      if (!q) violation("open-failed", "%s", last_err().c_str());
      int r = dlite_instance_push_snapshot(n->p, q, 0);
      const DLiteInstance *x = dlite_instance_pull_snapshot(n->p, q, 1);
      last_err();
      eval();
      if (!r) violation("no-transactions", "op %d: pushing to a storage without transactions succeeded", i);
      if (x) violation("no-transactions", "op %d: pulling from a storage without transactions succeeded", i);
      dlite_storage_close(q);
      break;
    }
    case K_PAIR: {                                // values that differ only in where strings end
      DLiteDimension d[] = {{(char *)"n", (char *)"n"}}; char *shape[] = {(char *)"n"};
      DLiteProperty pr[] = {{(char *)"s", dliteStringPtr, sizeof(char *), NULL, 1, shape, NULL, (char *)"s"}};
      DLiteMeta *m = dlite_meta_create("http://sim.org/0.1/Pair", "p", 1, d, 1, pr);
      size_t two[] = {2};
      const char *a[] = {"ab", "c"}, *b[] = {"a", "bc"};
      DLiteInstance *x = dlite_instance_create(m, two, nullptr), *y = dlite_instance_create(m, two, nullptr);
      if (!x || !y || dlite_instance_set_property(x, "s", a) || dlite_instance_set_property(y, "s", b)) violation("set-failed", "%s", last_err().c_str());
      eval();
      if (hash(x) == hash(y)) violation("hash-ambiguous-strings", "op %d: the string arrays [\"ab\", \"c\"] and [\"a\", \"bc\"] have the same hash", i);
      dlite_instance_decref(x); dlite_instance_decref(y); dlite_meta_decref(m);
      break;
    }
    }
    check(i, names7[o.kind]);
  }
  void finish() {
    if (hot) dlite_storage_close(hot);
    for (auto &x : nodes) while (x.second.p && x.second.urefs) {
      int want = want_refs(x.second) - 1, r = dlite_instance_decref(x.second.p);
      x.second.urefs--;
      if (r != want) violation("refcount", "at the end: decref of %s returned %d, expected %d", x.first.c_str(), r, want);
      sweep();
    }
    for (auto &x : nodes) {
      if (x.second.p) violation("harness", "%s is still held", x.first.c_str());
      eval();
      if (dlite_instance_has(x.first.c_str(), false)) violation("leaked", "at the end: %s is still alive", x.first.c_str());
    }
    dlite_storage_close(s);
    if (st->opens != st->closes) violation("storage-leaked", "%d storages opened, %d closed", st->opens, st->closes);
  }
};

void run7(const Trace &t, u32 start, u32 inc) {
  seam_random_mode(0, mix(ctx.seed, inc));
  err_set_stream(nullptr);
  sim_plugin_setup();
  dlite_init();
  while (!dlite_storage_paths_remove_index(0));
  dlite_collection_decref(dlite_collection_create(nullptr));   // (first use under failures is the subject of S10)
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  last_err();
  Tx x(ctx.seed, t, inc);
  x.check((int)start - 1, "the start");
  for (u32 i = start; i < t.size(); i++) {
    shm->opidx = i; shm->nops++;
    say("op %u: %s fault %u/%u/%u", i, names7[t[i].kind], t[i].f.kind, t[i].f.nth, t[i].f.arg);
    x.op(i);
    seam_disarm(); sim_disarm();
  }
  x.finish();
}

Trace gen7(Rng &r, u64) {
  Trace t; int n = r.range(10, 60);
  static const u32 w[] = {K_NEW, K_NEW, K_SET, K_SET, K_SET, K_RESIZE, K_REL, K_REL, K_SNAP, K_SNAP, K_SNAP, K_SNAP, K_SNAP, K_GETSNAP, K_GETSNAP, K_GETSNAP,
                          K_PUSH, K_PUSH, K_PUSH, K_PULL, K_PULL, K_PULL, K_VERIFY, K_VERIFY, K_VERIFY, K_VERIFY, K_TAMPER, K_TAMPER, K_RELINK, K_SHAPE, K_TAMPER_STORE, K_FREEZE, K_SETPARENT, K_SETPARENT,
                          K_TAKE, K_DROP, K_DROP, K_ADOPT, K_ADOPT, K_HOT, K_NOTRANS};
  bool faults = r.chance(4, 5), restarts = r.chance(1, 2);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = i < 2 ? (u32)K_NEW : w[r.below(sizeof w / sizeof *w)];
    if (restarts && r.chance(1, 25)) o.kind = K_RESTART;
    if (r.chance(1, 2000)) o.kind = K_PAIR;
    for (auto &a : o.a) a = r.below(1 << 16);
    if (faults && r.chance(1, 3)) {
      bool sim = o.kind == K_PUSH || o.kind == K_PULL || o.kind == K_GETSNAP || o.kind == K_VERIFY || o.kind == K_ADOPT;
      if (sim && r.chance(2, 3)) {
        o.f.kind = o.kind == K_PUSH && restarts && r.chance(1, 2) ? F_CRASH : F_PLUGIN_FAIL;
        o.f.nth = r.chance(1, 2) ? 1 : r.range(1, 4); o.f.arg = r.below(4);
      } else if (o.kind == K_SNAP || o.kind == K_SETPARENT || o.kind == K_SET || o.kind == K_RESIZE || sim) {
        o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(1, 2) ? r.range(1, 4) : r.range(1, 30); o.f.arg = r.chance(1, 6);
      }
    }
    t.push_back(o);
  }
  return t;
}
Register r7({"S07", 6000, 150000, 0, gen7, run7, opname7,
  "distinct (snapshot, depth or verdict, operation) triples: snapshots taken, loaded back, pushed and verified in agreement with the model of the chain",
  "libdlite (instances, collections, transactions, hashes), libdlite-utils", "the storage driver (simulated, durable, with transactions), memory allocation failures, entropy"});
}  // namespace
