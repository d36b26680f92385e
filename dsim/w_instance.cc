// Instance worlds: identity and lifetime of instances in the in-memory store
// (S04) and the values they hold (S05), against small reference models.
#include "model.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
// ---- independent implementation of the documented id -> uuid table ----------
std::string sha1(const std::string &in) {
  u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  std::string m = in; u64 bits = (u64)in.size() * 8;
  m += (char)0x80;
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
  auto rol = [](u32 x, int n) { return (x << n) | (x >> (32 - n)); };
  for (size_t o = 0; o < m.size(); o += 64) {
    u32 w[80];
    for (int i = 0; i < 16; i++) w[i] = (u32)(u8)m[o + 4 * i] << 24 | (u32)(u8)m[o + 4 * i + 1] << 16 | (u32)(u8)m[o + 4 * i + 2] << 8 | (u8)m[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      u32 f, k;
      if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999; else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
      else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC; else f = b ^ c ^ d, k = 0xCA62C1D6;
      u32 t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  std::string r; for (u32 x : h) for (int i = 3; i >= 0; i--) r += (char)(x >> (8 * i));
  return r;
}
std::string uuid5(const std::string &name) {
  static const u8 dns[] = {0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0, 0xc0, 0x4f, 0xd4, 0x30, 0xc8};
  std::string d = sha1(std::string((const char *)dns, 16) + name);
  d[6] = (char)((d[6] & 0x0f) | 0x50); d[8] = (char)((d[8] & 0x3f) | 0x80);
  std::string s; char b[4];
  for (int i = 0; i < 16; i++) { snprintf(b, 4, "%02x", (u8)d[i]); s += b; if (i == 3 || i == 5 || i == 7 || i == 9) s += '-'; }
  return s;
}
bool isuuid_m(const std::string &s) {
  if (s.size() != 36) return false;
  for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !isxdigit((u8)s[i])) return false;
  return true;
}
std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
std::string uuid_m(const std::string &id, bool ns, bool *hashed = nullptr) {
  if (hashed) *hashed = false;
  if (isuuid_m(id)) return lower(id);
  bool url = id.compare(0, 7, "http://") == 0;
  if (url && id.size() > 45 && isuuid_m(id.substr(id.size() - 36))) return lower(id.substr(id.size() - 36));
  if (hashed) *hashed = true;
  return uuid5(url || !ns ? id : "http://onto-ns.com/data/" + id);
}

// =================================================================== S04 ====
enum { K_CREATE, K_GET, K_HAS, K_INCREF, K_DECREF, K_COPY, K_META, K_METAREF, K_UUIDS, K_SAVE, K_LOAD, K_BADID, K_JSON, K_NK };
const char *names4[] = {"create", "get", "has", "incref", "decref", "copy", "create_meta", "meta_ref", "list_uuids", "save", "load", "bad_id", "from_json"};
const char *opname4(u32 k) { return k < K_NK ? names4[k] : "?"; }
enum { NID = 9, NMETA = 4, NCL = 3 };

struct Obj {
  DLiteInstance *p; std::string uuid, uri; int meta; std::vector<size_t> dims;
  int refs[NCL] = {0, 0, 0};
  int total() const { int s = 0; for (int r : refs) s += r; return s; }
};
struct MetaM { MMeta m; DLiteMeta *p = nullptr; int refs = 0; };

struct Store {
  u64 seed; bool ns; const Trace &t;
  MetaM metas[NMETA];
  std::map<std::string, Obj> live;           // by uuid
  std::vector<std::vector<std::string>> ids; // identity -> forms, the first is the canonical one
  std::set<std::string> fresh;               // every random uuid ever handed out
  std::map<int, std::pair<int, std::vector<size_t>>> saved;   // identity -> (meta, dims) in its file
  bool faulted = false;

  Store(u64 s, const Trace &t_) : seed(s), t(t_) {
    Rng r(mix(seed, 0x1d));
    ns = r.chance(1, 2);
    for (int i = 0; i < NMETA; i++) {
      MMeta m = gen_meta(seed, i);
      if (m.uri[0] != 'h') m.uri = "http://" + m.uri;
      metas[i].m = m;
    }
    for (int i = 0; i < NID; i++) {
      std::string u = gen_uuid(r), c;
      int kind = i < 5 ? i : r.below(7);
      switch (kind) {
      case 0: c = u; break;
      case 1: c = "http://sim.org/data/x" + std::to_string(i); break;
      case 2: c = "name-" + std::to_string(i); break;
      case 3: c = "http://sim.org/with/" + u; break;
      case 4: c = metas[i % NMETA].m.uri; break;              // collides with metadata
      case 5: c = u; for (auto &x : c) x = toupper(x); break;
      default: c = std::string(r.range(150, 400), 'n') + std::to_string(i);
      }
      u = uuid_m(c, ns);
      std::vector<std::string> f = {c, u, "http://other.org/ns/" + u};
      std::string up = u; for (auto &x : up) x = toupper(x);
      f.push_back(up);
      f.push_back(c.compare(0, 7, "http://") && !isuuid_m(c) && ns ? "http://onto-ns.com/data/" + c : c);
      ids.push_back(f);
    }
  }
  MetaM *meta_at(const std::string &uuid) { for (auto &m : metas) if (m.p && uuid_m(m.m.uri, ns) == uuid) return &m; return nullptr; }
  Obj *pick(const Op &o) {
    if (live.empty()) return nullptr;
    auto it = live.begin(); std::advance(it, o.a[3] % live.size()); return &it->second;
  }
  int client(const Op &o) { return o.client % NCL; }
  std::string file(int k) { return ctx.dir + "/d/i" + std::to_string(k) + ".json"; }

  void check(int i, const char *what) {
    std::map<const DLiteMeta *, int> use;
    for (auto &x : live) {
      Obj &o = x.second;
      eval();
      if (o.p->_refcount != o.total()) violation("refcount", "after op %d (%s): %s has reference count %d, but %d references are held", i, what, o.uuid.c_str(), o.p->_refcount, o.total());
      if (o.uuid != o.p->uuid) violation("uuid-changed", "after op %d (%s): %s has uuid %s", i, what, o.uuid.c_str(), o.p->uuid);
      std::string u = o.p->uri ? o.p->uri : "";
      if (u != o.uri) violation("uri-differs", "after op %d (%s): %s has uri '%s', expected '%s'", i, what, o.uuid.c_str(), u.c_str(), o.uri.c_str());
      if (o.p->meta != metas[o.meta].p) violation("wrong-metadata", "after op %d (%s): %s has other metadata than it was created with", i, what, o.uuid.c_str());
      for (size_t d = 0; d < o.dims.size(); d++)
        if (DLITE_DIM(o.p, d) != o.dims[d]) violation("dimension-changed", "after op %d (%s): dimension %zu of %s is %zu, expected %zu", i, what, d, o.uuid.c_str(), DLITE_DIM(o.p, d), o.dims[d]);
      use[o.p->meta]++;
      if (dlite_instance_has(x.first.c_str(), false) != o.p) violation("identity", "after op %d (%s): looking up %s does not give the live instance", i, what, x.first.c_str());
    }
    for (auto &m : metas) if (m.p) {
      int want = 1 + m.refs + use[m.p];
      eval();
      if (m.p->_refcount != want) violation("meta-refcount", "after op %d (%s): metadata %s has reference count %d, expected %d (store 1, user %d, instances %d)", i, what, m.m.uri.c_str(), m.p->_refcount, want, m.refs, use[m.p]);
      std::string d = diff_meta(m.p, m.m);
      if (!d.empty()) violation("metadata-changed", "after op %d (%s): %s", i, what, d.c_str());
    }
    for (auto &f : ids) {
      std::string u = uuid_m(f[0], ns);
      if (!live.count(u) && !meta_at(u)) {
        DLiteInstance *p = dlite_instance_has(f[0].c_str(), false);
        eval();
        if (p) violation("resurrected", "after op %d (%s): %s is found but no reference to it is held", i, what, f[0].c_str());
      }
    }
    last_err();
  }

  // model effect of getting a (new) reference to a created or loaded instance
  void got(int i, DLiteInstance *p, const std::string &uuid, const std::string &uri, int meta, const std::vector<size_t> &dims, int cl) {
    if (p->_refcount != 1) violation("refcount", "op %d: a new instance %s has reference count %d", i, p->uuid, p->_refcount);
    Obj o; o.p = p; o.uuid = uuid; o.uri = uri; o.meta = meta; o.dims = dims; o.refs[cl] = 1;
    for (auto &x : live) if (x.second.p == p) violation("identity", "op %d: a new instance has the address of %s", i, x.first.c_str());
    live[uuid] = o;
    note_state(mix(hash_str(uuid), live.size()));
  }
  int ensure_meta(int k) {
    if (metas[k].p) return 0;
    seam_pause(true);
    metas[k].p = make_meta(metas[k].m);
    seam_pause(false);
    if (!metas[k].p) {
      // allowed only if an instance has taken the name
      std::string e = last_err();
      if (!live.count(uuid_m(metas[k].m.uri, ns))) violation("meta-create-failed", "cannot create metadata %s: %s", metas[k].m.uri.c_str(), e.c_str());
      return 1;
    }
    metas[k].refs++;
    return 0;
  }

  void op(int i) {
    const Op &o = t[i];
    int cl = client(o), id = o.a[0] % NID;
    if (o.kind == K_LOAD && !saved.empty() && !saved.count(id)) { auto it = saved.begin(); std::advance(it, o.a[3] % saved.size()); id = it->first; }
    const std::string &form = ids[id][o.a[1] % ids[id].size()];
    std::string u = uuid_m(form, ns);
    // a search through the storage paths is not run out of memory here
    Fault flt = o.f;
    if (flt.kind == F_MALLOC_FAIL && (o.kind == K_BADID || ((o.kind == K_GET || o.kind == K_HAS) && !live.count(u) && !meta_at(u)))) flt.kind = 0;
    auto fail_ok = [&](bool fired) { return fired; };
    bool fired = false;
    switch (o.kind) {
    case K_CREATE: {
      int mk = o.a[2] % NMETA;
      if (ensure_meta(mk)) break;
      std::vector<size_t> dims;
      Rng r(o.a[4]);
      for (size_t d = 0; d < metas[mk].m.dims.size(); d++) dims.push_back(r.below(4));
      bool null_id = o.a[5] % 6 == 0;
      if (!null_id && o.a[5] % 3 == 1 && live.count(u)) { mk = live[u].meta; dims = live[u].dims; }     // often a matching request
      size_t dd[8] = {0}; std::copy(dims.begin(), dims.end(), dd);
      const char *idp = null_id ? ((o.a[5] & 8) ? "" : nullptr) : form.c_str();
      seam_arm(flt);
      DLiteInstance *p = (o.a[1] & 64) ? dlite_instance_create_from_id(metas[mk].m.uri.c_str(), dd, idp)
                                       : dlite_instance_create(metas[mk].p, dd, idp);
      fired = seam_disarm();
      std::string e = last_err();
      log_hash(p != nullptr);
      if (null_id) {
        if (!p) { if (!fail_ok(fired)) violation("create-failed", "op %d: creating an instance with no id failed: %s", i, e.c_str()); break; }
        std::string nu = p->uuid;
        eval();
        if (!isuuid_m(nu) || nu[14] != '4' || !strchr("89ab", nu[19]) || nu != lower(nu)) violation("bad-uuid", "op %d: '%s' is not a version 4 uuid", i, nu.c_str());
        if (fresh.count(nu) || live.count(nu)) violation("uuid-not-unique", "op %d: random uuid %s was handed out before", i, nu.c_str());
        fresh.insert(nu);
        got(i, p, nu, "", mk, dims, cl);
        break;
      }
      if (live.count(u)) {
        Obj &x = live[u];
        bool match = x.meta == mk && x.dims == dims;
        eval();
        if (match) {
          if (!p) { if (!fail_ok(fired)) violation("create-failed", "op %d: re-creating the live %s failed: %s", i, form.c_str(), e.c_str()); break; }
          if (p != x.p) violation("identity", "op %d: creating the live id %s gave another object", i, form.c_str());
          x.refs[cl]++;
        } else if (p) violation("clash-accepted", "op %d: id %s is in use with other metadata or dimensions, but creating it succeeded", i, form.c_str());
        break;
      }
      if (meta_at(u)) {
        if (p) violation("clash-accepted", "op %d: id %s is metadata, but a data instance of that id was created", i, form.c_str());
        break;
      }
      if (!p) { if (!fail_ok(fired)) violation("create-failed", "op %d: creating %s failed: %s", i, form.c_str(), e.c_str()); break; }
      bool hashed; uuid_m(form, ns, &hashed);
      eval();
      if (u != p->uuid) violation("wrong-uuid", "op %d: %s got uuid %s, expected %s", i, form.c_str(), p->uuid, u.c_str());
      // everything starts as zero
      for (size_t k = 0; k < metas[mk].m.props.size(); k++) {
        const MProp &mp = metas[mk].m.props[k];
        size_t n = nmemb(mp, dims) * mp.size;
        const u8 *q = (const u8 *)dlite_instance_get_property_by_index(p, k);
        for (size_t b = 0; q && b < n; b++) if (q[b]) violation("not-zeroed", "op %d: property %s of a new instance is not zero", i, mp.name.c_str());
      }
      got(i, p, u, hashed ? form : "", mk, dims, cl);
      break;
    }
    case K_GET: {
      seam_arm(flt);
      DLiteInstance *p = dlite_instance_get(form.c_str());
      fired = seam_disarm();
      last_err();
      eval();
      if (live.count(u)) {
        if (!p) { if (!fail_ok(fired)) violation("lookup-failed", "op %d: the live instance %s is not found", i, form.c_str()); break; }
        if (p != live[u].p) violation("identity", "op %d: getting %s gave another object", i, form.c_str());
        live[u].refs[cl]++;
      } else if (MetaM *m = meta_at(u)) {
        if (!p) { if (!fail_ok(fired)) violation("lookup-failed", "op %d: the metadata %s is not found", i, form.c_str()); break; }
        if (p != (DLiteInstance *)m->p) violation("identity", "op %d: getting metadata %s gave another object", i, form.c_str());
        m->refs++;
      } else if (p) violation("resurrected", "op %d: getting %s gave an instance that nobody holds", i, form.c_str());
      break;
    }
    case K_HAS: {
      seam_arm(flt);
      DLiteInstance *p = dlite_instance_has(form.c_str(), o.a[2] & 1);
      fired = seam_disarm();
      last_err();
      eval();
      DLiteInstance *want = live.count(u) ? live[u].p : meta_at(u) ? (DLiteInstance *)meta_at(u)->p : nullptr;
      if (p != want && !(fired && !p)) violation("identity", "op %d: has(%s) is wrong", i, form.c_str());
      break;
    }
    case K_INCREF:
      if (Obj *x = pick(o)) {
        int n = dlite_instance_incref(x->p);
        x->refs[cl]++;
        eval();
        if (n != x->total()) violation("refcount", "op %d: incref of %s returned %d, expected %d", i, x->uuid.c_str(), n, x->total());
      }
      break;
    case K_DECREF:
      if (Obj *x = pick(o)) {
        int c = cl;
        for (int k = 0; k < NCL && !x->refs[c]; k++) c = (c + 1) % NCL;
        x->refs[c]--;
        int want = x->total();
        std::string uu = x->uuid;
        int n = dlite_instance_decref(x->p);
        eval();
        if (n != want) violation("refcount", "op %d: decref of %s returned %d, expected %d", i, uu.c_str(), n, want);
        if (!want) { live.erase(uu); note_state(mix(hash_str(uu), 99)); }
      }
      break;
    case K_COPY:
      if (Obj *x = pick(o)) {
        bool null_id = o.a[5] % 3 == 0;
        if (!null_id && (live.count(u) || meta_at(u))) break;        // copying onto a live instance is not promised anything
        int sm = x->meta; std::vector<size_t> sd = x->dims;
        seam_arm(flt);
        DLiteInstance *p = dlite_instance_copy(x->p, null_id ? nullptr : form.c_str());
        fired = seam_disarm();
        std::string e = last_err();
        if (!p) { if (!fail_ok(fired)) violation("copy-failed", "op %d: copying %s failed: %s", i, x->uuid.c_str(), e.c_str()); break; }
        bool hashed = false;
        eval();
        if (null_id) {
          u = p->uuid;
          if (!isuuid_m(u) || live.count(u) || fresh.count(u)) violation("uuid-not-unique", "op %d: copy got uuid %s", i, u.c_str());
          fresh.insert(u);
        } else {
          uuid_m(form, ns, &hashed);
          if (u != p->uuid) violation("wrong-uuid", "op %d: copy to %s got uuid %s, expected %s", i, form.c_str(), p->uuid, u.c_str());
        }
        got(i, p, u, hashed ? form : "", sm, sd, cl);
      }
      break;
    case K_META: {
      int k = o.a[2] % NMETA;
      MMeta m = metas[k].m;
      std::string mu = uuid_m(m.uri, ns);
      bool conflict = o.a[3] % 3 == 0;
      if (conflict) { MProp extra = m.props[0]; extra.name = "extra"; m.props.push_back(extra); }
      bool have = metas[k].p, taken = live.count(mu);
      if (conflict && !have && !taken) break;
      seam_arm(flt);
      DLiteMeta *p = make_meta(m);
      fired = seam_disarm();
      std::string e = last_err();
      log_hash(p != nullptr);
      eval();
      if (!p) {
        if (!(taken || (have && conflict) || fail_ok(fired))) violation("meta-create-failed", "op %d: cannot create metadata %s: %s", i, m.uri.c_str(), e.c_str());
        // a failed creation may leave nothing behind
        if (!have && !taken && dlite_instance_has(mu.c_str(), false)) violation("half-created-metadata", "op %d: creating metadata %s failed, but it is in the store afterwards", i, m.uri.c_str());
        break;
      }
      if (taken) violation("clash-accepted", "op %d: %s is a data instance, but metadata of that uri was created", i, m.uri.c_str());
      if (have && p != metas[k].p) violation("identity", "op %d: creating the existing metadata %s gave another object", i, m.uri.c_str());
      if (have && conflict) violation("clash-accepted", "op %d: metadata %s exists with another number of properties, but creating it succeeded", i, m.uri.c_str());
      metas[k].p = p; metas[k].refs++;
      break;
    }
    case K_METAREF: {
      MetaM &m = metas[o.a[2] % NMETA];
      if (!m.p) break;
      if (o.a[3] & 1) {
        if (!m.refs) break;
        dlite_meta_decref(m.p); m.refs--;
      } else {
        seam_arm(flt);
        DLiteMeta *p = dlite_meta_get(m.m.uri.c_str());
        fired = seam_disarm(); last_err();
        eval();
        if (p && p != m.p) violation("identity", "op %d: getting metadata %s gave another object", i, m.m.uri.c_str());
        if (!p && !fired) violation("lookup-failed", "op %d: metadata %s is not found", i, m.m.uri.c_str());
        if (p) m.refs++;
      }
      break;
    }
    case K_UUIDS: {
      int n = -1;
      seam_arm(flt);
      char **v = dlite_istore_get_uuids(&n);
      fired = seam_disarm(); last_err();
      if (!v) { if (!fail_ok(fired)) violation("list-failed", "op %d: listing the store failed", i); break; }
      std::set<std::string> s; int k = 0;
      for (; v[k]; k++) { s.insert(v[k]); free(v[k]); }
      free(v);
      eval();
      std::set<std::string> want;
      for (auto &x : live) want.insert(x.first);
      for (auto &m : metas) if (m.p) want.insert(uuid_m(m.m.uri, ns));
      for (auto &x : want) if (!s.count(x)) violation("not-listed", "op %d: %s is alive but not listed", i, x.c_str());
      if (k != n || (int)s.size() != n || s.size() != want.size() + 3) violation("wrong-list", "op %d: %d uuids reported, %d listed, %zu expected", i, n, k, want.size() + 3);
      break;
    }
    case K_SAVE:
      if (live.count(u)) {
        if (dlite_instance_save_loc("json", file(id).c_str(), "mode=w;with-uuid=yes", live[u].p)) violation("save-failed", "op %d: %s", i, last_err().c_str());
        saved[id] = {live[u].meta, live[u].dims};
      }
      break;
    case K_LOAD:
      if (saved.count(id)) {
        seam_arm(flt);
        std::string url = "json://" + file(id) + "?mode=r#" + form;
        DLiteInstance *p = (o.a[2] & 1) ? dlite_instance_load_loc("json", file(id).c_str(), "mode=r", form.c_str()) : dlite_instance_load_url(url.c_str());
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        log_hash(p != nullptr);
        if (live.count(u)) {
          if (!p) { if (!fail_ok(fired)) violation("load-failed", "op %d: loading the live %s failed: %s", i, form.c_str(), e.c_str()); break; }
          if (p != live[u].p) violation("identity", "op %d: loading the live %s gave another object", i, form.c_str());
          live[u].refs[cl]++;
        } else if (meta_at(u)) {
          if (p && p != (DLiteInstance *)meta_at(u)->p) violation("identity", "op %d: loading %s gave another object than the live metadata", i, form.c_str());
          if (p) meta_at(u)->refs++;
        } else {
          if (!p) { if (!fail_ok(fired)) violation("load-failed", "op %d: loading %s failed: %s", i, form.c_str(), e.c_str()); break; }
          if (u != p->uuid) violation("wrong-uuid", "op %d: loading %s gave an instance with uuid %s", i, form.c_str(), p->uuid);
          std::string uri = p->uri ? p->uri : "";
          if (!uri.empty() && uuid_m(uri, ns) != u) violation("uri-differs", "op %d: loading %s gave an instance with the uri %s of another instance", i, form.c_str(), uri.c_str());
          got(i, p, u, uri, saved[id].first, saved[id].second, cl);
        }
      }
      break;
    case K_JSON:                            // an instance received as a JSON text
      if (live.count(u)) {
        Obj &x = live[u];
        char *buf = dlite_json_aprint(x.p, 0, (DLiteJsonFlag)dliteJsonWithUuid);
        if (!buf) violation("print-failed", "op %d: %s", i, last_err().c_str());
        bool gone = (o.a[2] & 1) && x.total() == x.refs[cl];
        Obj old = x;
        if (gone) { while (old.refs[cl]) { dlite_instance_decref(old.p); old.refs[cl]--; } live.erase(u); }
        seam_arm(flt);
        DLiteInstance *p = dlite_json_sscan(buf, (o.a[2] & 2) ? nullptr : u.c_str(), nullptr);
        fired = seam_disarm();
        std::string e = last_err();
        free(buf);
        eval();
        log_hash(p != nullptr);
        if (!p) { if (!fail_ok(fired)) violation("parse-failed", "op %d: an instance printed as JSON cannot be read back: %s", i, e.c_str()); break; }
        if (!gone) {
          if (p != x.p) violation("identity", "op %d: reading the live %s from JSON gave another object", i, u.c_str());
          x.refs[cl]++;
        } else {
          if (u != p->uuid) violation("wrong-uuid", "op %d: reading %s from JSON gave uuid %s", i, u.c_str(), p->uuid);
          std::string uri = p->uri ? p->uri : "";
          if (!uri.empty() && uuid_m(uri, ns) != u) violation("uri-differs", "op %d: reading %s from JSON gave the uri %s of another instance", i, u.c_str(), uri.c_str());
          got(i, p, u, uri, old.meta, old.dims, cl);
        }
      }
      break;
    case K_BADID: {
      static const char *bad[] = {"http://nowhere.org/0.1/Missing", "missing-name", "00000000-0000-4000-8000-000000000000", "", "http://nowhere.org/a/00000000-0000-4000-8000-000000000000"};
      const char *b = bad[o.a[2] % 5];
      seam_arm(flt);
      size_t dd[8] = {1, 1, 1, 1, 1, 1, 1, 1};
      DLiteInstance *p = (o.a[3] & 1) ? dlite_instance_get(b) : dlite_instance_create_from_id(b, dd, form.c_str());
      seam_disarm(); last_err();
      eval();
      if (p) violation("resurrected", "op %d: something was found or created from the unknown id '%s'", i, b);
      break;
    }
    }
    if (fired) faulted = true;
    check(i, names4[o.kind]);
  }
  void release_all() {
    for (auto &x : live) {
      int n = x.second.total();
      while (n-- > 0) { int k = dlite_instance_decref(x.second.p); if (k != n) violation("refcount", "at the end: decref of %s returned %d, expected %d", x.first.c_str(), k, n); }
    }
    live.clear();
    for (auto &m : metas) while (m.refs > 0) { dlite_meta_decref(m.p); m.refs--; }
    check(-1, "releasing everything");
  }
};

void run4(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  err_set_stream(nullptr);
  Store s(ctx.seed, t);
  dlite_behavior_set("namespacedID", s.ns);
  // load what the library loads on first use before any fault
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  { int n; char **v = dlite_istore_get_uuids(&n); for (int k = 0; v && v[k]; k++) free(v[k]); free(v); }
  last_err();
  bool faults = false;
  for (auto &o : t) if (o.f.kind) faults = true;
  // A fault-free history is repeated: once warm, it must not use more memory each time.
  int passes = !faults ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    for (u32 i = start; i < t.size(); i++) {
      shm->opidx = i; shm->nops++;
      say("op %u: %s id %d form %d fault %u/%u/%u", i, names4[t[i].kind], t[i].a[0] % NID, t[i].a[1] % 5, t[i].f.kind, t[i].f.nth, t[i].f.arg);
      s.op(i);
      seam_disarm();
    }
    s.release_all();
    s.saved.clear();
    { std::set<std::string>().swap(s.fresh); }
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {   // (a table may grow once more, a leak grows every time)
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}

Trace gen4(Rng &r, u64) {
  Trace t; int n = r.range(8, 60);
  static const u32 w[] = {K_CREATE, K_CREATE, K_CREATE, K_CREATE, K_CREATE, K_CREATE, K_GET, K_GET, K_HAS, K_INCREF, K_DECREF, K_DECREF, K_DECREF, K_DECREF,
                          K_COPY, K_COPY, K_META, K_META, K_METAREF, K_UUIDS, K_SAVE, K_SAVE, K_LOAD, K_LOAD, K_LOAD, K_BADID, K_JSON, K_JSON};
  bool faults = r.chance(5, 6);
  for (int i = 0; i < n; i++) {
    Op o; o.client = r.below(NCL); o.kind = w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 16);
    if (faults && r.chance(1, 3)) {
      if (o.kind == K_LOAD) { o.f.kind = r.chance(1, 2) ? F_READ_EIO : F_OPEN_FAIL; o.f.nth = r.range(1, 3); }
      else if (o.kind == K_CREATE && r.chance(1, 6)) { o.f.kind = r.chance(1, 2) ? F_RANDOM_FAIL : F_RANDOM_SHORT; o.f.nth = 1; o.f.arg = r.below(100); }
      else if (o.kind != K_JSON && o.kind != K_SAVE) { o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(1, 2) ? r.range(1, 4) : r.range(1, 40); o.f.arg = r.chance(1, 6); }
    }
    t.push_back(o);
  }
  return t;
}
Register r4({"S04", 6000, 150000, 0, gen4, run4, opname4,
  "distinct (instance, number of live instances) pairs reached by creations and final releases that agreed with the reference counts of the model",
  "libdlite, libdlite-utils, json storage plugin", "memory allocation failures, entropy, file calls (seam)"});
}  // namespace
