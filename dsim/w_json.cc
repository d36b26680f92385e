// JSON world (S11): every way to write instances and metadata as JSON and to read them back,
// over a channel that loses, repeats, truncates and garbles messages; and the JSON store as a map.
#include "model.h"
#include <sys/stat.h>
extern "C" {
#include "dlite-json.h"
#include "utils/jstore.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { J_NEW, J_CHANGE, J_DROP, J_SNAP, J_ENC, J_APPEND, J_DEC, J_META, J_CHECK, J_ITER, J_DAMAGE,
       J_SADD, J_SREMOVE, J_SUPDATE, J_SFROMSTR, J_SFROMFILE, J_STOFILE, J_SUPDFILE, J_STOSTR, J_SLABEL, J_SREAD, J_BADTEXT, J_EDIT, J_NK };
const char *names11[] = {"new", "change", "drop", "snapshot", "encode", "append", "decode", "metadata", "check", "iterate", "damage",
                         "store_add", "store_remove", "store_update", "store_from_string", "store_from_file", "store_to_file", "store_update_file", "store_to_string", "store_label", "store_read", "bad_text", "edit"};
const char *opname11(u32 k) { return k < J_NK ? names11[k] : "?"; }
enum { NM = 3, NO = 6, NMSG = 6, NS = 2, NF = 3 };

// ---- an independent JSON reader: strict grammar, no repeated keys -----------
struct JV { char t = 0; std::string raw, s; std::vector<std::pair<std::string, JV>> o; std::vector<JV> a;
  const JV *get(const char *k) const { for (auto &x : o) if (x.first == k) return &x.second; return nullptr; } };
struct Parser {
  const char *p, *e; bool ok = true;
  void ws() { while (p < e && strchr(" \t\r\n", *p) && *p) p++; }
  bool lit(const char *s) { size_t n = strlen(s); if ((size_t)(e - p) >= n && !memcmp(p, s, n)) { p += n; return true; } return false; }
  std::string str() {
    std::string out;
    if (p >= e || *p != '"') { ok = false; return out; }
    for (p++; p < e && *p != '"'; p++) {
      if ((u8)*p < 0x20) { ok = false; return out; }
      if (*p != '\\') { out += *p; continue; }
      if (++p >= e) break;
      if (*p == 'u') { for (int i = 1; i < 5; i++) if (p + i >= e || !isxdigit(p[i])) { ok = false; return out; } out += "\\u"; out.append(p + 1, 4); p += 4; continue; }
      const char *f = "\"\\/bfnrt", *q = strchr(f, *p); if (!q || !*p) { ok = false; return out; }
      out += "\"\\/\b\f\n\r\t"[q - f];
    }
    if (p >= e) { ok = false; return out; }
    p++; return out;
  }
  JV val(int depth = 0) {
    JV v; ws(); const char *b = p;
    if (p >= e || depth > 50) { ok = false; return v; }
    if (*p == '{') {
      v.t = 'o'; p++; ws();
      if (p < e && *p == '}') p++;
      else for (;;) {
        ws(); std::string k = str(); ws();
        if (!ok || p >= e || *p != ':') { ok = false; return v; }
        p++; if (v.get(k.c_str())) ok = false;
        v.o.emplace_back(k, val(depth + 1)); ws();
        if (!ok) return v;
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == '}') { p++; break; }
        ok = false; return v;
      }
    } else if (*p == '[') {
      v.t = 'a'; p++; ws();
      if (p < e && *p == ']') p++;
      else for (;;) {
        v.a.push_back(val(depth + 1)); ws();
        if (!ok) return v;
        if (p < e && *p == ',') { p++; continue; }
        if (p < e && *p == ']') { p++; break; }
        ok = false; return v;
      }
    } else if (*p == '"') { v.t = 's'; v.s = str(); }
    else if (lit("true") || lit("false") || lit("null")) v.t = 'p';
    else {
      v.t = 'n'; if (*p == '-') p++;
      if (p >= e || !isdigit(*p)) { ok = false; return v; }
      while (p < e && (isalnum(*p) || strchr("+-.", *p))) p++;
    }
    v.raw.assign(b, p); return v;
  }
};
bool parse(const std::string &s, JV &v) { Parser p{s.data(), s.data() + s.size()}; v = p.val(); p.ws(); return p.ok && p.p == p.e; }

struct Ent { int obj, ver; std::string uuid; bool anon = false; };       // anon: nothing in the text tells its id
struct Msg { std::string text; std::vector<Ent> e; bool single = false, urikey = false, withuuid = false; int damage = 0; };   // 1 truncated, 2 garbled
struct Obj { DLiteInstance *p = nullptr; int ver = 0; bool parent = false; };
struct FileS { bool known = false, exists = false; std::map<std::string, std::string> m; };
typedef std::map<std::string, std::string> Map;

std::vector<MMeta> metas; DLiteMeta *dm[NM];       // stay until the process ends
std::set<std::string> seen_meta;

struct J {
  const Trace &t; u64 seed; Caps caps;
  Obj objs[NO]; std::vector<Msg> msgs;
  JStore *st[NS]; Map m[NS], lab[NS]; FileS file[NF];
  bool garbled = false, snaps = false;

  J(u64 s, const Trace &t_) : t(t_), seed(s) { caps.big = 12; }
  MInst model(int k, int ver) { return gen_inst(seed, metas, k, ver, caps); }
  std::string fpath(int f) { return ctx.dir + "/d/f" + std::to_string(f) + ".json"; }

  // ---- invariants -----------------------------------------------------------
  void check(int i, const char *what) {
    int use[NM] = {0};
    for (int k = 0; k < NO; k++) if (objs[k].p) {
      eval();
      MInst mi = model(k, objs[k].ver); use[mi.meta] += 1;
      if (objs[k].p->_refcount != 1) violation("refcount", "op %d (%s): instance %d has %d references, expected 1", i, what, k, objs[k].p->_refcount);
      std::string d = diff_inst(objs[k].p, mi, metas);
      if (!d.empty()) violation("instance-changed", "op %d (%s): instance %d changed: %s", i, what, k, d.c_str());
    }
    if (!garbled && !snaps) for (int j = 0; j < NM; j++) if (dm[j]->_refcount != 2 + use[j]) violation("meta-refcount", "op %d (%s): metadata %d has %d references, expected %d", i, what, j, dm[j]->_refcount, 2 + use[j]);
  }
  void check_store(int i, const char *what, int s) {
    eval();
    if (jstore_count(st[s]) != (int)m[s].size()) violation("store-count", "op %d (%s): the store has %d elements, expected %zu", i, what, jstore_count(st[s]), m[s].size());
    for (auto &x : m[s]) { const char *v = jstore_get(st[s], x.first.c_str()); if (!v || x.second != v) violation("store-value", "op %d (%s): key %s has value %s, expected %s", i, what, x.first.c_str(), v ? v : "(none)", x.second.c_str()); }
    const char *k = jstore_get_single_key(st[s]);
    if (!k != (m[s].size() != 1) || (k && m[s].begin()->first != k)) violation("store-single-key", "op %d (%s): single key is %s in a store with %zu elements", i, what, k ? k : "(none)", m[s].size());
    for (auto &x : lab[s]) { const char *v = jstore_get_label(st[s], x.first.c_str()); if (!v || x.second != v) violation("store-label", "op %d (%s): key %s has label %s, expected %s", i, what, x.first.c_str(), v ? v : "(none)", x.second.c_str()); }
    log_hash(m[s].size());
  }
  // only what `before` or `after` holds may be there; takes over what is there
  void check_partial(int i, const char *what, int s, const Map &after) {
    Map now; JStoreIter it; jstore_iter_init(st[s], &it); const char *k;
    while ((k = jstore_iter_next(&it))) now[k] = jstore_get(st[s], k);
    for (auto &x : m[s]) if (!now.count(x.first)) violation("store-lost", "op %d (%s): key %s is lost by an operation that failed", i, what, x.first.c_str());
    for (auto &x : now) {
      auto is = [&](const Map &q) { auto a = q.find(x.first); return a != q.end() && a->second == x.second; };
      if (!is(m[s]) && !is(after)) violation("store-value", "op %d (%s): key %s has value %s after a failing operation", i, what, x.first.c_str(), x.second.c_str());
    }
    m[s] = now;
  }
  void failed(int i, const char *what, bool fired, const std::string &e) {
    eval();
    if (!fired) violation("operation-failed", "op %d (%s) failed: %s", i, what, e.c_str());
    if (e.empty()) violation("silent-failure", "op %d (%s) failed without an error", i, what);
  }
  void succeeded(int i, const char *what, const std::string &e) {
    eval();
    if (!e.empty()) violation("error-on-success", "op %d (%s) succeeded but left an error: %s", i, what, e.c_str());
  }
  int pick(u32 r) { for (int k = 0; k < NO; k++) { int j = (r + k) % NO; if (objs[j].p) return j; } return -1; }

  // ---- what the text must look like ------------------------------------------
  void check_text(int i, const std::string &s, DLiteInstance *p, int flags, const MInst *mi) {
    JV v; eval();
    if (!parse(s, v) || v.t != 'o') violation("invalid-json", "op %d: the output is not valid JSON: %.300s", i, s.c_str());
    const JV *e = &v;
    if (!(flags & dliteJsonSingle)) {
      std::string key = flags & dliteJsonUriKey && p->uri ? p->uri : p->uuid;
      if (v.o.size() != 1 || v.o[0].first != key) violation("wrong-key", "op %d: the key of the entity is not %s", i, key.c_str());
      e = &v.o[0].second;
    }
    check_entity(i, *e, p, flags, mi);
  }
  void check_entity(int i, const JV &e, DLiteInstance *p, int flags, const MInst *mi) {
    const JV *x = e.get("uri");
    if (!x != !p->uri || (x && x->s != p->uri)) violation("wrong-uri", "op %d: the uri in the text is %s", i, x ? x->s.c_str() : "missing");
    x = e.get("uuid");
    if (!x != !(flags & dliteJsonWithUuid) || (x && x->s != p->uuid)) violation("wrong-uuid", "op %d: the uuid in the text is %s", i, x ? x->s.c_str() : "missing");
    x = e.get("meta");
    if (!x != !(mi || flags & dliteJsonWithMeta) || (x && x->s != p->meta->uri)) violation("wrong-meta", "op %d: the metadata in the text is %s", i, x ? x->s.c_str() : "missing");
    x = e.get("parent");
    bool par = p->_parent && !(flags & dliteJsonNoParent);
    if (!x != !par || (x && (!x->get("uuid") || x->get("uuid")->s != p->_parent->uuid || !x->get("hash")))) violation("wrong-parent", "op %d: the parent in the text is %s", i, x ? x->raw.c_str() : "missing");
    const JV *d = e.get("dimensions"), *q = e.get("properties");
    if (!q) violation("wrong-text", "op %d: no properties in the text", i);
    if (!mi) { if (q->t != (flags & dliteJsonArrays ? 'a' : 'o')) violation("wrong-text", "op %d: the format of the metadata is wrong", i); return; }
    const MMeta &mm = metas[mi->meta];
    if (!d || d->o.size() != mm.dims.size() || q->o.size() != mm.props.size()) violation("wrong-text", "op %d: wrong number of dimensions or properties in the text", i);
    for (size_t k = 0; k < mm.dims.size(); k++) { x = d->get(mm.dims[k].c_str()); if (!x || x->raw != std::to_string(mi->dims[k])) violation("wrong-text", "op %d: dimension %s is %s in the text", i, mm.dims[k].c_str(), x ? x->raw.c_str() : "missing"); }
    for (auto &pr : mm.props) if (!q->get(pr.name.c_str())) violation("wrong-text", "op %d: property %s is missing in the text", i, pr.name.c_str());
  }
  std::string reference(DLiteInstance *p, int indent, int flags) {
    char *s = dlite_json_aprint(p, indent, (DLiteJsonFlag)flags);
    if (!s) violation("operation-failed", "printing failed: %s", last_err().c_str());
    std::string r = s; free(s); last_err(); return r;
  }

  // ---- writing ------------------------------------------------------------------
  // writes `p` in the way given by `o` and returns whether that succeeded; the text is that of reference()
  bool encode(int i, const Op &o, DLiteInstance *p, int indent, int flags, std::string &want, int way) {
    bool fired; std::string got, e; const char *what = "print"; int n = -1; long expect = want.size();
    size_t guard = 16;
    switch (way) {
    case 0: {
      what = "aprint"; seam_arm(o.f); char *s = dlite_json_aprint(p, indent, (DLiteJsonFlag)flags); fired = seam_disarm();
      n = s ? (int)strlen(s) : -1; if (s) got = s; free(s);
    } break;
    case 1: {
      what = "sprint"; size_t N = want.size();
      size_t size = o.a[3] % 4 == 0 ? 0 : o.a[3] % 4 == 1 ? N + 1 : o.a[3] % 4 == 2 ? o.a[4] % (N + 1) : N + 1 + o.a[4] % 50;
      std::vector<char> buf(size + guard, '\x7e');
      seam_arm(o.f); n = dlite_json_sprint(size ? buf.data() : o.a[4] & 1 ? nullptr : buf.data(), size, p, indent, (DLiteJsonFlag)flags); fired = seam_disarm();
      for (size_t k = size; k < buf.size(); k++) if (buf[k] != '\x7e') violation("buffer-overrun", "op %d: writing to a buffer of size %zu changed byte %zu", i, size, k);
      if (n >= 0 && size) {
        size_t k = std::min(N, size - 1);
        if (memcmp(buf.data(), want.data(), k) || buf[k]) violation("wrong-text", "op %d: what is written to a buffer of size %zu is not the beginning of the text", i, size);
      }
      got = want;
    } break;
    case 2: {
      what = "asprint"; size_t size = o.a[3] % 3 == 0 ? 0 : o.a[3] % 300 + (o.a[3] & 1 ? 2000 : 0), pos = o.a[4] % 5 == 0 ? 0 : size ? o.a[4] % (size + 40) : o.a[4] % 50;
      char *buf = nullptr; size_t bs = size;
      if (size) { buf = (char *)malloc(size); memset(buf, '\x7e', size); }
      seam_arm(o.f); n = dlite_json_asprint(&buf, &bs, pos, p, indent, (DLiteJsonFlag)flags); fired = seam_disarm();
      for (size_t k = 0; buf && k < std::min(size, pos); k++) if (buf[k] != '\x7e') violation("buffer-overrun", "op %d: writing at position %zu changed byte %zu", i, pos, k);
      if (n >= 0) {
        if (!buf || bs < pos + want.size() + 1) violation("wrong-size", "op %d: %zu bytes at position %zu do not fit in the %zu bytes of the buffer", i, want.size(), pos, bs);
        for (size_t k = size; k < pos; k++) if (buf[k] != ' ') violation("no-filling", "op %d: byte %zu between the old end %zu and position %zu is not a space", i, k, size, pos);
        got = buf + pos;
      }
      free(buf);
    } break;
    case 3: case 4: {
      what = way == 3 ? "fprint" : "printfile";
      std::string f = ctx.dir + "/d/out.json";
      if (way == 4) { indent = 0; want = reference(p, 0, flags); expect = want.size(); }
      FILE *fp = nullptr;
      if (way == 3 && !(fp = fopen(f.c_str(), "w"))) violation("setup", "open");
      seam_arm(o.f);
      n = way == 3 ? dlite_json_fprint(fp, p, indent, (DLiteJsonFlag)flags) : dlite_json_printfile(f.c_str(), p, (DLiteJsonFlag)flags);
      bool bad = fp && fclose(fp);
      fired = seam_disarm();
      if (bad && n >= 0) { last_err(); unlink(f.c_str()); return false; }     // reported when closing the stream
      if (n >= 0) { got = read_file(f); if (got != want + "\n") violation("wrong-text", "op %d (%s): the file holds %zu bytes instead of %zu", i, what, got.size(), want.size() + 1); got.pop_back(); }
      unlink(f.c_str());
    } break;
    case 5: case 6: {
      what = way == 5 ? "memsave" : "to_memory";
      std::string opt = "indent=" + std::to_string(indent) + ";single=" + (flags & dliteJsonSingle ? "yes" : "no") + ";uri-key=" + (flags & dliteJsonUriKey ? "true" : "false")
        + ";with-uuid=" + (flags & dliteJsonWithUuid ? "1" : "0") + ";with-meta=" + (flags & dliteJsonWithMeta ? "true" : "no") + ";arrays=" + (flags & dliteJsonArrays ? "on" : "off")
        + ";no-parent=" + (flags & dliteJsonNoParent ? "true" : "false") + ";compact=" + (flags & dliteJsonCompactRel ? "true" : "false");
      if (way == 5) {
        size_t N = want.size(), size = o.a[3] & 1 ? N + 1 : o.a[3] & 2 ? 0 : o.a[4] % (N + 20);
        std::vector<unsigned char> buf(size + guard, 0x7e);
        seam_arm(o.f); n = dlite_instance_memsave("json", buf.data(), size, p, opt.c_str()); fired = seam_disarm();
        for (size_t k = size; k < buf.size(); k++) if (buf[k] != 0x7e) violation("buffer-overrun", "op %d: saving to a buffer of size %zu changed byte %zu", i, size, k);
        if (n >= 0 && size && memcmp(buf.data(), want.data(), std::min(N, size - 1))) violation("wrong-text", "op %d: what is saved to a buffer of size %zu is not the beginning of the text", i, size);
        got = want;
      } else {
        seam_arm(o.f); unsigned char *b = dlite_instance_to_memory("json", p, opt.c_str()); fired = seam_disarm();
        if (b) { n = want.size(); if (memcmp(b, want.data(), want.size())) violation("wrong-text", "op %d: the buffer does not hold the text", i); got = want; }
        free(b);
      }
    } break;
    default: {
      what = "jstore_add"; JStore *js = jstore_open(); char *s = nullptr;
      want = "{\n  \"" + std::string(p->uuid) + "\": " + reference(p, 2, flags | dliteJsonSingle) + "\n}\n"; expect = want.size();
      seam_arm(o.f); int r = dlite_jstore_add(js, p, (DLiteJsonFlag)flags); if (!r) s = jstore_to_string(js); fired = seam_disarm();
      n = s ? (int)strlen(s) : -1; if (s) got = s;
      if (r && jstore_count(js)) violation("store-count", "op %d: adding an instance failed, but the store is not empty", i);
      free(s); jstore_close(js);
    }
    }
    e = last_err();
    if (n < 0) { failed(i, what, fired, e); return false; }
    succeeded(i, what, e);
    if (n != expect) violation("wrong-length", "op %d (%s): the returned length is %d, the text has %ld bytes", i, what, n, expect);
    if (got != want) violation("wrong-text", "op %d (%s): the text differs from that of other ways to print it", i, what);
    log_hash(hash_str(got));
    return true;
  }

  // ---- reading ------------------------------------------------------------------
  // how: 0 sscan, 1 memload, 2 fscan, 3 scanfile, 4 jstore
  DLiteInstance *decode(const std::string &text, int how, const char *id, const char *metaid, const Fault &f, bool &fired) {
    DLiteInstance *p = nullptr;
    std::string fn = ctx.dir + "/d/in.json";
    std::unique_ptr<char[]> buf(new char[text.size() + 1]); memcpy(buf.get(), text.c_str(), text.size() + 1);
    std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size());
    switch (how) {
    case 0: seam_arm(f); p = dlite_json_sscan(buf.get(), id, metaid); fired = seam_disarm(); break;
    case 1: seam_arm(f); p = dlite_instance_memload("json", (unsigned char *)exact.get(), text.size(), id, f.arg & 2 ? nullptr : "mode=r", nullptr); fired = seam_disarm(); break;
    case 2: {
      write_file(fn, text); FILE *fp = fopen(fn.c_str(), "r"); if (!fp) violation("setup", "open");
      seam_arm(f); p = dlite_json_fscan(fp, id, metaid); fclose(fp); fired = seam_disarm(); unlink(fn.c_str());
    } break;
    case 3: write_file(fn, text); seam_arm(f); p = dlite_json_scanfile(fn.c_str(), id, metaid); fired = seam_disarm(); unlink(fn.c_str()); break;
    default: {
      JStore *js = jstore_open(); seam_arm(f);
      if (dlite_jstore_loads(js, exact.get(), text.size()) >= 0) { const char *k = id ? id : jstore_get_single_key(js); if (k) p = dlite_jstore_get(js, k); else err(1, "more than one"); }
      fired = seam_disarm(); jstore_close(js);
    }
    }
    return p;
  }
  void do_decode(int i, const Op &o) {
    if (msgs.empty()) return;
    Msg &msg = msgs[o.a[0] % msgs.size()];
    if (msg.e.empty()) return;
    int how = o.a[1] % 5;
    const Ent &en = msg.e[o.a[2] % msg.e.size()];
    MInst mi = model(en.obj, en.ver);
    Obj &ob = objs[en.obj];
    bool isuuid = dlite_isuuid(mi.id.c_str());
    std::string id = isuuid || o.a[3] & 1 ? uuid_of(mi.id) : mi.id, muri = metas[mi.meta].uri, muuid = uuid_of(muri);
    const char *pid = id.c_str(), *pmeta = nullptr;
    bool want = true, wrong = false;
    if (o.a[3] % 5 == 0 && msg.e.size() == 1) pid = o.a[3] & 8 ? "" : nullptr;
    if (how == 4 && pid && !*pid) pid = nullptr;
    if (how == 0 || how == 2 || how == 3) switch (o.a[4] % 6) {
      case 0: pmeta = muri.c_str(); break;
      case 1: pmeta = muuid.c_str(); break;
      case 2: muri = metas[(mi.meta + 1) % NM].uri; pmeta = muri.c_str(); want = false; wrong = true; break;
    }
    if (o.a[3] % 7 == 3 && !msg.single) { id = gen_id(o.a[4]); pid = id.c_str(); want = false; }      // not there
    if (o.a[3] % 11 == 5 && msg.e.size() > 1) {                                                    // only one may match
      pid = o.a[3] & 16 ? nullptr : ""; if (how == 4) pid = nullptr;
      int n = 0; for (auto &x : msg.e) n += !pmeta || metas[model(x.obj, x.ver).meta].uri == muri || uuid_of(metas[model(x.obj, x.ver).meta].uri) == muri;
      if (wrong) { pmeta = nullptr; wrong = false; n = msg.e.size(); }
      want = n == 1;
    }
    if (msg.single && en.anon && (!pid || !*pid)) return;                                                      // gets a new id each time
    if (en.anon && (how == 1 || how == 4)) want = false;
    if (msg.damage == 1) want = false;
    if (msg.damage == 2) { garble(i, msg, how, pid, pmeta, o); return; }
    int before = ob.p ? ob.p->_refcount : 0;
    std::string e; bool fired;
    DLiteInstance *p = decode(msg.text, how, pid, pmeta, o.f, fired);
    e = last_err(); eval();
    static const char *hn[] = {"sscan", "memload", "fscan", "scanfile", "jstore_get"};
    const char *what = hn[how];
    log_hash(p != nullptr);
    if (!p) {
      if (want && !fired) violation("not-decoded", "op %d (%s): reading id %s failed: %s", i, what, pid ? pid : "(none)", e.c_str());
      if (e.empty()) violation("silent-failure", "op %d (%s): reading failed without an error", i, what);
      DLiteInstance *q = dlite_instance_has(uuid_of(mi.id).c_str(), false); last_err();
      if (q != ob.p) violation("instance-not-released", "op %d (%s): reading failed, but the instance is in memory", i, what);
      return;
    }
    if (!want) violation(msg.damage ? "damage-ignored" : wrong ? "wrong-meta-accepted" : "decoded-from-nothing", "op %d (%s): reading id %s from %s text succeeded", i, what, pid ? pid : "(none)", msg.damage ? "truncated" : "other");
    if (ob.p) {
      if (p != ob.p) violation("duplicate-instance", "op %d (%s): a second instance with the same id was created", i, what);
      if (p->_refcount != before + 1) violation("refcount", "op %d (%s): the instance has %d references, expected %d", i, what, p->_refcount, before + 1);
      dlite_instance_decref(p); return;
    }
    if (p->_refcount != 1) violation("refcount", "op %d (%s): a new instance has %d references", i, what, p->_refcount);
    std::string d = diff_inst(p, mi, metas);
    if (!d.empty()) violation("round-trip", "op %d (%s): the instance that was read differs: %s", i, what, d.c_str());
    note_state(mix(mix(how, msg.single * 4 + msg.urikey * 2 + msg.withuuid), mix(hash_str(std::to_string(mi.meta)), o.a[4] % 6)));
    if (o.a[5] & 1) { ob.p = p; ob.ver = en.ver; ob.parent = false; return; }
    if (dlite_instance_decref(p)) violation("refcount", "op %d (%s): the instance is alive after releasing it", i, what);
  }
  static std::string gen_id(u32 r) { return r & 1 ? "no-such-instance" : "0a1b2c3d-0000-4000-8000-00000000000" + std::to_string(r % 10); }
  void garble(int i, Msg &msg, int how, const char *pid, const char *pmeta, const Op &o) {      // anything but memory errors and loss of what we have
    bool fired; garbled = true;
    DLiteInstance *p = decode(msg.text, how, pid, pmeta, o.f, fired);
    std::string e = last_err(); eval();
    if (!p && e.empty()) violation("silent-failure", "op %d: reading garbled text failed without an error", i);
    if (p) dlite_instance_decref(p);
  }

  // ---- metadata -----------------------------------------------------------------
  void do_meta(int i, const Op &o) {
    int j = o.a[0] % NM, n = o.a[1] % 3; bool fired;
    DLiteInstance *src = (DLiteInstance *)dm[j];
    int flags = o.a[2] % 128, indent = o.a[3] % 6;
    std::string want = reference(src, indent, flags);
    check_text(i, want, src, flags, nullptr);
    if (o.a[5] % 3 == 0) { encode(i, o, src, indent, flags, want, o.a[4] % 7); return; }
    MMeta mm = metas[j];
    std::string uri = mm.uri + "x" + std::to_string(n), text = want;
    auto sub = [&](const std::string &a, const std::string &b) { for (size_t k = 0; (k = text.find(a, k)) != std::string::npos; k += b.size()) text.replace(k, a.size(), b); };
    std::string ou = src->uuid, nu = uuid_of(uri);
    sub("\"" + mm.uri + "\"", "\"" + uri + "\""); sub(ou, nu);
    mm.uri = uri;
    DLiteInstance *has = dlite_instance_has(nu.c_str(), false); last_err();
    int before = has ? has->_refcount : 0, how = o.a[4] % 5;
    const char *pid = o.a[4] & 8 ? nullptr : o.a[4] & 16 ? nu.c_str() : uri.c_str();
    bool cut = o.a[5] % 7 == 1;
    if (cut) { size_t end = text.rfind('}'); text.resize(o.a[1] * 7919u % end); seam_register_fault(F_FILE_TRUNC); }
    DLiteInstance *p = decode(text, how, pid, nullptr, o.f, fired);
    std::string e = last_err(); eval();
    DLiteInstance *now = dlite_instance_has(nu.c_str(), false); last_err();
    if (!p) {
      if (!fired && !cut) violation("not-decoded", "op %d: reading metadata failed: %s", i, e.c_str());
      if (e.empty()) violation("silent-failure", "op %d: reading metadata failed without an error", i);
      if (now != has) violation("instance-not-released", "op %d: reading metadata failed, but it is in memory", i);
      if (has && has->_refcount != before) violation("refcount", "op %d: failing to read metadata changed its references from %d to %d", i, before, has->_refcount);
      return;
    }
    if (cut) violation("damage-ignored", "op %d: reading truncated metadata succeeded", i);
    if (has && p != has) violation("duplicate-instance", "op %d: second metadata with the same id was created", i);
    if (p->_refcount != (has ? before + 1 : 2)) violation("refcount", "op %d: the metadata has %d references, expected %d", i, p->_refcount, has ? before + 1 : 2);
    std::string d = diff_meta((DLiteMeta *)p, mm);
    if (!d.empty()) violation("round-trip", "op %d: the metadata that was read differs: %s", i, d.c_str());
    note_state(mix(mix(how, flags & 31), 0x777));
    dlite_instance_decref(p);
  }

  void do_check(int i, const Op &o) {
    bool fired; DLiteJsonFlag fl = (DLiteJsonFlag)0x5555; int fmt, want, flags; std::string text, key; DLiteInstance *p; const char *pid = nullptr;
    bool meta = o.a[0] % 3 == 0;
    if (meta) p = (DLiteInstance *)dm[o.a[1] % NM]; else { int k = pick(o.a[1]); if (k < 0) return; p = objs[k].p; }
    flags = o.a[2] % 128; text = reference(p, o.a[3] % 4, flags);
    if (meta && !((DLiteMeta *)p)->_nproperties) return;
    key = flags & dliteJsonUriKey && p->uri ? p->uri : p->uuid;
    if (!(flags & dliteJsonSingle) && o.a[4] & 1) pid = key.c_str();
    std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size());
    int how = o.a[5] % 3; std::string fn = ctx.dir + "/d/chk.json";
    if (how) write_file(fn, text);
    FILE *fp = how == 1 ? fopen(fn.c_str(), "r") : nullptr;
    seam_arm(o.f);
    fmt = how == 0 ? dlite_json_scheck(exact.get(), text.size(), pid, &fl) : how == 1 ? dlite_json_fcheck(fp, pid, &fl) : dlite_json_checkfile(fn.c_str(), pid, &fl);
    fired = seam_disarm();
    if (fp) fclose(fp);
    unlink(fn.c_str());
    std::string e = last_err();
    if (fmt < 0) { failed(i, "check", fired, e); return; }
    succeeded(i, "check", e);
    want = meta ? dliteJsonMetaFormat : dliteJsonDataFormat;
    if (fmt != want) violation("wrong-format", "op %d: the format of %s is found to be %d: %.200s", i, meta ? "metadata" : "data", fmt, text.c_str());
    int wf = (flags & (dliteJsonSingle | dliteJsonWithUuid)) | (!meta || flags & dliteJsonWithMeta ? dliteJsonWithMeta : 0) | (meta && flags & dliteJsonArrays ? dliteJsonArrays : 0)
      | (!(flags & dliteJsonSingle) && flags & dliteJsonUriKey && p->uri ? dliteJsonUriKey : 0);
    if (fl != wf) violation("wrong-flags", "op %d: the flags of the text are found to be %d, expected %d: %.200s", i, fl, wf, text.c_str());
  }
  void do_iter(int i, const Op &o) {
    if (msgs.empty()) return;
    Msg &msg = msgs[o.a[0] % msgs.size()];
    if (msg.single || msg.damage) return;
    int mk = o.a[1] % 3 ? o.a[1] % NM : -1; bool fired;
    std::string mid = mk < 0 ? "" : o.a[2] & 1 ? metas[mk].uri : uuid_of(metas[mk].uri);
    std::unique_ptr<char[]> exact(new char[msg.text.size()]); memcpy(exact.get(), msg.text.data(), msg.text.size());
    std::multiset<std::string> got, want;
    for (auto &x : msg.e) { MInst mi = model(x.obj, x.ver); if (mk < 0 || mi.meta == mk) want.insert(x.uuid); }
    int how = o.a[3] & 1; bool done = false;
    JStore *js = how ? jstore_open() : nullptr;
    seam_arm(o.f);
    if (!how) {
      if (DLiteJsonIter *it = dlite_json_iter_create(exact.get(), msg.text.size(), mk < 0 ? nullptr : mid.c_str())) {
        const char *s; int n;
        while ((s = dlite_json_next(it, &n))) { seam_pause(true); char u[DLITE_UUID_LENGTH + 1]; dlite_get_uuidn(u, s, n); got.insert(u); seam_pause(false); }
        dlite_json_iter_free(it); done = true;
      }
    } else if (dlite_jstore_loads(js, exact.get(), msg.text.size()) >= 0) {
      if (DLiteJStoreIter *it = dlite_jstore_iter_create(js, mk < 0 ? nullptr : o.a[2] & 2 ? (metas[mk].uri + "*").c_str() : mid.c_str())) {
        const char *s;
        while ((s = dlite_jstore_iter_next(it))) { seam_pause(true); got.insert(s); seam_pause(false); }
        done = !dlite_jstore_iter_status(it); dlite_jstore_iter_free(it);
      }
    }
    fired = seam_disarm();
    if (js) jstore_close(js);
    std::string e = last_err(); eval();
    if (!done || (fired && !e.empty())) { failed(i, "iterate", fired, e); for (auto &x : got) if (!want.count(x)) violation("wrong-instances", "op %d: iterating gives %s", i, x.c_str()); return; }
    succeeded(i, "iterate", e);
    if (got != want) violation("wrong-instances", "op %d: iterating gives %zu instances, expected %zu", i, got.size(), want.size());
  }

  // ---- the generic store --------------------------------------------------------
  static std::string gen_key(u32 r) { static const char *k[] = {"a", "b", "key", "another key", "http://x.org/y#z", "\xc3\xa6\xc3\xb8", "properties", "0", "long-key-0123456789-0123456789-0123456789", "K"}; return k[r % 10]; }
  static std::string gen_val(Rng &r, int depth = 0) {
    static const char *p[] = {"0", "-12.5e3", "true", "null", "\"\"", "\"text\"", "\"a \\\"quoted\\\" \\\\ word\"", "\"\\u00e6\\n\"", "\"{\"", "\"]\"", "[]", "{}"};
    int q = r.below(depth > 2 ? 12 : 16);
    if (q < 12) return p[q];
    std::string s; int n = r.below(4); const char *sp = r.chance(1, 3) ? "\n   " : r.chance(1, 2) ? " " : "";
    bool ob = q & 1; s = ob ? "{" : "[";
    for (int k = 0; k < n; k++) { s += std::string(k ? "," : "") + sp; if (ob) s += "\"k" + std::to_string(k) + "\":" + sp; s += gen_val(r, depth + 1); }
    return s + sp + (ob ? "}" : "]");
  }
  static std::string gen_obj(Rng &r, Map &out, bool repeat) {
    std::string s = r.chance(1, 3) ? " {" : "{"; int n = r.below(6);
    for (int k = 0; k < n; k++) { std::string key = gen_key(r.next()), v = gen_val(r); if (!repeat && out.count(key)) break; out[key] = v; s += std::string(k ? ", " : "") + (r.chance(1, 2) ? "\n" : "") + "\"" + key + "\"" + (r.chance(1, 2) ? " : " : ":") + v; }
    return s + (r.chance(1, 2) ? "\n}\n" : "}");
  }
  std::string show(const Map &x) { std::string s; for (auto &y : x) s += y.first + "=" + y.second.substr(0, 20) + " "; return s.substr(0, 300); }
  void check_obj_text(int i, const char *what, const std::string &s, const Map &want) {
    JV v; Map got; eval();
    if (!parse(s, v) || v.t != 'o') violation("invalid-json", "op %d (%s): the output is not valid JSON: %.200s", i, what, s.c_str());
    for (auto &x : v.o) got[x.first] = x.second.raw;
    if (got != want) violation("store-text", "op %d (%s): the text holds %s, expected %s", i, what, show(got).c_str(), show(want).c_str());
  }
  void store_op(int i, const Op &o) {
    int s = o.a[0] % NS, b = 1 - s, st_ = 0; bool fired = false; std::string e; const char *what = names11[o.kind];
    Rng r(mix(seed, mix(i, o.a[5]))); FileS &f = file[o.a[1] % NF]; std::string fn = fpath(o.a[1] % NF);
    switch (o.kind) {
    case J_SADD: {
      std::string k = gen_key(o.a[1]), v = gen_val(r);
      int way = o.a[2] % 4;
      char *dup = way == 3 ? strdup(v.c_str()) : nullptr;
      std::string k2 = k + "tail", v2 = v + "tail";
      seam_arm(o.f);
      st_ = way == 0 ? jstore_add(st[s], k.c_str(), v.c_str()) : way == 1 ? jstore_addn(st[s], k2.c_str(), k.size(), v2.c_str(), v.size())
        : way == 2 ? jstore_addn(st[s], k.c_str(), 0, v2.c_str(), v.size()) : jstore_addstolen(st[s], k.c_str(), dup);
      fired = seam_disarm(); e = last_err();
      if (!st_) m[s][k] = v;
    } break;
    case J_SREMOVE: {
      std::string k = gen_key(o.a[1]);
      int rr = jstore_remove(st[s], k.c_str()); e = last_err();
      if (rr != (m[s].count(k) ? 0 : 1)) violation("store-remove", "op %d: removing key %s returns %d", i, k.c_str(), rr);
      m[s].erase(k);
    } break;
    case J_SUPDATE: {
      if (o.a[1] % 5 == 0) b = s;
      Map after = m[s]; for (auto &x : m[b]) after[x.first] = x.second;
      seam_arm(o.f); st_ = jstore_update(st[s], st[b]); fired = seam_disarm(); e = last_err();
      if (st_) check_partial(i, what, s, after); else m[s] = after;
      if (b != s) check_store(i, what, b);
    } break;
    case J_SFROMSTR: case J_SFROMFILE: {
      Map add; std::string text = gen_obj(r, add, !o.f.kind && o.kind == J_SFROMSTR); bool bad = o.a[2] % 4 == 0;
      if (bad) switch (o.a[3] % 6) {
        case 0: text.resize(o.a[4] % text.rfind('}')); break;
        case 1: text = "[1, 2]"; break;
        case 2: text = o.a[4] & 1 ? "" : "  \n"; break;
        case 3: text = "\"string\""; break;
        case 4: text.insert(text.find('{') + 1, o.a[4] & 1 ? "\"a\" 1, " : "1: 2, "); break;
        default: text = "not json"; }
      Map after = m[s]; for (auto &x : add) after[x.first] = x.second;
      if (o.kind == J_SFROMSTR) {
        std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size());
        seam_arm(o.f); st_ = jstore_update_from_string(st[s], exact.get(), text.size()); fired = seam_disarm();
      } else {
        if (o.a[2] % 4 == 1) { if (!f.known) break; add = f.m; bad = !f.exists; after = m[s]; for (auto &x : add) after[x.first] = x.second; }
        else { write_file(fn, text); f.exists = true; f.known = !bad; f.m = add; }
        seam_arm(o.f); st_ = jstore_update_from_file(st[s], fn.c_str()); fired = seam_disarm();
      }
      e = last_err();
      if (bad) {
        eval(); seam_register_fault(F_BAD_INPUT);
        if (!st_) violation("bad-input-accepted", "op %d (%s): invalid JSON is accepted: %.100s", i, what, text.c_str());
        if (e.empty()) violation("silent-failure", "op %d (%s): invalid JSON is rejected without an error", i, what);
        st_ = 0; e.clear();
      } else if (st_) check_partial(i, what, s, after);
      else m[s] = after;
    } break;
    case J_STOFILE: case J_SUPDFILE: {
      Map after = m[s]; bool upd = o.kind == J_SUPDFILE;
      if (upd) { if (!f.known) break; for (auto &x : f.m) if (!after.count(x.first)) after[x.first] = x.second; }
      std::string old = f.exists ? read_file(fn) : "";
      bool expect_fail = upd && !f.exists, was = f.exists;
      seam_arm(o.f); st_ = upd ? jstore_update_file(st[s], fn.c_str()) : jstore_to_file(st[s], fn.c_str()); fired = seam_disarm(); e = last_err();
      if (expect_fail) {
        if (!st_) violation("bad-input-accepted", "op %d (%s): updating a file that does not exist succeeded", i, what);
        if (e.empty()) violation("silent-failure", "op %d (%s): failed without an error", i, what);
        st_ = 0; e.clear(); break;
      }
      if (st_) {
        std::string now = file_exists(fn) ? read_file(fn) : "";
        if ((o.f.kind == F_MALLOC_FAIL || o.f.kind == F_READ_EIO || o.f.kind == F_OPEN_FAIL) && now != old) violation("file-changed", "op %d (%s): failed before writing, but the file changed", i, what);
        f.exists = file_exists(fn);
        if (now != old || was != f.exists) f.known = false;
      } else { f.known = f.exists = true; f.m = after; check_obj_text(i, what, read_file(fn), after); }
    } break;
    case J_STOSTR: {
      seam_arm(o.f); char *p = jstore_to_string(st[s]); fired = seam_disarm(); e = last_err();
      st_ = !p; if (p) check_obj_text(i, what, p, m[s]);
      free(p);
    } break;
    case J_SLABEL: {
      std::string k = gen_key(o.a[1]), l = "label-" + std::to_string(o.a[2] % 50), l2 = l + "tail";
      seam_arm(o.f); st_ = o.a[3] & 1 ? jstore_set_label(st[s], k.c_str(), l.c_str()) : jstore_set_labeln(st[s], k.c_str(), l2.c_str(), l.size()); fired = seam_disarm(); e = last_err();
      if (!st_) lab[s][k] = l;
    } break;
    case J_SREAD: {
      JStoreIter it; const char *k; Map got;
      if (jstore_iter_init(st[s], &it)) violation("store-iter", "op %d: cannot iterate", i);
      while ((k = jstore_iter_next(&it))) { if (got.count(k)) violation("store-iter", "op %d: key %s is visited twice", i, k); const char *v = jstore_get(st[s], k); got[k] = v ? v : "(none)"; }
      jstore_iter_deinit(&it); eval();
      if (got != m[s]) violation("store-iter", "op %d: iterating gives %s, expected %s", i, show(got).c_str(), show(m[s]).c_str());
      for (u32 q = 0; q < 10; q++) { std::string key = gen_key(q);
        if (!jstore_get(st[s], key.c_str()) != !m[s].count(key)) violation("store-value", "op %d: key %s is%s in the store", i, key.c_str(), m[s].count(key) ? " not" : "");
        if (!jstore_get_label(st[s], key.c_str()) != !lab[s].count(key)) violation("store-label", "op %d: key %s has %s label", i, key.c_str(), lab[s].count(key) ? "no" : "a"); }
      e = last_err();
    } break;
    }
    if (st_) failed(i, what, fired, e); else succeeded(i, what, e);
    note_state(mix(mix(o.kind, m[s].size()), mix(m[b].size(), lab[s].size())));
    check_store(i, what, s);
  }

  // text that is no entity: every reader must report it
  // ---- another program edits the text ------------------------------------------------
  static std::string ser(const JV &v, const std::string &sp) {
    if (v.t == 'o') { std::string b = "{" + sp; bool f = true; for (auto &x : v.o) { if (!f) b += "," + sp; f = false; b += "\"" + x.first + "\"" + sp + ":" + sp + ser(x.second, sp); } return b + sp + "}"; }
    if (v.t == 'a') { std::string b = "["; bool f = true; for (auto &x : v.a) { if (!f) b += sp + ","; f = false; b += sp + ser(x, sp); } return b + sp + "]"; }
    return v.raw;
  }
  static JV prim(const std::string &raw, char t = 'n') { JV v; v.t = t; v.raw = raw; return v; }
  static void escape_all(JV &v, Rng &r) {              // the same text, written with other escapes
    if (v.t == 'a') for (auto &x : v.a) escape_all(x, r);
    if (v.t != 's') return;
    std::string b = "\"";
    for (const char *q = v.raw.data() + 1, *e = v.raw.data() + v.raw.size() - 1; q < e; q++) {
      if (*q == '\\') { b += *q++; b += *q; continue; }
      u8 c = *q; char u[8];
      if (c < 0x80 && r.chance(1, 2)) { snprintf(u, sizeof u, r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); b += u; }
      else if (c == '/' && r.chance(1, 2)) b += "\\/";
      else b += c;
    }
    v.raw = b + "\"";
  }
  void do_edit(int i, const Op &o) {
    if (msgs.empty()) return;
    Msg &msg = msgs[o.a[0] % msgs.size()];
    if (msg.e.empty() || msg.damage) return;
    const Ent &en = msg.e[o.a[2] % msg.e.size()];
    MInst mi = model(en.obj, en.ver); const MMeta &mm = metas[mi.meta];
    if (objs[en.obj].p || en.anon) return;
    JV v; if (!parse(msg.text, v)) return;
    JV *e = &v;
    if (!msg.single) { for (auto &x : v.o) if (x.first == en.uuid || x.first == mi.id) e = &x.second; if (e == &v) return; }
    auto sub = [](JV *w, const char *k) -> JV * { for (auto &x : w->o) if (x.first == k) return &x.second; return nullptr; };
    JV *dims = sub(e, "dimensions"), *props = sub(e, "properties");
    if (!dims || !props || props->o.empty()) return;
    Rng r(mix(o.a[4], o.a[5]));
    size_t k = r.below(props->o.size()); std::string pn = props->o[k].first; JV &pv = props->o[k].second;
    const MProp *mp = nullptr; for (auto &x : mm.props) if (x.name == pn) mp = &x;
    if (!mp) return;
    bool want = false; std::string how = "", sp = "";
    bool num = mp->type == dliteInt || mp->type == dliteUInt || mp->type == dliteFloat || mp->type == dliteBool;
    auto first = [](JV *w) { while (w->t == 'a' && w->a.size()) w = &w->a[0]; return w; };
    switch (r.below(13)) {
    case 0: if (mp->shape.empty() || pv.a.empty()) return; how = "an element is added to " + pn; pv.a.push_back(pv.a.back()); break;
    case 1: if (mp->shape.empty() || pv.a.empty()) return; how = "an element is removed from " + pn; pv.a.pop_back(); break;
    case 2: { if (mp->shape.size() < 2 || pv.a.empty()) return; JV &in = pv.a[r.below(pv.a.size())]; if (in.a.empty()) return; how = "an inner row of " + pn + " changes its length"; if (r.chance(1, 2)) in.a.pop_back(); else in.a.push_back(in.a[0]); } break;
    case 3: { if (dims->o.empty()) return; static const char *bad[] = {"-1", "\"2\"", "null", "[]", "true", "{}"}; JV &d = dims->o[r.below(dims->o.size())].second; d = prim(bad[r.below(6)]); how = "a dimension is " + d.raw; } break;
    case 4: if (dims->o.empty()) return; how = "a dimension is renamed"; dims->o[r.below(dims->o.size())].first += "x"; break;
    case 5: if (dims->o.empty()) return; how = "a dimension is removed"; dims->o.erase(dims->o.begin() + r.below(dims->o.size())); break;
    case 6: if (dims->o.empty()) return; how = "a dimension is added"; dims->o.emplace_back("another", prim("1")); break;
    case 7: if (mp->shape.empty()) { if (mp->type == dliteStringPtr || mp->type == dliteFixString) return; how = pn + " becomes an array"; JV a; a.t = 'a'; a.a.push_back(pv); pv = a; } else { if (pv.a.empty()) return; how = pn + " becomes a scalar"; pv = *first(&pv); } break;
    case 8: { JV *l = first(&pv); if (!num || l->t == 'a') return; how = "the value of " + pn + " is text"; *l = prim("\"abc\"", 's'); } break;
    case 9: {
      want = true; how = "members are reordered"; static const char *spaces[] = {"", " ", "\n", "\t ", "\r\n  "}; sp = spaces[r.below(5)];
      auto shuffle = [&](JV *w) { for (size_t n = w->o.size(); n > 1; n--) std::swap(w->o[n - 1], w->o[r.below(n)]); };
      shuffle(dims); shuffle(props); shuffle(e);
    } break;
    case 10: want = true; how = "other members are added"; e->o.insert(e->o.begin() + r.below(e->o.size() + 1), {"comment", prim("{\"dimensions\": [1, {\"a\": []}], \"properties\": {}, \"uuid\": \"x\"}")}); break;
    case 11: want = true; how = "characters are escaped"; for (auto &x : mm.props) if (x.type == dliteStringPtr || x.type == dliteFixString) if (JV *w = sub(props, x.name.c_str())) escape_all(*w, r); break;
    default: how = "property " + pn + " is removed"; props->o.erase(props->o.begin() + k);
    }
    std::string text = ser(v, sp), id = o.a[3] & 1 ? uuid_of(mi.id) : mi.id, err;
    int way = o.a[1] % 5; bool fired;
    if (msg.single && way == 4) way = 0;
    seam_register_fault(F_BAD_INPUT);
    DLiteInstance *p = decode(text, way, id.c_str(), nullptr, o.f, fired); err = last_err(); eval();
    log_hash(p != nullptr);
    if (!p) {
      if (want && !fired) violation("not-decoded", "op %d: reading id %s in way %d after %s failed: %s", i, id.c_str(), way, how.c_str(), err.c_str());
      if (err.empty()) violation("silent-failure", "op %d: reading after %s failed without an error", i, how.c_str());
      if (dlite_instance_has(uuid_of(mi.id).c_str(), false)) violation("instance-not-released", "op %d: reading failed, but the instance is in memory", i);
      last_err();
      return;
    }
    if (!want) violation("damage-ignored", "op %d: reading id %s in way %d succeeds after %s: %s", i, id.c_str(), way, how.c_str(), text.c_str());
    std::string d = diff_inst(p, mi, metas);
    if (!d.empty()) violation("round-trip", "op %d: after %s: %s", i, how.c_str(), d.c_str());
    if (dlite_instance_decref(p)) violation("refcount", "op %d (edit): the instance is alive after releasing it", i);
  }
  void do_bad(int i, const Op &o) {
    static const char *bad[] = {"", "  ", "[]", "[{}]", "42", "\"x\"", "{", "{\"a\"", "{\"a\":", "{\"a\": 1}", "{\"a\": \"x\"}", "{\"a\": []}", "{\"a\": {}}", "{\"properties\": 1}", "{\"properties\": {}}",
      "{\"meta\": 1, \"properties\": {}}", "{\"meta\": {}, \"uri\": \"u\", \"properties\": {}}", "nonsense", "{\"uuid\": \"short\", \"properties\": {}}", "{\"a\": {\"meta\": \"http://sim.org/0.1/NoSuch\", \"dimensions\": {}, \"properties\": {}}}",
      "{\"a\": {\"properties\": []}, \"b\": null}", "{1: 2}", "{}", "{\"uri\": \"http://sim.org/0.1/E\", \"properties\": \"x\"}"};
    std::string text = bad[o.a[0] % (sizeof bad / sizeof *bad)]; int how = o.a[1] % 7; bool fired = false;
    const char *pid = o.a[2] % 3 == 0 ? nullptr : o.a[2] % 3 == 1 ? "a" : "0a1b2c3d-0000-4000-8000-000000000001";
    seam_register_fault(F_BAD_INPUT);
    bool ok = false; std::string e;
    if (how < 5) {
      DLiteInstance *p = decode(text, how, pid, o.a[3] & 1 ? metas[0].uri.c_str() : nullptr, o.f, fired); e = last_err();
      if (p) { violation("bad-input-accepted", "op %d: an instance is read from %s", i, text.c_str()); }
    } else if (how == 5) {
      DLiteJsonFlag fl; std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size());
      seam_arm(o.f); ok = dlite_json_scheck(exact.get(), text.size(), nullptr, &fl) >= 0; seam_disarm(); e = last_err();
    } else {
      std::unique_ptr<char[]> exact(new char[text.size() + 1]); memcpy(exact.get(), text.c_str(), text.size() + 1);
      seam_arm(o.f); DLiteJsonIter *it = dlite_json_iter_create(exact.get(), o.a[3] & 1 ? 0 : text.size(), o.a[3] & 2 ? metas[0].uri.c_str() : nullptr);
      if (it) { int n; while (dlite_json_next(it, &n)) ; dlite_json_iter_free(it); ok = true; }
      seam_disarm(); e = last_err();
    }
    eval();
    if (!ok && e.empty()) violation("silent-failure", "op %d: reading %s in way %d failed without an error", i, text.c_str(), how);
  }

  void op(u32 i) {
    const Op &o = t[i];
    switch (o.kind) {
    case J_NEW: {
      int k = o.a[0] % NO; if (objs[k].p) break;
      objs[k].ver = o.a[1] % 4;
      std::string e; objs[k].p = make_inst(model(k, objs[k].ver), metas, &e); objs[k].parent = false;
      if (!objs[k].p) violation("setup", "op %u: %s", i, e.c_str());
    } break;
    case J_CHANGE: {
      int k = pick(o.a[0]); if (k < 0) break;
      objs[k].ver = o.a[1] % 4; MInst mi = model(k, objs[k].ver);
      if (apply_inst(objs[k].p, mi, metas[mi.meta])) violation("setup", "op %u: %s", i, last_err().c_str());
    } break;
    case J_DROP: {
      int k = pick(o.a[0]); if (k < 0) break;
      if (dlite_instance_decref(objs[k].p)) violation("refcount", "op %u: instance %d is alive after releasing it", i, k);
      objs[k].p = nullptr;
    } break;
    case J_SNAP: {
      int k = pick(o.a[0]); if (k < 0 || objs[k].parent) break;
      if (dlite_instance_snapshot(objs[k].p)) violation("setup", "op %u: snapshot: %s", i, last_err().c_str());
      objs[k].parent = true; snaps = true;
    } break;
    case J_ENC: {
      int k = pick(o.a[0]); if (k < 0) break;
      int flags = o.a[2] % 128, indent = o.a[5] % 7, way = o.a[1] % 8;
      DLiteInstance *p = objs[k].p; MInst mi = model(k, objs[k].ver);
      std::string want = reference(p, indent, flags);
      check_text(i, want, p, flags, &mi);
      if (!encode(i, o, p, indent, flags, want, way)) break;
      Msg msg; msg.text = want; msg.single = way < 7 && flags & dliteJsonSingle; msg.urikey = way < 7 && flags & dliteJsonUriKey; msg.withuuid = flags & dliteJsonWithUuid;
      Ent en{k, objs[k].ver, p->uuid, msg.single && !p->uri && !msg.withuuid}; msg.e.push_back(en);
      if (msgs.size() < NMSG) msgs.push_back(msg); else msgs[o.a[4] % NMSG] = msg;
    } break;
    case J_APPEND: {
      int k = pick(o.a[1]); if (k < 0) break;
      bool empty = msgs.empty() || o.a[3] % 4 == 0;
      Msg msg; if (empty) msg.text = o.a[3] & 4 ? "{}" : " { \n}\n"; else msg = msgs[o.a[0] % msgs.size()];
      if (msg.single || msg.damage) break;
      DLiteInstance *p = objs[k].p; MInst mi = model(k, objs[k].ver);
      for (auto &x : msg.e) if (x.uuid == p->uuid) return;
      int flags = o.a[2] % 128;
      size_t size = msg.text.size() + 1 + (o.a[3] & 8 ? o.a[4] % 4000 : 0); char *s = (char *)malloc(size); memcpy(s, msg.text.c_str(), msg.text.size() + 1);
      size_t end = msg.text.rfind('}') + 1;
      seam_arm(o.f); int n = dlite_json_append(&s, &size, p, (DLiteJsonFlag)flags); bool fired = seam_disarm();
      std::string got = s, e = last_err(); free(s);
      if (n < 0) { failed(i, "append", fired, e); if (got != msg.text) violation("text-changed", "op %u: appending failed, but the text changed: %.200s", i, got.c_str()); break; }
      succeeded(i, "append", e);
      if (n != (long)got.size() - (long)end) violation("wrong-length", "op %u: append returned %d, but the text grew by %ld bytes", i, n, (long)got.size() - (long)end);
      JV v; if (!parse(got, v) || v.t != 'o') violation("invalid-json", "op %u: the text is not valid JSON after appending: %.200s", i, got.c_str());
      if (v.o.size() != msg.e.size() + 1 || v.o.back().first != p->uuid) violation("wrong-key", "op %u: appending to %zu entities gives %zu", i, msg.e.size(), v.o.size());
      check_entity(i, v.o.back().second, p, flags, &mi);
      JV old; parse(msg.text, old);
      for (size_t q = 0; q < old.o.size(); q++) if (old.o[q].first != v.o[q].first || old.o[q].second.raw != v.o[q].second.raw) violation("text-changed", "op %u: appending changed another entity", i);
      msg.text = got; msg.e.push_back(Ent{k, objs[k].ver, p->uuid});
      if (empty) { if (msgs.size() < NMSG) msgs.push_back(msg); else msgs[o.a[4] % NMSG] = msg; } else msgs[o.a[0] % msgs.size()] = msg;
    } break;
    case J_DEC: do_decode(i, o); break;
    case J_META: do_meta(i, o); break;
    case J_CHECK: do_check(i, o); break;
    case J_ITER: do_iter(i, o); break;
    case J_DAMAGE: {
      if (msgs.empty()) break;
      int k = o.a[0] % msgs.size(); Msg &msg = msgs[k];
      switch (o.a[1] % 5) {
      case 0: seam_register_fault(F_MSG_DROP); msgs.erase(msgs.begin() + k); break;
      case 1: seam_register_fault(F_MSG_DUP); if (msgs.size() < NMSG) { Msg c = msg; msgs.push_back(c); } break;
      case 2: seam_register_fault(F_MSG_REORDER); std::swap(msgs[0], msg); break;
      case 3: if (msg.damage) break; { size_t end = msg.text.rfind('}'); msg.text.resize((u64)o.a[2] * 1000003u % end); msg.damage = 1; seam_register_fault(F_FILE_TRUNC); } break;
      default: if (msg.damage || !(o.a[5] & 1)) break;
        for (u32 q = 0; q <= o.a[3] % 4; q++) msg.text[mix(o.a[2], q) % msg.text.size()] = "\"{}[]:,0x \\"[mix(o.a[4], q) % 11];
        msg.damage = 2; seam_register_fault(F_FILE_FLIP);
      }
    } break;
    case J_BADTEXT: do_bad(i, o); break;
    case J_EDIT: do_edit(i, o); break;
    default: store_op(i, o);
    }
    check(i, names11[o.kind]);
    last_err();
  }
  void setup() {
    for (int s = 0; s < NS; s++) st[s] = jstore_open();
    for (int f = 0; f < NF; f++) { unlink(fpath(f).c_str()); file[f] = FileS(); file[f].known = true; }
  }
  void release() {
    for (auto &x : objs) if (x.p && dlite_instance_decref(x.p)) violation("refcount", "an instance is alive after releasing it");
    for (int s = 0; s < NS; s++) { check_store(-1, "end", s); jstore_close(st[s]); }
    last_err();
  }
};

void run11(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  err_set_stream(nullptr);
  seam_pause(true);
  mkdir((ctx.dir + "/d").c_str(), 0755);
  metas.clear();
  for (int j = 0; j < NM; j++) { metas.push_back(gen_meta(ctx.seed, j)); if (!(dm[j] = make_meta(metas[j]))) violation("setup", "%s", last_err().c_str()); }
  seam_pause(false);
  dlite_storage_plugin_get("json");
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  { J s(ctx.seed, t); s.setup(); MInst mi = s.model(0, 0); DLiteInstance *p = make_inst(mi, metas); free(dlite_json_aprint(p, 0, (DLiteJsonFlag)0)); dlite_instance_snapshot(p); dlite_instance_decref(p); s.release(); }
  last_err();
  bool faults = false;
  for (auto &o : t) if (o.kind == J_DAMAGE) faults = true;      // garbled text may name other metadata, which stays
  int passes = !faults ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    {
      J s(ctx.seed, t); s.setup();
      for (u32 i = start; i < t.size(); i++) {
        shm->opidx = i; shm->nops++;
        say("op %u: %s %u %u %u %u %u %u fault %u/%u/%u", i, names11[t[i].kind], t[i].a[0], t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].a[5], t[i].f.kind, t[i].f.nth, t[i].f.arg);
        s.op(i);
        seam_disarm();
      }
      s.release();
    }
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}
Trace gen11(Rng &r, u64) {
  Trace t; int n = r.range(10, 50);
  static const u32 wa[] = {J_NEW, J_NEW, J_NEW, J_CHANGE, J_CHANGE, J_DROP, J_DROP, J_DROP, J_SNAP, J_ENC, J_ENC, J_ENC, J_ENC, J_ENC, J_ENC, J_APPEND, J_APPEND, J_APPEND, J_DEC, J_DEC, J_DEC, J_DEC, J_DEC, J_DEC, J_DEC,
                           J_META, J_META, J_META, J_CHECK, J_CHECK, J_ITER, J_ITER, J_DAMAGE, J_BADTEXT, J_EDIT, J_EDIT, J_EDIT};
  static const u32 wb[] = {J_SADD, J_SADD, J_SADD, J_SADD, J_SREMOVE, J_SUPDATE, J_SUPDATE, J_SFROMSTR, J_SFROMSTR, J_SFROMFILE, J_SFROMFILE, J_STOFILE, J_STOFILE, J_SUPDFILE, J_SUPDFILE, J_STOSTR, J_STOSTR, J_SLABEL, J_SLABEL, J_SREAD};
  int style = r.below(5); bool faults = r.chance(3, 5);
  for (int i = 0; i < n; i++) {
    Op o; bool b = style == 0 || (style == 1 && r.chance(1, 2));
    o.kind = b ? wb[r.below(sizeof wb / sizeof *wb)] : i < 2 ? J_NEW : wa[r.below(sizeof wa / sizeof *wa)];
    if (!faults && o.kind == J_DAMAGE) o.kind = J_DEC;
    for (auto &a : o.a) a = r.below(1 << 12);
    if (faults && r.chance(1, 3)) {
      bool wr = o.kind == J_STOFILE || o.kind == J_SUPDFILE || (o.kind == J_ENC && (o.a[1] % 8 == 3 || o.a[1] % 8 == 4)) || (o.kind == J_META && o.a[5] % 3 == 0);
      bool rd = o.kind == J_SFROMFILE || o.kind == J_SUPDFILE || (o.kind == J_DEC && (o.a[1] % 5 == 2 || o.a[1] % 5 == 3)) || (o.kind == J_META && o.a[5] % 3) || o.kind == J_CHECK;
      if (wr && r.chance(1, 2)) { static const u32 q[] = {F_WRITE_ENOSPC, F_WRITE_EIO, F_SHORT_WRITE, F_CLOSE_FAIL, F_OPEN_FAIL}; o.f.kind = q[r.below(5)]; o.f.nth = r.range(1, 2); o.f.arg = r.below(1000); }
      else if (rd && r.chance(1, 2)) { static const u32 q[] = {F_READ_EIO, F_SHORT_READ, F_OPEN_FAIL}; o.f.kind = q[r.below(3)]; o.f.nth = r.range(1, 2); o.f.arg = r.below(1000); }
      else if (o.kind != J_NEW && o.kind != J_CHANGE && o.kind != J_DROP && o.kind != J_SNAP) { o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(1, 2) ? r.range(1, 8) : r.range(1, 80); o.f.arg = r.below(4); if (o.kind == J_META && r.chance(1, 2)) o.f.nth = r.range(1, 300); if (r.chance(3, 4)) o.f.arg &= 2; }
    }
    t.push_back(o);
  }
  return t;
}
Register r11({"S11", 8000, 120000, 0, gen11, run11, opname11,
  "distinct (way of reading, format, metadata, filter) combinations decoded, and (store operation, sizes) combinations",
  "dlite-json.c, dlite-type.c, dlite-property.c, dlite-entity.c, json driver, jstore.c, jsmnx.c, map.c, fileutils.c readfile, compat.c printing",
  "the channel between writer and reader, memory allocation failures in DLite code (seam), file reads and writes (seam)"});
}  // namespace
