// Value world (S05): dimensions and property values of instances against an
// independent model, with failing allocations and refused requests.
#include "model.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { V_CREATE, V_SET, V_RESIZE, V_RESIZEALL, V_BADREQ, V_COPY, V_FREEZE, V_PRINTSCAN, V_BADSCAN, V_HASH, V_ORDER, V_DROP, V_BADMETA, V_NK };
const char *names5[] = {"create", "set", "resize", "resize_all", "bad_request", "copy", "freeze", "print_scan", "bad_scan", "hash", "order", "drop", "bad_metadata"};
const char *opname5(u32 k) { return k < V_NK ? names5[k] : "?"; }
enum { NM = 3, NTARGET = 3, MAXOBJ = 5 };

struct Expr { const char *s; long (*f)(long n, long m); };
const Expr exprs[] = {
  {"N", [](long n, long m) { return n; }}, {"M", [](long n, long m) { return m; }}, {"N", [](long n, long m) { return n; }}, {"M", [](long n, long m) { return m; }},
  {"N+1", [](long n, long m) { return n + 1; }}, {"2*N", [](long n, long m) { return 2 * n; }}, {"M-1", [](long n, long m) { return m - 1; }},
  {"N*M", [](long n, long m) { return n * m; }}, {"(N+1)*M", [](long n, long m) { return (n + 1) * m; }}, {"N-M", [](long n, long m) { return n - m; }},
  {"3", [](long n, long m) { return 3l; }}, {"N/2", [](long n, long m) { return n / 2; }}, {"N+M*2", [](long n, long m) { return n + m * 2; }},
  {"N%2", [](long n, long m) { return n % 2; }}, {"N-1-1", [](long n, long m) { return n - 1 - 1; }}, {"8/N", [](long n, long m) { return n ? 8 / n : -1; }},
  {"(N>M)*2", [](long n, long m) { return (n > m) * 2l; }}, {"2^N", [](long n, long m) { return 1l << n; }}};
const int NEXPR = sizeof exprs / sizeof *exprs;

struct XProp { std::string name; DLiteType type; size_t size; std::vector<int> ex; };
struct XMeta { std::string uri; std::vector<XProp> props; DLiteMeta *p = nullptr; };
struct XVal { std::vector<u8> raw; std::vector<std::string> str; std::vector<char> null; std::vector<int> ref; };   // one element per entry
struct XObj {
  DLiteInstance *p; int meta; long d[2]; std::vector<XVal> v; std::vector<std::vector<long>> shape; bool frozen = false;
};

const struct { DLiteType t; size_t s; } types[] = {
  {dliteInt, 1}, {dliteInt, 4}, {dliteInt, 8}, {dliteUInt, 2}, {dliteUInt, 8}, {dliteFloat, 4}, {dliteFloat, 8}, {dliteBool, 1},
  {dliteStringPtr, 8}, {dliteStringPtr, 8}, {dliteStringPtr, 8}, {dliteStringPtr, 8}, {dliteFixString, 7}, {dliteBlob, 3}, {dliteRef, 8}, {dliteRef, 8}};

struct Values {
  const Trace &t; u64 seed;
  XMeta metas[NM];
  DLiteInstance *target[NTARGET];
  DLiteMeta *tmeta = nullptr;
  std::vector<XObj> objs;
  int nbad = 0;

  Values(u64 s, const Trace &t_) : t(t_), seed(s) {
    for (int i = 0; i < NM; i++) {
      Rng r(mix(mix(seed, 0x55), i));
      XMeta &m = metas[i];
      m.uri = "http://sim.org/" + std::to_string(r.below(3)) + "." + std::to_string(i) + "/V" + std::to_string(i);
      int np = r.range(1, 6);
      for (int k = 0; k < np; k++) {
        XProp p; p.name = "p" + std::to_string(k);
        auto &ty = types[r.below(sizeof types / sizeof *types)];
        p.type = ty.t; p.size = ty.s;
        int nd = r.below(7); nd = nd == 0 ? 0 : nd < 4 ? 1 : nd < 6 ? 2 : 3;
        for (int j = 0; j < nd; j++) p.ex.push_back(r.below(r.chance(1, 2) ? 4 : NEXPR));
        m.props.push_back(p);
      }
    }
  }
  static bool eval_shape(const XMeta &m, const long *d, std::vector<std::vector<long>> &out) {
    out.clear();
    for (auto &p : m.props) {
      std::vector<long> s;
      for (int e : p.ex) { long v = exprs[e].f(d[0], d[1]); if (v < 0) return false; s.push_back(v); }
      out.push_back(s);
    }
    return true;
  }
  static size_t count(const std::vector<long> &s) { size_t n = 1; for (long x : s) n *= x; return n; }
  static void zero(const XProp &p, size_t n, XVal &v) {
    v = XVal(); v.raw.assign(p.type == dliteStringPtr || p.type == dliteRef ? 0 : n * p.size, 0);
    if (p.type == dliteStringPtr) { v.str.assign(n, ""); v.null.assign(n, 1); }
    if (p.type == dliteRef) v.ref.assign(n, -1);
  }
  void gen(Rng &r, const XProp &p, size_t n, XVal &v) {
    zero(p, n, v);
    static const char *w[] = {"", "a", "abc", "some longer text, with a comma", "x y", "0", "null", "quote\"d", "back\\slash", "tab\t", "\xc3\xa5"};
    for (size_t i = 0; i < n; i++) switch (p.type) {
    case dliteStringPtr: v.null[i] = r.chance(1, 8); if (!v.null[i]) v.str[i] = std::string(w[r.below(11)]) + (r.chance(1, 2) ? std::to_string(r.below(100)) : ""); break;
    case dliteRef: v.ref[i] = (int)r.below(NTARGET + 1) - 1; break;
    case dliteBool: v.raw[i] = r.below(2); break;
    case dliteFloat: { double x = (int)r.range(-800, 800) / 8.0; if (p.size == 4) { float f = x; memcpy(&v.raw[i * 4], &f, 4); } else memcpy(&v.raw[i * 8], &x, 8); break; }
    case dliteFixString: { std::string s = w[r.below(7)]; s.resize(std::min<size_t>(s.size(), p.size - 1)); memcpy(&v.raw[i * p.size], s.data(), s.size()); break; }
    case dliteInt: case dliteUInt: { u64 x = r.chance(1, 4) ? r.next() : r.below(100); memcpy(&v.raw[i * p.size], &x, p.size); break; }
    default: for (size_t k = 0; k < p.size; k++) v.raw[i * p.size + k] = r.next();
    }
  }
  // the memory layout the API expects for a value
  struct Buf { std::vector<u8> raw; std::vector<void *> ptrs; const void *data() const { return ptrs.empty() ? (const void *)raw.data() : (const void *)ptrs.data(); } };
  void layout(const XProp &p, const XVal &v, Buf &b) {
    if (p.type == dliteStringPtr) { for (size_t i = 0; i < v.str.size(); i++) b.ptrs.push_back(v.null[i] ? nullptr : (void *)v.str[i].c_str()); b.ptrs.push_back(nullptr); }
    else if (p.type == dliteRef) { for (int k : v.ref) b.ptrs.push_back(k < 0 ? nullptr : target[k]); b.ptrs.push_back(nullptr); }
    else { b.raw = v.raw; b.raw.resize(b.raw.size() + 8); }
  }
  std::string diff(const XProp &p, const void *ptr, size_t n, const XVal &v) {
    if (n && !ptr) return "there is no value";
    for (size_t i = 0; i < n; i++) {
      if (p.type == dliteStringPtr) {
        const char *s = ((char *const *)ptr)[i];
        if (std::string(s ? s : "") != v.str[i]) return "element " + std::to_string(i) + " is '" + (s ? s : "(null)") + "', expected '" + v.str[i] + "'";
      } else if (p.type == dliteRef) {
        DLiteInstance *q = ((DLiteInstance *const *)ptr)[i], *w = v.ref[i] < 0 ? nullptr : target[v.ref[i]];
        if (q != w) return "element " + std::to_string(i) + " refers to " + (q ? "another instance" : "nothing");
      } else if (p.type == dliteFixString) {
        if (strncmp((const char *)ptr + i * p.size, (const char *)&v.raw[i * p.size], p.size)) return "element " + std::to_string(i) + " differs";
      } else if (memcmp((const u8 *)ptr + i * p.size, &v.raw[i * p.size], p.size)) {
        return "element " + std::to_string(i) + " differs";
      }
    }
    return "";
  }
  void check_obj(int i, const char *what, XObj &o) {
    const XMeta &m = metas[o.meta];
    for (int d = 0; d < 2; d++) {
      eval();
      if (DLITE_DIM(o.p, d) != (size_t)o.d[d]) violation("dimension-differs", "after op %d (%s): dimension %d is %zu, expected %ld", i, what, d, DLITE_DIM(o.p, d), o.d[d]);
    }
    for (size_t k = 0; k < m.props.size(); k++) {
      const XProp &p = m.props[k];
      eval();
      for (size_t j = 0; j < p.ex.size(); j++)
        if (DLITE_PROP_DIM(o.p, k, j) != (size_t)o.shape[k][j]) violation("shape-differs", "after op %d (%s): shape %zu (%s) of %s is %zu, expected %ld for N=%ld, M=%ld", i, what, j, exprs[p.ex[j]].s, p.name.c_str(), DLITE_PROP_DIM(o.p, k, j), o.shape[k][j], o.d[0], o.d[1]);
      std::string e = diff(p, dlite_instance_get_property_by_index(o.p, k), count(o.shape[k]), o.v[k]);
      if (!e.empty()) violation("value-differs", "after op %d (%s): property %s (%s): %s", i, what, p.name.c_str(), dlite_type_get_dtypename(p.type), e.c_str());
    }
    if (!!dlite_instance_is_frozen(o.p) != o.frozen) violation("frozen-differs", "after op %d (%s): frozen state changed", i, what);
    if (o.p->_refcount != 1) violation("refcount", "after op %d (%s): an instance has %d references, expected 1", i, what, o.p->_refcount);
  }
  void check(int i, const char *what) {
    int refs[NTARGET] = {0}, use[NM] = {0};
    for (auto &o : objs) { check_obj(i, what, o); use[o.meta]++; for (auto &v : o.v) for (int r : v.ref) if (r >= 0) refs[r]++; }
    for (int k = 0; k < NTARGET; k++) {
      eval();
      if (target[k]->_refcount != 1 + refs[k]) violation("ref-refcount", "after op %d (%s): an instance referred to %d times has reference count %d, expected %d", i, what, refs[k], target[k]->_refcount, 1 + refs[k]);
    }
    for (int k = 0; k < NM; k++) if (metas[k].p && metas[k].p->_refcount != 2 + use[k]) violation("meta-refcount", "after op %d (%s): metadata has reference count %d, expected %d", i, what, metas[k].p->_refcount, 2 + use[k]);
    last_err();
  }
  DLiteMeta *make(const std::string &uri, const XMeta &m, const std::vector<std::vector<std::string>> *shapes = nullptr) {
    DLiteDimension dims[2] = {{(char *)"N", (char *)"first"}, {(char *)"M", nullptr}};
    std::vector<DLiteProperty> props; std::vector<std::vector<char *>> sh(m.props.size());
    for (size_t i = 0; i < m.props.size(); i++) {
      auto &p = m.props[i]; DLiteProperty q; memset(&q, 0, sizeof q);
      q.name = (char *)p.name.c_str(); q.type = p.type; q.size = p.size; q.ndims = p.ex.size();
      for (size_t j = 0; j < p.ex.size(); j++) sh[i].push_back((char *)(shapes && i < shapes->size() && j < (*shapes)[i].size() ? (*shapes)[i][j].c_str() : exprs[p.ex[j]].s));
      q.shape = sh[i].empty() ? nullptr : sh[i].data();
      if (p.type == dliteRef) q.ref = (char *)"http://sim.org/0.1/Target";
      props.push_back(q);
    }
    return dlite_meta_create(uri.c_str(), nullptr, 2, dims, props.size(), props.data());
  }
  void setup() {
    static DLiteProperty tp; memset(&tp, 0, sizeof tp); tp.name = (char *)"x"; tp.type = dliteInt; tp.size = 4;
    if (!tmeta) tmeta = dlite_meta_create("http://sim.org/0.1/Target", nullptr, 0, nullptr, 1, &tp);
    if (!tmeta) violation("setup", "%s", last_err().c_str());
    for (int k = 0; k < NTARGET; k++) if (!(target[k] = dlite_instance_create(tmeta, nullptr, ("target" + std::to_string(k)).c_str()))) violation("setup", "%s", last_err().c_str());
    for (auto &m : metas) if (!m.p && !(m.p = make(m.uri, m))) violation("setup", "cannot create metadata: %s", last_err().c_str());
    last_err();
  }
  XObj *pick(const Op &o) { return objs.empty() ? nullptr : &objs[o.a[0] % objs.size()]; }

  // result of changing the dimensions of x to d; false if that must be refused
  bool resized(const XObj &x, const long *d, XObj &y, std::vector<int> &unspecified) {
    const XMeta &m = metas[x.meta];
    y = x; y.d[0] = d[0]; y.d[1] = d[1];
    if (!eval_shape(m, d, y.shape)) return false;
    for (size_t k = 0; k < m.props.size(); k++) {
      size_t n0 = count(x.shape[k]), n1 = count(y.shape[k]);
      if (n1 > 20000) return false;
      const XProp &p = m.props[k];
      if (y.shape[k] == x.shape[k]) continue;
      bool inner = false;
      for (size_t j = 1; j < p.ex.size(); j++) if (y.shape[k][j] != x.shape[k][j]) inner = true;
      if (inner) { unspecified.push_back(k); continue; }
      XVal z; zero(p, n1, z);
      for (size_t e = 0; e < std::min(n0, n1); e++) {
        if (p.type == dliteStringPtr) { z.str[e] = x.v[k].str[e]; z.null[e] = x.v[k].null[e]; }
        else if (p.type == dliteRef) z.ref[e] = x.v[k].ref[e];
        else memcpy(&z.raw[e * p.size], &x.v[k].raw[e * p.size], p.size);
      }
      y.v[k] = z;
    }
    return true;
  }
  // properties whose content after a resize is not specified get a known value
  void reset(int i, XObj &x, const std::vector<int> &ks, u32 seed2) {
    for (int k : ks) {
      const XProp &p = metas[x.meta].props[k];
      size_t n = count(x.shape[k]);
      if (p.type == dliteStringPtr) for (size_t e = 0; e < n; e++) { char *s = ((char **)dlite_instance_get_property_by_index(x.p, k))[e]; if (s && strlen(s) > 1000) violation("value-differs", "op %d: odd string after resize", i); }
      Rng r(mix(seed2, k));
      gen(r, p, n, x.v[k]);
      Buf b; layout(p, x.v[k], b);
      if (dlite_instance_set_property_by_index(x.p, k, b.data())) violation("set-failed", "op %d: setting %s after a resize: %s", i, p.name.c_str(), last_err().c_str());
    }
  }

  void op(int i) {
    const Op &o = t[i];
    bool fired = false;
    switch (o.kind) {
    case V_CREATE: {
      if (objs.size() >= MAXOBJ) break;
      int mk = o.a[1] % NM;
      XObj x; x.meta = mk; x.d[0] = o.a[2] % 5; x.d[1] = o.a[3] % 4;
      bool valid = eval_shape(metas[mk], x.d, x.shape);
      size_t dd[2] = {(size_t)x.d[0], (size_t)x.d[1]};
      seam_arm(o.f);
      x.p = dlite_instance_create(metas[mk].p, dd, nullptr);
      fired = seam_disarm();
      std::string e = last_err();
      eval();
      if (!x.p) { if (valid && !fired) violation("create-failed", "op %d: creating with N=%ld, M=%ld failed: %s", i, x.d[0], x.d[1], e.c_str()); break; }
      if (!valid) violation("invalid-dims-accepted", "op %d: an instance with a negative array size was created (N=%ld, M=%ld)", i, x.d[0], x.d[1]);
      for (size_t k = 0; k < metas[mk].props.size(); k++) { XVal v; zero(metas[mk].props[k], count(x.shape[k]), v); x.v.push_back(v); }
      objs.push_back(x);
      break;
    }
    case V_SET:
      if (XObj *x = pick(o)) {
        int k = o.a[1] % metas[x->meta].props.size();
        const XProp &p = metas[x->meta].props[k];
        size_t n = count(x->shape[k]);
        if (!n) break;
        Rng r(o.a[2]); XVal v; gen(r, p, n, v);
        Buf b; layout(p, v, b);
        bool self = o.a[3] % 9 == 0;              // assign a property to itself
        seam_arm(o.f);
        const void *src = self ? dlite_instance_get_property_by_index(x->p, k) : b.data();
        int st = (o.a[3] & 1) ? dlite_instance_set_property(x->p, p.name.c_str(), src) : dlite_instance_set_property_by_index(x->p, k, src);
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        if (x->frozen) { if (!st) violation("frozen-changed", "op %d: setting %s of a frozen instance succeeded", i, p.name.c_str()); break; }
        if (st && !fired) violation("set-failed", "op %d: setting %s failed: %s", i, p.name.c_str(), e.c_str());
        if (!st && !self) x->v[k] = v;
        note_state(mix(mix(p.type, p.ex.size()), n));
      }
      break;
    case V_RESIZE: case V_RESIZEALL:
      if (XObj *x = pick(o)) {
        long d[2] = {x->d[0], x->d[1]};
        int which = o.a[1] & 1;
        auto size = [](u32 a) { return a % 11 == 0 ? 10 + a % 30 : a % 6; };
        int dims[2] = {-1, -1};
        if (o.kind == V_RESIZE) d[which] = size(o.a[2]);
        else for (int j = 0; j < 2; j++) if (o.a[2 + j] % 3) { d[j] = size(o.a[2 + j]); dims[j] = (int)d[j]; }
        XObj y; std::vector<int> un;
        if (d[0] > 20) d[0] = 20;                 // 2^N
        if (dims[0] > 20) dims[0] = 20;
        bool ok = resized(*x, d, y, un);
        if (!ok) { // the model also refuses absurd sizes that the code may well give
          std::vector<std::vector<long>> sh;
          if (eval_shape(metas[x->meta], d, sh)) break;
        }
        seam_arm(o.f);
        int st = o.kind == V_RESIZE ? ((o.a[1] & 2) ? dlite_instance_set_dimension_size(x->p, which ? "M" : "N", d[which]) : dlite_instance_set_dimension_size_by_index(x->p, which, d[which]))
                                    : dlite_instance_set_dimension_sizes(x->p, dims);
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        if (x->frozen) { if (!st) violation("frozen-changed", "op %d: resizing a frozen instance succeeded", i); break; }
        if (!ok) { if (!st) violation("invalid-dims-accepted", "op %d: resizing to N=%ld, M=%ld gives a negative array size but succeeded", i, d[0], d[1]); break; }
        if (st) { if (!fired) violation("resize-failed", "op %d: resizing to N=%ld, M=%ld failed: %s", i, d[0], d[1], e.c_str()); break; }
        // references in properties that are dropped or re-set are released
        for (int k : un) { zero(metas[x->meta].props[k], count(y.shape[k]), y.v[k]); }
        *x = y;
        reset(i, *x, un, o.a[4]);
        note_state(mix(mix(d[0], d[1]), metas[x->meta].props.size() * 31 + 7));
      }
      break;
    case V_BADREQ:
      if (XObj *x = pick(o)) {
        u8 z[64] = {0}; int big[2] = {0x7fffffff, 0x7fffffff}; int st = 1;
        size_t np = metas[x->meta].props.size();
        bool must = true;
        switch (o.a[1] % 10) {
        case 0: st = dlite_instance_set_dimension_size(x->p, "nope", 3); break;
        case 1: st = dlite_instance_set_dimension_size_by_index(x->p, 2, 3); break;
        case 2: st = dlite_instance_set_property(x->p, "nope", z); break;
        case 3: st = dlite_instance_set_property_by_index(x->p, np + o.a[2] % 3, z); break;
        case 4: st = dlite_instance_get_property(x->p, "nope") || dlite_instance_get_property_by_index(x->p, np) ? 0 : 1; break;
        case 5: st = dlite_instance_get_dimension_size(x->p, "nope") < 0; break;
        case 6: case 7: { // far too large: only required when some array really depends on N and M
          must = false;
          bool uses = false, slow = false;
          for (auto &p : metas[x->meta].props) { bool n = false, m = false, plain = true; for (int e : p.ex) { if (e == 0 || e == 2) n = true; else if (e == 1 || e == 3) m = true; else plain = false; if (e == 17) slow = true; } if (n && m && plain) uses = true; }
          if (!uses || slow) break;
          if (o.a[1] % 10 == 7) {
            size_t dd[2] = {0x7fffffff, 0x7fffffff};
            DLiteInstance *q = dlite_instance_create(metas[x->meta].p, dd, nullptr);
            st = !q; if (q) dlite_instance_decref(q);
          } else {
            st = dlite_instance_set_dimension_sizes(x->p, big);
          }
          if (!st) violation("huge-accepted", "op %d: an array of 2^62 elements was accepted", i);
        } break;
        case 8: case 9: { // one element refers to an instance of other metadata than the property declares
          int k = -1; must = false;
          for (size_t q = 0; q < np; q++) { size_t q2 = (q + o.a[3]) % np; if (metas[x->meta].props[q2].type == dliteRef && count(x->shape[q2]) > 0) k = (int)q2; }
          if (k < 0) break;
          must = true;
          const XProp &p = metas[x->meta].props[k];
          size_t n = count(x->shape[k]), at = o.a[2] % n;
          Rng r(o.a[4]); XVal v; gen(r, p, n, v);
          Buf b; layout(p, v, b);
          b.ptrs[at] = objs[o.a[3] % objs.size()].p;
          st = (o.a[5] & 1) ? dlite_instance_set_property(x->p, p.name.c_str(), b.data()) : dlite_instance_set_property_by_index(x->p, k, b.data());
        } break;
        }
        eval(); last_err();
        if (must && !st) violation("bad-request-accepted", "op %d: an invalid request (%u) was accepted", i, o.a[1] % 10);
      }
      break;
    case V_COPY:
      if (XObj *x = pick(o)) {
        if (objs.size() >= MAXOBJ) break;
        seam_arm(o.f);
        DLiteInstance *p = dlite_instance_copy(x->p, nullptr);
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        if (!p) { if (!fired) violation("copy-failed", "op %d: %s", i, e.c_str()); break; }
        XObj y = *x; y.p = p; y.frozen = false;
        if (dlite_instance_is_frozen(p)) y.frozen = true;      // not specified
        objs.push_back(y);
        // they share no memory
        XObj &a = objs[objs.size() - 1];
        for (size_t k = 0; k < metas[a.meta].props.size(); k++) {
          const XProp &pp = metas[a.meta].props[k];
          void *q1 = dlite_instance_get_property_by_index(a.p, k), *q2 = dlite_instance_get_property_by_index(objs[o.a[0] % (objs.size() - 1)].p, k);
          if (q1 && q1 == q2) violation("copy-shares", "op %d: the copy shares property %s with the original", i, pp.name.c_str());
          if (pp.type == dliteStringPtr) for (size_t e2 = 0; e2 < count(a.shape[k]); e2++) if (((char **)q1)[e2] && ((char **)q1)[e2] == ((char **)q2)[e2]) violation("copy-shares", "op %d: the copy shares a string of %s with the original", i, pp.name.c_str());
        }
      }
      break;
    case V_FREEZE:
      if (XObj *x = pick(o)) { if (o.a[1] % 3 == 0) { dlite_instance_freeze(x->p); x->frozen = true; } }
      break;
    case V_PRINTSCAN:
      if (XObj *x = pick(o)) {
        int k = o.a[1] % metas[x->meta].props.size();
        const XProp &p = metas[x->meta].props[k];
        size_t n = count(x->shape[k]);
        double rows = 1; for (auto d : x->shape[k]) rows *= d ? d : 1;
        if (rows > 1e5) break;                     // empty, but with a huge number of empty rows
        bool hasnull = false;
        for (char c : x->v[k].null) if (c) hasnull = true;
        char *buf = nullptr; size_t size = 0; size_t pos = o.a[2] % 4 ? 0 : 3;
        if (pos) { buf = (char *)calloc(1, size = pos + o.a[2] % 9 + 1); memcpy(buf, "...", 3); }
        seam_arm(o.f);
        int m = dlite_instance_aprint_property_by_index(&buf, &size, pos, x->p, k, 0, p.type == dliteFloat ? 17 : -2, dliteFlagDefault);
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        if (m < 0) { if (!fired) violation("print-failed", "op %d: printing %s (%s): %s", i, p.name.c_str(), dlite_type_get_dtypename(p.type), e.c_str()); free(buf); break; }
        if (strlen(buf + pos) != (size_t)m) violation("print-length", "op %d: printing %s returned %d, but wrote %zu characters", i, p.name.c_str(), m, strlen(buf + pos));
        // the same into a buffer that is too small: nothing outside it is written, and the length is the same
        size_t small = o.a[3] % (m + 2);
        char *b2 = (char *)malloc(small + 1); b2[small] = 'Z';
        int m2 = dlite_instance_print_property(b2, small, x->p, p.name.c_str(), 0, p.type == dliteFloat ? 17 : -2, dliteFlagDefault);
        if (m2 != m || b2[small] != 'Z') violation("print-truncated", "op %d: printing %s to a buffer of %zu bytes returned %d instead of %d", i, p.name.c_str(), small, m2, m);
        if (small && (size_t)m >= small && strncmp(b2, buf + pos, strnlen(b2, small))) violation("print-truncated", "op %d: a truncated print of %s is not a prefix", i, p.name.c_str());
        free(b2);
        std::string text = buf + pos;
        free(buf);
        if (x->frozen || hasnull || (p.type == dliteRef)) break;
        // scanning it into a property with another value gives the printed value back
        XVal old = x->v[k], other; Rng r(o.a[4]); gen(r, p, n, other);
        if (n) { Buf b; layout(p, other, b); dlite_instance_set_property_by_index(x->p, k, b.data()); }
        int c = dlite_instance_scan_property(text.c_str(), x->p, p.name.c_str(), dliteFlagQuoted);
        e = last_err();
        eval();
        if (c < 0) violation("scan-failed", "op %d: %s (%s) printed as '%s' cannot be scanned: %s", i, p.name.c_str(), dlite_type_get_dtypename(p.type), text.c_str(), e.c_str());
        if (c != m) violation("scan-length", "op %d: scanning %s consumed %d of %d characters: '%s'", i, p.name.c_str(), c, m, text.c_str());
      }
      break;
    case V_BADSCAN:
      if (XObj *x = pick(o)) {
        static const char *bad[] = {"", "[", "[1, 2", "[[1], [2, 3]]", "{}", "\"unterminated", "[\"a\", {}]", "nonsense", "[1, 2, 3, 4, 5, 6, 7, 8, 9]", "-", "[[[[0]]]]", "null"};
        int k = o.a[1] % metas[x->meta].props.size();
        const XProp &p = metas[x->meta].props[k];
        if (p.type == dliteRef) break;
        dlite_instance_scan_property_by_index(bad[o.a[2] % 12], x->p, k, dliteFlagDefault);
        last_err(); eval();
        if (x->frozen) break;                       // must be untouched
        // a failed or partial scan leaves some value: replace it
        size_t n = count(x->shape[k]);
        Rng r(o.a[4]); gen(r, p, n, x->v[k]);
        if (n) { Buf b; layout(p, x->v[k], b); if (dlite_instance_set_property_by_index(x->p, k, b.data())) violation("set-failed", "op %d: %s", i, last_err().c_str()); }
      }
      break;
    case V_HASH: {
      std::vector<std::string> h;
      for (auto &x : objs) { u8 b[32]; if (dlite_instance_get_hash(x.p, b, 32)) violation("hash-failed", "op %d: %s", i, last_err().c_str()); h.push_back(std::string((char *)b, 32)); }
      for (size_t a = 0; a < objs.size(); a++) for (size_t b = 0; b < a; b++) {
        XObj &x = objs[a], &y = objs[b];
        bool same = x.meta == y.meta && x.d[0] == y.d[0] && x.d[1] == y.d[1], cat = same;
        for (size_t k = 0; same && k < x.v.size(); k++) if (x.v[k].raw != y.v[k].raw || x.v[k].str != y.v[k].str || x.v[k].ref != y.v[k].ref) same = false;
        if (!same && cat) {                         // (adjacent strings are hashed without separator)
          std::string sx, sy;
          for (size_t k = 0; k < x.v.size(); k++) {
            for (auto *q : {&x, &y}) { std::string &s = q == &x ? sx : sy; auto &v = q->v[k]; s += std::string(v.raw.begin(), v.raw.end()); for (auto &e : v.str) s += e; for (int e : v.ref) s += e < 0 ? "" : std::to_string(e); }
          }
          cat = sx == sy;
        }
        eval();
        if (same && h[a] != h[b]) violation("hash-differs", "op %d: equal instances have different hashes", i);
        if (!same && !cat && h[a] == h[b]) violation("hash-equal", "op %d: different instances have the same hash", i);
      }
      break;
    }
    case V_ORDER:
      if (XObj *x = pick(o)) {
        int k = o.a[1] % metas[x->meta].props.size();
        const XProp &p = metas[x->meta].props[k];
        size_t n = count(x->shape[k]);
        if (p.type == dliteRef || n > 5000) break;
        int order = (o.a[2] & 1) ? 'F' : 'C';
        const std::vector<long> &s = x->shape[k];
        // position of element e of the C layout in the requested layout
        auto pos = [&](size_t e) {
          if (order == 'C') return e;
          size_t q = 0, f = 1; std::vector<size_t> idx(s.size());
          for (int j = (int)s.size() - 1; j >= 0; j--) { idx[j] = e % s[j]; e /= s[j]; }
          for (size_t j = 0; j < s.size(); j++) { q += idx[j] * f; f *= s[j]; }
          return q;
        };
        std::vector<u8> dest((n + 1) * p.size, 0);
        seam_arm(o.f);
        int st = dlite_instance_copy_property(x->p, p.name.c_str(), order, dest.data());
        fired = seam_disarm();
        std::string e = last_err();
        eval();
        if (st && !fired) violation("copy-property-failed", "op %d: copying %s in %c order: %s", i, p.name.c_str(), order, e.c_str());
        XVal want; zero(p, n, want);
        for (size_t q = 0; q < n; q++) {
          if (p.type == dliteStringPtr) { want.str[pos(q)] = x->v[k].str[q]; want.null[pos(q)] = x->v[k].null[q]; }
          else memcpy(&want.raw[pos(q) * p.size], &x->v[k].raw[q * p.size], p.size);
        }
        if (!st) {
          std::string d = diff(p, dest.data(), n, want);
          if (!d.empty()) violation("order-differs", "op %d: %s (%s) copied in %c order: %s", i, p.name.c_str(), dlite_type_get_dtypename(p.type), order, d.c_str());
        }
        if (p.type == dliteStringPtr) for (size_t q = 0; q < n; q++) {
          char *c = ((char **)dest.data())[q];
          if (c && n && c == ((char **)dlite_instance_get_property_by_index(x->p, k))[q]) violation("copy-shares", "op %d: copied strings of %s are not copies", i, p.name.c_str());
          free(c);
        }
        // and back again
        if (n) {
          Rng r(o.a[4]); XVal v; gen(r, p, n, v);
          for (size_t q = 0; q < v.null.size(); q++) v.null[q] = 0;
          XVal src; zero(p, n, src);
          for (size_t q = 0; q < n; q++) {
            if (p.type == dliteStringPtr) { src.str[pos(q)] = v.str[q]; src.null[pos(q)] = 0; }
            else memcpy(&src.raw[pos(q) * p.size], &v.raw[q * p.size], p.size);
          }
          Buf b; layout(p, src, b);
          st = dlite_instance_assign_property(x->p, p.name.c_str(), order, b.data());
          e = last_err();
          eval();
          if (x->frozen) { if (!st) violation("frozen-changed", "op %d: assigning %s of a frozen instance succeeded", i, p.name.c_str()); break; }
          if (st) violation("assign-failed", "op %d: assigning %s in %c order: %s", i, p.name.c_str(), order, e.c_str());
          x->v[k] = v;
        }
      }
      break;
    case V_DROP:
      if (XObj *x = pick(o)) { dlite_instance_decref(x->p); objs.erase(objs.begin() + (x - objs.data())); }
      break;
    case V_BADMETA: {
      static const char *bad[] = {"N+", "Q", "N/0", "(N", "N)", "", "+", "N N", "1/(M-M)", "-5", "N-1000", "))", "99999999999999999999"};
      XMeta m; m.uri = "http://sim.org/0.1/Bad" + std::to_string(o.a[1] % 13);
      m.props.push_back({"b", dliteInt, 4, {0}}); m.props.push_back({"c", dliteStringPtr, 8, {1}});
      std::vector<std::vector<std::string>> sh = {{bad[o.a[1] % 13]}, {"M"}};
      if (o.a[2] & 1) std::swap(sh[0], sh[1]);
      m.uri += o.a[2] & 1 ? "x" : "";
      DLiteMeta *p = make(m.uri, m, &sh);
      last_err();
      if (p) {
        size_t dd[2] = {3, 2};
        DLiteInstance *q = dlite_instance_create(p, dd, nullptr);
        std::string e = last_err();
        eval();
        if (q) violation("bad-expression-accepted", "op %d: an instance was created although the dimension expression '%s' is invalid", i, bad[o.a[1] % 13]);
        dlite_meta_decref(p);
      }
      break;
    }
    }
    check(i, names5[o.kind]);
  }
  void release() {
    for (auto &x : objs) dlite_instance_decref(x.p);
    objs.clear();
    check(-1, "releasing everything");
    for (auto &q : target) { if (dlite_instance_decref(q)) violation("refcount", "references to an instance remain at the end"); }
  }
};

void run5(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  err_set_stream(nullptr);
  dlite_instance_has("http://nowhere.org/0.1/Missing", true);
  last_err();
  Values s(ctx.seed, t);
  bool faults = false;
  for (auto &o : t) if (o.f.kind) faults = true;
  int passes = !faults ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    s.setup();
    for (u32 i = start; i < t.size(); i++) {
      shm->opidx = i; shm->nops++;
      say("op %u: %s %u %u %u %u fault %u/%u/%u", i, names5[t[i].kind], t[i].a[0], t[i].a[1], t[i].a[2], t[i].a[3], t[i].f.kind, t[i].f.nth, t[i].f.arg);
      s.op(i);
      seam_disarm();
    }
    s.release();
    { std::vector<XObj>().swap(s.objs); }
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}

Trace gen5(Rng &r, u64) {
  Trace t; int n = r.range(8, 60);
  static const u32 w[] = {V_CREATE, V_CREATE, V_CREATE, V_SET, V_SET, V_SET, V_SET, V_SET, V_SET, V_RESIZE, V_RESIZE, V_RESIZE, V_RESIZEALL, V_RESIZEALL, V_BADREQ, V_BADREQ, V_COPY, V_COPY,
                          V_FREEZE, V_PRINTSCAN, V_PRINTSCAN, V_BADSCAN, V_HASH, V_ORDER, V_ORDER, V_DROP, V_DROP, V_BADMETA};
  bool faults = r.chance(5, 6);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = i < 2 ? V_CREATE : w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 16);
    if (faults && r.chance(1, 3) && (o.kind == V_CREATE || o.kind == V_SET || o.kind == V_RESIZE || o.kind == V_RESIZEALL || o.kind == V_COPY || o.kind == V_PRINTSCAN || o.kind == V_ORDER)) {
      o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(1, 2) ? r.range(1, 4) : r.range(1, 30); o.f.arg = r.chance(1, 6);
    }
    t.push_back(o);
  }
  return t;
}
Register r5({"S05", 14000, 150000, 0, gen5, run5, opname5,
  "distinct (type, rank, number of elements) and (dimension sizes, number of properties) combinations reached by accepted set and resize requests",
  "libdlite, libdlite-utils", "memory allocation failures (seam)"});
}  // namespace
