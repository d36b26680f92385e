// Triple world (S08): both triplestore implementations against a set of tuples,
// with iterators that stay open across other operations and failing allocations.
#include "model.h"
extern "C" {
#include "triplestore.h"
#include "builtin/ts_api.h"
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace dsim;

namespace {
enum { T_ADD, T_ADDN, T_REMOVE, T_CLEAR, T_FIND, T_FIRST, T_VALUE, T_OPEN, T_STEP, T_RESET, T_CLOSE, T_RECREATE, T_BYID, T_WALK, T_BULK, T_NK };
const char *names8[] = {"add", "add_triples", "remove", "clear", "find", "find_first", "value", "iter_open", "iter_step", "iter_reset", "iter_close", "recreate", "by_id", "walk", "bulk"};
const char *opname8(u32 k) { return k < T_NK ? names8[k] : "?"; }

size_t rl_len(void *t) { return triplestore_length((TripleStore *)t); }
const TsApi ts_redland = {
  (void *(*)(void))triplestore_create, (void (*)(void *))triplestore_free, rl_len,
  (int (*)(void *, const char *, const char *, const char *, const char *))triplestore_add,
  (int (*)(void *, const char *, const char *, const char *))triplestore_add_en,
  (int (*)(void *, const char *, const char *, const char *))triplestore_add_uri,
  (int (*)(void *, const Triple *, size_t))triplestore_add_triples,
  (int (*)(void *, const char *, const char *, const char *, const char *))triplestore_remove,
  (void (*)(void *))triplestore_clear,
  (const Triple *(*)(const void *, const char *, const char *, const char *, const char *))triplestore_find_first,
  (void (*)(void *, TripleState *))triplestore_init_state, triplestore_deinit_state, triplestore_reset_state,
  triplestore_next, triplestore_poll, triplestore_find,
  (const char *(*)(void *, const char *, const char *, const char *, const char *, const char *, int))triplestore_value, nullptr, nullptr};

struct T5 {
  std::string s, p, o, d; bool lit;
  bool operator<(const T5 &b) const { return std::tie(s, p, o, d, lit) < std::tie(b.s, b.p, b.o, b.d, b.lit); }
  bool operator==(const T5 &b) const { return !(*this < b) && !(b < *this); }
  std::string str() const { return "(" + s + ", " + p + ", " + o + (lit ? ", " + d : "") + ")"; }
};
T5 of(const Triple *t) { return T5{t->s ? t->s : "(null)", t->p ? t->p : "(null)", t->o ? t->o : "(null)", t->d ? t->d : "", t->d != nullptr}; }
struct Pat {
  const char *s, *p, *o, *d;
  bool match(const T5 &t) const {
    if (s && t.s != s) return false;
    if (p && t.p != p) return false;
    if (o && t.o != o) return false;
    if (d && !*d) return !t.lit;
    if (d) return t.lit && t.d == d;
    return true;
  }
  std::string str() const { auto f = [](const char *x) { return std::string(x ? x : "*"); }; return "(" + f(s) + ", " + f(p) + ", " + f(o) + ", " + (d ? *d ? d : "non-literal" : "*") + ")"; }
};
const char *S[] = {"a", "ab", "abc", "http://x.org/s#1", "b", "dog", "http://x.org/s#2", "c"};
const char *P[] = {"p", "bp", "is_a", "http://x.org/p", "cp", "rdf:type"};
const char *O[] = {"a", "b", "animal", "black", "1", "xsd:int", "http://x.org/s#1", "two words", "en", "10", "b@en", "\xc3\xa6", "quo\"te"};
const char *D[] = {nullptr, nullptr, nullptr, "xsd:string", "xsd:int", "@en", "@no", "http://www.w3.org/2001/XMLSchema#double", "@en-GB", "xsd:integer"};
template <int N> const char *pickc(const char *(&a)[N], u32 r) { return a[r % N]; }

enum { NSTORE = 3, NITER = 3 };
struct Iter { bool open = false, fresh = true, all = false; TripleState st; Pat pat; std::set<T5> must, may, seen; };
struct Store { const TsApi *api; void *ts = nullptr; std::set<T5> m; Iter it[NITER]; bool zombie = false; int opens() const { int n = 0; for (auto &i : it) n += i.open; return n; } };

struct World8 {
  const Trace &t;
  Store st[NSTORE];
  World8(const Trace &t_) : t(t_) { for (int k = 0; k < NSTORE; k++) st[k].api = k == 0 ? &ts_redland : &ts_builtin; }
  const char *nm(const Store &x) { return x.api == &ts_builtin ? "built-in" : "redland"; }
  void removed(Store &x, const T5 &e) { x.m.erase(e); for (auto &i : x.it) if (i.open) { i.must.erase(e); i.may.erase(e); i.seen.erase(e); } }
  void added(Store &x, const T5 &e) { if (x.m.insert(e).second) for (auto &i : x.it) if (i.open && !i.fresh && i.pat.match(e)) i.may.insert(e); }
  void begin_iter(Store &x, Iter &i) { i.fresh = false; i.must.clear(); i.may.clear(); i.seen.clear(); for (auto &e : x.m) if (i.pat.match(e)) i.must.insert(e); }
  std::set<T5> all(Store &x, int i, const char *what) {
    std::set<T5> r; TripleState s; const Triple *q;
    x.api->init_state(x.ts, &s);
    while ((q = x.api->next(&s))) { T5 e = of(q); if (!r.insert(e).second) violation("visited-twice", "op %d (%s): the %s store lists %s twice", i, what, nm(x), e.str().c_str()); }
    x.api->deinit_state(&s);
    return r;
  }
  void compare(Store &x, int i, const char *what) {
    eval();
    size_t n = x.api->length(x.ts);
    if (n != x.m.size()) violation("length", "op %d (%s): the %s store has length %zu, expected %zu", i, what, nm(x), n, x.m.size());
    std::set<T5> r = all(x, i, what);
    for (auto &e : r) if (!x.m.count(e)) violation("unexpected-triple", "op %d (%s): the %s store contains %s that was not added or has been removed", i, what, nm(x), e.str().c_str());
    for (auto &e : x.m) if (!r.count(e)) violation("missing-triple", "op %d (%s): %s is missing from the %s store", i, what, e.str().c_str(), nm(x));
    last_err();
  }
  // after a failed change: adopt what the store holds if every difference is allowed
  void close(Store &x, Iter &i) { if (i.open) { x.api->deinit_state(&i.st); i.open = false; } }
  Pat pat(const Op &o) {
    Pat p{nullptr, nullptr, nullptr, nullptr};
    u32 w = o.a[4];
    if (w & 1) p.s = pickc(S, o.a[1]);
    if (w & 2) p.p = pickc(P, o.a[2]);
    if (w & 4) p.o = pickc(O, o.a[3]);
    u32 dd = (w >> 3) % 13;
    if (dd < 7) p.d = D[3 + dd]; else if (dd == 7) p.d = "";
    return p;
  }
  T5 triple(u32 a, u32 b, u32 c, u32 d) { const char *dt = pickc(D, d); return T5{pickc(S, a), pickc(P, b), pickc(O, c), dt ? dt : "", dt != nullptr}; }

  void op(int i) {
    const Op &o = t[i];
    Store &x = st[o.a[0] % NSTORE];
    bool rl = x.api == &ts_redland, fired = false;
    const char *what = names8[o.kind];
    if (x.zombie && o.kind != T_CLOSE && o.kind != T_RECREATE && o.kind != T_STEP) return;
    // the documentation forbids other calls on a store that is searched (the built-in store supports them)
    if (rl && x.opens() && (o.kind == T_ADD || o.kind == T_ADDN || o.kind == T_REMOVE || o.kind == T_CLEAR || o.kind == T_RECREATE)) for (auto &it : x.it) close(x, it);
    switch (o.kind) {
    case T_ADD: {
      T5 e = triple(o.a[1], o.a[2], o.a[3], o.a[4]);
      int how = o.a[5] % 4, r;
      if (how == 1) { e.lit = true; e.d = "@en"; } else if (how == 2) { e.lit = false; e.d = ""; }
      size_t before = x.m.size(); (void)before;
      seam_arm(o.f);
      if (how == 1) r = x.api->add_en(x.ts, e.s.c_str(), e.p.c_str(), e.o.c_str());
      else if (how == 2) r = x.api->add_uri(x.ts, e.s.c_str(), e.p.c_str(), e.o.c_str());
      else r = x.api->add(x.ts, e.s.c_str(), e.p.c_str(), e.o.c_str(), e.lit ? e.d.c_str() : nullptr);
      fired = seam_disarm();
      std::string er = last_err();
      eval();
      if (r && !fired) violation("add-failed", "op %d: adding %s to the %s store: %s", i, e.str().c_str(), nm(x), er.c_str());
      if (!r) added(x, e);
    } break;
    case T_ADDN: {
      int n = 1 + o.a[5] % 6; if (o.a[5] % 23 == 0) n = 40;
      std::vector<T5> e; std::vector<Triple> tr(n);
      for (int k = 0; k < n; k++) e.push_back(triple(o.a[1] + k * 3, o.a[2] + k / 2, o.a[3] + k * 5, o.a[4] + k));
      for (int k = 0; k < n; k++) { memset(&tr[k], 0, sizeof tr[k]); tr[k].s = (char *)e[k].s.c_str(); tr[k].p = (char *)e[k].p.c_str(); tr[k].o = (char *)e[k].o.c_str(); tr[k].d = e[k].lit ? (char *)e[k].d.c_str() : nullptr; }
      seam_arm(o.f);
      int r = x.api->add_triples(x.ts, tr.data(), n);
      fired = seam_disarm();
      std::string er = last_err();
      eval();
      if (r && !fired) violation("add-failed", "op %d: adding %d triples to the %s store: %s", i, n, nm(x), er.c_str());
      if (!r) for (auto &q : e) added(x, q);
      else {                                   // some leading part may have been added
        size_t len = x.api->length(x.ts);
        for (auto &q : e) { if (x.m.size() >= len) break; added(x, q); }
      }
    } break;
    case T_REMOVE: {
      Pat p = pat(o);
      if (!p.s && !p.p && !p.o && !p.d && o.a[5] % 4) p.s = pickc(S, o.a[1]);
      std::vector<T5> hit; for (auto &e : x.m) if (p.match(e)) hit.push_back(e);
      seam_arm(o.f);
      int r = x.api->remove(x.ts, p.s, p.p, p.o, p.d);
      fired = seam_disarm();
      std::string er = last_err();
      eval();
      if (r < 0 && fired) break;                // nothing may be removed: compare() checks that
      if (r != (int)hit.size()) violation("remove-count", "op %d: removing %s from the %s store returned %d, but %zu triples match %s", i, p.str().c_str(), nm(x), r, hit.size(), er.c_str());
      for (auto &e : hit) removed(x, e);
    } break;
    case T_CLEAR:
      x.api->clear(x.ts);
      while (!x.m.empty()) { T5 e = *x.m.begin(); removed(x, e); }
      break;
    case T_FIND: {
      Pat p = pat(o);
      TripleState s; const Triple *q; std::set<T5> got;
      x.api->init_state(x.ts, &s);
      seam_arm(o.f);
      while ((q = x.api->find(&s, p.s, p.p, p.o, p.d))) {
        T5 e = of(q); eval();
        if (!p.match(e) || !x.m.count(e)) violation("find-wrong", "op %d: searching the %s store for %s gives %s", i, nm(x), p.str().c_str(), e.str().c_str());
        if (!got.insert(e).second) violation("visited-twice", "op %d: searching the %s store for %s gives %s twice", i, nm(x), p.str().c_str(), e.str().c_str());
      }
      fired = seam_disarm();
      x.api->deinit_state(&s);
      eval();
      if (!fired) for (auto &e : x.m) if (p.match(e) && !got.count(e)) violation("find-missing", "op %d: searching the %s store for %s does not give %s", i, nm(x), p.str().c_str(), e.str().c_str());
      note_state(mix(mix(got.size(), x.m.size()), rl * 64 + (p.s != 0) + 2 * (p.p != 0) + 4 * (p.o != 0) + 8 * (p.d != 0) + 16 * x.opens()));
    } break;
    case T_FIRST: {
      Pat p = pat(o);
      seam_arm(o.f);
      const Triple *q = x.api->find_first(x.ts, p.s, p.p, p.o, p.d);
      fired = seam_disarm();
      eval();
      bool any = false; for (auto &e : x.m) if (p.match(e)) any = true;
      if (q) { T5 e = of(q); if (!p.match(e) || !x.m.count(e)) violation("find-wrong", "op %d: the first match of %s in the %s store is %s", i, p.str().c_str(), nm(x), e.str().c_str()); }
      else if (any && !fired) violation("find-missing", "op %d: no match of %s is found in the %s store", i, p.str().c_str(), nm(x));
    } break;
    case T_VALUE: {
      Pat p = pat(o);
      int miss = o.a[5] % 3, any = (o.a[5] >> 2) & 1; const char *fb = (o.a[5] >> 3) & 1 ? "fallback" : nullptr;
      p.s = miss == 0 ? nullptr : pickc(S, o.a[1]); p.p = miss == 1 ? nullptr : pickc(P, o.a[2]); p.o = miss == 2 ? nullptr : pickc(O, o.a[3]);
      bool bad = o.a[4] % 13 == 0; if (bad) p.s = p.p = nullptr;
      std::set<std::string> vals; int n = 0;
      for (auto &e : x.m) if (p.match(e)) { n++; vals.insert(miss == 0 ? e.s : miss == 1 ? e.p : e.o); }
      seam_arm(o.f);
      const char *v = x.api->value(x.ts, p.s, p.p, p.o, p.d, fb, any);
      std::string val = v ? v : "";
      fired = seam_disarm();
      last_err(); eval();
      if (fired) break;
      if (bad) { if (v) violation("value-wrong", "op %d: a value is given although two criteria are missing", i); break; }
      if (n == 0 && (fb ? !v || val != fb : v != nullptr)) violation("value-wrong", "op %d: the value for %s in the %s store is '%s' although nothing matches", i, p.str().c_str(), nm(x), val.c_str());
      if (n == 1 && (!v || !vals.count(val))) violation("value-wrong", "op %d: the value for %s in the %s store is '%s'", i, p.str().c_str(), nm(x), val.c_str());
      if (n > 1 && any && (!v || !vals.count(val))) violation("value-wrong", "op %d: the value for %s in the %s store is '%s'", i, p.str().c_str(), nm(x), val.c_str());
      if (n > 1 && !any && v) violation("value-ambiguous", "op %d: a value for %s is given although %d triples match", i, p.str().c_str(), n);
    } break;
    case T_OPEN: {
      Iter &it = x.it[o.a[5] % NITER];
      close(x, it);
      x.api->init_state(x.ts, &it.st);
      it.open = true; it.fresh = true; it.all = o.a[4] % 3 == 0;
      it.pat = it.all ? Pat{nullptr, nullptr, nullptr, nullptr} : pat(o);
      begin_iter(x, it);
    } break;
    case T_STEP: {
      Iter &it = x.it[o.a[5] % NITER];
      if (!it.open) break;
      for (u32 k = 0; k < 1 + o.a[4] % 4; k++) {
        const Triple *q;
        if (it.all && o.a[3] % 4 == 0) {
          const Triple *w = x.api->poll(&it.st);
          bool some = w != nullptr; T5 e; if (w) e = of(w);
          q = x.api->next(&it.st);
          if (some != (q != nullptr) || (q && !(of(q) == e))) violation("poll-differs", "op %d: polling an iterator of the %s store differs from the next step", i, nm(x));
        } else q = it.all ? x.api->next(&it.st) : x.api->find(&it.st, it.pat.s, it.pat.p, it.pat.o, it.pat.d);
        eval();
        if (!q) {
          if (!it.must.empty()) violation("iter-missing", "op %d: an iterator over %s of the %s store ended without visiting %s", i, it.pat.str().c_str(), nm(x), it.must.begin()->str().c_str());
          break;
        }
        T5 e = of(q);
        if (it.seen.count(e)) violation("visited-twice", "op %d: an iterator of the %s store gives %s twice", i, nm(x), e.str().c_str());
        if (!it.must.count(e) && !it.may.count(e)) violation("iter-wrong", "op %d: an iterator over %s of the %s store gives %s", i, it.pat.str().c_str(), nm(x), e.str().c_str());
        it.must.erase(e); it.may.erase(e); it.seen.insert(e);
      }
    } break;
    case T_RESET: {
      Iter &it = x.it[o.a[5] % NITER];
      if (!it.open) break;
      x.api->reset_state(&it.st);
      begin_iter(x, it);
    } break;
    case T_CLOSE: close(x, x.it[o.a[5] % NITER]); if (x.zombie && !x.opens()) { x.zombie = false; x.ts = x.api->create(); } break;
    case T_RECREATE:
      if (x.zombie || o.a[5] % 3) break;
      x.api->free(x.ts);                        // (with iterators open it lives on, empty, until they are closed)
      while (!x.m.empty()) { T5 e = *x.m.begin(); removed(x, e); }
      if (x.opens()) x.zombie = true; else x.ts = x.api->create();
      break;
    case T_BYID:
      if (!x.api->get || x.m.empty()) break;
      else {
        // the id of a triple is what the store reports
        TripleState s; const Triple *q; std::vector<std::pair<T5, std::string>> ids;
        x.api->init_state(x.ts, &s);
        while ((q = x.api->next(&s))) ids.push_back({of(q), q->id ? q->id : ""});
        x.api->deinit_state(&s);
        std::sort(ids.begin(), ids.end());
        auto &e = ids[o.a[1] % ids.size()];
        q = x.api->get(x.ts, e.second.c_str());
        eval();
        if (!q || !(of(q) == e.first)) violation("id-wrong", "op %d: looking up the id of %s gives %s", i, e.first.str().c_str(), q ? of(q).str().c_str() : "nothing");
        if (o.a[2] & 1) {
          if (x.api->remove_by_id(x.ts, e.second.c_str())) violation("remove-count", "op %d: cannot remove %s by id: %s", i, e.first.str().c_str(), last_err().c_str());
          removed(x, e.first);
          if (!x.api->remove_by_id(x.ts, e.second.c_str())) violation("remove-count", "op %d: %s was removed twice by id", i, e.first.str().c_str());
          if (x.api->get(x.ts, e.second.c_str())) violation("id-wrong", "op %d: %s is found by id after it was removed", i, e.first.str().c_str());
        }
        last_err();
      }
      break;
    case T_BULK: {                              // many triples at once (memory of the built-in store grows in chunks)
      if (rl || (o.a[5] >> 4) % 6 || x.m.size() > 3000) break;
      int n = 300 + o.a[1] % 1900; bool holes = o.a[5] & 4;
      std::vector<T5> e; std::vector<Triple> tr(n);
      for (int k = 0; k < n; k++) { u32 v = (o.a[2] * 7 + k) % 5000; e.push_back(T5{"bulk" + std::to_string(v % 50), P[v / 50 % 6], std::to_string(v), "xsd:int", true}); }
      for (int k = 0; k < n; k++) tr[k] = Triple{(char *)e[k].s.c_str(), (char *)e[k].p.c_str(), (char *)e[k].o.c_str(), (char *)e[k].d.c_str(), nullptr};
      int first = o.a[3] % n;
      if (x.api->add_triples(x.ts, tr.data(), first) || x.api->add_triples(x.ts, tr.data() + first, n - first)) violation("add-failed", "op %d: adding %d triples to the %s store: %s", i, n, nm(x), last_err().c_str());
      for (auto &q : e) added(x, q);
      if (holes) {
        std::string s = "bulk" + std::to_string(o.a[4] % 50); int m = 0;
        for (auto q = x.m.begin(); q != x.m.end();) { T5 z = *q++; if (z.s == s) { removed(x, z); m++; } }
        int r = x.api->remove(x.ts, s.c_str(), nullptr, nullptr, nullptr);
        if (r != m) violation("remove-count", "op %d: removing %s from the %s store returned %d, expected %d", i, s.c_str(), nm(x), r, m);
      }
    } break;
    case T_WALK: compare(x, i, what); break;
    }
    last_err();
    if (!x.zombie && (!rl || !x.opens() || true)) compare(x, i, what);
  }
  void setup() { for (auto &x : st) if (!(x.ts = x.api->create())) violation("setup", "%s", last_err().c_str()); }
  void release() {
    for (auto &x : st) {
      for (auto &i : x.it) close(x, i);
      if (!x.zombie) { compare(x, -1, "end"); x.api->free(x.ts); }
      x.zombie = false; x.m.clear();
      for (auto &i : x.it) i = Iter();
    }
  }
};

void run8(const Trace &t, u32 start, u32) {
  seam_random_mode(0, ctx.seed);
  err_set_stream(nullptr);
  World8 s(t);
  s.setup(); s.release();
  bool faults = false;
  for (auto &o : t) if (o.f.kind) faults = true;
  int passes = !faults ? 5 : 1;
  size_t used[5] = {0};
  for (int pass = 0; pass < passes; pass++) {
    s.setup();
    for (u32 i = start; i < t.size(); i++) {
      shm->opidx = i; shm->nops++;
      say("op %u: %s %u %u %u %u %u %u fault %u/%u/%u", i, names8[t[i].kind], t[i].a[0], t[i].a[1], t[i].a[2], t[i].a[3], t[i].a[4], t[i].a[5], t[i].f.kind, t[i].f.nth, t[i].f.arg);
      s.op(i);
      seam_disarm();
    }
    s.release();
    used[pass] = __sanitizer_get_current_allocated_bytes();
  }
  if (passes == 5) {
    eval();
    if (used[4] > used[3] && used[3] > used[2] && used[2] > used[1])
      violation("memory-leak", "repeating the same history after releasing everything takes %zu more bytes each time", used[4] - used[3]);
  }
}
Trace gen8(Rng &r, u64) {
  Trace t; int n = r.range(8, 70);
  static const u32 w[] = {T_ADD, T_ADD, T_ADD, T_ADD, T_ADD, T_ADDN, T_ADDN, T_REMOVE, T_REMOVE, T_REMOVE, T_CLEAR, T_FIND, T_FIND, T_FIND, T_FIRST, T_FIRST, T_VALUE, T_VALUE,
                          T_OPEN, T_OPEN, T_STEP, T_STEP, T_STEP, T_STEP, T_RESET, T_CLOSE, T_CLOSE, T_RECREATE, T_BYID, T_BYID, T_BULK};
  bool faults = r.chance(4, 6);
  int only = r.below(4);
  for (int i = 0; i < n; i++) {
    Op o; o.kind = w[r.below(sizeof w / sizeof *w)];
    for (auto &a : o.a) a = r.below(1 << 12);
    if (only < NSTORE) o.a[0] = only;
    if (faults && r.chance(1, 3) && o.kind != T_OPEN && o.kind != T_STEP && o.kind != T_RESET && o.kind != T_CLOSE && o.kind != T_RECREATE && o.kind != T_BYID && o.kind != T_WALK && o.kind != T_BULK && o.kind != T_CLEAR) {
      o.f.kind = F_MALLOC_FAIL; o.f.nth = r.chance(2, 3) ? r.range(1, 6) : r.range(1, 40); o.f.arg = r.chance(1, 6);
    }
    t.push_back(o);
  }
  return t;
}
Register r8({"S08", 6000, 200000, 0, gen8, run8, opname8,
  "distinct (store kind, size, number of matches, pattern shape, number of open iterators) combinations reached by searches",
  "triplestore-redland.c, triplestore-builtin.c, triple.c, librdf", "memory allocation failures in DLite code (seam)"});
}  // namespace
