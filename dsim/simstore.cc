#include "simstore.h"
#include <unistd.h>

namespace dsim {
std::function<void(SimStore &, const SimRec &)> sim_on_save;
static std::map<std::string, SimStore> stores;
static Fault plan; static u32 calls; static bool fired_;

static std::string path_of(const std::string &loc) {
  char b[32]; snprintf(b, sizeof b, "/sim-%016llx", (unsigned long long)hash_str(loc));
  return ctx.dir + b;
}
static void put(std::string &s, const std::string &x) { u32 n = x.size(); s.append((char *)&n, 4); s += x; }
static std::string get(const std::string &s, size_t &p) { u32 n; memcpy(&n, s.data() + p, 4); std::string r = s.substr(p + 4, n); p += 4 + n; return r; }
static void putn(std::string &s, u32 n) { s.append((char *)&n, 4); }
static u32 getn(const std::string &s, size_t &p) { u32 n; memcpy(&n, s.data() + p, 4); p += 4; return n; }

void SimStore::persist() {
  std::string s;
  putn(s, order.size());
  for (auto &u : order) {
    const SimRec &r = recs[u];
    put(s, r.meta); put(s, r.uuid); put(s, r.uri); put(s, r.puuid); put(s, r.phash); putn(s, r.frozen);
    putn(s, r.d.dims.size()); for (size_t d : r.d.dims) putn(s, d);
    putn(s, r.d.v.size()); for (auto &v : r.d.v) { putn(s, v.size()); for (auto &x : v) put(s, x); }
  }
  write_file(path_of(location), s);
}

SimStore &sim_store(const std::string &location) {
  auto it = stores.find(location);
  if (it != stores.end()) return it->second;
  SimStore &st = stores[location];
  st.location = location;
  if (file_exists(path_of(location))) {
    std::string s = read_file(path_of(location)); size_t p = 0;
    u32 n = getn(s, p);
    while (n--) {
      SimRec r;
      r.meta = get(s, p); r.uuid = get(s, p); r.uri = get(s, p); r.puuid = get(s, p); r.phash = get(s, p); r.frozen = getn(s, p);
      u32 k = getn(s, p); while (k--) r.d.dims.push_back(getn(s, p));
      k = getn(s, p); while (k--) { PVal v; u32 m = getn(s, p); while (m--) v.push_back(get(s, p)); r.d.v.push_back(v); }
      st.recs[r.uuid] = r; st.order.push_back(r.uuid);
    }
  }
  return st;
}

void sim_arm(const Fault &f) { plan = f; calls = 0; fired_ = false; }
bool sim_disarm() { plan = Fault(); return fired_; }
// 0 go on, 1 fail before doing anything, 2 do it but fail (or die) afterwards
static int step() {
  if (plan.kind != F_PLUGIN_FAIL && plan.kind != F_CRASH) return 0;
  if (++calls != plan.nth && !(plan.kind == F_PLUGIN_FAIL && (plan.arg & 2) && calls > plan.nth)) return 0;
  fired_ = true;
  seam_register_fault(plan.kind);
  if (plan.kind == F_CRASH && !(plan.arg & 1)) _exit(77);
  return plan.kind == F_CRASH ? 2 : 1;
}

static std::string str(const char *s) { return s ? s : ""; }
VData capture(const DLiteInstance *inst) {
  VData d;
  struct Pause { Pause() { seam_pause(true); } ~Pause() { seam_pause(false); } } pause;   // the simulator looks: no faults
  const DLiteMeta *m = inst->meta;
  for (size_t i = 0; i < m->_ndimensions; i++) d.dims.push_back(dlite_instance_get_dimension_size_by_index(inst, i));
  for (size_t i = 0; i < m->_nproperties; i++) {
    const DLiteProperty &p = m->_properties[i];
    size_t n = 1;
    const void *ptr = dlite_instance_get_property_by_index(inst, i);
    for (int j = 0; j < p.ndims; j++) n *= DLITE_PROP_DIM(inst, i, j);
    PVal v;
    if (p.type == dliteStringPtr) for (size_t k = 0; k < n; k++) v.push_back(str(((char **)ptr)[k]));
    else if (p.type == dliteRelation) {
      std::vector<PVal> q;
      for (size_t k = 0; k < n; k++) { const Triple &t = ((Triple *)ptr)[k]; q.push_back({str(t.s), str(t.p), str(t.o), t.d ? "D" + std::string(t.d) : ""}); }
      std::sort(q.begin(), q.end());            // a set: the order in the array is not promised
      for (auto &x : q) v.insert(v.end(), x.begin(), x.end());
    } else v.push_back(std::string((const char *)ptr, ptr ? n * p.size : 0));
    d.v.push_back(v);
  }
  return d;
}
VData to_vdata(const MInst &m, const MMeta &mm) {
  VData d; d.dims = m.dims;
  for (size_t i = 0; i < mm.props.size(); i++)
    d.v.push_back(mm.props[i].type == dliteStringPtr ? m.vals[i].str : PVal{std::string((const char *)m.vals[i].raw.data(), m.vals[i].raw.size())});
  return d;
}
u64 hash_vdata(const VData &d) {
  u64 h = 1; for (size_t x : d.dims) h = mix(h, x);
  for (auto &v : d.v) for (auto &x : v) h = hash_str(x, mix(h, 3));
  return h;
}
int put_vdata(DLiteInstance *inst, const VData &d) {
  for (size_t i = 0; i < inst->meta->_nproperties; i++) {
    const DLiteProperty &p = inst->meta->_properties[i];
    const PVal &v = d.v[i];
    int r;
    if (p.type == dliteStringPtr) {
      std::vector<char *> q; for (auto &s : v) q.push_back((char *)s.c_str());
      q.push_back(nullptr);
      r = dlite_instance_set_property_by_index(inst, i, q.data());
    } else if (p.type == dliteRelation) {
      std::vector<Triple> q;
      for (size_t k = 0; k + 3 < v.size(); k += 4) q.push_back({(char *)v[k].c_str(), (char *)v[k + 1].c_str(), (char *)v[k + 2].c_str(), v[k + 3].empty() ? nullptr : (char *)v[k + 3].c_str() + 1, nullptr});
      q.push_back(Triple());
      r = dlite_instance_set_property_by_index(inst, i, q.data());
    } else {
      std::string raw = v[0]; raw.resize(raw.size() + 8);
      r = dlite_instance_set_property_by_index(inst, i, raw.data());
    }
    if (r) return 1;
  }
  return 0;
}

void sim_forget(const std::string &location) { unlink(path_of(location).c_str()); stores.erase(location); }

// ---- the driver -------------------------------------------------------------
struct SStorage { DLiteStorage_HEAD SimStore *st; };
struct SIter { const SimStore *st; size_t i; std::string pattern; };

static DLiteStorage *s_open(const DLiteStoragePlugin *api, const char *uri, const char *options) {
  if (step()) return (DLiteStorage *)(err(dliteStorageOpenError, "sim: cannot open %s", uri), nullptr);
  SStorage *s = (SStorage *)calloc(1, sizeof(SStorage));
  s->api = api; s->st = &sim_store(uri); s->st->opens++;
  std::string o = options ? options : "";
  int fl = dliteReadable | dliteTransaction;
  if (o.find("mode=r;") == std::string::npos && o != "mode=r") fl |= dliteWritable;
  if (o.find("generic") != std::string::npos) fl |= dliteGeneric;
  if (o.find("notrans") != std::string::npos) fl &= ~dliteTransaction;
  s->flags = (DLiteStorageFlags)fl;
  return (DLiteStorage *)s;
}
static int s_close(DLiteStorage *s) { ((SStorage *)s)->st->closes++; return 0; }

static DLiteInstance *s_load(const DLiteStorage *s, const char *id) {
  SimStore &st = *((SStorage *)s)->st;
  char uuid[DLITE_UUID_LENGTH + 1];
  if (dlite_get_uuid(uuid, id) < 0) return nullptr;
  if (DLiteInstance *have = dlite_instance_has(uuid, false)) { dlite_instance_incref(have); return have; }
  auto it = st.recs.find(uuid);
  if (it == st.recs.end()) return (DLiteInstance *)(err(dliteStorageLoadError, "sim: no %s in %s", uuid, st.location.c_str()), nullptr);
  if (step()) return (DLiteInstance *)(err(dliteStorageLoadError, "sim: cannot read %s", uuid), nullptr);
  const SimRec &r = it->second;
  size_t dims[16] = {0};
  for (size_t i = 0; i < r.d.dims.size(); i++) dims[i] = r.d.dims[i];
  DLiteInstance *inst = dlite_instance_create_from_id(r.meta.c_str(), dims, r.uri.empty() ? r.uuid.c_str() : r.uri.c_str());
  if (!inst) return nullptr;
  if (put_vdata(inst, r.d)) { dlite_instance_decref(inst); return nullptr; }
  if (!r.puuid.empty()) {
    DLiteParent *p = (DLiteParent *)calloc(1, sizeof(DLiteParent));
    memcpy(p->uuid, r.puuid.c_str(), DLITE_UUID_LENGTH + 1);
    memcpy(p->hash, r.phash.data(), DLITE_HASH_SIZE);
    inst->_parent = p;
  }
  if (r.frozen) dlite_instance_freeze(inst);
  return inst;
}
static int s_save(DLiteStorage *s, const DLiteInstance *inst) {
  SimStore &st = *((SStorage *)s)->st;
  int k = step();
  if (k == 1) return err(dliteStorageSaveError, "sim: cannot write %s", inst->uuid);
  SimRec r;
  r.meta = inst->meta->uri; r.uuid = inst->uuid; r.uri = inst->uri ? inst->uri : "";
  r.d = capture(inst);
  r.frozen = inst->_flags & dliteImmutable;
  if (inst->_parent) { r.puuid = inst->_parent->uuid; r.phash = std::string((char *)inst->_parent->hash, DLITE_HASH_SIZE); }
  if (!st.recs.count(r.uuid)) st.order.push_back(r.uuid);
  st.recs[r.uuid] = r;
  st.persist();
  if (sim_on_save) sim_on_save(st, r);
  if (k == 2) _exit(77);
  return 0;
}
static int s_delete(DLiteStorage *s, const char *id) {
  SimStore &st = *((SStorage *)s)->st;
  char uuid[DLITE_UUID_LENGTH + 1];
  if (dlite_get_uuid(uuid, id) < 0) return 1;
  if (step()) return err(dliteStorageSaveError, "sim: cannot delete %s", uuid);
  if (!st.recs.erase(uuid)) return err(dliteMissingInstanceError, "sim: no %s", uuid);
  st.order.erase(std::find(st.order.begin(), st.order.end(), uuid));
  st.persist();
  return 0;
}
static void *s_iter(const DLiteStorage *s, const char *pattern) {
  if (step()) return err(dliteStorageLoadError, "sim: cannot iterate"), nullptr;
  return new SIter{((SStorage *)s)->st, 0, pattern ? pattern : ""};
}
static int s_iternext(void *it, char *buf) {
  SIter *i = (SIter *)it;
  if (i->i < i->st->order.size() && step()) return err(-1, "sim: cannot read index");
  while (i->i < i->st->order.size()) {
    const SimRec &r = i->st->recs.at(i->st->order[i->i++]);
    if (!i->pattern.empty() && globmatch(i->pattern.c_str(), r.meta.c_str())) continue;
    strcpy(buf, r.uuid.c_str());
    return 0;
  }
  return 1;
}
static void s_iterfree(void *it) { delete (SIter *)it; }

static DLiteStoragePlugin api;
void sim_plugin_setup() {
  dlite_storage_plugin_path_append((std::string(repo_build_dir()) + "/../plugins").c_str());
}
}
extern "C" const DLiteStoragePlugin *sim_storage_api() {
  using namespace dsim;
  api.name = (char *)"sim";
  api.open = s_open; api.close = s_close;
  api.iterCreate = s_iter; api.iterNext = s_iternext; api.iterFree = s_iterfree;
  api.loadInstance = s_load; api.saveInstance = s_save; api.deleteInstance = s_delete;
  return &api;
}
