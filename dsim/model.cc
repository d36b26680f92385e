#include "model.h"
namespace dsim {

std::string gen_uuid(Rng &r) {
  char b[40];
  u64 a = r.next(), c = r.next();
  snprintf(b, sizeof b, "%08x-%04x-4%03x-%c%03x-%04x%08x", (u32)a, (u32)(a >> 32) & 0xffff,
           (u32)(a >> 48) & 0xfff, "89ab"[c & 3], (u32)(c >> 2) & 0xfff, (u32)(c >> 16) & 0xffff, (u32)(c >> 32));
  return b;
}
std::string uuid_of(const std::string &id) {
  char u[DLITE_UUID_LENGTH + 1] = "";
  dlite_get_uuid(u, id.c_str());
  return u;
}
std::string last_err() { std::string s = err_getmsg(); err_clear(); return s; }

static const struct { DLiteType t; size_t s; } kinds[] = {
  {dliteInt, 1}, {dliteInt, 2}, {dliteInt, 4}, {dliteInt, 8}, {dliteUInt, 1}, {dliteUInt, 2}, {dliteUInt, 4}, {dliteUInt, 8},
  {dliteFloat, 4}, {dliteFloat, 8}, {dliteBool, 1}, {dliteStringPtr, 8}, {dliteStringPtr, 8}, {dliteStringPtr, 8},
  {dliteFixString, 6}, {dliteFixString, 17}, {dliteBlob, 5}, {dliteBlob, 16}};

MMeta gen_meta(u64 seed, int idx) {
  Rng r(mix(mix(seed, 0xfeed), idx));
  MMeta m;
  static const char *ns[] = {"http://onto-ns.com/meta", "http://sim.org/a/b", "ns"};
  m.uri = std::string(ns[r.below(3)]) + "/" + std::to_string(r.below(3)) + "." + std::to_string(idx) + "/M" + std::to_string(idx);
  if (r.chance(2, 3)) m.descr = "Entity number " + std::to_string(idx);
  int nd = r.range(0, 3);
  static const char *dn[] = {"N", "M", "K"};
  for (int i = 0; i < nd; i++) m.dims.push_back(dn[i]);
  int np = r.range(1, 6);
  for (int i = 0; i < np; i++) {
    MProp p;
    p.name = std::string("p") + std::to_string(i) + (r.chance(1, 4) ? "_long_property_name" : "");
    auto &k = kinds[r.below(sizeof kinds / sizeof *kinds)];
    p.type = k.t; p.size = k.s;
    int ndims = nd ? r.range(0, nd > 1 ? 3 : 2) : 0;
    if (ndims == 3 && !r.chance(1, 3)) ndims = 1;
    for (int j = 0; j < ndims; j++) {
      int d = r.below(nd), off = r.chance(1, 5) ? (int)r.range(1, 2) : 0;
      p.sh.push_back({d, off});
      p.shape.push_back(off ? m.dims[d] + "+" + std::to_string(off) : m.dims[d]);
    }
    static const char *units[] = {"", "", "m", "kg/m^3", "1"};
    p.unit = units[r.below(5)];
    if (r.chance(1, 2)) p.descr = "Property " + std::to_string(i);
    m.props.push_back(p);
  }
  return m;
}

size_t nmemb(const MProp &p, const std::vector<size_t> &dims) {
  size_t n = 1;
  for (auto &s : p.sh) n *= dims[s.first] + s.second;
  return n;
}

static std::string gen_string(Rng &r, const Caps &c) {
  static const char *plain[] = {"abc", "x", "hello world", "a-longer-string-with-many-characters-0123456789", "42", "true", "null", "http://example.com/x#y"};
  static const char *spec[] = {"say \"hi\"", "back\\slash", "tab\there", "new\nline", "\xc3\xa6\xc3\xb8\xc3\xa5", "{\"a\": [1]}", "trailing\\", " lead", "a'b", "/slash/"};
  if (c.scalar_empty_str && r.chance(1, 10)) return "";
  if (c.special_chars && r.chance(1, 3)) return spec[r.below(10)];
  if (r.chance(1, 30)) return std::string(r.range(100, 3000), 'L');
  return std::string(plain[r.below(8)]) + (r.chance(1, 2) ? std::to_string(r.below(1000)) : "");
}

void gen_value(Rng &r, const MProp &p, const std::vector<size_t> &dims, MVal &v, const Caps &c) {
  size_t n = nmemb(p, dims);
  v.raw.clear(); v.str.clear();
  if (p.type == dliteStringPtr) {
    for (size_t i = 0; i < n; i++) v.str.push_back(gen_string(r, c));
    return;
  }
  v.raw.assign(n * p.size, 0);
  for (size_t i = 0; i < n; i++) {
    u8 *d = v.raw.data() + i * p.size;
    switch (p.type) {
    case dliteBool: *d = r.below(2); break;
    case dliteInt: case dliteUInt: {
      u64 x = r.chance(1, 4) ? (r.chance(1, 2) ? ~0ull : (1ull << (8 * p.size - 1))) : r.chance(1, 3) ? r.next() : r.below(100);
      memcpy(d, &x, p.size); break;
    }
    case dliteFloat: {
      // values every driver claims to represent: six significant digits
      double x = (double)(int)r.range(-4000, 4000) / 8.0;
      if (r.chance(1, 6)) x = r.range(1, 9) * 1e10;
      if (c.exact_float && r.chance(1, 3)) x = (double)(long long)r.next() / 3e9;
      if (p.size == 4) { float f = (float)x; memcpy(d, &f, 4); } else memcpy(d, &x, 8);
      break;
    }
    case dliteFixString: {
      std::string s = gen_string(r, c);
      if (s.size() > p.size - 1) s.resize(p.size - 1);
      while (!s.empty() && (u8)s.back() >= 0x80) s.pop_back();       // no torn UTF-8 sequence
      memcpy(d, s.data(), s.size()); break;
    }
    default: for (size_t k = 0; k < p.size; k++) d[k] = (u8)r.next();
    }
  }
}

MInst gen_inst(u64 seed, const std::vector<MMeta> &metas, int idx, int version, const Caps &c) {
  MInst m;
  Rng rid(mix(mix(seed, 0xabc), idx));
  m.meta = rid.below(metas.size());
  switch (rid.below(3)) {
  case 0: m.id = gen_uuid(rid); break;
  case 1: m.id = "http://sim.org/data/inst" + std::to_string(idx); break;
  default: m.id = "inst-" + std::to_string(idx);
  }
  Rng r(mix(mix(mix(seed, 0xdef), idx), version));
  const MMeta &mm = metas[m.meta];
  bool big = false;
  for (size_t i = 0; i < mm.dims.size(); i++)
    m.dims.push_back(c.zero_dims && r.chance(1, 8) ? 0 : !big && r.chance(1, 20) ? (big = true, r.range(10, c.big)) : r.range(1, 4));
  for (auto &p : mm.props) { MVal v; gen_value(r, p, m.dims, v, c); m.vals.push_back(v); }
  return m;
}

DLiteMeta *make_meta(const MMeta &m) {
  std::vector<DLiteDimension> dims;
  for (auto &d : m.dims) dims.push_back({(char *)d.c_str(), (char *)"a dimension"});
  std::vector<DLiteProperty> props;
  std::vector<std::vector<char *>> shapes(m.props.size());
  for (size_t i = 0; i < m.props.size(); i++) {
    auto &p = m.props[i];
    DLiteProperty q; memset(&q, 0, sizeof q);
    q.name = (char *)p.name.c_str(); q.type = p.type; q.size = p.size; q.ndims = p.sh.size();
    for (auto &s : p.shape) shapes[i].push_back((char *)s.c_str());
    q.shape = shapes[i].empty() ? nullptr : shapes[i].data();
    q.unit = p.unit.empty() ? nullptr : (char *)p.unit.c_str();
    q.description = p.descr.empty() ? nullptr : (char *)p.descr.c_str();
    props.push_back(q);
  }
  return dlite_meta_create(m.uri.c_str(), m.descr.empty() ? nullptr : m.descr.c_str(), dims.size(),
                           dims.data(), props.size(), props.data());
}

int set_value(DLiteInstance *inst, const MProp &p, const std::vector<size_t> &dims, const MVal &v) {
  if (p.type == dliteStringPtr) {
    std::vector<char *> q;
    for (auto &s : v.str) q.push_back((char *)s.c_str());
    q.push_back(nullptr);
    return dlite_instance_set_property(inst, p.name.c_str(), q.data());
  }
  static u8 z[8];
  return dlite_instance_set_property(inst, p.name.c_str(), v.raw.empty() ? z : v.raw.data());
}

int apply_inst(DLiteInstance *inst, const MInst &m, const MMeta &mm) {
  if (mm.dims.size()) {
    std::vector<int> d(m.dims.begin(), m.dims.end());
    if (dlite_instance_set_dimension_sizes(inst, d.data())) return 1;
  }
  for (size_t i = 0; i < mm.props.size(); i++)
    if (set_value(inst, mm.props[i], m.dims, m.vals[i])) return 2;
  return 0;
}

DLiteInstance *make_inst(const MInst &m, const std::vector<MMeta> &metas, std::string *e) {
  const MMeta &mm = metas[m.meta];
  size_t dims[8] = {0};
  for (size_t i = 0; i < m.dims.size(); i++) dims[i] = m.dims[i];
  DLiteInstance *inst = dlite_instance_create_from_id(mm.uri.c_str(), dims, m.id.c_str());
  if (!inst) { if (e) *e = last_err(); return nullptr; }
  for (size_t i = 0; i < mm.props.size(); i++)
    if (set_value(inst, mm.props[i], m.dims, m.vals[i])) {
      if (e) *e = last_err();
      dlite_instance_decref(inst);
      return nullptr;
    }
  return inst;
}

static std::string show(const u8 *p, size_t n) {
  std::string s; char b[4];
  for (size_t i = 0; i < n && i < 24; i++) { snprintf(b, sizeof b, "%02x", p[i]); s += b; }
  return s;
}

std::string diff_value(DLiteInstance *inst, int i, const MProp &p, const std::vector<size_t> &dims, const MVal &v) {
  for (size_t j = 0; j < p.sh.size(); j++) {
    size_t want = dims[p.sh[j].first] + p.sh[j].second;
    if (DLITE_PROP_DIM(inst, i, j) != want)
      return p.name + ": shape[" + std::to_string(j) + "] is " + std::to_string(DLITE_PROP_DIM(inst, i, j)) + ", expected " + std::to_string(want);
  }
  size_t n = nmemb(p, dims);
  void *ptr = dlite_instance_get_property_by_index(inst, i);
  if (n && !ptr) return p.name + ": no value";
  for (size_t k = 0; k < n; k++) {
    if (p.type == dliteStringPtr) {
      const char *s = ((char **)ptr)[k];
      const std::string &w = v.str[k];
      if (!s) s = "";                       // an unset string and an empty one are the same value
      if (w != s)
        return p.name + "[" + std::to_string(k) + "]: \"" + std::string(s).substr(0, 60) + "\", expected \"" + w.substr(0, 60) + "\"";
    } else if (p.type == dliteFixString) {
      const char *a = (char *)ptr + k * p.size, *b = (char *)v.raw.data() + k * p.size;
      if (strncmp(a, b, p.size))
        return p.name + "[" + std::to_string(k) + "]: \"" + std::string(a, strnlen(a, p.size)) + "\", expected \"" + b + "\"";
    } else {
      const u8 *a = (u8 *)ptr + k * p.size, *b = v.raw.data() + k * p.size;
      if (memcmp(a, b, p.size)) {
        if (p.type == dliteFloat) {
          double x, y;
          if (p.size == 4) { float f; memcpy(&f, a, 4); x = f; memcpy(&f, b, 4); y = f; } else { memcpy(&x, a, 8); memcpy(&y, b, 8); }
          if (x == y) continue;
        }
        return p.name + "[" + std::to_string(k) + "]: bytes " + show(a, p.size) + ", expected " + show(b, p.size);
      }
    }
  }
  return "";
}

std::string diff_inst(DLiteInstance *inst, const MInst &m, const std::vector<MMeta> &metas, bool uri_kept) {
  const MMeta &mm = metas[m.meta];
  if (!inst) return "no instance";
  if (!inst->meta || !inst->meta->uri || mm.uri != inst->meta->uri)
    return "metadata is " + std::string(inst->meta && inst->meta->uri ? inst->meta->uri : "(none)") + ", expected " + mm.uri;
  if (uuid_of(m.id) != inst->uuid) return "uuid is " + std::string(inst->uuid) + ", expected that of " + m.id;
  bool isuuid = dlite_isuuid(m.id.c_str());
  // a storage that keeps no name may leave it out or give the default name
  bool deflt = !uri_kept && (!inst->uri || mm.uri + "/" + inst->uuid == inst->uri);
  if (!isuuid && !deflt && (!inst->uri || m.id != inst->uri))
    return "uri is " + std::string(inst->uri ? inst->uri : "(none)") + ", expected " + m.id;
  if (inst->meta->_ndimensions != mm.dims.size()) return "wrong number of dimensions";
  if (inst->meta->_nproperties != mm.props.size()) return "wrong number of properties";
  for (size_t i = 0; i < mm.dims.size(); i++)
    if (dlite_instance_get_dimension_size_by_index(inst, i) != m.dims[i])
      return "dimension " + mm.dims[i] + " is " + std::to_string(dlite_instance_get_dimension_size_by_index(inst, i)) + ", expected " + std::to_string(m.dims[i]);
  for (size_t i = 0; i < mm.props.size(); i++) {
    std::string d = diff_value(inst, i, mm.props[i], m.dims, m.vals[i]);
    if (!d.empty()) return d;
  }
  return "";
}

static std::string ns(const char *s) { return s ? s : ""; }
std::string diff_meta(const DLiteMeta *meta, const MMeta &m) {
  if (!meta) return "no metadata";
  if (ns(meta->uri) != m.uri) return "metadata uri is " + ns(meta->uri) + ", expected " + m.uri;
  if (!dlite_instance_is_meta((DLiteInstance *)meta)) return "not metadata";
  int k = dlite_meta_get_property_index(meta->meta, "description");
  if (k >= 0) {
    char **d = (char **)dlite_instance_get_property_by_index((DLiteInstance *)meta, k);
    if (d && ns(*d) != m.descr) return "description is '" + ns(*d) + "', expected '" + m.descr + "'";
  }
  if (meta->_ndimensions != m.dims.size()) return "number of dimensions is " + std::to_string(meta->_ndimensions);
  for (size_t i = 0; i < m.dims.size(); i++)
    if (ns(meta->_dimensions[i].name) != m.dims[i]) return "dimension " + std::to_string(i) + " is " + ns(meta->_dimensions[i].name);
  if (meta->_nproperties != m.props.size()) return "number of properties is " + std::to_string(meta->_nproperties);
  for (size_t i = 0; i < m.props.size(); i++) {
    const DLiteProperty &q = meta->_properties[i]; const MProp &p = m.props[i];
    if (ns(q.name) != p.name) return "property " + std::to_string(i) + " is named " + ns(q.name) + ", expected " + p.name;
    if (q.type != p.type || q.size != p.size) return "type of property " + p.name + " differs";
    if (q.ndims != (int)p.sh.size()) return "ndims of property " + p.name + " is " + std::to_string(q.ndims);
    for (int j = 0; j < q.ndims; j++) if (ns(q.shape[j]) != p.shape[j]) return "shape of property " + p.name + ": " + ns(q.shape[j]) + ", expected " + p.shape[j];
    if (ns(q.unit) != p.unit) return "unit of property " + p.name + " is '" + ns(q.unit) + "', expected '" + p.unit + "'";
    if (ns(q.description) != p.descr) return "description of property " + p.name + " is '" + ns(q.description) + "'";
  }
  return "";
}

u64 hash_inst(const MInst &m) {
  u64 h = hash_str(m.id);
  for (size_t d : m.dims) h = mix(h, d);
  for (auto &v : m.vals) { h = hash_bytes(v.raw.data(), v.raw.size(), h); for (auto &s : v.str) h = hash_str(s, h); }
  return h;
}
}
