// Executable reference model of metadata and data instances.  Everything is a
// pure function of (run seed, index, version), so that a later incarnation of a
// crashed process can recompute what an earlier one did.
#pragma once
#include "dl.h"

namespace dsim {

struct MProp {
  std::string name; DLiteType type; size_t size;
  std::vector<std::string> shape;      // dimension expressions
  std::vector<std::pair<int,int>> sh;  // (dimension index, offset) evaluated by the model
  std::string unit, descr;
};
struct MMeta {
  std::string uri, descr;
  std::vector<std::string> dims;
  std::vector<MProp> props;
};
struct MVal {                          // a property value: raw bytes or strings
  std::vector<u8> raw;
  std::vector<std::string> str;
};
struct MInst {
  int meta = 0;
  std::string id;                      // as passed to create: uuid or uri
  std::vector<size_t> dims;
  std::vector<MVal> vals;
};

struct Caps {                          // what a storage driver claims to hold
  bool blob = true, scalar_empty_str = true, zero_dims = true, special_chars = true, ndims2 = true;
  bool exact_float = true;             // driver keeps all bits of a float
  int big = 40;                        // largest dimension
};

std::string gen_uuid(Rng &r);
MMeta gen_meta(u64 seed, int idx);
MInst gen_inst(u64 seed, const std::vector<MMeta> &metas, int idx, int version, const Caps &c);
size_t nmemb(const MProp &p, const std::vector<size_t> &dims);
void gen_value(Rng &r, const MProp &p, const std::vector<size_t> &dims, MVal &v, const Caps &c);

DLiteMeta *make_meta(const MMeta &m);                      // NULL on failure
DLiteInstance *make_inst(const MInst &m, const std::vector<MMeta> &metas, std::string *err = nullptr);
int set_value(DLiteInstance *inst, const MProp &p, const std::vector<size_t> &dims, const MVal &v);
int apply_inst(DLiteInstance *inst, const MInst &m, const MMeta &mm);   // dims + values

// empty string if equal, otherwise a description of the first difference
std::string diff_value(DLiteInstance *inst, int i, const MProp &p, const std::vector<size_t> &dims, const MVal &v);
std::string diff_inst(DLiteInstance *inst, const MInst &m, const std::vector<MMeta> &metas, bool uri_kept = true);
std::string diff_meta(const DLiteMeta *meta, const MMeta &m);
u64 hash_inst(const MInst &m);
std::string uuid_of(const std::string &id);
std::string last_err();
}
