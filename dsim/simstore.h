// A simulated storage driver ("sim"): a durable map of records kept by the simulator, with
// transaction support, whose operations the fault plan can fail or crash in.
#pragma once
#include "model.h"

namespace dsim {
typedef std::vector<std::string> PVal;          // strings, raw bytes (one item) or 5 items per relation
struct VData {
  std::vector<size_t> dims; std::vector<PVal> v;
  bool operator==(const VData &o) const { return dims == o.dims && v == o.v; }
  bool operator!=(const VData &o) const { return !(*this == o); }
};
VData capture(const DLiteInstance *inst);       // the values an instance holds
VData to_vdata(const MInst &m, const MMeta &mm);
u64 hash_vdata(const VData &d);
int put_vdata(DLiteInstance *inst, const VData &d);  // sets all properties through the API

struct SimRec { std::string meta, uuid, uri; VData d; bool frozen = false; std::string puuid, phash; };
struct SimStore {
  std::string location;
  std::map<std::string, SimRec> recs;
  int opens = 0, closes = 0, flags = 0;
  std::vector<std::string> order;               // uuids in insertion order
  void persist();
};
SimStore &sim_store(const std::string &location);
void sim_forget(const std::string &location);
extern std::function<void(SimStore &, const SimRec &)> sim_on_save;
void sim_arm(const Fault &f);                   // F_PLUGIN_FAIL / F_CRASH at the nth driver call
bool sim_disarm();
void sim_plugin_setup();                        // makes the driver known to DLite
}
