/* The storage driver "sim": a plugin that forwards to the simulator (simstore.cc). */
#include "dlite.h"
#include "utils/dsl.h"
#include "dlite-storage-plugins.h"
extern const DLiteStoragePlugin *sim_storage_api(void);
DSL_EXPORT const DLiteStoragePlugin *get_dlite_storage_plugin_api(void *globals, int *iter) {
  (void)iter;
  dlite_globals_set(globals);
  return sim_storage_api();
}
