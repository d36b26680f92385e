/* Mapping plugins that forward to the simulator (w_mapping.cc); FILENO tells which plugin file it is. */
#include "dlite.h"
#include "utils/dsl.h"
#include "dlite-mapping-plugins.h"
extern DLiteMappingPlugin *sim_mapping_api(int file, int *iter, Mapper mapper);
extern DLiteInstance *sim_mapper(int file, const DLiteMappingPlugin *api, const DLiteInstance **instances, int n);
static DLiteInstance *mapper(const DLiteMappingPlugin *api, const DLiteInstance **instances, int n) {
  return sim_mapper(FILENO, api, instances, n);
}
DSL_EXPORT const DLiteMappingPlugin *get_dlite_mapping_api(void *globals, int *iter) {
  dlite_globals_set(globals);
  return sim_mapping_api(FILENO, iter, mapper);
}
