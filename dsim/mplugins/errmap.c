/* A mapping plugin that is loaded and unloaded while errors are pending (w_errors.cc). */
#include "dlite.h"
#include "utils/dsl.h"
#include "dlite-mapping-plugins.h"
static DLiteInstance *mapper(const DLiteMappingPlugin *api, const DLiteInstance **instances, int n) { return NULL; }
static const char *inputs[] = {"http://onto-ns.com/meta/0.1/NoSuchInput"};
static DLiteMappingPlugin api = {"errmap", NULL, "http://onto-ns.com/meta/0.1/NoSuchOutput", 1, inputs, mapper, 1000};
DSL_EXPORT const DLiteMappingPlugin *get_dlite_mapping_api(void *globals, int *iter) {
  dlite_globals_set(globals);
  return &api;
}
