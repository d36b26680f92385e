/* The built-in triplestore of the code under test, compiled next to the Redland
   one under other names, and access to both through one table. */
#define triplestore_create bts_create
#define triplestore_create_with_storage bts_create_with_storage
#define triplestore_free bts_free
#define triplestore_length bts_length
#define triplestore_add bts_add
#define triplestore_add_en bts_add_en
#define triplestore_add_uri bts_add_uri
#define triplestore_add_triples bts_add_triples
#define triplestore_remove bts_remove
#define triplestore_remove_by_id bts_remove_by_id
#define triplestore_clear bts_clear
#define triplestore_get bts_get
#define triplestore_find_first bts_find_first
#define triplestore_init_state bts_init_state
#define triplestore_deinit_state bts_deinit_state
#define triplestore_reset_state bts_reset_state
#define triplestore_next bts_next
#define triplestore_poll bts_poll
#define triplestore_find bts_find
#define triplestore_value bts_value
#define triplestore_set_namespace bts_set_namespace
#define triplestore_get_namespace bts_get_namespace
#include "triplestore.c"
#include "ts_api.h"
const struct TsApi ts_builtin = {
  (void *(*)(void))triplestore_create, (void (*)(void *))triplestore_free, (size_t (*)(void *))triplestore_length,
  (int (*)(void *, const char *, const char *, const char *, const char *))triplestore_add,
  (int (*)(void *, const char *, const char *, const char *))triplestore_add_en,
  (int (*)(void *, const char *, const char *, const char *))triplestore_add_uri,
  (int (*)(void *, const Triple *, size_t))triplestore_add_triples,
  (int (*)(void *, const char *, const char *, const char *, const char *))triplestore_remove,
  (void (*)(void *))triplestore_clear,
  (const Triple *(*)(const void *, const char *, const char *, const char *, const char *))triplestore_find_first,
  (void (*)(void *, TripleState *))triplestore_init_state, triplestore_deinit_state, triplestore_reset_state,
  triplestore_next, triplestore_poll, triplestore_find,
  (const char *(*)(void *, const char *, const char *, const char *, const char *, const char *, int))triplestore_value,
  (int (*)(void *, const char *))triplestore_remove_by_id,
  (const Triple *(*)(const void *, const char *))triplestore_get,
};
